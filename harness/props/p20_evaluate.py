"""Log density of values"""
import math
import random
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
from props.p18_sample import build

PROPERTY = 'P20'
RULE = ('generated networks evaluated at sampled, perturbed, partial and impossible values (with unrelated names too) against the sum of reference log '
        'densities; chromosomes carry the same number; non-trivial: two or more random variables')


@st.composite
def cases(draw):
    net = draw(gen.nets(1, 8, cat=True))
    defs = bnref.defs_of(net)
    exo = {n: draw(st.integers(-5, 6)) for n, m in defs.items() if m['k'] == 'exo'}
    names = [m['n'] for m in net['nodes']]
    return {'net': net, 'exo': exo, 'order': list(draw(st.permutations(range(len(names))))), 'done': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)),
            'shift': draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from([0.01, 1, -1, 0.3, -3])).map(list), max_size=3)),
            'drop': draw(st.lists(st.sampled_from(names), max_size=3)), 'extra': draw(st.booleans()), 'mix': draw(st.integers(0, 10 ** 6))}


def ref_lp(defs, v):
    tot = 0
    for n, x in v.items():
        if n in defs and defs[n]['k'] == 'rv':
            tot += gen.node_logpdf(defs[n], v, x)
    return tot


def run(c):
    from sims_pars import evaluate_nodes, sample, sample_chromosome
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn = build(c)
    v = sample(bn, dict(c['exo']))
    labels = set()

    def compare(v, what):
        for n, m in defs.items():
            if m['k'] == 'rv' and n in v and m['d'] not in ('cat', 'k') and not gen.LAW[m['d']].discrete:
                a = [gen.ev(x, v) for x in m['a']]
                lo, hi = gen.LAW[m['d']].support(*a)
                if min(abs(v[n] - lo), abs(v[n] - hi)) < 1e-9 * (1 + abs(v[n])):
                    return
        r = ref_lp(defs, v)
        keep = dict(v)
        lp = evaluate_nodes(bn, v)
        check(gen.close(lp, r, 1e-7, 1e-6), '{}: log density {} instead of {} at {}', what, lp, r, v)
        check(v == keep, '{}: evaluation changed the values', what)
        if r == -gen.INF:
            labels.add('impossible')

    compare(v, 'sampled values')
    compare(gen.npy(v), 'sampled values of numpy types')
    if c['extra']:
        mixed = list(dict(v, vp_unknown=3, other='text', zz_more=None).items())
        random.Random(c.get('mix', 0)).shuffle(mixed)
        compare(dict(mixed), 'with unrelated names')
        v = gen.npy(v)
    w = dict(v)
    for n, d in c['shift']:
        m = defs[n]
        if m.get('d') == 'cat':
            w[n] = 'unheard' if d < 0 else sorted(m['kv'])[0]
        elif m['k'] != 'exo':
            w[n] = w[n] + d
        try:
            compare(w, 'moved values')
        except (ValueError, OverflowError):
            pass
    part = dict(v)
    for n in c['drop']:
        # with a variable goes everything below it
        for k in {n} | g.des(n):
            part.pop(k, None)
    compare(part, 'part of the values')
    check(evaluate_nodes(bn, {}) == 0, 'log density of nothing')
    ch = sample_chromosome(bn, dict(c['exo']))
    vals = dict(iter(ch))
    check(set(vals) == set(defs) | set(c['exo']), 'chromosome of {}', sorted(vals))
    bnref.consistent(defs, vals, 'chromosome')
    check(ch.is_evaluated() and gen.close(ch.LogProb, evaluate_nodes(bn, vals), 1e-9), 'chromosome has log density {} instead of {}', ch.LogProb, evaluate_nodes(bn, vals))
    check(math.isfinite(ch.LogProb) or any(defs[n].get('d') in ('beta', 'gamma', 'chisq') for n in defs), 'chromosome sampled with log density {}', ch.LogProb)
    return {'nontrivial': sum(m['k'] == 'rv' for m in defs.values()) >= 2, 'labels': sorted(labels) + ['partial'] * (len(part) < len(v))}


FACETS = [Facet('evaluate', cases(), run, 2400, 40000)]
