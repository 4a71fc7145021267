"""Sampling all the variables of a network"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P18'
RULE = ('generated networks with exogenous and conditioned values, sampled repeatedly: every variable has one value consistent with its definition and '
        'the other values; residuals of 120 samples given the parents are uniform and unrelated; non-trivial: a random variable with a parent')


@st.composite
def cases(draw):
    net = draw(gen.nets(1, 8, cat=True))
    defs = bnref.defs_of(net)
    exo = {n: draw(st.integers(-5, 6)) for n, m in defs.items() if m['k'] == 'exo'}
    env = bnref.assignment(defs, exo)
    cond = {}
    for n, m in defs.items():
        if m['k'] in ('rv', 'fn', 'val') and draw(st.integers(0, 5)) == 0:
            cond[n] = env[n] if m.get('d') == 'cat' else draw(st.sampled_from([env[n], env[n] + 1, 2]))
    if draw(st.integers(0, 9)) == 0:
        cond['vp_unknown'] = 3
    return {'np': draw(st.booleans()), 'net': net, 'exo': exo, 'cond': cond, 'order': list(draw(st.permutations(range(len(net['nodes']))))), 'seed': draw(st.integers(0, 10 ** 6)), 'done': draw(st.booleans()),
            'n': 120 if draw(st.integers(0, 3)) == 0 else 4}


def build(c):
    from sims_pars.bayesnet import BayesianNetwork
    bn = BayesianNetwork('S')
    for i in c['order']:
        bn.append_from_definition(gen.node_text(c['net']['nodes'][i]))
    if c['done']:
        bn.complete()
    return bn


def run(c):
    from sims_pars import sample
    defs = bnref.defs_of(c['net'])
    bn = build(c)
    cond = dict(c['exo'], **c['cond'])
    us = {}
    free = [n for n, m in defs.items() if m['k'] == 'rv' and n not in cond]
    seen = {}
    for _ in range(c['n']):
        given = gen.npy(cond, c['np'])
        v = sample(bn, given) if cond or c['n'] > 4 else sample(bn)
        check(given == cond, 'sampling changed the given values')
        check(set(v) == set(defs) | set(cond), 'sampled {} instead of {}', sorted(v), sorted(defs))
        check(all(v[k] == x for k, x in cond.items()), 'given values {} became {}', cond, {k: v[k] for k in cond})
        bnref.consistent(defs, {k: x for k, x in v.items() if k in defs}, 'sample', skip=c['cond'])
        for n in free:
            u = bnref.pit(defs[n], v, v[n])
            if u is not None:
                us.setdefault(n, []).append(u)
            seen.setdefault(n, []).append(v[n])
    if c['n'] > 4:
        bnref.check_residuals(us, 'samples')
        for n in free:
            m = defs[n]
            if m.get('d') == 'cat':
                for k in m['kv']:
                    p = gen.binom_p(seen[n].count(k), c['n'], min(1, m['kv'][k] / sum(m['kv'].values())))
                    check(p > 1e-10, 'category {} of {} in {} of {}', k, n, seen[n].count(k), c['n'])
    # exogenous variables must be given
    for n in c['exo']:
        try:
            r = sample(bn, {k: x for k, x in cond.items() if k != n})
        except ValueError:
            pass
        else:
            check(False, 'sampled {} without the exogenous {}', r, n)
    return {'nontrivial': any(gen.parents_of(defs[n]) for n in free), 'labels': ['many' if c['n'] > 4 else 'few'] + ['conditioned'] * bool(c['cond']) + ['exogenous'] * bool(c['exo'])}


FACETS = [Facet('sample', cases(), run, 1400, 12000)]
