"""Sampling only what is needed"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
from props.p18_sample import build

PROPERTY = 'P19'
RULE = ('generated networks with target variables and given values: exactly the needed variables are drawn, consistently, and only the needed exogenous '
        'ones must be given; residuals over repeated draws are uniform; non-trivial: some variable is not needed')


@st.composite
def cases(draw):
    net = draw(gen.nets(2, 9, cat=True))
    defs = bnref.defs_of(net)
    names = [m['n'] for m in net['nodes']]
    exo = {n: draw(st.integers(-5, 6)) for n, m in defs.items() if m['k'] == 'exo'}
    env = bnref.assignment(defs, exo)
    inc = draw(st.lists(st.sampled_from(names), max_size=3, unique=True, min_size=draw(st.sampled_from([0, 1, 1, 1, 1]))))
    cond = {n: env[n] for n in draw(st.lists(st.sampled_from(names), max_size=3, unique=True))}
    return {'np': draw(st.booleans()), 'net': net, 'exo': exo, 'cond': cond, 'inc': inc, 'order': list(draw(st.permutations(range(len(names))))), 'done': draw(st.booleans()),
            'kind': draw(st.sampled_from(['list', 'set', 'tuple', 'iter'])), 'seed': draw(st.integers(0, 10 ** 6)), 'n': 120 if draw(st.integers(0, 3)) == 0 else 2}


def run(c):
    from sims_pars import sample_minimally
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn = build(c)
    cond = dict(c['cond'])
    need = g.needed(set(c['inc']), set(cond))
    for n in need:
        if defs[n]['k'] == 'exo' and n not in cond:
            for sources in (True, False):
                try:
                    r = sample_minimally(bn, c['inc'], dict(cond), sources=sources)
                except ValueError:
                    pass
                else:
                    check(False, 'sampled {} for {} without the exogenous {}', r, c['inc'], n)
            cond[n] = c['exo'][n]
    need = g.needed(set(c['inc']), set(cond))
    inc = {'set': set, 'list': list, 'tuple': tuple, 'iter': iter}[c['kind']]
    us = {}
    for _ in range(c['n']):
        given = gen.npy(cond, c['np'])
        sinks, med = sample_minimally(bn, inc(c['inc']), given)
        check(given == cond, 'sampling changed the given values')
        check(set(sinks) == set(c['inc']), 'asked {} given {}, got {}', c['inc'], cond, sinks)
        check(not set(sinks) & set(med), 'both targets and sources: {} {}', sinks, med)
        v = dict(med, **sinks)
        check(set(v) == need | set(cond), 'values of {} were drawn for {} given {} instead of {}', sorted(v), c['inc'], sorted(cond), sorted(need | set(cond)))
        check(all(v[k] == x for k, x in cond.items()), 'given values {} became {}', cond, v)
        bnref.consistent(defs, v, 'minimal sample', skip=cond)
        for n in need - set(cond):
            u = bnref.pit(defs[n], v, v[n])
            if u is not None:
                us.setdefault(n, []).append(u)
    only = sample_minimally(bn, inc(c['inc']), dict(cond), sources=False)
    check(isinstance(only, dict) and set(only) == set(c['inc']), 'without sources: {}', only)
    if c['n'] > 4:
        bnref.check_residuals(us, 'minimal samples')
        us = {}
        for _ in range(c['n']):
            v = dict(cond, **sample_minimally(bn, inc(c['inc']), dict(cond), sources=False))
            for n in set(c['inc']) - set(cond):
                if bnref.gen.parents_of(defs[n]) <= set(v):
                    u = bnref.pit(defs[n], v, v[n])
                    if u is not None:
                        us.setdefault(n, []).append(u)
        bnref.check_residuals(us, 'minimal samples without sources')
    if not cond:
        check(set(sample_minimally(bn, inc(c['inc']), sources=False)) == set(c['inc']), 'without given values')
    return {'nontrivial': len(need | set(cond)) < len(defs) and bool(c['inc']), 'labels': ['given'] * bool(c['cond']) + ['exogenous'] * bool(c['exo']) + ['many' if c['n'] > 4 else 'few']}


FACETS = [Facet('minimal', cases(), run, 1600, 25000)]
