"""Roles of the variables of a network"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P17'
RULE = 'generated networks with given variables; kinds, randomness given some variables, random roots and order compared with a naive search; non-trivial: a random ancestor is screened off by a given variable'


@st.composite
def cases(draw):
    net = draw(gen.nets(3, 9, pseudo=True, names=gen.NAMES, kinds=('rv', 'fn', 'fn', 'val', 'exo')))
    names = [m['n'] for m in net['nodes']]
    return {'net': net, 'given': draw(st.lists(st.sampled_from(names), min_size=draw(st.sampled_from([0, 1, 2])), max_size=4, unique=True)), 'done': draw(st.booleans()),
            'sub': draw(st.lists(st.sampled_from(names), max_size=5, unique=True)), 'kind': draw(st.sampled_from(['list', 'set']))}


def run(c):
    from sims_pars.bayesnet import BayesianNetwork
    net = c['net']
    defs = bnref.defs_of(net)
    g = bnref.graph(defs)
    bn = BayesianNetwork('R')
    for m in net['nodes']:
        bn.append_from_definition(gen.node_text(m))
    if c['done']:
        bn.complete()
    rv = {n for n, m in defs.items() if m['k'] == 'rv'}
    gv = set(c['given'])
    screened = False
    for n, m in defs.items():
        check(bool(bn.is_rv(n)) == (n in rv), '{} random: {}', n, bn.is_rv(n))
        check(bool(bn.is_exogenous(n)) == (m['k'] in ('exo', 'pseudo')), '{} exogenous: {}', n, bn.is_exogenous(n))
        check(bool(bn.needs_calculation(n)) == (m['k'] in ('rv', 'fn')), '{} to be calculated: {}', n, bn.needs_calculation(n))
        if m['k'] == 'val':
            check(bn.is_deterministic(n) and bn.is_deterministic(n, c['given']), 'constant {} is not deterministic', n)
        r = n in rv or bool(g.anc(n) & rv)
        check(bool(bn.has_randomness(n)) == r, '{} has randomness: {}', n, bn.has_randomness(n))
        need = g.needed({n}, gv - {n}) - {n} - gv
        r2 = n in rv or bool(need & rv)
        arg = set(c['given']) if c['kind'] == 'set' else list(c['given'])
        check(bool(bn.has_randomness(n, arg)) == r2, '{} has randomness given {}: {} instead of {}', n, c['given'], bn.has_randomness(n, arg), r2)
        screened = screened or r != r2
    check(sorted(bn.RVRoots) == sorted(bnref.rv_roots(defs, g)), 'random roots {}', bn.RVRoots)
    check(sorted(bn.Exo) == sorted(n for n, m in defs.items() if m['k'] == 'exo'), 'exogenous variables {}', bn.Exo)
    check(sorted(bn.Roots) == sorted(n for n in defs if not g.parents(n)) and sorted(bn.Leaves) == sorted(n for n in defs if not g.children(n)), 'roots {} and leaves {}', bn.Roots, bn.Leaves)
    od = list(bn.Order)
    check(bn.sort(c['sub']) == [n for n in od if n in c['sub']] and bn.sort(set(c['sub'])) == [n for n in od if n in c['sub']], 'sorted {}', bn.sort(c['sub']))
    check('vp_none' not in bn and all(n in bn for n in defs), 'membership')
    check(bn.Order == od, 'the order changed')
    return {'nontrivial': screened, 'labels': ['screened'] * screened}


FACETS = [Facet('roles', cases(), run, 6000, 80000)]
