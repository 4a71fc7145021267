"""Graph queries"""
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P08'
RULE = 'generated directed graphs (1-9 nodes, at times up to 22, shuffled listings, some cyclic) and node subsets; every query compared with a naive search; non-trivial: at least two edges'


@st.composite
def cases(draw):
    g = draw(gen.dags(1, 9, large=True))
    sub = draw(st.lists(st.sampled_from(g['nodes']), max_size=5))
    g['sub'] = sub
    g['kind'] = draw(st.sampled_from(['list', 'set', 'tuple', 'keys']))
    g['back'] = draw(st.lists(st.tuples(st.sampled_from(g['nodes']), st.sampled_from(g['nodes'])).map(list), max_size=1))
    return g


def as_kind(xs, kind):
    return {'list': list, 'set': set, 'tuple': tuple, 'keys': lambda x: dict.fromkeys(x).keys()}[kind](xs)


def run(c):
    from sims_pars.bayesnet.dag import DAG, get_offsprings, minimal_dag
    ref = gen.RefDag(c['nodes'], c['edges'])
    g = DAG()
    for n in c['nodes']:
        g.add_node(n, tag=n.upper())
    for a, b in c['edges']:
        g.add_edge(a, b)

    def same():
        check(set(g.nodes) == ref.nodes and set(g.edges) == ref.edges and all(g.nodes[n]['tag'] == n.upper() for n in g.nodes), 'a query changed the graph')

    for n in c['nodes']:
        for name, r in (('parents', ref.parents(n)), ('children', ref.children(n)), ('ancestors', ref.anc(n)), ('descendants', ref.des(n))):
            v = getattr(g, name)(n)
            check(isinstance(v, set) and v == r, '{} of {} in {}: {} instead of {}', name, n, c['edges'], v, r)
    sub = as_kind(c['sub'], c['kind'])
    up = set().union(*[ref.anc(n) for n in c['sub']])
    dn = set().union(*[ref.des(n) for n in c['sub']])
    check(g.upstream(sub) == up, 'upstream of {} in {}: {}', c['sub'], c['edges'], g.upstream(sub))
    check(g.downstream(sub) == dn, 'downstream of {} in {}: {}', c['sub'], c['edges'], g.downstream(sub))
    check(set(get_offsprings(g, sub)) == dn, 'offsprings of {} in {}: {}', c['sub'], c['edges'], get_offsprings(g, sub))
    rt, lv = g.roots(), g.leaves()
    check(len(rt) == len(set(rt)) and set(rt) == {n for n in c['nodes'] if not ref.parents(n)}, 'roots of {}: {}', c['edges'], rt)
    check(len(lv) == len(set(lv)) and set(lv) == {n for n in c['nodes'] if not ref.children(n)}, 'leaves of {}: {}', c['edges'], lv)
    od = g.order()
    check(sorted(od) == sorted(c['nodes']), 'order of {}: {}', c['nodes'], od)
    pos = {n: i for i, n in enumerate(od)}
    check(all(pos[a] < pos[b] for a, b in c['edges']), 'order of {}: {}', c['edges'], od)
    so = g.sort(sub)
    check(so == [n for n in od if n in c['sub']], 'sorted {} of {}: {}', c['sub'], od, so)
    span = set(c['sub']).union(*[ref.paths_nodes(a, b) for a in c['sub'] for b in c['sub']])
    m = minimal_dag(g, sub)
    check(set(m.nodes) == span, 'graph spanned by {} in {}: {} instead of {}', c['sub'], c['edges'], sorted(m.nodes), sorted(span))
    check(set(m.edges) == {(a, b) for a, b in ref.edges if a in span and b in span}, 'edges spanned by {} in {}: {}', c['sub'], c['edges'], sorted(m.edges))
    check(g.check_acyclic() is True, 'acyclic graph {} called cyclic', c['edges'])
    same()
    for a, b in c['back']:
        cyc = a == b or a in ref.des(b)
        h = g.copy()
        h.add_edge(a, b)
        check(bool(h.check_acyclic()) == (not cyc), '{} with {}: acyclic is {}', c['edges'], (a, b), h.check_acyclic())
        check(type(h) is type(g) and a in h.parents(b), 'copy of the graph')
    same()
    return {'nontrivial': len(c['edges']) >= 2, 'labels': ['cyclic' if any(a == b or a in ref.des(b) for a, b in c['back']) else 'acyclic', 'empty subset' if not c['sub'] else 'subset']}


FACETS = [Facet('queries', cases(), run, 6000, 60000)]
