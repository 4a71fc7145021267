"""Requirement analysis"""
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P09'
RULE = 'generated graphs with targets and given nodes, compared with a naive backward walk that stops at the given nodes; non-trivial: a given node lies above a target'


@st.composite
def cases(draw):
    g = draw(gen.dags(3, 9, large=True))
    n = len(g['order'])
    if draw(st.integers(0, 3)):
        g['targets'] = draw(st.lists(st.sampled_from(g['order'][n // 2:]), min_size=1, max_size=3, unique=True))
        g['given'] = draw(st.lists(st.sampled_from(g['order'][:n // 2 + 1]), min_size=1, max_size=4, unique=True))
    else:
        g['targets'] = draw(st.lists(st.sampled_from(g['nodes']), max_size=4, unique=True))
        g['given'] = draw(st.lists(st.sampled_from(g['nodes']), max_size=4, unique=True))
    g['kind'] = draw(st.sampled_from(['list', 'set', 'dict']))
    return g


def run(c):
    from sims_pars.bayesnet.dag import DAG, minimal_dag, minimal_requirements, get_sufficient_nodes, get_minimal_nodes
    ref = gen.RefDag(c['nodes'], c['edges'])
    g = DAG()
    for n in c['nodes']:
        g.add_node(n, tag=n)
    for a, b in c['edges']:
        g.add_edge(a, b)
    conv = {'list': list, 'set': set, 'dict': lambda xs: {x: 1 for x in xs}}[c['kind']]
    tg, gv = c['targets'], c['given']
    gset = set(gv)
    od = g.order()

    for t in c['nodes']:
        r = ref.needed({t}, gset - {t}) - {t}
        v = minimal_requirements(g, t, conv(gv))
        check(len(v) == len(set(v)) and set(v) == r, 'requirements of {} given {} in {}: {} instead of {}', t, gv, c['edges'], v, sorted(r))
        check([n for n in od if n in r] == list(v), 'requirements of {} are not in order: {}', t, v)
    r = ref.needed(set(tg), gset)
    v = get_sufficient_nodes(g, conv(tg), conv(gv))
    check(set(v) == r, 'nodes needed for {} given {} in {}: {} instead of {}', tg, gv, c['edges'], v, sorted(r))
    check(set(get_sufficient_nodes(g, conv(tg))) == ref.needed(set(tg), set()), 'nodes needed for {} in {}', tg, c['edges'])
    v = get_minimal_nodes(g, conv(tg), conv(gv))
    check(set(v) == r - gset, 'nodes needed for {} but {} in {}: {}', tg, gv, c['edges'], v)
    m = minimal_dag(g, conv(tg))
    r2 = set(tg)
    for a in tg:
        for b in tg:
            r2 |= ref.paths_nodes(a, b)
    check(set(m.nodes) == r2, 'minimal graph of {} in {}: {} instead of {}', tg, c['edges'], sorted(m.nodes), sorted(r2))
    check(set(m.edges) == {(a, b) for a, b in ref.edges if a in r2 and b in r2}, 'edges of the minimal graph of {} in {}: {}', tg, c['edges'], sorted(m.edges))
    mo = m.order()
    check(sorted(mo) == sorted(r2), 'order of the minimal graph {}', mo)
    check(set(g.nodes) == ref.nodes and set(g.edges) == ref.edges, 'the analysis changed the graph')
    above = set().union(*[ref.anc(t) for t in tg])
    return {'nontrivial': bool(above & gset), 'labels': ['given above'] * bool(above & gset) + ['between'] * (len(r2) > len(tg)) + ['no target'] * (not tg)}


FACETS = [Facet('requirements', cases(), run, 6000, 60000)]
