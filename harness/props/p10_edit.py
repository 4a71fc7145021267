"""Graph edits"""
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P10'
RULE = 'histories of up to 14 edits (add, remove in/out edges, remove upstream/downstream, merge) replayed on a naive graph and compared after each step; non-trivial: an edit removed something'

POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['edge', 'edge', 'edge', 'edge', 'node', 'in', 'out', 'up', 'down', 'merge', 'copy']))
        if k == 'edge':
            ops.append([k, draw(st.sampled_from(POOL)), draw(st.sampled_from(POOL))])
        elif k in ('node', 'in', 'out'):
            ops.append([k, draw(st.sampled_from(POOL)), draw(st.integers(0, 3))])
        elif k in ('up', 'down'):
            ops.append([k, draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=3, unique=True)), draw(st.booleans())])
        elif k == 'merge':
            ops.append([k, draw(gen.dags(1, 4, names=POOL[:5])), draw(st.booleans())])
        else:
            ops.append([k])
    return {'start': draw(gen.dags(1, 8, names=POOL)), 'ops': ops}


def run(c):
    from sims_pars.bayesnet.dag import DAG, merge_dag
    ref = gen.RefDag(c['start']['nodes'], c['start']['edges'])
    tags = {n: 0 for n in ref.nodes}
    g = DAG()
    for n in c['start']['nodes']:
        g.add_node(n, tag=0)
    g.add_edges_from(map(tuple, c['start']['edges']))
    removed = False
    labels = set()
    for op in c['ops']:
        k = op[0]
        before = (len(ref.nodes), len(ref.edges))
        old = None
        if k == 'edge':
            a, b = op[1:]
            if a == b or a in ref.des(b):
                continue
            g.add_edge(a, b)
            ref.nodes |= {a, b}
            ref.edges.add((a, b))
        elif k == 'node':
            g.add_node(op[1], tag=op[2])
            ref.nodes.add(op[1])
            tags[op[1]] = op[2]
        elif k in ('in', 'out'):
            if op[1] not in ref.nodes:
                continue
            if k == 'in':
                g.remove_in_edges(op[1])
                ref.edges = {(a, b) for a, b in ref.edges if b != op[1]}
            else:
                g.remove_out_edges(op[1])
                ref.edges = {(a, b) for a, b in ref.edges if a != op[1]}
        elif k in ('up', 'down'):
            ns = [n for n in op[1] if n in ref.nodes]
            if not ns:
                continue
            gone = set().union(*[(ref.anc if k == 'up' else ref.des)(n) for n in ns]) - set(ns)
            arg = ns[0] if len(ns) == 1 and op[2] else ns
            (g.remove_upstream if k == 'up' else g.remove_downstream)(arg)
            ref.drop(gone)
            for n in gone:
                tags.pop(n, None)
        elif k == 'merge':
            d = op[1]
            h = DAG()
            for n in d['nodes']:
                h.add_node(n, tag=9)
            h.add_edges_from(map(tuple, d['edges']))
            edges = ref.edges | set(map(tuple, d['edges']))
            mref = gen.RefDag(ref.nodes | set(d['nodes']), edges)
            old = (g, set(g.nodes), set(g.edges))
            g = merge_dag(g, h)
            check(set(old[0].nodes) == old[1] and set(old[0].edges) == old[2], 'merging changed its first graph')
            check(set(h.nodes) == set(d['nodes']) and set(h.edges) == set(map(tuple, d['edges'])), 'merging changed its second graph')
            cyc = any(n in mref.des(n) for n in mref.nodes)
            check(g.check_acyclic() == (not cyc), 'merged graph: acyclic is {}', g.check_acyclic())
            check(set(g.nodes) == mref.nodes and set(g.edges) == mref.edges, 'merged {} with {}: {}', sorted(ref.edges), d['edges'], sorted(g.edges))
            check(all(g.nodes[n].get('tag') == 9 for n in d['nodes']), 'merged graph: attributes')
            if cyc:
                g = old[0]
                continue
            ref = mref
            tags.update({n: 9 for n in d['nodes']})
        else:
            h = g.copy()
            for n in list(h.nodes)[:2]:
                h.remove_node(n)
            check(set(g.nodes) == ref.nodes, 'an edit of the copy went to the original')
        if len(ref.nodes) + len(ref.edges) < sum(before):
            removed = True
            labels.add(k)
        check(set(g.nodes) == ref.nodes, 'after {}: nodes {} instead of {}', op[:3], sorted(g.nodes), sorted(ref.nodes))
        check(set(g.edges) == ref.edges, 'after {}: edges {} instead of {}', op[:3], sorted(g.edges), sorted(ref.edges))
        for n, t in tags.items():
            check(g.nodes[n].get('tag') == t, 'after {}: attribute of {}', op[:3], n)
    od = g.order()
    pos = {n: i for i, n in enumerate(od)}
    check(sorted(od) == sorted(ref.nodes) and all(pos[a] < pos[b] for a, b in ref.edges), 'final order {}', od)
    return {'nontrivial': removed, 'labels': sorted(labels)}


FACETS = [Facet('history', cases(), run, 5000, 50000)]
