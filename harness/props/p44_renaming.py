"""Names, order of requests and unrelated parts carry no meaning"""
import numpy as np
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen
import reprog
import simref

PROPERTY = 'P44'
RULE = ('facet renaming: programs over generated networks, hierarchies and calibrations (as for P43) and the same programs with every variable renamed, under one seed: the '
        'same numbers under the new names; facet unrelated: networks with further variables which have nothing to do with them, written anywhere in the script: roles, '
        'requirements, densities, minimal samples, interventions, allocations and free parameters of the others; facet requests: hierarchies requested in another order; '
        'non-trivial: a random variable below another')

# names which are parts of one another, names of arguments and attributes, of modules, of Python
POOL = ['A', 'A1', 'A10', 'A1_0', 'AA', 'Args', 'B', 'Def', 'Name', 'Parents', 'Type', 'X', 'a', 'a_', 'aa', 'b', 'bn', 'd', 'data', 'e', 'err', 'eval1', 'f', 'fn', 'given', 'i', 'id',
        'item', 'key', 'l', 'len', 'list', 'loc', 'loci', 'm', 'mean', 'n', 'name', 'np', 'pas', 'pi', 'prob', 'q', 'r', 're', 's', 'self', 'size', 'std', 'sum', 't', 'v', 'val', 'value',
        'x', 'x1', 'x10', 'x1x', 'xs', 'y', 'z', 'z_z']


CASED = ['a', 'b', 'x', 'y1', 'aa', 'beta', 'name', 'q', 'args', 'mean', 'zz', 'data', 'r', 'parents', 'k_k', 'w', 'v10']
# names unrelated to those of a network, some of them but for their case
OTHERS = ['q', 'r1', 's', 'zz', 'ab', 'a1', 'A', 'B', 'C', 'D', 'E1', 'G', 'U', 'V', 'W1']


def rename_expr(e, f):
    if e[0] == 'var':
        return ['var', f[e[1]]]
    return [rename_expr(x, f) if isinstance(x, list) and x and isinstance(x[0], str) else [rename_expr(y, f) for y in x] if isinstance(x, list) else x for x in e]


def rename_node(m, f):
    m = dict(m, n=f[m['n']])
    if 'e' in m:
        m['e'] = rename_expr(m['e'], f)
    if 'a' in m:
        m['a'] = [rename_expr(a, f) for a in m['a']]
    if 'pa' in m:
        m['pa'] = [f[p] for p in m['pa']]
    return m


def rename_tree(t, f):
    return [t[0], [f[x] for x in t[1]], [f[x] for x in t[2]], [rename_tree(x, f) for x in t[3]]]


def rename_case(c, f):
    c = dict(c, net=dict(c['net'], nodes=[rename_node(m, f) for m in c['net']['nodes']]))
    c['exo'] = {f[k]: v for k, v in c['exo'].items()}
    for k in ('targets', 'imps'):
        if k in c:
            c[k] = [f[x] for x in c[k]]
    if 'tree' in c:
        c['tree'] = rename_tree(c['tree'], f)
    if 'sims' in c:
        c['sims'] = {k: rename_expr(e, f) for k, e in c['sims'].items()}
    if c.get('fail'):
        c['fail'] = [f[c['fail'][0]]] + c['fail'][1:]
    return c


def back(x, f):
    """The result with the first names"""
    def word(s):
        pre, _, w = s.rpartition(' ')
        return (pre + ' ' if pre else '') + f[w] if w in f else s
    if isinstance(x, dict):
        return {word(k): back(v, f) for k, v in x.items()}
    if isinstance(x, list):
        return [back(v, f) for v in x]
    return word(x) if isinstance(x, str) else x


@st.composite
def renamings(draw):
    from props import p43_reproducible as p43
    c = draw(p43.cases(('network', 'network', 'hierarchy', 'hierarchy', 'abc', 'smc', 'bhm')))
    n = len(bnref.defs_of(c['net']))
    if draw(st.integers(0, 2)) == 0:   # names which differ in their case only
        bases = draw(st.lists(st.sampled_from(CASED), min_size=(n + 1) // 2, max_size=(n + 1) // 2, unique=True))
        new = [x for b in bases for x in (b, draw(st.sampled_from([b.upper(), b.title()])))][:n]
    else:
        new = draw(st.lists(st.sampled_from(POOL), min_size=n, max_size=n, unique=True))
    return dict(c, new=new)


def run_renaming(c):
    defs = bnref.defs_of(c['net'])
    old = sorted(defs)
    f = dict(zip(old, sorted(c['new'])))   # in the same alphabetical order, where it decides between equals
    a = reprog.answer(c)
    if 'refused' in a:
        raise Discard()
    b = reprog.answer(rename_case(c, f))
    check('raised' not in a, 'the program failed: {}', a)
    from props.p43_reproducible import first_diff
    d = first_diff(a, back(b, {v: k for k, v in f.items()}))
    check(d is None, 'renamed by {}: {}', f, d)
    return {'nontrivial': any(m['k'] == 'rv' and gen.parents_of(m) for m in defs.values()), 'labels': [c['what']]}


@st.composite
def unrelated_cases(draw):
    base = draw(gen.nets(2, 6, names=gen.PLAIN, kinds=('val', 'exo', 'fn', 'rv', 'rv')))
    more = draw(gen.nets(1, 4, names=OTHERS, kinds=('val', 'exo', 'fn', 'rv', 'rv')))
    names = [m['n'] for m in base['nodes']]
    n = len(names) + len(more['nodes'])
    return {'net': base, 'more': more, 'order': list(draw(st.permutations(range(n)))), 'targets': draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)),
            'given': draw(st.lists(st.sampled_from(names), max_size=2, unique=True)), 'given2': draw(st.booleans()), 'imp': draw(st.sampled_from(names)), 'fresh': draw(st.booleans()),
            'fix': draw(st.lists(st.sampled_from(names), max_size=3, unique=True)), 'float': draw(st.lists(st.sampled_from(names), max_size=2, unique=True)),
            'fix2': draw(st.lists(st.sampled_from(names), max_size=2, unique=True)), 'seed': draw(st.integers(0, 10 ** 6))}


def groups_of(sc, names):
    out = {}
    for k, g in sc.SGs.items():
        out[k] = {'fixed': sorted(set(g.Fixed) & names), 'floating': sorted(set(g.Floating) & names), 'own': sorted(set(g.LocalActors) & names),
                  'shared': sorted(set(g.SharedActors) & names), 'children': sorted(g.Children)}
    return out


def run_unrelated(c):
    from sims_pars import bayes_net_from_script, sample, sample_minimally, evaluate_nodes, as_simulation_core, NodeSet, find_free_parameters, get_all_fixed_sc
    from sims_pars.bayesnet import Chromosome, minimal_requirements
    base, more = c['net'], c['more']
    both = dict(base, nodes=base['nodes'] + more['nodes'])
    small = [i for i in c['order'] if i < len(base['nodes'])]
    b1, b2 = bayes_net_from_script(gen.script(base, small)), bayes_net_from_script(gen.script(both, c['order']))
    d1, d2 = bnref.defs_of(base), bnref.defs_of(more)
    own = set(d1)
    ex1, ex2 = {n: 2 + i for i, n in enumerate(sorted(d1)) if d1[n]['k'] == 'exo'}, {n: 3 for n in d2 if d2[n]['k'] == 'exo'}
    check([n for n in b2.Order if n in own] == b1.Order, 'order {} became {}', b1.Order, b2.Order)
    for what in ('Roots', 'Leaves', 'Exo'):
        x, y = b1.to_json()[what], b2.to_json()[what]
        check(sorted(x) == sorted(n for n in y if n in own), '{}: {} became {}', what, x, y)
    check(sorted(b1.RVRoots) == sorted(n for n in b2.RVRoots if n in own), 'random roots {} became {}', b1.RVRoots, b2.RVRoots)
    for n in own:
        check(sorted(b1.DAG.ancestors(n)) == sorted(b2.DAG.ancestors(n)) and sorted(b1.DAG.descendants(n)) == sorted(b2.DAG.descendants(n)), 'relatives of {}', n)
        given2 = c['given'] + (sorted(d2) if c['given2'] else [])
        check(b1.has_randomness(n, c['given']) == b2.has_randomness(n, given2), 'randomness of {} given {}', n, given2)
    try:
        r1 = minimal_requirements(b1.DAG, c['targets'][0], c['given'])
    except KeyError:
        r1 = None
    if r1 is not None:
        check(list(r1) == list(minimal_requirements(b2.DAG, c['targets'][0], c['given'])), 'needed for {}: {}', c['targets'][0], r1)
    np.random.seed(c['seed'])
    x1 = sample_minimally(b1, c['targets'], dict(ex1))
    np.random.seed(c['seed'])
    x2 = sample_minimally(b2, c['targets'], dict(ex1))   # what the rest needs may be missing
    check(x1 == x2, 'sampling {}: {} became {}', c['targets'], x1, x2)
    v1 = sample(b1, dict(ex1))
    np.random.seed(c['seed'])
    v2 = sample(b2, dict(ex1, **ex2))
    rest = {k: v for k, v in v2.items() if k not in own}
    l1, l2, l3 = evaluate_nodes(b1, v1), evaluate_nodes(b2, v1), evaluate_nodes(b2, dict(rest, **v1))
    check(gen.close(l1, l2, 1e-9, 1e-9), 'density {} became {}', l1, l2)
    lr = sum(gen.node_logpdf(d2[k], rest, v) for k, v in rest.items() if d2.get(k, {}).get('k') == 'rv')
    check(gen.close(l3, l1 + lr, 1e-6, 1e-6), 'density {} with {} of the rest became {}', l1, lr, l3)
    c1, c2 = Chromosome(dict(v1)), Chromosome(dict(rest, **v1))
    imp = {c['imp']: None if c['fresh'] else v1[c['imp']]}
    if d1[c['imp']]['k'] != 'exo' or not c['fresh']:
        for ch, b in ((c1, b1), (c2, b2)):
            np.random.seed(c['seed'] + 1)
            ch.impulse(dict(imp), b)
        check(all(c2[k] == c1[k] for k in v1), 'intervention on {}: {} became {}', imp, dict(c1), dict(c2))
        check(all(c2[k] == v for k, v in rest.items()), 'intervention on {} changed unrelated variables: {} became {}', imp, rest, dict(c2))
    g = bnref.graph(d1)
    fix = [x for x in c['fix'] if d1[x]['k'] != 'exo']
    flo = [x for x in c['float'] if d1[x]['k'] != 'exo' and x not in fix]
    sub = [x for x in c['fix2'] if d1[x]['k'] != 'exo' and x not in fix]
    flo = [x for x in flo if not any(x in g.anc(y) for y in fix + sub) and x not in sub]
    if fix and (flo or sub):
        scs = []
        for b in (b1, b2):
            ns = NodeSet('R', as_fixed=fix)
            ns.new_child('C', as_fixed=sub or None, as_floating=flo or None)
            scs.append(groups_of(as_simulation_core(b, ns), own))
        check(scs[0] == scs[1], 'groups of {} / {} / {}: {} became {}', fix, sub, flo, *scs)
    f1, f2 = find_free_parameters(get_all_fixed_sc(b1.to_script()), dict(ex1)), find_free_parameters(get_all_fixed_sc(b2.to_script()), dict(ex1, **ex2))
    check(sorted(f1) == sorted(x for x in f2 if x in own), 'free parameters {} became {}', f1, f2)
    return {'nontrivial': any(m['k'] == 'rv' and gen.parents_of(m) for m in d1.values())}


@st.composite
def requests(draw):
    c = draw(simref.sims(max_nodes=8))
    return dict(c, shuffle=draw(st.integers(0, 10 ** 6)))


def run_requests(c):
    import random
    rng = random.Random(c['shuffle'])
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    if simref.refused(c['tree'], g):
        raise Discard()

    def shuffled(t):
        t = [t[0], list(t[1]), list(t[2]), [shuffled(x) for x in t[3]]]
        for x in t[1:]:
            rng.shuffle(x)
        return t
    _, s1 = simref.build(c)
    c2 = dict(c, tree=shuffled(c['tree']))
    _, s2 = simref.build(c2)
    check(s1 is not None and s2 is not None, 'requests refused: {} {}', s1, s2)
    a, b = groups_of(s1, set(defs)), groups_of(s2, set(defs))
    check(a == b, 'requested in another order: {} became {}', a, b)
    np.random.seed(c['seed'])
    x = dict(s1.generate('r', dict(c['exo'])).Locus)
    np.random.seed(c['seed'])
    y = dict(s2.generate('r', dict(c['exo'])).Locus)
    check(x == y, 'requested in another order, the same draws: {} became {}', x, y)
    return {'nontrivial': bool(c['tree'][3])}


FACETS = [Facet('renaming', renamings(), run_renaming, 360, 12000, chunk=20), Facet('unrelated', unrelated_cases(), run_unrelated, 1000, 30000), Facet('requests', requests(), run_requests, 800, 20000)]
