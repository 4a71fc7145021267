"""Hierarchies of groups over a network: generator, builder and reference semantics"""
import math
from hypothesis import strategies as st
from core import check
import bnref
import gen

NAMES = ['a', 'b', 'c', 'd', 'e1', 'g', 'h', 'beta', 'xx']


@st.composite
def simnets(draw, min_nodes=2, max_nodes=7, exo=True):
    """Linear networks: roots on a wide scale, the others in narrow bands around their parents"""
    n = draw(st.integers(min_nodes, max_nodes))
    names = draw(st.permutations(NAMES))[:n]
    nodes = []
    line = draw(st.integers(0, 7)) == 0   # one after the other
    for i, nm in enumerate(names):
        pas = ([names[i - 1]] if line else draw(st.lists(st.sampled_from(names[:i]), max_size=3, unique=True))) if i else []
        if pas:
            k = draw(st.sampled_from(['rv', 'fn', 'fn', 'fn'] if line else ['rv', 'rv', 'fn']))
        else:
            k = draw(st.sampled_from(['rv', 'rv', 'rv', 'val'] + ['exo'] * exo))
        m = {'n': nm, 'k': k}
        if k == 'val':
            m['e'] = ['num', draw(st.integers(1, 50)) * 10]
        elif k == 'fn':
            m['e'] = gen.lin(pas, draw)
        elif k == 'rv':
            if pas:
                e = gen.lin(pas, draw)
                m['d'], m['a'] = 'unif', [e, ['bin', '+', e, ['num', 1]]]
            else:
                m['d'], m['a'] = 'unif', [['num', draw(st.sampled_from([0, 50, -200]))], ['num', 1000]]
        nodes.append(m)
    return {'name': 'Sim', 'nodes': nodes}


@st.composite
def trees(draw, names, depth=0, prefix='g', max_children=2, max_depth=2):
    """[name, fixed, floating, children]; a variable is requested at most once on a path"""
    how = {x: draw(st.sampled_from(['', 'fx', 'fl'] if depth else ['', '', 'fx', 'fl'])) for x in names}
    fx = [x for x in names if how[x] == 'fx']
    fl = [x for x in names if how[x] == 'fl']
    rest = [x for x in names if not how[x]]
    n = draw(st.integers(0 if depth and max_depth == 2 else 1, max_children)) if depth < max_depth else 0
    return [prefix, fx, fl, [draw(trees(rest, depth + 1, '{}{}'.format(prefix, i), max_children, max_depth)) for i in range(n)]]


@st.composite
def sims(draw, exo=True, max_nodes=7, max_children=2, max_depth=2):
    net = draw(simnets(2, max_nodes, exo))
    names = [m['n'] for m in net['nodes'] if m['k'] != 'exo']
    if max_depth == 2 and max_children == 2 and draw(st.integers(0, 3)) == 0:
        max_depth, max_children = draw(st.sampled_from([3, 3, 4])), 1
    return {'net': net, 'tree': draw(trees(names, max_children=max_children, max_depth=max_depth)) if names else ['g', [], [], []],
            'exo': {m['n']: draw(st.integers(1, 5)) * 100 for m in net['nodes'] if m['k'] == 'exo'},
            'order': list(draw(st.permutations(range(len(net['nodes']))))), 'seed': draw(st.integers(0, 10 ** 6))}


def groups(t, path=()):
    """(group, path from the root to it)"""
    here = path + (t,)
    yield t, here
    for ch in t[3]:
        yield from groups(ch, here)


def refused(t, g):
    """A floating variable above a fixed one of the same group"""
    for grp, _ in groups(t):
        for d in grp[2]:
            if any(d in g.anc(f) for f in grp[1]):
                return True
    return False


def nodeset(t):
    from sims_pars.simulation.nodeset import NodeSet
    ns = NodeSet(t[0], as_fixed=list(t[1]) or None, as_floating=list(t[2]) or None)
    for ch in t[3]:
        ns.add_child(nodeset(ch))
    return ns


def nodeset2(t, parent=None):
    from sims_pars.simulation.nodeset import NodeSet
    ns = NodeSet(t[0], t[1], t[2]) if parent is None else parent.new_child(t[0], as_fixed=t[1], as_floating=t[2])
    for ch in t[3]:
        nodeset2(ch, ns)
    return ns


def network(c):
    from sims_pars import bayes_net_from_script
    return bayes_net_from_script(gen.script(c['net'], c['order']))


def build(c, second=False):
    """(network, simulation core or None when the request is refused)"""
    from sims_pars import as_simulation_core
    bn = network(c)
    ns = (nodeset2 if second else nodeset)(c['tree'])
    try:
        return bn, as_simulation_core(bn, ns)
    except AssertionError:
        return bn, None


def visible(core):
    """Values a core sees: its own and those above"""
    chain = []
    while core is not None:
        chain.append(core)
        core = core.Parent
    vis = {}
    for x in reversed(chain):
        vis.update(x.Locus)
    return vis


def interval(n, defs, vis, memo=None):
    """Range of a variable given the visible values (but its own)"""
    memo = {} if memo is None else memo
    if n in memo:
        return memo[n]
    m = defs[n]
    if n in vis:
        return vis[n], vis[n]

    def rng(e):
        if e[0] == 'num':
            return e[1], e[1]
        if e[0] == 'var':
            return interval(e[1], defs, vis, memo)
        (a, b), (p, q) = rng(e[2]), rng(e[3])
        if e[1] == '+':
            return a + p, b + q
        if e[1] == '-':
            return a - q, b - p
        xs = [a * p, a * q, b * p, b * q]
        return min(xs), max(xs)

    if m['k'] in ('val', 'fn'):
        r = rng(m['e'])
    elif m['k'] == 'rv':
        r = rng(m['a'][0])[0], rng(m['a'][1])[1]
    else:
        r = -gen.INF, gen.INF
    memo[n] = r
    return r


def draw_ref(n, defs, vis, rng, memo):
    """Reference draw of a variable given the visible values"""
    if n in memo:
        return memo[n]
    m = defs[n]
    env = {}
    for p in gen.parents_of(m):
        env[p] = vis[p] if p in vis else draw_ref(p, defs, vis, rng, memo)
    if m['k'] in ('val', 'fn'):
        v = gen.ev(m['e'], env)
    else:
        a, b = [gen.ev(x, env) for x in m['a']]
        v = a + (b - a) * rng.random()
    memo[n] = v
    return v


def tol(v):
    return 1e-6 * (1 + abs(v))


def check_core(core, group, defs, what, forced=()):
    """Values of one core against the definitions and the cores above"""
    vis = visible(core)
    if core.Parent is not None:
        up = visible(core.Parent)
        for k, v in core.Locus.items():
            check(k not in up or k in forced or up[k] == v, '{}: {} is {} in {} but {} above', what, k, v, group[0], up.get(k))
    bnref.consistent(defs, {k: v for k, v in vis.items() if k in defs}, '{} (group {})'.format(what, group[0]), only=set(core.Locus), skip=forced)
    for x in group[1]:
        check(x in vis, '{}: {} was to be fixed in {} but has no value there', what, x, group[0])
    for k, v in vis.items():
        check(core[k] == v, '{}: {} reads {} instead of {}', what, k, core[k], v)
    check(dict(iter(core)) == vis, '{}: {} lists {} instead of {}', what, core.Nickname, dict(iter(core)), vis)
    return vis


def check_samplers(core, group, defs, what, skip=()):
    vis = visible(core)
    for shared in ([False, True] if core.Parent is not None else [False]):
        sam = core.get_samplers(shared)
        for x in group[2]:
            check(x in sam or x in vis, '{}: {} was to float in {} but has neither sampler nor value', what, x, group[0])
        check(set(core.list_actors(shared)) == set(sam), '{}: actors {}', what, core.list_actors(shared))
        for k, s in sam.items():
            if k in skip:
                continue
            v = s()
            lo, hi = interval(k, defs, {a: b for a, b in vis.items() if a != k})
            check(lo - tol(v) <= v <= hi + tol(v), '{}: the {} sampler of {} in {} gave {} out of {} given {}', what, 'shared' if shared else 'own', k, group[0], v, (lo, hi), vis)


def prior(core, defs):
    vis = visible(core)
    return sum(gen.node_logpdf(defs[k], vis, v) for k, v in core.Locus.items() if k in defs and defs[k]['k'] == 'rv')


def on_edge(core, defs):
    """A value on the bound of its support, where rounding decides"""
    vis = visible(core)
    for k, v in core.Locus.items():
        if k in defs and defs[k]['k'] == 'rv':
            a, b = [gen.ev(x, vis) for x in defs[k]['a']]
            if min(abs(v - a), abs(v - b)) <= 1e-9 * (1 + abs(v)):
                return True
    return False


def walk(core, group):
    """All the cores under one, with their groups (children are named after groups with a suffix)"""
    yield core, group
    for ch in core.Children.values():
        yield from walk(ch, next(g for g in group[3] if g[0] == ch.Group))
