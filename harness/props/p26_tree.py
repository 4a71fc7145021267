"""Operations on trees of parameters"""
import copy
import pickle
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import gen
import simref
from props.p23_generate import grow

PROPERTY = 'P26'
RULE = ('generated hierarchies with histories of up to 6 operations (breed, sibling, prototype, duplicate, find, remove, detach, clone) against a model of the tree; '
        'values, links, samplers and log densities are checked after each; non-trivial: a clone, duplicate or detachment below the root')


@st.composite
def cases(draw):
    c = draw(simref.sims())
    g = bnref.graph(bnref.defs_of(c['net']))
    for grp, _ in simref.groups(c['tree']):
        grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
    c['ops'] = [[draw(st.sampled_from(['breed', 'sibling', 'proto', 'dup', 'dup', 'find', 'remove', 'detach', 'detach', 'clone', 'clone', 'copy', 'reset'])),
                 draw(st.integers(0, 9)), draw(st.booleans()), draw(st.booleans())] for _ in range(draw(st.integers(1, 6)))]
    return c


@st.composite
def families(draw):
    """Few groups of many variables; members are made in every way, some from given values"""
    net = draw(simref.simnets(4, 9))
    names = [m['n'] for m in net['nodes'] if m['k'] != 'exo']
    cut = draw(st.integers(0, len(names) // 2))
    c = {'net': net, 'tree': ['g', names[:cut], [], [['g0', names[cut:], [], [['g00', [], [], []]] if draw(st.booleans()) else []]]],
         'exo': {m['n']: draw(st.integers(1, 5)) * 100 for m in net['nodes'] if m['k'] == 'exo'},
         'order': list(draw(st.permutations(range(len(net['nodes']))))), 'seed': draw(st.integers(0, 10 ** 6))}
    c['ops'] = [[draw(st.sampled_from(['breed', 'sibling', 'sibling', 'proto', 'dup', 'clone'])), draw(st.integers(0, 9)), draw(st.integers(0, 3)) > 0, draw(st.booleans())] for _ in range(draw(st.integers(1, 5)))]
    return c


def shape(core):
    return (core.Group, dict(core.Locus), {k: shape(v) for k, v in core.Children.items()})


def some_given(core, defs, seed, some):
    """Values of some of the variables of a member, as they may be given to another one"""
    if not some:
        return None
    ks = sorted(k for k in core.Locus if k in defs and defs[k]['k'] == 'rv')
    return {k: core.Locus[k] for i, k in enumerate(ks) if (seed >> i) & 1}


def fresh(x, y, given, defs, what):
    """Random variables of two members, not given, are drawn separately"""
    for k in x.Locus:
        if k in y.Locus and k not in given and k in defs and defs[k]['k'] == 'rv':
            check(x.Locus[k] != y.Locus[k], '{}: {} is the same in two members', what, k)


def run(c):
    defs = bnref.defs_of(c['net'])
    bn, sc = simref.build(c)
    if sc is None:
        raise Discard()
    tree = c['tree']
    gmap = {grp[0]: grp for grp, _ in simref.groups(tree)}
    root = grow(sc.generate('R', dict(c['exo'])), tree, False)
    exo = dict(c['exo'])
    deep = False
    labels = set()
    for j, (op, i, b1, b2) in enumerate(c['ops']):
        cores = list(simref.walk(root, tree))
        core, grp = cores[i % len(cores)]
        before = shape(root)
        labels.add(op)
        if op == 'breed' and grp[3]:
            x = core.breed('n{}'.format(j), grp[3][0][0])
            given = some_given(x, defs, c['seed'], b1) or {}
            if b2 and core.Locus:
                # another value of a variable than that of the parent
                ks = sorted(core.Locus)
                given[ks[c['seed'] % len(ks)]] = 20.5
            y = core.breed('m{}'.format(j), grp[3][0][0], dict(given))
            check(all(y.Locus[k] == v for k, v in given.items()) and y.Parent is core, 'bred with {} instead of the given {}', y.Locus, given)
            fresh(y, x, given, defs, 'breeding')
            simref.check_core(y, gmap[y.Group], defs, 'bred from given values', forced=tuple(given))
            core.remove_children('m{}'.format(j))
            check(core.Children.get('n{}'.format(j)) is x and x.Parent is core and x.Group == grp[3][0][0], 'breeding')
            simref.check_core(x, gmap[x.Group], defs, 'bred')
            core.remove_children('n{}'.format(j))
            check(shape(root) == before, 'breeding and removing a child changed the tree')
        elif op == 'sibling' and core.Parent is not None:
            given = some_given(core, defs, c['seed'], b1)
            x = core.get_sibling('s{}'.format(j), given) if given is not None else core.get_sibling('s{}'.format(j))
            check(all(x.Locus[k] == v for k, v in (given or {}).items()), 'sibling with {} instead of the given {}', x.Locus, given)
            fresh(x, core, given or {}, defs, 'sibling')
            check(x.Parent is core.Parent and x.Group == core.Group and core.Parent.Children['s{}'.format(j)] is x, 'sibling')
            simref.check_core(x, gmap[x.Group], defs, 'sibling', forced=tuple(given or ()))
        elif op == 'proto' and grp[3]:
            x = core.get_prototype(grp[3][-1][0])
            fresh(x, core.get_prototype(grp[3][-1][0]), {}, defs, 'prototype')
            check(shape(root) == before, 'a prototype changed the tree')
            check(x.Group == grp[3][-1][0] and x.Parent is core, 'prototype')
            simref.check_core(x, gmap[x.Group], defs, 'prototype')
            simref.check_samplers(x, gmap[x.Group], defs, 'prototype')
        elif op == 'dup':
            if core.Parent is None:
                try:
                    core.duplicate('d')
                except AttributeError:
                    continue
                check(False, 'the root was duplicated')
            deep = True
            x = core.duplicate('d{}'.format(j))
            check(x is not core and x.Locus == core.Locus and x.Locus is not core.Locus, 'duplicate has {} instead of {}', x.Locus, core.Locus)
            check(x.Parent is core.Parent and x.Group == core.Group and core.Parent.Children['d{}'.format(j)] is x and x.Nickname == 'd{}'.format(j), 'duplicate links')
            if not simref.on_edge(core, defs):
                check(gen.close(x.LogProb, core.LogProb, 1e-7, 1e-7), 'duplicate has log density {} instead of {}', x.LogProb, core.LogProb)
            simref.check_samplers(x, grp, defs, 'duplicate')
            core.Parent.remove_children('d{}'.format(j))
        elif op == 'find':
            path, y = [], core
            while y.Parent is not None:
                path.insert(0, y.Nickname)
                y = y.Parent
            if path:
                check(root.find_descendant('@'.join(path)) is core, 'looked for {}', path)
            try:
                root.find_descendant('@'.join(path + ['vp_none']))
            except KeyError:
                pass
            else:
                check(False, 'found what does not exist')
        elif op == 'remove' and core.Parent is not None:
            par = core.Parent
            x = par.remove_children(core.Nickname)
            check(x is core and core.Nickname not in par.Children, 'removed {}', x)
            check(par.remove_children('vp_none') is None, 'removed what does not exist')
        elif op == 'detach':
            if core.Parent is None:
                core.detach_from_parent(b1)
                check(shape(root) == before, 'detaching the root changed it')
                continue
            deep = True
            par, vis, own = core.Parent, simref.visible(core), dict(core.Locus)
            pv = dict(par.Locus)
            core.detach_from_parent(collect_pars=b1)
            check(core.Parent is None and core.Nickname not in par.Children and par.Locus == pv, 'detached, the parent has {}', list(par.Children))
            if b1:
                check(core.Locus == vis, 'detached with {} instead of {}', core.Locus, vis)
                for k, s in core.get_samplers(False).items():
                    v = s()
                    lo, hi = simref.interval(k, defs, {a: b for a, b in vis.items() if a != k})
                    check(lo - simref.tol(v) <= v <= hi + simref.tol(v), 'sampler of {} after the detachment: {} out of {}', k, v, (lo, hi))
                for x, xg in simref.walk(core, grp):
                    simref.check_core(x, xg, defs, 'below the detached')
            else:
                check(core.Locus == own, 'detached with {} instead of {}', core.Locus, own)
        elif op == 'clone':
            if core.Parent is not None:
                try:
                    core.clone()
                except AttributeError:
                    continue
                check(False, 'cloned without its parent')
            deep = deep or (b2 and bool(core.Children))
            if b2 and c['seed'] % 2:
                # values no longer drawn from their laws have to survive as well
                fx = [k for k in sc[tree[0]].Fixed if defs[k]['k'] != 'exo']
                if fx:
                    core = copy.deepcopy(core)
                    core.impulse({fx[0]: 333})
            before = shape(core)
            x = core.clone(copy_sc=b1, include_children=b2)
            check(shape(core) == before, 'cloning changed the original')
            check(x.Locus == core.Locus and x.Locus is not core.Locus and x.Nickname == core.Nickname and x.Group == core.Group, 'clone {}', x)
            check((x.SG.SC is not core.SG.SC) == b1, 'clone: simulation core')
            if b2:
                check(shape(x) == before, 'clone {} instead of {}', shape(x), before)
                for (p, _), (q, _) in zip(simref.walk(x, tree), simref.walk(core, tree)):
                    check(p is not q and (p.LogProb == q.LogProb or p.LogProb != p.LogProb), 'clone has log density {} instead of {}', p.LogProb, q.LogProb)
                    check(p.SG.SC is x.SG.SC, 'clone: simulation core of {}', p.Nickname)
            else:
                check(not x.Children and x.LogProb == core.LogProb, 'clone has children or log density {}', x.LogProb)
            for p, pg in simref.walk(x, tree):
                simref.check_samplers(p, pg, defs, 'clone')
            for p, _ in list(simref.walk(x, tree)):
                for k in list(p.Locus):
                    p[k] = -1
                    check(p[k] == -1, 'editing {} of the clone', k)
            check(shape(core) == before, 'editing the clone changed the original')
            for p, pg in list(simref.walk(x, tree)):
                for k in list(p.Children):
                    p.remove_children(k)
            check(shape(core) == before, 'cutting the clone changed the original')
        elif op == 'copy':
            for x in (copy.deepcopy(root), pickle.loads(pickle.dumps(root))):
                check(shape(x) == before and x is not root, 'copy {}', shape(x))
                check([p.LogProb for p, _ in simref.walk(x, tree)] == [p.LogProb for p, _ in cores], 'log densities of the copy')
        elif op == 'reset':
            sc2 = sc.clone()
            check(sc2 is not sc and sc2.Name == sc.Name, 'simulation core clone')
            x = copy.deepcopy(root)
            x.reset_sc(sc2)
            check(all(p.SG is sc2[pg[0]] for p, pg in simref.walk(x, tree)), 'reset')
            check(shape(x) == before, 'reset changed values')
        for x, xg in simref.walk(root, tree):
            check(x.Parent is None if x is root else x.Parent.Children[x.Nickname] is x, 'links of {}', x.Nickname)
    return {'nontrivial': deep, 'labels': sorted(labels)}


FACETS = [Facet('history', cases(), run, 1600, 25000), Facet('families', families(), run, 500, 10000)]
