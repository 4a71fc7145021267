"""Generating and breeding hierarchies of parameters"""
import itertools
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import gen
import simref

PROPERTY = 'P23'
RULE = ('generated networks and group trees; hierarchies with one or two members per group are generated, values checked along every path against the '
        'definitions, given values kept, siblings drawn independently with uniform residuals; non-trivial: a child group fixes a random variable')


@st.composite
def cases(draw):
    c = draw(simref.sims())
    g = bnref.graph(bnref.defs_of(c['net']))
    for grp, _ in simref.groups(c['tree']):
        grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
    c['two'] = draw(st.booleans())
    c['many'] = draw(st.integers(0, 7)) == 0
    c['give'] = {n: draw(st.sampled_from([None, None, 0, 1, 20.5])) for n in draw(st.lists(st.sampled_from([m['n'] for m in c['net']['nodes']]), max_size=2, unique=True))}
    c['above'] = draw(st.booleans())
    c['at'] = draw(st.sampled_from([grp[0] for grp, _ in simref.groups(c['tree'])]))
    return c


def grow(core, grp, two, exo=None, at=None):
    for ch in grp[3]:
        for i in range(2 if two else 1):
            x = core.breed('{}_{}'.format(ch[0], i), ch[0], exo=exo if ch[0] == at else None)
            grow(x, ch, two, exo, at)
    return core


def run(c):
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn, sc = simref.build(c)
    if sc is None:
        raise Discard()
    tree = c['tree']
    exo = dict(c['exo'])
    root = grow(sc.generate('R', exo), tree, c['two'])
    check(exo == c['exo'], 'generating changed the given values')
    check(root.Nickname == 'R' and root.Group == tree[0] and root.Parent is None, 'root {}', root)
    check(sc.generate(exo=exo).Nickname == 'Sim', 'default nickname')
    total = 0
    edge = any(simref.on_edge(x, defs) for x, _ in simref.walk(root, tree))
    seen = {}
    for core, grp in simref.walk(root, tree):
        vis = simref.check_core(core, grp, defs, 'generated')
        fixed = set(sc[grp[0]].Fixed)
        check(fixed <= set(core.Locus) and set(core.Locus) <= fixed | set(exo), '{} has the values {} instead of {}', core.Nickname, sorted(core.Locus), sorted(fixed))
        check({k for k, _ in core} == set(vis), 'values of {} listed as {}', core.Nickname, list(core))
        if not edge:
            check(gen.close(core.LogProb, simref.prior(core, defs), 1e-6, 1e-6), '{} has log density {} instead of {}', core.Nickname, core.LogProb, simref.prior(core, defs))
        total += core.LogProb
        seen.setdefault(grp[0], []).append(core)
        check(set(core.Children) == {'{}_{}'.format(ch[0], i) for ch in grp[3] for i in range(2 if c['two'] else 1)}, 'children of {}: {}', core.Nickname, list(core.Children))
        for k, ch in core.Children.items():
            check(ch.Parent is core and ch.Nickname == k and core.get_child(k) is ch, 'links of {}', k)
            try:
                core.breed(k, ch.Group)
            except ValueError:
                pass
            else:
                check(False, 'two children named {}', k)
        try:
            core.breed('vp', 'vp_none')
        except KeyError:
            pass
        else:
            check(False, 'bred for a group which does not exist')
        check('vp' not in core.Children, 'a failed breeding left a child')
    if not edge:
        check(gen.close(root.DeepLogPrior, total, 1e-9, 1e-9), 'log density of the hierarchy {} instead of {}', root.DeepLogPrior, total)
    drawn = {grp[0]: [n for n in sc[grp[0]].Fixed if defs[n]['k'] == 'rv'] for grp, _ in simref.groups(tree)}
    for gname, cores in seen.items():
        for a, b in itertools.combinations(cores, 2):
            for n in drawn[gname]:
                if a.Parent is None:
                    continue
                check(a.Locus[n] != b.Locus[n], 'siblings share their draws of {}', n)
    # values given at some group are kept there, whatever is above, and the rest stays consistent
    env = bnref.assignment(defs, exo)
    reads = {n: set().union(*[sc[p[0]].Fixed for p in path]) for n, path in ((grp[0], path) for grp, path in simref.groups(tree))}
    own = set(sc[c['at']].Fixed)
    gives = [(c['at'], {n: env[n] if x is None else x for n, x in c['give'].items() if defs[n]['k'] != 'exo' and (n in own or c['above'] and n in reads[c['at']])})]
    for i, (grp, path) in enumerate(simref.groups(tree)):
        used = sorted(n for n in set().union(*[g.parents(m) for m in sc[grp[0]].Fixed]) - set(sc[grp[0]].Fixed) if defs[n]['k'] != 'exo')
        if len(path) > 1 and used:
            gives.append((grp[0], {used[(c['seed'] + i) % len(used)]: [0, 0, 20.5][(c['seed'] // 7 + i) % 3]}))
    for at, give in gives:
        if not give:
            continue
        e2 = dict(exo, **give) if at == tree[0] else exo
        keep = dict(give)
        r2 = grow(sc.generate('G', e2), tree, False, give, at)
        check(give == keep, 'breeding changed the given values')
        for core, grp in simref.walk(r2, tree):
            vis = simref.visible(core)
            if grp[0] == at:
                check(all(core[n] == v for n, v in give.items()), '{} given to {} but has {}', give, grp[0], {n: core[n] for n in give})
            simref.check_core(core, grp, defs, 'generated with ' + str(give), forced=set(give))
            if not simref.on_edge(core, defs):
                fixed = set(sc[grp[0]].Fixed)
                want = sum(gen.node_logpdf(defs[k], vis, v) for k, v in core.Locus.items() if k in fixed and defs[k]['k'] == 'rv')
                check(gen.close(core.LogProb, want, 1e-6, 1e-6), '{}, given {} at {}, has log density {} instead of {}', core.Nickname, give, at, core.LogProb, want)
    # law of the draws
    if c['many'] and any(drawn.values()):
        us = {}
        for _ in range(100):
            r = grow(sc.generate('R', exo), tree, False)
            for core, grp in simref.walk(r, tree):
                vis = simref.visible(core)
                for n in drawn[grp[0]]:
                    us.setdefault(n + '@' + grp[0], []).append(bnref.pit(defs[n], vis, core.Locus[n]))
        bnref.check_residuals(us, 'hierarchies')
    return {'nontrivial': any(v for k, v in drawn.items() if k != tree[0]), 'labels': ['siblings'] * c['two'] + ['given'] * bool(gives[0][1]) + ['given from above'] * (len(gives) > 1) + ['many'] * c['many'] + ['exogenous'] * bool(exo)}


FACETS = [Facet('generate', cases(), run, 800, 14000)]
