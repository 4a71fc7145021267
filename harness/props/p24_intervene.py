"""Interventions on hierarchies of parameters"""
import math
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import gen
import simref
from props.p23_generate import grow

PROPERTY = 'P24'
RULE = ('generated hierarchies with histories of interventions (set values, new draws, lists of names) at any member: set values hold at and below it, what depends on '
        'them is renewed and consistent, everything else is untouched, samplers and log densities follow; non-trivial: something was renewed below the member')


@st.composite
def cases(draw):
    c = draw(simref.sims())
    g = bnref.graph(bnref.defs_of(c['net']))
    for grp, _ in simref.groups(c['tree']):
        grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
    defs = bnref.defs_of(c['net'])
    names = sorted(defs)
    c['imps'] = []
    for _ in range(draw(st.integers(1, 3))):
        ns = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 3)) == 0:
            im = ns
        else:
            im = {n: None if draw(st.integers(0, 3)) == 0 else draw(st.sampled_from([1, 500, 20.5, 0])) for n in ns}
        c['imps'].append([draw(st.integers(0, 5)), im])
    c['touch'] = draw(st.booleans())
    c['bn'] = draw(st.booleans())
    return c


def run(c):
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn, sc = simref.build(c)
    if sc is None:
        raise Discard()
    tree = c['tree']
    root = grow(sc.generate('R', dict(c['exo'])), tree, True)
    cores = list(simref.walk(root, tree))
    if c['touch']:      # samplers made before the interventions must follow them
        held = []
        for core, grp in cores:
            simref.check_samplers(core, grp, defs, 'before')
            held.append([(a, core.get_samplers(a)) for a in ([False, True] if core.Parent is not None else [False])])
    forced = {id(x): set() for x, _ in cores}
    renewed = False
    for at, im in c['imps']:
        core, grp = cores[at % len(cores)]
        under = {id(x) for x, _ in simref.walk(core, grp)}
        old = {id(x): dict(x.Locus) for x, _ in cores}
        olp = {id(x): x.LogProb for x, _ in cores}
        if isinstance(im, dict):
            im = {k: v for k, v in im.items() if not (v is None and defs[k]['k'] == 'exo')}
            sets = {k: v for k, v in im.items() if v is not None}
            again = {k for k, v in im.items() if v is None}
        else:
            im = [k for k in im if defs[k]['k'] != 'exo']
            sets, again = {}, set(im)
        fresh = (set().union(*[g.des(k) for k in im]) - set(sets)) | again
        arg = dict(im) if isinstance(im, dict) else list(im)
        core.impulse(arg, *([bn] if c['bn'] else []))
        check(arg == im, 'the intervention was changed')
        for x, xg in cores:
            if id(x) not in under:
                check(x.Locus == old[id(x)] and (x.LogProb == olp[id(x)]), '{} changed by {} at {}', x.Nickname, im, core.Nickname)
                continue
            fixed = set(sc[xg[0]].Fixed)
            check(set(x.Locus) == set(old[id(x)]), '{} has other names after {}', x.Nickname, im)
            for k, v in x.Locus.items():
                if k in sets and k in fixed:
                    check(v == sets[k], '{} of {} is {} after {}', k, x.Nickname, v, im)
                    forced[id(x)].add(k)
                elif k in fresh and k in fixed:
                    forced[id(x)].discard(k)
                    if defs[k]['k'] == 'rv':
                        check(v != old[id(x)][k], '{} of {} was not drawn again by {}', k, x.Nickname, im)
                    renewed = True
                elif k in fixed:
                    check(v == old[id(x)][k], '{} of {} changed by {}', k, x.Nickname, im)
        if c['touch']:
            for (x, xg), both in zip(cores, held):
                vis = simref.visible(x)
                for shared, sams in both:
                    for k, s in sams.items():
                        v = s()
                        lo, hi = simref.interval(k, defs, {a: b for a, b in vis.items() if a != k})
                        check(lo - simref.tol(v) <= v <= hi + simref.tol(v), '{} sampler of {} in {} did not follow {}: {} out of {}', 'shared' if shared else 'own', k, x.Nickname, im, v, (lo, hi))
        for x, xg in cores:
            up, y = set(), x
            while y is not None:
                up |= forced[id(y)]
                y = y.Parent
            # a given value may be impossible in itself, never what is renewed from it
            simref.check_core(x, xg, defs, 'after {} at {}'.format(im, core.Nickname), forced=up)
            simref.check_samplers(x, xg, defs, 'after {} at {}'.format(im, core.Nickname))
        for x, xg in cores:
            if id(x) in under and not simref.on_edge(x, defs):
                r = simref.prior(x, defs)
                check(gen.close(x.LogProb, r, 1e-6, 1e-6), '{} has log density {} instead of {} after {}', x.Nickname, x.LogProb, r, im)
    return {'nontrivial': renewed, 'labels': ['samplers held'] * c['touch'] + ['list'] * any(isinstance(i, list) for _, i in c['imps'])}


FACETS = [Facet('impulse', cases(), run, 1200, 20000)]
