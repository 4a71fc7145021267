"""Samplers follow the conditional law"""
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import gen
import simref
from props.p23_generate import grow

PROPERTY = 'P25'
RULE = ('hierarchies over generated networks: 150 draws of every sampler (shared and own, at every member) against draws of a reference given the visible values; '
        'standalone actors over generated networks; non-trivial: a sampler with an unfixed random parent')
ALPHA = 1e-9


@st.composite
def cases(draw):
    c = draw(simref.sims(max_depth=1, max_nodes=6))
    g = bnref.graph(bnref.defs_of(c['net']))
    for grp, _ in simref.groups(c['tree']):
        grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
    return c


def run(c):
    import numpy as np
    defs = bnref.defs_of(c['net'])
    bn, sc = simref.build(c)
    if sc is None:
        raise Discard()
    tree = c['tree']
    root = grow(sc.generate('R', dict(c['exo'])), tree, False)
    rng = np.random.RandomState(c['seed'])
    compound = 0
    n = 150
    for core, grp in simref.walk(root, tree):
        vis = simref.visible(core)
        for shared in ([False, True] if core.Parent is not None else [False]):
            acts = core.list_actors(shared)
            for k in acts:
                s = core.get_sampler(k, shared)
                m = defs[k]
                seen = {a: b for a, b in vis.items() if a != k}
                what = 'sampler of {} at {} ({})'.format(k, grp[0], 'shared' if shared else 'own')
                xs = s.sample(n)
                check(len(xs) == n and np.ndim(s.sample()) == 0 and np.ndim(s()) == 0, '{}: {} draws', what, len(xs))
                if gen.parents_of(m) <= set(seen):
                    if m['k'] == 'rv':
                        us = [bnref.pit(m, seen, x) for x in xs]
                        check(min(us) > -1e-6 and max(us) < 1 + 1e-6, '{}: draws out of range given {}', what, seen)
                        bnref.check_residuals({k: us}, what)
                    else:
                        r = gen.ev(m['e'], seen)
                        check(all(gen.close(x, r, 1e-9, 1e-9) for x in xs), '{}: {} instead of {}', what, xs[0], r)
                else:
                    compound += 1
                    ref = [simref.draw_ref(k, defs, seen, rng, {}) for _ in range(4 * n)]
                    lo, hi = simref.interval(k, defs, seen)
                    check(all(lo - simref.tol(x) <= x <= hi + simref.tol(x) for x in xs), '{}: draws out of {}', what, (lo, hi))
                    p = gen.ks2_p(xs, ref)
                    check(p > ALPHA, '{}: draws do not follow the conditional law given {} (p={})', what, seen, p)
        if core.Children:
            for gname in {ch.Group for ch in core.Children.values()}:
                got = core.get_child_samplers(gname)
                ch = next(x for x in core.Children.values() if x.Group == gname)
                check(set(got) == set(ch.list_actors(True)), 'samplers for {}: {}', gname, sorted(got))
    return {'nontrivial': compound > 0, 'labels': ['compound'] * bool(compound)}


@st.composite
def actors(draw):
    net = draw(gen.nets(2, 7, kinds=('val', 'fn', 'rv', 'rv', 'rv'), names=gen.PLAIN))
    names = [m['n'] for m in net['nodes']]
    return {'net': net, 'target': draw(st.sampled_from(names[1:])), 'given': draw(st.lists(st.sampled_from(names), max_size=3, unique=True)), 'seed': draw(st.integers(0, 10 ** 6))}


def run_actors(c):
    from sims_pars import bayes_net_from_script
    from sims_pars.simulation.actor import SingleActor, CompoundActor, FrozenSingleActor, Sampler
    from sims_pars.bayesnet import Chromosome
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn = bayes_net_from_script(gen.script(c['net']))
    env = bnref.assignment(defs)
    t, m = c['target'], defs[c['target']]
    given = [n for n in c['given'] if n != t]
    need = g.needed({t}, set(given)) - {t}
    order = [n for n in bn.Order if n in need]
    to_read = [n for n in order if n in given]
    flow = [n for n in order if n not in given]
    pas = dict(env)          # everything is at hand, only to_read may be used
    us = {}
    act = CompoundActor(t, bn[t], to_read, [bn[n] for n in flow])
    read = {n: env[n] for n in to_read}
    for i in range(80):
        keep = dict(pas)
        v = act.sample_with_mediators(pas)
        check(pas == keep, 'sampling changed the values')
        check(set(v) == set(flow) | {t}, 'drew {} instead of {}', sorted(v), flow + [t])
        full = dict(read, **v)
        bnref.consistent(defs, full, 'compound draw', only=set(v))
        for n in v:
            u = bnref.pit(defs[n], full, v[n])
            if u is not None:
                us.setdefault(n, []).append(u)
        x = act.sample(Chromosome(pas))
        if not flow and m['k'] != 'rv':
            check(gen.close(x, v[t]), 'compound draw {} instead of {}', x, v[t])
    bnref.check_residuals(us, 'compound actor of {} given {}'.format(t, to_read))
    # single and frozen actors, with all the parents given
    pa = sorted(gen.parents_of(m))
    e1 = {n: env[n] for n in pa}
    e2 = {n: v + 1 for n, v in e1.items()}
    sg, fz = SingleActor(t, bn[t], pa), FrozenSingleActor(t, bn[t], pa)
    fz.update(e1)
    groups = {}
    for i in range(60):
        groups.setdefault('single', []).append((e1, sg.sample(dict(e1, other=3))))
        groups.setdefault('single moved', []).append((e2, sg.sample(e2)))
        groups.setdefault('frozen', []).append((e1, fz.sample(e2)))
    fz.update(e2)
    sm = Sampler(FrozenSingleActor(t, bn[t], pa), Chromosome(e1))
    for i in range(60):
        groups.setdefault('frozen moved', []).append((e2, fz.sample(e1)))
        groups.setdefault('sampler', []).append((e1, sm()))
    sm.update(Chromosome(e2))
    xs = sm.sample(60)
    check(len(xs) == 60, '{} draws', len(xs))
    groups['sampler moved'] = [(e2, x) for x in xs]
    ss = Sampler(sg, Chromosome(e1))
    groups['sampler of a single'] = [(e1, ss()) for _ in range(60)]
    ss.update(Chromosome(e2))
    groups['moved sampler of a single'] = [(e2, x) for x in ss.sample(60)]
    ss.update()
    groups['moved sampler of a single'] += [(e2, ss()) for _ in range(5)]
    if m['k'] != 'exo' and to_read:
        # values its actor reads are moved as well
        far = {n: v + 1 for n, v in read.items()}
        cs = Sampler(CompoundActor(t, bn[t], to_read, [bn[n] for n in flow]), Chromosome(read))
        cs()
        cs.update(Chromosome(far))
        if not flow:
            for x in cs.sample(5):
                bnref.consistent(defs, dict(far, **{t: x}), 'moved compound actor', only={t})
            groups['moved compound'] = [(far, x) for x in cs.sample(60)]
    for what, vs in groups.items():
        for e, v in vs:
            bnref.consistent(defs, dict(e, **{t: v}), what + ' actor', only={t})
        us = [bnref.pit(m, e, v) for e, v in vs]
        if us[0] is not None:
            bnref.check_residuals({t: us}, what + ' actor of ' + t)
    return {'nontrivial': any(defs[n]['k'] == 'rv' for n in flow), 'labels': ['flow'] * bool(flow) + ['read'] * bool(to_read)}


FACETS = [Facet('hierarchy', cases(), run, 240, 5000), Facet('actors', actors(), run_actors, 320, 6000)]
