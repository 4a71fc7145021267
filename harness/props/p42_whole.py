"""Whole networks as simulation models"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
import simref

PROPERTY = 'P42'
RULE = ('generated networks turned into simulation models in the three standard ways (all fixed, all floating, leaves floating): variables with values and with samplers '
        'against the graph, values against the definitions, 100 draws of samplers against draws of a reference, free parameters; non-trivial: a random variable below another')
ALPHA = 1e-9


@st.composite
def cases(draw):
    net = draw(simref.simnets(1, 7))
    return {'net': net, 'order': list(draw(st.permutations(range(len(net['nodes']))))), 'exo': {m['n']: draw(st.integers(1, 5)) * 100 for m in net['nodes'] if m['k'] == 'exo'},
            'n': draw(st.sampled_from([2, 2, 2, 100])), 'seed': draw(st.integers(0, 10 ** 6))}


def run(c):
    import numpy as np
    from sims_pars import bayes_net_from_script, as_simulation_core, get_all_fixed_sc, get_all_float_sc, find_free_parameters
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    txt = gen.script(c['net'], c['order'])
    rv = {n for n, m in defs.items() if m['k'] == 'rv'}
    sure = {n for n in defs if n not in rv and not g.anc(n) & rv}
    roots = {n for n in rv if not g.anc(n) & rv}
    rng = np.random.RandomState(c['seed'])
    us = {}
    # everything fixed
    sc = get_all_fixed_sc(txt)
    check(sorted(find_free_parameters(sc, dict(c['exo']))) == sorted(roots), 'free parameters {} instead of {}', find_free_parameters(sc, dict(c['exo'])), sorted(roots))
    for i in range(c['n']):
        p = sc.generate('p{}'.format(i), dict(c['exo']))
        v = dict(p)
        check(set(v) == set(defs), 'all fixed: {} instead of {}', sorted(v), sorted(defs))
        check(p.list_actors() == [] and p.Nickname == 'p{}'.format(i), 'all fixed: samplers {}', p.list_actors())
        check(all(v[k] == x for k, x in c['exo'].items()), 'all fixed: exogenous {}', v)
        bnref.consistent(defs, v, 'all fixed')
        lp = sum(gen.node_logpdf(defs[n], v, v[n]) for n in rv)
        check(gen.close(p.LogProb, lp, 1e-7, 1e-6), 'all fixed: log density {} instead of {}', p.LogProb, lp)
        for n in rv:
            us.setdefault(n, []).append(bnref.pit(defs[n], v, v[n]))
    if c['n'] > 50:
        bnref.check_residuals(us, 'all fixed')
    # floating
    for how, sc in (('all floating', get_all_float_sc(txt)), ('leaves floating', as_simulation_core(bayes_net_from_script(txt)))):
        check(find_free_parameters(sc, dict(c['exo'])) == [], '{}: free parameters {}', how, find_free_parameters(sc, dict(c['exo'])))
        p = sc.generate('F', dict(c['exo']))
        v = dict(p)
        acts = p.list_actors()
        want = set(defs) if how == 'all floating' else {n for n in defs if not g.children(n)}
        check(len(acts) == len(set(acts)) and not set(acts) & set(v), '{}: {} float and have values {}', how, acts, sorted(v))
        check(want - sure <= set(acts), '{}: samplers {} for {}', how, acts, sorted(want))
        check(want & sure <= set(v) | set(acts), '{}: values {} for {}', how, sorted(v), sorted(want & sure))
        check(set(v) <= sure, '{}: {} has values', how, sorted(set(v) - sure))
        bnref.consistent(defs, v, how, only=set(v))
        for a in acts:
            xs = p.get_sampler(a).sample(c['n'])
            seen = dict(c['exo'])
            ref = [simref.draw_ref(a, defs, seen, rng, {}) for _ in range(3 * c['n'])]
            lo, hi = simref.interval(a, defs, seen)
            check(all(lo - simref.tol(x) <= x <= hi + simref.tol(x) for x in xs), '{}: draws of {} out of {}', how, a, (lo, hi))
            if c['n'] > 50:
                pv = gen.ks2_p(xs, ref)
                check(pv > ALPHA, '{}: draws of {} do not follow its law (p={})', how, a, pv)
    return {'nontrivial': any(g.anc(n) & rv for n in rv), 'labels': ['exogenous'] * bool(c['exo'])}


FACETS = [Facet('whole', cases(), run, 360, 7000)]
