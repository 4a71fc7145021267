"""Rejection approximate Bayesian computation"""
import math
import os
import numpy as np
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen
import shared

PROPERTY = 'P32'
RULE = ('generated calibration problems (also with failing simulations) and settings: tolerance, particles, notes and number of simulations against the '
        'simulations recorded; facet law: posteriors against the prior restricted to the tolerance; non-trivial: at least one rejected simulation')


@st.composite
def cases(draw):
    c = draw(fitref.models(nan=True))
    c['set'] = {'n_test': draw(st.integers(6, 20)), 'p_test': draw(st.sampled_from([0.3, 0.5, 0.5, 0.8, 1, 0.15])), 'parallel': draw(st.booleans())}
    c['n'] = draw(st.integers(1, 7))
    c['at'] = draw(st.booleans())
    c['twice'] = draw(st.sampled_from([0, 0, 1, 3]))
    c['again'] = draw(st.integers(0, 4)) == 0
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def recorded(c):
    m = fitref.make(c)
    sims = shared.record(c)
    inner = m.simulate

    def simulate(pars):
        pt = inner(pars)
        sims.append(fitref.ref_distance(c, pt.Pars))
        return pt
    m.simulate = simulate
    return m, sims


def run(c):
    from sims_pars.fit import ApproxBayesCom
    m, sims = recorded(c)
    s = dict(c['set'], n_core=c.get('core', 1), verbose=0)
    if c['at']:
        alg = ApproxBayesCom(**s)
        check(alg.DefaultSettings['n_test'] == 200 and alg.Settings['n_test'] == s['n_test'], 'settings {}', alg.Settings)
    else:
        alg = ApproxBayesCom(n_test=3, vp_unknown=5)
    check('vp_unknown' not in alg.Settings, 'unknown setting taken')
    alg.fit(m, **({} if c['at'] else s))
    check({k: alg.Settings[k] for k in s} == s, 'settings {} instead of {}', alg.Settings, s)
    rejected = False
    for turn in range(2 if c['again'] else 1):
        if turn:
            del sims[:]
            alg.fit(m)
        fin = [d for d in sims if d < gen.INF]
        check(len(fin) == s['n_test'] and sims[-1] < gen.INF, '{} usable simulations of {} to find the tolerance', len(fin), s['n_test'])
        eps = float(np.quantile(np.array(fin), s['p_test']))
        check(gen.close(alg.State.Eps, eps, 1e-9, 1e-9), 'tolerance {} instead of {} for {}', alg.State.Eps, eps, fin)
        del sims[:]
        post = alg.sample_posteriors(c['n'])
        check(len(post) == c['n'] and post.Algorithm == 'ABC', '{} particles of {} by {}', len(post), c['n'], post.Algorithm)
        ok = [d for d in sims if d <= alg.State.Eps]
        near = [d for d in sims if abs(d - alg.State.Eps) < 1e-9 * (1 + abs(d))]
        check(len(ok) == c['n'] or near, '{} particles out of {} simulations within the tolerance', c['n'], len(ok))
        check(gen.close(post['Eps'], eps, 1e-9, 1e-9), 'noted tolerance {}', post['Eps'])
        check(gen.close(post['Acceptance'], c['n'] / len(sims), 1e-9), 'acceptance {} with {} simulations', post['Acceptance'], len(sims))
        check(post['ESS'] == c['n'], 'ESS {}', post['ESS'])
        ds = []
        for pt in post.Particles:
            _, d = fitref.check_particle(pt, c, 'posterior', eps)
            check(list(pt['Xs']) == [pt.Pars[n] for n in m.FreeParameters] and 'Ys' in pt.Notes, 'not flattened')
            ds.append(d)
        if not near:
            if c.get('core', 1) > 1:
                ds, ok = sorted(ds), sorted(ok)
            check(all(gen.close(a, b, 1e-9, 1e-9) for a, b in zip(ds, ok)), 'posterior of distances {} out of {}', ds, ok)
        check(len({tuple(pt['Xs']) for pt in post.Particles}) == len(post), 'duplicated particles')
        rejected = rejected or len(ok) < len(sims)
        if c['twice']:
            # another posterior of the same fit
            del sims[:]
            kept = [dict(pt.Pars) for pt in post.Particles]
            more = alg.sample_posteriors(c['twice'])
            ok = [d for d in sims if d <= eps]
            near = [d for d in sims if abs(d - eps) < 1e-9 * (1 + abs(d))]
            check(len(more) == c['twice'] and gen.close(more['Eps'], eps, 1e-9, 1e-9) and gen.close(more['Acceptance'], c['twice'] / len(sims), 1e-9) and more['ESS'] == c['twice'],
                  'the second posterior has {} particles and notes {}, tolerance {}', len(more), more.Notes, eps)
            check(len(ok) == c['twice'] or near, 'second posterior: {} particles out of {} simulations within the tolerance', c['twice'], len(ok))
            for pt in more.Particles:
                fitref.check_particle(pt, c, 'second posterior', eps)
            check([dict(pt.Pars) for pt in post.Particles] == kept, 'the second posterior changed the first')
    shared.forget(sims)
    return {'nontrivial': rejected, 'labels': ['parallel'] * s['parallel'] + ([c['fail'][2]] if c['fail'] else [])}


LAWS = [('unif', [0, 1]), ('norm', [0, 1]), ('exp', [1]), ('gamma', [2, 1]), ('beta', [2, 3]), ('triangle', [0, 1, 3])]


@st.composite
def law_cases(draw):
    d, a = draw(st.sampled_from(LAWS))
    return {'d': d, 'a': a, 'k': draw(st.sampled_from([1, 2, -3])), 'c': draw(st.integers(-3, 3)), 'off': draw(st.sampled_from([0, 0.5, -0.8, 1.2])),
            'p': draw(st.sampled_from([0.4, 0.6, 0.9])), 'parallel': draw(st.booleans()), 'n': 150, 'kind': draw(st.sampled_from(['range', 'norm'])), 'seed': draw(st.integers(0, 10 ** 6))}


def law_problem(c):
    """One parameter: (case of fitref, half width of the accepted outputs given the tolerance, centre)"""
    mean, sd = gen.LAW[c['d']].mean(*c['a']), gen.LAW[c['d']].sd(*c['a'])
    m = round(c['k'] * (mean + c['off'] * sd) + c['c'], 3)
    e = ['bin', '+', ['num', c['c']], ['bin', '*', ['num', c['k']], ['var', 'x']]]
    fc = {'net': {'name': 'L', 'nodes': [{'n': 'x', 'k': 'rv', 'd': c['d'], 'a': [['num', v] for v in c['a']]}]}, 'order': [0], 'exo': {}, 'fail': None,
          'sims': {'S': e}, 'data': {'S': {'m': m, 'l': m - 2, 'u': m + 2} if c['kind'] == 'range' else 'norm({!r}, 1)'.format(m)}}

    def half(eps):
        return math.sqrt(eps * 4 / 2 / 1.96) if c['kind'] == 'range' else math.sqrt(max(0.0, 2 * (eps - 0.5 * math.log(2 * math.pi))))
    return fc, m, half


def cdf(c, x):
    lo, hi = gen.LAW[c['d']].support(*c['a'])
    return bnref.pit({'k': 'rv', 'd': c['d'], 'a': [['num', v] for v in c['a']]}, {}, min(max(x, lo), hi))


def interval(c, m, h):
    lo, hi = sorted([(m - h - c['c']) / c['k'], (m + h - c['c']) / c['k']])
    return lo, hi


def run_law(c):
    from sims_pars.fit import ApproxBayesCom
    fc, m, half = law_problem(c)
    model = fitref.make(fc)
    alg = ApproxBayesCom(n_test=60, p_test=c['p'], n_core=1, verbose=0, parallel=c['parallel'])
    alg.fit(model)
    post = alg.sample_posteriors(c['n'])
    lo, hi = interval(c, m, half(alg.State.Eps))
    a, b = cdf(c, lo), cdf(c, hi)
    us = [(cdf(c, pt.Pars['x']) - a) / (b - a) for pt in post.Particles]
    p = gen.ks_p(us, 'uniform')
    check(p > 1e-9, 'the posterior is not the prior restricted to the tolerance (p={}, quintiles {})', p, list(np.histogram(us, 5, (0, 1))[0]))
    return {'labels': [c['d']]}


FACETS = [Facet('rejection', cases(), run, 150, 6000), Facet('law', law_cases(), run_law, 24, 600)]
