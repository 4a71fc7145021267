"""Bundled example models"""
import math
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P41'
RULE = ('the bundled calibration examples with generated data and parameters: priors, outputs, distances and their laws against independent solutions (exact or by '
        'Runge-Kutta); non-trivial: parameters away from those behind the data')


@st.composite
def cases(draw):
    return {'kind': draw(st.sampled_from(['betabin', 'normal', 'sir', 'sir'])), 'a': draw(st.integers(1, 9)), 'b': draw(st.integers(1, 19)),
            'mu': [draw(st.sampled_from([30, -2, 5.5, 100])), draw(st.sampled_from([-20, 8, 3.25]))], 'n': draw(st.one_of(st.integers(2, 30), st.sampled_from([1, 60, 200]))),
            'be': draw(st.floats(1.05, 6).map(lambda x: round(x, 3))), 'ga': draw(st.floats(0.12, 0.9).map(lambda x: round(x, 3))),
            'be2': draw(st.floats(1.05, 6).map(lambda x: round(x, 3))), 'ga2': draw(st.floats(0.12, 0.9).map(lambda x: round(x, 3))),
            'p': [draw(st.floats(0.05, 0.95).map(lambda x: round(x, 3))) for _ in range(2)], 'sd': draw(st.sampled_from([0.5, 1, 3])), 'many': draw(st.sampled_from([0, 200])),
            'seed': draw(st.integers(0, 10 ** 6))}


def rk4(be, ga):
    y, out, h = [990.0, 10.0, 0.0], {}, 0.005

    def f(y):
        n = sum(y)
        i = be * y[0] * y[1] / n
        return [-i, i - ga * y[1], ga * y[1]]

    for k in range(1, 1401):
        k1 = f(y)
        k2 = f([a + h / 2 * b for a, b in zip(y, k1)])
        k3 = f([a + h / 2 * b for a, b in zip(y, k2)])
        k4 = f([a + h * b for a, b in zip(y, k3)])
        y = [a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(y, k1, k2, k3, k4)]
        if k % 200 == 0 and k >= 400:
            t, n = k // 200, sum(y)
            out['Inc_{}'.format(t)], out['Prev_{}'.format(t)], out['Rec_{}'.format(t)] = be * y[0] * y[1] / n / n, y[1] / n, ga * y[1] / n
    return out


def run(c):
    from sims_pars.fit.toys import get_betabin, get_normal2, get_sir
    k = c['kind']
    if k == 'betabin':
        m = get_betabin((c['a'], c['b']))
        free, bounds = ['p1', 'p2'], [(0, 1)] * 2
        pars = {'p1': c['p'][0], 'p2': c['p'][1]}
    elif k == 'normal':
        m = get_normal2(c['mu'], n=c['n'])
        free, bounds = ['std'], [(0, gen.INF)]
        pars = {'std': c['sd'], 'mu1': c['mu'][0], 'mu2': c['mu'][1]}
    else:
        m = get_sir(c['be'], c['ga'])
        free, bounds = ['gamma', 'beta'], [(0.1, 1), (1, 20)]
        pars = {'beta': c['be2'], 'gamma': c['ga2']}
    check(sorted(m.FreeParameters) == sorted(free), 'free parameters {}', m.FreeParameters)
    dom = {d.Name: (d.Lower, d.Upper) for d in m.Domain}
    check(dom == dict(zip(free, bounds)), 'domain {}', dom)
    for _ in range(3):
        p = m.sample_prior()
        check(all(a <= p[n] <= b for n, (a, b) in dom.items()) and math.isfinite(p.LogProb), 'prior {}', p)
    served = m.serve(dict(pars))
    check(all(served[n] == v for n, v in pars.items()), 'served {} instead of {}', served, pars)
    sims = [m.simulate(served) for _ in range(c['many'] if c['many'] and k != 'sir' else 2)]
    for s in sims:
        check(set(m.Data) <= set(s.Sims.keys()), 'outputs {} for the data {}', sorted(s.Sims), sorted(m.Data))
        d = m.calc_distance(s)
        check(d >= 0 and d == m.calc_distance(s), 'distance {}', d)
    if k == 'betabin':
        for n, size, p in (('x1', 10, pars['p1']), ('x2', 20, pars['p2'])):
            xs = [s.Sims[n] for s in sims]
            check(all(x == int(x) and 0 <= x <= size for x in xs), '{}: {}', n, xs[:5])
            if c['many']:
                gen.unrelated(n, xs)
                check(gen.binom_p(sum(xs), size * len(xs), p) > 1e-9, '{} of {} in {} trials with chance {}', sum(xs), n, size * len(xs), p)
        from sims_pars.fit.base import Particle
        same = Particle(served, {'x1': c['a'], 'x2': c['b']})
        check(abs(m.calc_distance(same)) < 1e-9, 'distance {} of the data to themselves', m.calc_distance(same))
    elif k == 'normal':
        for n, mu in (('x1', pars['mu1']), ('x2', pars['mu2'])):
            xs = [float(s.Sims[n]) for s in sims]
            sd = c['sd'] / math.sqrt(c['n'])
            check(all(abs(x - mu) < 8 * sd for x in xs), '{}: {} around {}', n, xs[:3], mu)
            if c['many']:
                import scipy.stats as sts
                gen.unrelated(n, xs)
                check(gen.ks_p(xs, sts.norm(mu, sd).cdf) > 1e-9, '{}: means do not follow their law', n)
    else:
        ref = rk4(pars['beta'], pars['gamma'])
        got = sims[0].Sims
        check(set(got) == set(ref), 'outputs {}', sorted(got))
        for n, v in ref.items():
            check(gen.close(got[n], v, 3e-2, 1e-3), '{} is {} instead of {} for {}', n, got[n], v, pars)
        again = m.simulate(m.serve({'beta': c['be'], 'gamma': c['ga']}))
        check(abs(m.calc_distance(again)) < 1e-9, 'distance {} of the data to themselves', m.calc_distance(again))
        if max(abs(c['be'] - c['be2']), abs(c['ga'] - c['ga2'])) > 0.2:
            check(m.calc_distance(sims[0]) > 0, 'no distance between {} and the data', pars)
    return {'nontrivial': k != 'sir' or (c['be'], c['ga']) != (c['be2'], c['ga2']), 'labels': [k]}


FACETS = [Facet('examples', cases(), run, 200, 4000)]
