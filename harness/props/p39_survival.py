"""Survival models"""
import math
from hypothesis import strategies as st
from core import Facet, check
import gen
from props.p38_regression import terms, covariates, lp, logistic

PROPERTY = 'P39'
RULE = ('generated baselines (exponential, Weibull, tables of cumulative hazards), regressors, covariates and shares of zeros: cumulative hazards and inverses, moments '
        'by independent quadrature, densities, law of 300 predictions; non-trivial: the covariates change the risk')

coef = st.one_of(st.sampled_from([0.4, -0.6, 1.2, -1.1, 0.25]), st.floats(-1.5, 1.5).map(lambda x: round(x, 2)))


@st.composite
def baselines(draw):
    k = draw(st.sampled_from(['exp', 'weibull', 'empirical']))
    pos = st.sampled_from([0.1, 0.5, 1, 2, 0.03, 1.7])
    if k == 'exp':
        js = {'Type': k, 'Rate': draw(pos)}
    elif k == 'weibull':
        js = {'Type': k, 'Lambda': draw(pos), 'K': draw(st.sampled_from([0.7, 1, 1.5, 2, 4]))}
    else:
        n = draw(st.integers(2, 6))
        ts, hs = [draw(st.sampled_from([0, 0, 1.5, 40]))], [0]
        for _ in range(n - 1):
            ts.append(ts[-1] + draw(st.sampled_from([0.5, 1, 3, 10])))
            hs.append(hs[-1] + draw(st.sampled_from([0.05, 0.3, 1, 2])))
        o = draw(st.one_of(st.just(list(range(n))), st.permutations(range(n))))
        js = {'Type': k, 'Time': [ts[i] for i in o], 'CumHaz': [hs[i] for i in o]}
    js['Type'] = draw(st.sampled_from([k, k.upper(), k.capitalize()]))
    return js


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(['Age', 'Male', 'x1', 'Region']), min_size=draw(st.sampled_from([1, 1, 1, 0])), max_size=3, unique=True))
    regs = draw(terms(names))
    for r in regs:      # moderate effects
        if 'Value' in r:
            r['Value'] = draw(coef)
        else:
            r['Values'] = [draw(st.sampled_from([0, 0, 0.3])) if i == r['Labels'].index(r['Ref']) else draw(coef) for i in range(len(r['Values']))]
    if draw(st.integers(0, 5)) == 0:
        # strong effects, which would leave a table of hazards
        strong = draw(st.sampled_from([4, 6]))
    else:
        strong = 1
    every = regs
    names2 = draw(st.lists(st.sampled_from(['Age', 'Male', 'x1', 'Region']), max_size=2, unique=True))
    regs2 = [r for r in regs if r['Name'] in names2]
    if draw(st.booleans()):
        # covariates of one part only
        regs = [r for r in regs if r['Name'] not in names2]
    regs2 = [dict(r, **({'Value': draw(coef)} if 'Value' in r else {})) for r in regs2]
    base = draw(baselines())
    if strong > 1 and base['Type'].lower() != 'empirical':
        regs = [dict(r, **({'Value': strong * r['Value']} if 'Value' in r else {'Values': [strong * v for v in r['Values']]})) for r in regs]
    return {'base': base, 'regs': regs, 'zero': draw(st.sampled_from([None, 'yes', 'yes'])), 'z0': draw(st.floats(-3, 3).map(lambda x: round(x, 2))), 'zregs': regs2,
            'xs': draw(covariates(every)), 'n': draw(st.sampled_from([0, 0, 300])), 'at': draw(st.lists(st.floats(0.02, 0.98), min_size=1, max_size=4)), 'seed': draw(st.integers(0, 10 ** 6))}


def interp(x, xs, ys, low, high):
    if x < xs[0]:
        return low
    if x > xs[-1]:
        return high
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


class Ref:
    def __init__(self, js):
        self.js, self.k = js, js['Type'].lower()
        if self.k == 'empirical':
            self.ts, self.hs = sorted(js['Time']), sorted(js['CumHaz'])
        self.top = self.hs[-1] if self.k == 'empirical' else gen.INF

    def cum(self, t):
        if self.k == 'exp':
            return self.js['Rate'] * t
        if self.k == 'weibull':
            return (self.js['Lambda'] * t) ** self.js['K']
        return interp(t, self.ts, self.hs, 0, self.hs[-1])

    def inv(self, h):
        if self.k == 'exp':
            return h / self.js['Rate']
        if self.k == 'weibull':
            return h ** (1 / self.js['K']) / self.js['Lambda']
        return interp(h, self.hs, self.ts, 0, self.ts[-1])

    def moments(self, rr):
        """first and second moments when the hazard is multiplied"""
        if self.k == 'exp':
            r = self.js['Rate'] * rr
            return 1 / r, 2 / r ** 2
        if self.k == 'weibull':
            la, k = self.js['Lambda'] * rr ** (1 / self.js['K']), self.js['K']
            return math.gamma(1 + 1 / k) / la, math.gamma(1 + 2 / k) / la ** 2
        # t is linear in the cumulative hazard on every piece: Simpson on fine steps of h
        out = [0.0, 0.0]
        for a, b, h0, h1 in zip(self.ts, self.ts[1:], self.hs, self.hs[1:]):
            steps = 200
            for i in range(steps + 1):
                u = i / steps
                w = (1 if i in (0, steps) else 4 if i % 2 else 2) * (h1 - h0) / steps / 3
                t, d = a + u * (b - a), rr * math.exp(-rr * (h0 + u * (h1 - h0)))
                out[0] += w * t * d
                out[1] += w * t * t * d
        s = math.exp(-rr * self.hs[-1])
        return out[0] + s * self.ts[-1], out[1] + s * self.ts[-1] ** 2


def blind(ref, rr):
    """Errors of the first two moments by knots in the tails, which no point of a numerical integration over the survival sees"""
    e1 = e2 = 0
    if ref.k == 'empirical':
        for t, h in zip(ref.ts, ref.hs):
            u = math.exp(-rr * h)
            for w, far in ((u, ref.ts[-1]), (1 - u, ref.ts[0])):
                if w < 5e-3:
                    e1, e2 = max(e1, w * abs(far - t)), max(e2, w * abs(far ** 2 - t ** 2))
    return 1.5 * e1, 1.5 * e2


def run(c):
    import numpy as np
    from sims_pars.data import CoxRegression, ZeroInflatedCoxRegression
    from sims_pars.data.reg.hazard import ExponentialHazard, WeibullHazard, EmpiricalHazard
    ref = Ref(c['base'])
    regs, xs = c['regs'], c['xs']
    cls = {'exp': ExponentialHazard, 'weibull': WeibullHazard, 'empirical': EmpiricalHazard}[ref.k]
    js = dict(c['base'])
    if c['zero']:
        m = ZeroInflatedCoxRegression({'PrZero': {'Intercept': c['z0'], 'Regressors': c['zregs']}, 'PrTTE': {'Baseline': js, 'Regressors': regs}})
        p0 = logistic(c['z0'] + lp(c['zregs'], xs))
    else:
        m, p0 = CoxRegression({'Baseline': js, 'Regressors': regs}), 0
    rr = math.exp(lp(regs, xs))
    check(m.get_variable_type() == 'Double', 'variable type {}', m.get_variable_type())
    hz = cls(*[c['base'][k] for k in ('Rate', 'Lambda', 'K', 'Time', 'CumHaz') if k in c['base']])
    for h in (hz, m.Hazard):
        check(type(h) is cls, 'baseline {}', type(h))
        for q in c['at']:
            x = -math.log(1 - q)
            if x < ref.top:
                t = ref.inv(x)
                check(gen.close(float(h.inv_cum_hazard(x)), t, 1e-9), 'time of cumulative hazard {}: {} instead of {}', x, h.inv_cum_hazard(x), t)
                check(gen.close(float(h.cum_hazard(t)), x, 1e-7), 'cumulative hazard at {}: {} instead of {}', t, h.cum_hazard(t), x)
            else:
                check(float(h.inv_cum_hazard(x)) in (ref.ts[-1],), 'time beyond the table {}', h.inv_cum_hazard(x))
        if ref.k == 'empirical':
            check(float(h.cum_hazard(ref.ts[-1] + 5)) == ref.hs[-1] and float(h.cum_hazard(ref.ts[0] - 1)) == 0, 'cumulative hazard out of the table')
        else:
            a, b = ref.moments(1)
            check(gen.close(float(h.mean()), a, 1e-7) and gen.close(float(h.std()), math.sqrt(b - a * a), 1e-6), 'baseline mean {} and sd {}, instead of {}', h.mean(), h.std(), (a, math.sqrt(b - a * a)))
    keep = dict(xs)
    sam = m.get_sampler(xs)
    a, b = [(1 - p0) * v for v in ref.moments(rr)]
    sd = math.sqrt(max(0, b - a * a))
    e1, e2 = blind(ref, rr)
    check(gen.close(m.expectation(xs), a, 2e-3, e1), 'expected time {} instead of {} (risk ratio {}, zeros {})', m.expectation(xs), a, rr, p0)
    slack = math.sqrt(sd ** 2 + e2 + 2 * a * e1) - sd
    check(gen.close(sam.mean(), a, 2e-3, e1) and gen.close(sam.std(), sd, 2e-2, 1e-3 + 2 * slack), 'sampler with mean {} and sd {} instead of {}', sam.mean(), sam.std(), (a, sd))
    check(m.expectation(dict(xs, unrelated=3, u2=1)) == m.expectation(xs), 'an unrelated covariate matters')
    lo, hi = sam.Interval
    check(lo == 0 and hi == gen.INF and sam.Type == 'Double', 'interval {} type {}', (lo, hi), sam.Type)
    check(sam.logpdf(-1.0) == -gen.INF, 'negative times are possible')
    check(gen.close(sam.logpdf(0), math.log(p0) if p0 else -gen.INF, 1e-9), 'log probability {} of zero, instead of {}', sam.logpdf(0), p0)
    for q in c['at']:
        x = -math.log(1 - q) / rr
        if x >= ref.top:
            continue
        t = ref.inv(x)
        if t < 0.01 or (ref.k == 'empirical' and min(abs(t - v) for v in ref.ts) < 1e-3):
            continue
        e = 1e-6 * max(1, t)
        rate = {'exp': lambda: c['base']['Rate'], 'weibull': lambda: c['base']['K'] * c['base']['Lambda'] * (c['base']['Lambda'] * t) ** (c['base']['K'] - 1),
                'empirical': lambda: (ref.cum(t + e) - ref.cum(t - e)) / (2 * e)}[ref.k]()
        d = math.log(1 - p0) + math.log(rate * rr) - rr * ref.cum(t)
        check(gen.close(sam.logpdf(t), d, 1e-4, 3e-3), 'log density {} at {} instead of {} (risk ratio {})', sam.logpdf(t), t, d, rr)
    n = c['n']
    groups = [[m.predict(xs) for _ in range(n or 3)], [sam.sample() for _ in range(3)]] + ([list(sam.sample(n))] if n else [])
    for vs in groups:
        vs = [float(v) for v in vs]
        check(min(vs) >= 0 and max(vs) <= (ref.ts[-1] if ref.k == 'empirical' else gen.INF), 'predicted times {}', vs[:3])
        if ref.k == 'empirical':
            check(all(v == 0 or v >= ref.ts[0] for v in vs), 'predicted times {} before the first of the table', min(vs))
        if not n or len(vs) < n:
            continue
        gen.unrelated('times', vs)
        gen.unrelated('zeros', [str(v == 0) for v in vs])
        z = sum(v == 0 for v in vs)
        check(gen.binom_p(z, len(vs), p0) > 1e-9, '{} zeros out of {}, probability {}', z, len(vs), p0)
        pos = [v for v in vs if v > 0]
        if len(pos) >= 20:
            last = 1 - math.exp(-rr * ref.top) if ref.k == 'empirical' else 1
            if ref.k == 'empirical':
                top = sum(v >= ref.ts[-1] - 1e-9 for v in pos)
                check(gen.binom_p(top, len(pos), 1 - last) > 1e-9, '{} of {} predictions at the end of the table, probability {}', top, len(pos), 1 - last)
                pos = [v for v in pos if v < ref.ts[-1] - 1e-9]
            if len(pos) >= 20:
                us = [(1 - math.exp(-rr * ref.cum(v))) / last for v in pos]
                p = gen.ks_p(us, lambda u: np.clip(u, 0, 1))
                check(p > 1e-9, 'predictions do not follow the law (p={}, risk ratio {})', p, rr)
    check(xs == keep, 'the covariates changed')
    bad = dict(js, Type='gompertz')
    try:
        CoxRegression({'Baseline': bad, 'Regressors': regs})
    except KeyError:
        pass
    else:
        check(False, 'an unknown baseline was accepted')
    return {'nontrivial': rr != 1, 'labels': [ref.k] + ['zeros'] * bool(c['zero'])}


FACETS = [Facet('survival', cases(), run, 1500, 25000)]
