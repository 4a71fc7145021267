"""Regression models"""
import collections
import math
import numpy as np
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P38'
RULE = ('generated linear, logistic, Poisson and multinomial models over boolean, continuous and categorical regressors, and generated covariates (with unrelated '
        'ones): expectation, sampler and predictions against formulas, law of 400 predictions; non-trivial: two or more kinds of regressors')

coef = st.one_of(st.floats(-2, 2).map(lambda x: round(x, 3)), st.integers(-2, 2))


@st.composite
def terms(draw, names):
    out = []
    for n in names:
        tp = draw(st.sampled_from(['Boolean', 'Continuous', 'Categorical']))
        if tp == 'Categorical':
            k = draw(st.integers(1, 4))
            ref = draw(st.integers(0, k - 1))
            base = draw(st.sampled_from([0, 0, 0.5, -1]))
            vs = [base if i == ref else draw(coef) for i in range(k)]
            out.append({'Name': n, 'Type': tp, 'Values': vs, 'Labels': ['L{}'.format(i) for i in range(k)], 'Ref': 'L{}'.format(ref)})
        else:
            out.append({'Name': n, 'Type': tp, 'Value': draw(coef)})
    num = [r['Name'] for r in out if r['Type'] != 'Categorical']
    if num and draw(st.integers(0, 4)) == 0:
        # several terms of one covariate
        out.insert(draw(st.integers(0, len(out))), {'Name': draw(st.sampled_from(num)), 'Type': draw(st.sampled_from(['Boolean', 'Continuous'])), 'Value': draw(coef)})
    return out


@st.composite
def covariates(draw, regs):
    out = {'unrelated': 99}
    for r in regs:
        if r['Type'] == 'Boolean':
            out[r['Name']] = draw(st.sampled_from([True, False, True, False, 1, 0, 3, 0.5, -1]))
        elif r['Type'] == 'Continuous':
            out[r['Name']] = draw(st.floats(-2, 2).map(lambda x: round(x, 3)))
        else:
            out[r['Name']] = draw(st.integers(0, len(r['Values']) - 1))
    return out


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(['Age', 'Male', 'x1', 'BMI', 'Region']), max_size=4, unique=True))
    kind = draw(st.sampled_from(['linear', 'logistic', 'poisson', 'multi']))
    regs = draw(terms(names))
    c = {'kind': kind, 'regs': regs, 'b0': draw(coef), 'xs': [draw(covariates(regs)) for _ in range(draw(st.integers(1, 3)))],
         'n': draw(st.sampled_from([0, 0, 0, 400])), 'se': draw(st.sampled_from([1, 0.1, 2.5])), 'offset': draw(st.sampled_from([None, 0, 0.5, -1])), 'seed': draw(st.integers(0, 10 ** 6))}
    if kind != 'multi':
        c['b0'] += draw(st.sampled_from([0, 0, -8, 4 if kind == 'poisson' else 8, -35]))
    if kind == 'multi':
        k = draw(st.integers(1, 4))
        far = draw(st.sampled_from([0, 0, -10, -25, 12]))
        c['b0s'] = [draw(coef) + far + draw(st.sampled_from([0, 0, -4, 3])) for _ in range(k)]
        c['values'] = []
        for _ in range(k):
            c['values'].append([[0 if v == 0 else draw(coef) for v in r['Values']] if r['Type'] == 'Categorical' else draw(coef) for r in regs])
        c['labels'] = draw(st.sampled_from([None, ['A', 'B', 'C', 'D'], ['f', 'M', 'c', 'B']]))
    return c


def lp(regs, xs):
    t = 0
    for r in regs:
        v = xs[r['Name']]
        t += (r['Value'] if v else 0) if r['Type'] == 'Boolean' else r['Value'] * v if r['Type'] == 'Continuous' else r['Values'][v]
    return t


def logistic(x):
    return 1 / (1 + math.exp(-x))


def run(c):
    import scipy.stats as sts
    from sims_pars.data import LinearRegression, LogisticRegression, PoissonRegression, MultinomialLogisticRegression, LinearCombination
    regs, kind = c['regs'], c['kind']
    comb = LinearCombination(regs)
    check(comb.list_regressors() == [r['Name'] for r in regs], 'regressors {}', comb.list_regressors())
    for r, x in zip(regs, comb.Regressors):
        js = x.to_json()
        check(js['Name'] == r['Name'] and js['Type'] == r['Type'] and LinearCombination([js]).predict(c['xs'][0]) == lp([r], c['xs'][0]), 'regressor {} read back from {}', r, js)
    labels = None
    if kind == 'linear':
        m = LinearRegression({'Intercept': c['b0'], 'SE': c['se'], 'Regressors': regs})
    elif kind == 'logistic':
        m = LogisticRegression({'Intercept': c['b0'], 'Regressors': regs})
    elif kind == 'poisson':
        js = {'Intercept': c['b0'], 'Regressors': regs}
        m = PoissonRegression(js) if c['offset'] is None else PoissonRegression(js, offset=c['offset'])
    else:
        each = []
        for vals in c['values']:
            each.append([dict(r, **({'Values': v} if r['Type'] == 'Categorical' else {'Value': v})) for r, v in zip(regs, vals)])
        js = {'Intercepts': c['b0s'], 'Regressions': each}
        labels = [str(i) for i in range(len(each))]
        if c['labels']:
            labels = js['Labels'] = c['labels'][:len(each)]
        m = MultinomialLogisticRegression(js)
    check(m.get_variable_type() == {'linear': 'Double', 'multi': 'Category'}.get(kind, 'Integer'), 'variable type {}', m.get_variable_type())
    for i, xs in enumerate(c['xs']):
        keep = dict(xs)
        check(gen.close(comb.predict(xs), lp(regs, xs), 1e-9, 1e-9), 'linear combination {} instead of {}', comb.predict(xs), lp(regs, xs))
        e = m.expectation(xs)
        sam = m.get_sampler(xs)
        n = c['n'] if i == 0 else 0
        if kind == 'multi':
            ps = [logistic(lp(rs, xs) + b) for rs, b in zip(each, c['b0s'])]
            ps = [p / sum(ps) for p in ps]
            check(len(e) == len(ps) and all(gen.close(a, b, 1e-9) for a, b in zip(e, ps)), 'expectation {} instead of {}', e, ps)
            for l, p in zip(labels, ps):
                check(gen.close(sam.logpdf(l), math.log(p), 1e-8, 1e-8), 'sampler: log probability of {} is {} instead of {}', l, sam.logpdf(l), math.log(p))
            check(sam.logpdf('nothing') == -gen.INF, 'sampler knows a label that is not there')
            for draws in ([sam.sample() for _ in range(3)] + (list(sam.sample(n)) if n else []), [np.atleast_1d(m.predict(xs))[0] for _ in range(n or 3)]):
                cnt = collections.Counter(draws)
                gen.unrelated('draws', draws)
                check(set(cnt) <= set(labels), 'drew {}', cnt)
                for l, p in zip(labels, ps):
                    check(gen.binom_p(cnt[l], len(draws), min(1, p)) > 1e-9, 'drew {} {} times out of {}, probability {}', l, cnt[l], len(draws), p)
        else:
            t = lp(regs, xs) + c['b0']
            if kind == 'linear':
                r, law = t, sts.norm(t, c['se'])
                pts = [t, t + c['se'], t - 2]
            elif kind == 'logistic':
                r = logistic(t)
                law, pts = sts.bernoulli(r), [0, 1, 2]
            else:
                r = math.exp(t + (c['offset'] or 0))
                law, pts = sts.poisson(r), [0, 1, 5]
            check(gen.close(e, r, 1e-9, 1e-9 if kind == 'linear' else 1e-300), 'expectation {} instead of {} at {}', e, r, xs)
            check(gen.close(sam.mean(), r, 1e-8, 1e-9) and gen.close(sam.std(), law.std(), 1e-7, 1e-9), 'sampler with mean {} and sd {} instead of {} and {}', sam.mean(), sam.std(), r, law.std())
            for x in pts:
                d = law.logpdf(x) if kind == 'linear' else law.logpmf(x)
                check(gen.close(sam.logpdf(x), d, 1e-7, 1e-7), 'log density {} of {} instead of {}', sam.logpdf(x), x, d)
            for draws in ([sam.sample() for _ in range(2)] + (list(sam.sample(n)) if n else []), [m.predict(xs) for _ in range(n or 2)]):
                draws = [float(d) for d in draws]
                gen.unrelated('draws', draws)
                if kind == 'linear':
                    check(n == 0 or gen.ks_p(draws, law.cdf) > 1e-9, 'predictions do not follow the normal law')
                else:
                    check(all(d == int(d) and law.pmf(d) > 0 for d in draws), 'predicted {}', draws[:5])
                    if n:
                        for q in {int(r), int(r) + 1, 0}:
                            k = sum(d <= q for d in draws)
                            check(gen.binom_p(k, len(draws), min(1.0, float(law.cdf(q)))) > 1e-9, '{} of {} predictions up to {}, probability {}', k, len(draws), q, law.cdf(q))
            if kind == 'linear':
                check(len(m.predict(xs, 7)) == 7, 'seven predictions')
        check(xs == keep, 'the covariates changed')
        other = dict(xs, unrelated=-5, more=1)
        check(np.all(m.expectation(other) == e), 'an unrelated covariate changed the expectation')
        for r in regs:
            low = {k: v for k, v in xs.items() if k != r['Name']}
            try:
                m.expectation(low)
            except KeyError:
                pass
            else:
                check(False, 'no need for {}', r['Name'])
    return {'nontrivial': len({r['Type'] for r in regs}) > 1, 'labels': [kind]}


FACETS = [Facet('regression', cases(), run, 900, 20000)]
