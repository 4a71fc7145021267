"""Targets of a calibration"""
import math
from hypothesis import strategies as st
from core import Facet, check, Discard
import gen

PROPERTY = 'P29'
RULE = ('generated sets of targets of every kind (number, estimate with error, estimate with range, distribution as text, target object) and simulated values: '
        'kind, value, variance, distance and likelihood against reference formulas; malformed targets are refused; non-trivial: two or more kinds in a set')

num = st.one_of(st.integers(-50, 200), st.floats(-100, 100).map(lambda x: round(x, 3))).filter(lambda x: abs(x) > 1e-3)
err = st.sampled_from([0.1, 0.05, 0.5, 1, 2.5])


@st.composite
def spec(draw):
    k = draw(st.sampled_from(['num', 'm', 'me', 'mlu', 'dist', 'dist', 'obj', 'bad']))
    if k in ('num', 'm'):
        return [k, draw(num)]
    if k == 'me':
        return [k, draw(num), draw(err)]
    if k == 'mlu':
        m = draw(st.one_of(num, st.just(0)))
        return [k, m, m - draw(st.sampled_from([0.1, 1, 3, 0.004])), m + draw(st.sampled_from([0.1, 2, 0.5]))]
    if k == 'obj':
        return [k, draw(st.sampled_from(['error', 'range', 'other'])), draw(num), draw(err)]
    if k == 'bad':
        return [k, draw(st.sampled_from([[], [1, 2], {'x': 1}, {'l': 0, 'u': 1}, None, {'m': 1, 'l': 2, 'u': 3}, {'m': 1, 'l': 0, 'u': 1}, {'m': 4, 'l': 2, 'u': 3}]))]
    fam = draw(st.sampled_from([f for f in sorted(gen.LAW) if f not in ('k', 'lnorm', 'invgamma')]))
    return [k, fam, draw(gen.law_args(fam))]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    return {'np': draw(st.integers(0, 3)) == 0, 'err': draw(st.one_of(st.none(), err)), 'specs': [draw(spec()) for _ in range(n)], 'us': [draw(st.lists(st.sampled_from([-1.5, -0.2, 0, 0.3, 0.5, 0.61, 0.9, 1, 1.3, 4]), min_size=2, max_size=4)) for _ in range(n)]}


def run(c):
    from sims_pars.fit.targets import read_targets, AbsData
    from sims_pars.fit.targets.single import DataPointError, DataPointRange
    from sims_pars.prob import parse_distribution

    class Other(AbsData):
        def get_var_obs(self):
            return 4.0

        def calc_distance(self, sim):
            return abs(sim[self.Name] - self.Value)

        def calc_likelihood(self, sim):
            return -abs(sim[self.Name] - self.Value)

    src, objs = {}, {}
    for i, s in enumerate(c['specs']):
        nm = 'T{}'.format(i)
        k = s[0]
        if k == 'num':
            src[nm] = gen.npy({0: s[1]}, c['np'])[0]
        elif k == 'm':
            src[nm] = gen.npy({'m': s[1]}, c['np'])
        elif k == 'me':
            src[nm] = gen.npy({'m': s[1], 'error': s[2]}, c['np'])
        elif k == 'mlu':
            src[nm] = gen.npy({'m': s[1], 'l': s[2], 'u': s[3]}, c['np'])
        elif k == 'dist':
            src[nm] = '{}({})'.format(s[1], ', '.join(gen.num_text(a) for a in s[2]))
        elif k == 'obj':
            objs[nm] = src[nm] = {'error': lambda: DataPointError(nm, s[2], s[3]), 'range': lambda: DataPointRange(nm, s[2], s[2] - 1, s[2] + s[3]),
                                  'other': lambda: Other(nm, s[2])}[s[1]]()
        else:
            try:
                read_targets({nm: s[1]})
            except (ValueError, AssertionError):
                pass
            else:
                check(False, 'accepted {}', s[1])
            full = dict(src)
            full[nm] = s[1]
            try:
                read_targets(full)
            except (ValueError, AssertionError):
                continue
            check(False, 'accepted {} among others', s[1])
    keep = dict(src)
    tg = read_targets(src) if c['err'] is None else read_targets(src, error=c['err'])
    check(src == keep, 'reading changed the source')
    for n, s in zip(range(len(c['specs'])), c['specs']):
        if s[0] == 'me':
            sure = read_targets({'T': {'m': s[1], 'error': 0}}, **({} if c['err'] is None else {'error': c['err']}))['T']
            check(sure.Value == s[1] and sure.get_var_obs() == 0, 'no error of its own: variance {}', sure.get_var_obs())
    check(list(tg) == list(src), 'targets {} instead of {}', list(tg), list(src))
    z = 1.96
    kinds = set()
    for i, s in enumerate(c['specs']):
        nm = 'T{}'.format(i)
        if s[0] == 'bad':
            continue
        t = tg[nm]
        kinds.add(s[0])
        check(t.Name == nm, 'target {} is named {}', nm, t.Name)
        if nm in objs:
            check(t is objs[nm], 'target object replaced')
        if s[0] in ('num', 'm', 'me') or s[:2] == ['obj', 'error']:
            m = s[2] if s[0] == 'obj' else s[1]
            e = s[3] if s[0] == 'obj' else s[2] if s[0] == 'me' else 0.1 if c['err'] is None else c['err']
            sd = e * abs(m) / 2 / z
            var, xs = sd ** 2, [m + (u - 0.5) * sd * 4 for u in c['us'][i]] + [m, -m]
            dis, lik = (lambda x: (x - m) ** 2 / sd), None
        elif s[0] == 'mlu' or s[:2] == ['obj', 'range']:
            m, lo, hi = s[1:] if s[0] == 'mlu' else (s[2], s[2] - 1, s[2] + s[3])
            sd = (hi - lo) / 2 / z
            var, xs = sd ** 2, [lo + u * (hi - lo) for u in c['us'][i]] + [m, lo, hi]
            dis, lik = (lambda x: (x - m) ** 2 / sd), None
        elif s[0] == 'obj':
            m, var, xs = s[2], 4.0, [s[2], s[2] + 1.5]
            dis, lik = (lambda x: abs(x - m)), (lambda x: -abs(x - m))
        else:
            law = gen.LAW[s[1]]
            m, sd = law.mean(*s[2]), law.sd(*s[2])
            var = sd ** 2
            xs = [m + (u - 0.5) * sd * 3 for u in c['us'][i]]
            if law.discrete:
                xs = [round(x) for x in xs] + [xs[0]]
            lik = lambda x: law.logpdf(x, *s[2])
            dis = lambda x: -law.logpdf(x, *s[2])
            a, b = law.support(*s[2])
            xs = [x for x in xs if all(abs(x - q) > 1e-9 * (1 + abs(x)) for q in (a, b)) or law.discrete]
        check(gen.close(t.Value, m, 1e-9), '{}: value {} instead of {}', src[nm], t.Value, m)
        check(gen.close(t.get_var_obs(), var, 1e-7, 1e-12), '{}: variance {} instead of {}', src[nm], t.get_var_obs(), var)
        v, w = t.ev()
        check(v == t.Value and w == t.get_var_obs() and tuple(t.ev()) == (v, w), '{}: value and variance {}', src[nm], (v, w))
        for x in xs:
            sim = {nm: x, 'T_other': 1e9, 'T9': -1e9}
            d = t.calc_distance(sim)
            check(gen.close(d, dis(x), 1e-7, 1e-7), '{}: distance {} of {} instead of {}', src[nm], d, x, dis(x))
            if lik:
                check(gen.close(t.calc_likelihood(sim), lik(x), 1e-7, 1e-7), '{}: log likelihood {} of {} instead of {}', src[nm], t.calc_likelihood(sim), x, lik(x))
            else:
                check(d >= 0 and (d == 0) == (x == m), '{}: distance {} of {}', src[nm], d, x)
                try:
                    t.calc_likelihood(sim)
                except AttributeError:
                    pass
                else:
                    check(False, '{}: a likelihood without a distribution', src[nm])
        check(str(t) == repr(t), 'text')
    return {'nontrivial': len(kinds) > 1, 'labels': sorted(kinds)}


FACETS = [Facet('targets', cases(), run, 2500, 60000)]
