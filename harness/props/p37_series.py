"""Time series, probability tables over time, Lee-Carter rates"""
import collections
import math
import pandas as pd
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P37'
RULE = ('generated series (times in any row order, uneven, negative), read at, between, before and after their times in every interpolation, against a plain '
        'look-up; probability tables over time also by the frequencies of 300 draws; non-trivial: rows out of order')

KINDS = ['nearest', 'linear', 'previous', 'next', None]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 7))
    ts = sorted(draw(st.lists(st.one_of(st.integers(-5, 30), st.integers(1990, 2030), st.integers(0, 40).map(lambda x: x / 4)), min_size=n, max_size=n, unique=True)))
    num = st.one_of(st.integers(-20, 20), st.floats(-10, 10).map(lambda x: round(x, 3)))
    order = draw(st.permutations(range(n)))
    return {'ts': ts, 'xs': [[draw(num) for _ in ts] for _ in range(2)], 'order': list(order), 'kind': draw(st.sampled_from(KINDS)),
            'ps': [[draw(st.sampled_from([0, 1, 2, 0.5, 5])) for _ in range(2)] + [draw(st.sampled_from([1, 0.25, 3]))] for _ in ts],
            'at': draw(st.lists(st.tuples(st.integers(-1, n), st.sampled_from([0, 0, 0.2, 0.4, 0.45, 0.55, 0.7, 0.9])).map(list), min_size=1, max_size=5)),
            'ages': [[a, draw(st.floats(-6, 0).map(lambda x: round(x, 3))), draw(st.sampled_from([0.1, 0.5, -0.2, 0]))] for a in draw(st.lists(st.sampled_from([0, 1, 5, 80]), min_size=1, max_size=3, unique=True))],
            'n': draw(st.sampled_from([0, 0, 0, 300])), 'idx': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6))}


def look(ts, xs, t, kind):
    if t <= ts[0]:
        return xs[0]
    if t >= ts[-1]:
        return xs[-1]
    i = max(j for j, s in enumerate(ts) if s <= t)
    if ts[i] == t:
        return xs[i]
    u = (t - ts[i]) / (ts[i + 1] - ts[i])
    if kind == 'linear':
        return xs[i] + u * (xs[i + 1] - xs[i])
    return {'nearest': xs[i] if u < 0.5 else xs[i + 1], 'previous': xs[i], 'next': xs[i + 1]}[kind or 'nearest']


def run(c):
    from sims_pars.data import TimeSeries, TimeSeriesVector, TimeSeriesProbabilityTable, LeeCarter
    ts, kind = c['ts'], c['kind']
    o = c['order']
    df = pd.DataFrame({'Year': [ts[i] for i in o], 'a': [c['xs'][0][i] for i in o], 'b': [c['xs'][1][i] for i in o],
                       'x': [c['ps'][i][0] for i in o], 'y': [c['ps'][i][1] for i in o], 'z': [c['ps'][i][2] for i in o]},
                      index=[10 + i for i in o] if c['idx'] else None)
    da = pd.DataFrame(c['ages'], columns=['Age', 'Alpha', 'Beta'])
    keep = df.copy(deep=True)
    kw = {} if kind is None else {'kind': kind}
    s = TimeSeries(df, 'Year', 'a', **kw)
    v = TimeSeriesVector(df, 'Year', ['b', 'a'], **kw)
    p = TimeSeriesProbabilityTable(df, 'Year', ['x', 'y', 'z'])
    lc = LeeCarter(df.rename(columns={'Year': 'Time', 'b': 'Kappa'}), da, **kw)
    lc2 = LeeCarter(df, da.rename(columns={'Age': 'g', 'Alpha': 'al', 'Beta': 'be'}), i_time='Year', i_age='g', i_al='al', i_be='be', i_ka='b', **kw)
    pts = []
    for i, u in c['at']:
        if i < 0:
            t = ts[0] - 1 - 10 * u
        elif i >= len(ts) - 1:
            t = ts[-1] + 10 * u
        else:
            t = ts[i] + u * (ts[i + 1] - ts[i])
        pts.append(t)
    pts += ts[:2]
    for t in pts:
        a, b = [look(ts, x, t, kind) for x in c['xs']]
        check(gen.close(s(t), a, 1e-9, 1e-9), '{} at {}: {} instead of {}', s, t, s(t), a)
        check(gen.close(s.sample(t=t), a, 1e-9, 1e-9) and [float(x) for x in s.sample(2, t=t)] == [float(s(t))] * 2, 'sampled series at {}', t)
        w = v(t)
        check(set(w) == {'a', 'b'} and gen.close(w['a'], a, 1e-9, 1e-9) and gen.close(w['b'], b, 1e-9, 1e-9), '{} at {}: {} instead of {}', v, t, w, {'a': a, 'b': b})
        for m in (lc, lc2):
            r = m(t)
            check(set(r) == {x[0] for x in c['ages']}, 'ages {}', sorted(r))
            for age, al, be in c['ages']:
                e = math.exp(al + be * b)
                check(gen.close(r[age], e, 1e-8) and gen.close(m.get_rate(t, age), e, 1e-8), 'rate at {} of age {}: {} instead of {}', t, age, r[age], e)
        ws = look(ts, c['ps'], t, 'nearest')
        tot = sum(ws)
        draws = [p(t) for _ in range(5)] + ([] if not c['n'] or t != pts[0] else p.sample(c['n'], t=t))
        cnt = collections.Counter(draws)
        gen.unrelated('{} at {}'.format(p, t), draws)
        for k, q in zip('xyz', ws):
            check(q > 0 or not cnt[k], '{} at {} gave {} of probability zero', p, t, k)
            check(gen.binom_p(cnt[k], len(draws), q / tot) > 1e-9, '{} at {} gave {} {} times out of {}, probability {}', p, t, k, cnt[k], len(draws), q / tot)
        check(set(cnt) <= set('xyz'), 'drew {}', cnt)
    check(df.equals(keep), 'the source data changed')
    return {'nontrivial': o != sorted(o), 'labels': [str(kind)] + ['outside'] * any(t < ts[0] or t > ts[-1] for t in pts)}


FACETS = [Facet('series', cases(), run, 1200, 25000)]
