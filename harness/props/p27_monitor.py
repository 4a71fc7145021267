"""Records of a monitor over time"""
import logging
import math
import os
import tempfile
import pandas as pd
from hypothesis import strategies as st
from core import Facet, check

PROPERTY = 'P27'
RULE = ('generated histories of up to 14 operations on two monitors sharing a logger (keep, step, step to a time, backward step, reset, read) against lists '
        'of records; log files against the messages sent; non-trivial: two or more recorded steps')

KEYS = ['a', 'b', 'Size', 'x y']
vals = st.one_of(st.integers(-5, 100), st.sampled_from([0.5, -2.25, 'text', None, True]))
op = st.one_of(
    st.tuples(st.just('keep'), st.dictionaries(st.sampled_from(KEYS), vals, max_size=3)).map(list),
    st.tuples(st.just('step'), st.one_of(st.none(), st.integers(-4, 30), st.integers(0, 12).map(lambda x: x / 2))).map(list),
    st.tuples(st.just('forward'), st.one_of(st.integers(0, 3), st.just(0.5))).map(list),
    st.tuples(st.just('reset'), st.sampled_from([None, 0, 3, -2, 1.5])).map(list),
    st.tuples(st.just('read'), st.sampled_from(KEYS)).map(list),
)
cases = st.fixed_dictionaries({'ops': st.lists(st.tuples(st.integers(0, 1), op).map(list), min_size=1, max_size=14), 'save': st.booleans(),
                               'msgs': st.lists(st.tuples(st.sampled_from(['info', 'warning', 'error']), st.sampled_from(['hello', 'Round 1', 'x=3', '100 percent'])).map(list), max_size=5)})
count = [0]


def same(a, b):
    if b is None or (isinstance(b, float) and math.isnan(b)):
        return a is None or (isinstance(a, float) and math.isnan(a))
    return a == b


def run(c):
    from sims_pars.monitor import Monitor
    count[0] += 1
    title = 'vp{}-{}'.format(os.getpid(), count[0])
    ms = [Monitor(title, stream_handler=False), Monitor(title, stream_handler=False)]
    ref = [{'t': 0, 'last': {}, 'rec': []} for _ in ms]
    steps = 0
    labels = set()
    for i, (o, x) in c['ops']:
        m, r = ms[i], ref[i]
        if o == 'keep':
            m.keep(**x)
            r['last'].update(x)
        elif o in ('step', 'forward'):
            t = (r['t'] + 1 if x is None else x) if o == 'step' else r['t'] + x
            if t < r['t']:
                labels.add('backward')
                try:
                    m.step(t)
                except KeyError:
                    pass
                else:
                    check(False, 'stepped back from {} to {}', r['t'], t)
            else:
                (m.step() if x is None and o == 'step' else m.step(t))
                if t > r['t']:
                    r['rec'].append(dict(r['last'], Time=r['t']))
                    r['t'], r['last'] = t, {}
                    steps += 1
                else:
                    labels.add('same time')
        elif o == 'reset':
            labels.add('reset')
            m.reset() if x is None else m.reset(x)
            r.update(t=x or 0, last={}, rec=[])
        elif x in r['last']:
            check(m[x] == r['last'][x], 'read {}={} instead of {}', x, m[x], r['last'][x])
        else:
            try:
                v = m[x]
            except KeyError:
                pass
            else:
                check(False, 'read {}={}, which was not kept since the last step', x, v)
        for m, r in zip(ms, ref):
            check(m.Time == r['t'], 'time is {} instead of {}', m.Time, r['t'])
            check(m.Records == r['rec'], 'records {} instead of {}', m.Records, r['rec'])
            check(m.Title == title, 'title')
    for m, r in zip(ms, ref):
        if not r['rec']:
            continue
        df = m.Trajectories
        check(df.index.name == 'Time' and list(df.index) == [x['Time'] for x in r['rec']], 'trajectories at {} instead of {}', list(df.index), r['rec'])
        cols = set().union(*r['rec']) - {'Time'}
        check(set(df.columns) == cols, 'columns {} instead of {}', list(df.columns), cols)
        for k in cols:
            for v, x in zip(df[k].tolist(), r['rec']):
                check(same(v, x.get(k)), 'trajectory of {} has {} instead of {}', k, v, x.get(k))
        check(m.Records == r['rec'], 'reading the trajectories changed the records')
        if c['save']:
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 't.csv')
                m.save_trajectories(f)
                back = pd.read_csv(f)
                check([float(x) for x in back['Time']] == [float(x['Time']) for x in r['rec']] and set(back.columns) == cols | {'Time'}, 'saved {}', back)
    if c['msgs']:
        labels.add('log')
        logging.disable(logging.NOTSET)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'x.log')
            ms[0].Logger.propagate = False
            ms[0].set_log_path(f)
            for lv, s in c['msgs']:
                getattr(ms[0], lv)(s)
            for h in list(ms[0].Logger.handlers):
                h.close()
                ms[0].Logger.removeHandler(h)
            lines = [x for x in open(f).read().split('\n') if x]
            check(len(lines) == len(c['msgs']), 'log {} instead of {}', lines, c['msgs'])
            for line, (lv, s) in zip(lines, c['msgs']):
                check(line.endswith('{}: {}'.format(lv.upper(), s)), 'log line {!r} for {}', line, (lv, s))
    logging.disable(logging.CRITICAL)
    logging.Logger.manager.loggerDict.pop(title, None)
    return {'nontrivial': steps >= 2, 'labels': sorted(labels)}


FACETS = [Facet('history', cases, run, 2500, 60000)]
