"""Conditional probability tables and transition matrices"""
import collections
import math
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P36'
RULE = ('generated tables over 1-3 indices (text or numbers, unnormalised and zero weights, shuffled, missing and repeated rows) with histories of conditioning and '
        'marginalising, against a dictionary of weights: cells, probabilities, frequencies of 400 draws; generated transition matrices likewise; '
        'non-trivial: a table of two or more indices that is conditioned or marginalised')

LEVELS = {'sex': ['F', 'M'], 'age': [1, 2, 30], 'reg': ['north', 'south', 'x y', ''], 'edu': ['a', 'b'], 'f': [0.5, 1.5, 0.0], 'k': [0, 1, 2], 'ok': [False, True],
          'u': ['1', '11', '2', '12'], 'w': ['1', '12', '2', '-'], 'v1': ['a', 'a:b', 'a:', 'a\\'], 'v2': ['c', 'b:c', ':c', 'c\\:']}


@st.composite
def cases(draw):
    ix = draw(st.lists(st.sampled_from(sorted(LEVELS)), min_size=1, max_size=3, unique=True))
    cells = [[]]
    for x in ix:
        cells = [c + [v] for c in cells for v in LEVELS[x]]
    cells = draw(st.permutations(cells))
    rows = [c + [draw(st.sampled_from([1, 2, 0.5, 0.1, 7, 30, 0]))] for c in cells if draw(st.integers(0, 9))]
    if not any(r[-1] for r in rows):
        rows = [list(cells[0]) + [1]]
    # several rows of one cell
    for i in draw(st.lists(st.integers(0, 99), max_size=draw(st.sampled_from([0, 0, 0, 3])))):
        rows.insert(i % (len(rows) + 1), rows[i % len(rows)][:-1] + [draw(st.sampled_from([1, 2, 0.5, 7, 0]))])
    ops = draw(st.lists(st.tuples(st.sampled_from(['marg', 'cond']), st.integers(0, 9), st.integers(0, 9)).map(list), max_size=3))
    return {'ix': ix, 'rows': rows, 'ops': ops, 'n': draw(st.sampled_from([0, 0, 0, 400])), 'int': draw(st.booleans()), 'pname': draw(st.sampled_from(['Prob', 'n'])),
            'seed': draw(st.integers(0, 10 ** 6))}


def compare(t, ref, ix, c, what):
    """ref: tuple of levels -> weight"""
    tot = sum(ref.values())
    check(list(t.Indices) == list(ix), '{}: indices {} instead of {}', what, t.Indices, ix)
    got = {}
    for k, grp in t.Groups.items():
        check(set(grp) == set(ix), '{}: cell {}', what, grp)
        key = tuple(grp[x] for x in ix)
        check(key not in got, '{}: two cells {}', what, key)
        got[key] = t.InvGroups[k]
    check(set(got) == set(ref), '{}: cells {} instead of {}', what, sorted(map(str, got)), sorted(map(str, ref)))
    for k, p in got.items():
        check(gen.close(p, ref[k] / tot, 1e-9, 1e-12), '{}: probability of {} is {} instead of {}', what, k, p, ref[k] / tot)
    n = c['n'] or 3
    draws = [t() for _ in range(2)] + t.sample(n - 2) if n > 3 else [t(), t.sample()] + t.sample(2)
    cnt = collections.Counter(tuple(d[x] for x in ix) for d in draws)
    for k, v in cnt.items():
        check(ref.get(k, 0) > 0, '{}: drew {}', what, k)
    cnt0, sole = [str(d) for d in draws], draws[0]
    for x in list(sole):
        sole[x] = 'changed'
    sole['more'] = 0
    check([str(d) for d in draws[1:]] == cnt0[1:], '{}: changing one draw changes others', what)
    if n > 3:
        gen.unrelated(what, cnt0)
        for k, w in ref.items():
            check(gen.binom_p(cnt[k], len(draws), w / tot) > 1e-9, '{}: drew {} {} times out of {}, probability {}', what, k, cnt[k], len(draws), w / tot)


def run(c):
    from sims_pars.data import ConditionalProbabilityTable
    ix, pn = list(c['ix']), c['pname']
    df = pd.DataFrame([dict(zip(ix + [pn], r)) for r in c['rows']])
    if c['int'] and all(r[-1] == int(r[-1]) for r in c['rows']):
        df[pn] = df[pn].astype(int)
    else:
        df[pn] = df[pn].astype(float)
    keep = df.copy(deep=True)
    ref = {}
    for r in c['rows']:
        ref[tuple(r[:-1])] = ref.get(tuple(r[:-1]), 0) + r[-1]
    t = ConditionalProbabilityTable(df, ix, pn)
    compare(t, ref, ix, c, 'table')
    done = 0
    for o, i, j in c['ops']:
        x = ix[i % len(ix)]
        if o == 'marg':
            if len(ix) == 1:
                continue
            t2 = t.marginalise(x)
            k = ix.index(x)
            ix2 = [y for y in ix if y != x]
            ref2 = collections.defaultdict(float)
            for key, w in ref.items():
                ref2[key[:k] + key[k + 1:]] += w
            ref2 = dict(ref2)
        else:
            cond = {}
            for y in ([x] if j % 3 == 1 else sorted({x, ix[0]}) if j % 3 == 2 else list(ix)[:1 + j // 3] if len(ix) > 1 else [x]):
                vals = sorted({key[ix.index(y)] for key, w in ref.items() if w and all(key[ix.index(a)] == b for a, b in cond.items())}, key=str)
                cond[y] = vals[j % len(vals)]
                if isinstance(cond[y], (int, float)) and j % 2:
                    # the same value as another type
                    cond[y] = float(cond[y]) if isinstance(cond[y], int) else int(cond[y]) if cond[y] == int(cond[y]) else np.float64(cond[y])
            t2 = t.condition(**cond)
            ix2 = [y for y in ix if y not in cond]
            ref2 = {tuple(v for y, v in zip(ix, key) if y not in cond): w for key, w in ref.items() if all(key[ix.index(y)] == v for y, v in cond.items())}
        done += 1
        compare(t2, ref2, ix2, c, '{} on {}'.format(o, x))
        compare(t, ref, ix, dict(c, n=0), 'table after {}'.format(o))
        t, ix, ref = t2, ix2, ref2
        if not ix:
            break
    check(df.equals(keep), 'the source data changed')
    return {'nontrivial': done > 0 and len(c['ix']) > 1, 'labels': [o[0] for o in c['ops']]}


@st.composite
def matrices(draw):
    pool = draw(st.sampled_from([['S', 'I', 'R', 'D', 'E'], ['S', 'I', 'R', 'D', 'E'], [0, 1, 2, 3, 10]]))
    fr = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
    to = fr if draw(st.booleans()) else draw(st.lists(st.sampled_from(['S', 'I', 'R', 'X']), min_size=1, max_size=4, unique=True))
    rows = []
    for _ in fr:
        r = [draw(st.sampled_from([0, 0, 1, 0.5, 3, 0.25, 20])) for _ in to]
        if not any(r):
            r[draw(st.integers(0, len(to) - 1))] = 1
        rows.append(r)
    return {'fr': fr, 'to': list(to), 'rows': rows, 'cur': draw(st.lists(st.sampled_from(fr), min_size=0, max_size=6)), 'n': draw(st.sampled_from([0, 300])),
            'seed': draw(st.integers(0, 10 ** 6))}


def run_matrix(c):
    from sims_pars.data import TransitionMatrix
    df = pd.DataFrame(c['rows'], index=c['fr'], columns=c['to'])
    keep = df.copy(deep=True)
    t = TransitionMatrix(df)
    check(list(t.StateFrom) == c['fr'] and list(t.StateTo) == c['to'], 'states {} to {}', t.StateFrom, t.StateTo)
    for k, r in zip(c['fr'], c['rows']):
        tot = sum(r)
        for s, w in zip(c['to'], r):
            lp = t[k].logpdf(s)
            check(gen.close(lp, math.log(w / tot) if w else -gen.INF, 1e-9, 1e-12), 'log probability of {} -> {} is {} instead of {}', k, s, lp, w / tot)
        draws = [t(k), t(current=k), t.sample_next(k), t.sample(current=k), t[k]()] + t.sample(2, current=k) + (t.sample(c['n'], current=k) if c['n'] else [])
        cnt = collections.Counter(draws)
        check(all(s in c['to'] and r[c['to'].index(s)] > 0 for s in cnt), 'from {} to {}', k, dict(cnt))
        gen.unrelated('from {}'.format(k), draws)
        if c['n']:
            many = t.sample(currents=[k] * c['n'])
            check(len(many) == c['n'], '{} next states for {}', len(many), c['n'])
            gen.unrelated('from many {}'.format(k), many)
            draws, cnt = draws + many, cnt + collections.Counter(many)
        for s, w in zip(c['to'], r):
            check(gen.binom_p(cnt[s], len(draws), min(1, w / tot)) > 1e-9, 'from {} to {} {} times out of {}, probability {}', k, s, cnt[s], len(draws), w / tot)
    out = t.sample(currents=c['cur'])
    check(len(out) == len(c['cur']), '{} next states for {}', len(out), c['cur'])
    if c['n']:
        # many mixed states: every one follows the row of its own
        cur = [c['fr'][(i * 7 + c['seed']) % len(c['fr'])] for i in range(c['n'])]
        mixed = t.sample(currents=cur)
        for k, r in zip(c['fr'], c['rows']):
            mine = [s for f, s in zip(cur, mixed) if f == k]
            for s, w in zip(c['to'], r):
                check(gen.binom_p(mine.count(s), len(mine), min(1, w / sum(r))) > 1e-9, 'among many, from {} to {} {} times out of {}', k, s, mine.count(s), len(mine))
    for k, s in zip(c['cur'], out):
        check(s in c['to'] and c['rows'][c['fr'].index(k)][c['to'].index(s)] > 0, 'from {} to {}', k, s)
    for f in (lambda: t['nowhere'], lambda: t('nowhere'), lambda: t[99], lambda: t(0.5), lambda: t['1'], lambda: t[None]):
        try:
            f()
        except KeyError:
            pass
        else:
            check(False, 'left an unknown state')
    check(df.equals(keep), 'the source data changed')
    return {'nontrivial': len(c['fr']) > 1, 'labels': ['law'] * bool(c['n'])}


FACETS = [Facet('table', cases(), run, 700, 15000), Facet('matrix', matrices(), run_matrix, 500, 10000)]
