"""Weighted resampling"""
import math
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P07'
RULE = ('weighted particles (log or linear weights over a wide range, with impossible and undefined ones) resampled, with or without paired '
        'parameters and a new size; non-trivial: two or more possible particles with unequal weights')


@st.composite
def cases(draw):
    n = draw(st.integers(1, 9))
    log = draw(st.booleans())
    base = draw(st.sampled_from([0, 0, -700, 5, -5000])) if log else 0
    ws = []
    for _ in range(n):
        w = draw(st.one_of(st.floats(-6, 3).map(lambda v: round(v, 3)), st.sampled_from(['-inf', 'nan', -40.0]) if log else st.floats(-6, 3).map(lambda v: round(v, 3))))
        ws.append(w if isinstance(w, str) else (w + base if log else round(math.exp(w), 6)))
    if not log:
        for i in range(n):
            if draw(st.integers(0, 5)) == 0:
                ws[i] = draw(st.sampled_from([0, 'nan']))
        scale = draw(st.sampled_from([1, 1, 1, 1e-7, 1e-200, 1e9]))
        ws = [w if isinstance(w, str) else w * scale for w in ws]
    if all(isinstance(w, str) or (w == 0 and not log) for w in ws):
        ws[0] = base if log else 1
    return {'w': ws, 'log': log, 'pars': draw(st.booleans()), 'size': draw(st.sampled_from([None, None, 1, 2, 50, 600])), 'arr': draw(st.booleans()),
            'seed': draw(st.integers(0, 10 ** 6))}


def run(c):
    from sims_pars.util import resample
    import numpy as np
    ws = [float(w) for w in c['w']]
    n = len(ws)
    hs = ['h{}'.format(i) for i in range(n)]
    pars = [{'i': i} for i in range(n)] if c['pars'] else None
    fin = [i for i in range(n) if math.isfinite(ws[i])]
    top = max(ws[i] for i in fin)
    raw = {i: math.exp(ws[i] - top) if c['log'] else ws[i] for i in fin}
    tot = sum(raw.values())
    prob = {i: raw[i] / tot for i in fin}
    wt = np.array(ws) if c['arr'] else list(ws)
    res = resample(wt, list(hs), pars=list(pars) if pars else None, log=c['log'], new_size=c['size'])
    check(all(a == b or (a != a and b != b) for a, b in zip(wt, ws)), 'the weights were changed to {}', wt)
    size = c['size'] or n
    if pars:
        out, ps, ev = res
        check(len(ps) == len(out), '{} particles with {} parameters', len(out), len(ps))
        for h, p in zip(out, ps):
            check(p is pars[hs.index(h)], 'particle {} came with the parameters of {}', h, p)
    else:
        out, ev = res
    check(len(out) == size, '{} particles instead of {}', len(out), size)
    for h in out:
        i = hs.index(h)
        check(i in prob and prob[i] > 0, 'impossible particle {} selected', h)
    if c['size'] is None:
        ref = (top + math.log(tot) if c['log'] else math.log(tot)) - math.log(n)
        check(gen.close(ev, ref, 1e-7, 1e-7), 'evidence {} instead of {}', ev, ref)
    # proportional to the weights
    k = 400
    cnt = dict.fromkeys(range(n), 0)
    for h in resample(list(ws), list(hs), log=c['log'], new_size=k)[0]:
        cnt[hs.index(h)] += 1
    for i in range(n):
        p = prob.get(i, 0)
        check(gen.binom_p(cnt[i], k, min(1, p)) > 1e-10, 'particle of probability {} selected {} times of {}', p, cnt[i], k)
    # few at a time
    for k in (2, 3):
        cnt = dict.fromkeys(range(n), 0)
        for _ in range(120):
            few = resample(list(ws), list(hs), log=c['log'], new_size=k)[0]
            check(len(few) == k, '{} particles instead of {}', len(few), k)
            for h in few:
                cnt[hs.index(h)] += 1
        for i in range(n):
            check(gen.binom_p(cnt[i], 120 * k, min(1, prob.get(i, 0))) > 1e-10, 'particle of probability {} selected {} times of {}, {} at a time', prob.get(i, 0), cnt[i], 120 * k, k)
    return {'nontrivial': len([i for i in fin if prob[i] > 0.01]) > 1 and max(prob.values()) - min(prob.values()) > 0.05,
            'labels': ['log' if c['log'] else 'linear', 'pars' if pars else 'alone', 'some impossible' if len(fin) < n else 'all possible']}


FACETS = [Facet('resample', cases(), run, 1500, 25000)]
