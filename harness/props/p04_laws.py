"""Distributions written as text have the documented law"""
import math
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P04'
RULE = ('every family with generated valid parameters (numbers or variables, any spelling), compared with closed-form densities, moments and '
        'supports written independently, at points inside, on and outside the support; non-trivial: parameters are not all the defaults')


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(sorted(gen.LAW)))
    args = draw(gen.wide_args(fam))
    ref = gen.LAW[fam]
    txt = draw(gen.spellings(fam, args))
    varied = draw(st.booleans())
    env = {}
    if varied:
        env = {'p{}'.format(i): a for i, a in enumerate(args)}
        txt = '{}({})'.format(fam, ', '.join('p{}'.format(i) for i in range(len(args))))
        if draw(st.booleans()) and fam not in ('binom',):
            env['p0'] = args[0] - 1
            txt = txt.replace('p0', '(p0 + 1)', 1)
            args[0] = env['p0'] + 1
        if fam == 'triangle' and max(args) - min(args) < 1e-3:
            env['p2'] = args[2] = args[0] + 1
    us = draw(st.lists(st.floats(-0.3, 1.3), min_size=3, max_size=6))
    lo, hi = ref.support(*args)
    m, s = ref.mean(*args), ref.sd(*args)
    xs = []
    for u in us:
        if fam == 'lnorm':
            x = math.exp(math.exp(args[0]) + (u * 6 - 3) * math.exp(args[1])) if u > -0.1 else u
        elif lo == -gen.INF:
            x = m + s * (u * 8 - 4)
        elif hi == gen.INF:
            x = lo + (m - lo + s) * u * 2.5
        else:
            x = lo + (hi - lo) * u
        if ref.discrete and draw(st.integers(0, 9)):
            x = round(x)
        xs.append(round(x, 6))
    for b in (lo, hi):
        if abs(b) < gen.INF:
            xs += [b, b - 1, b + 1]
    return {'fam': fam, 'args': args, 'text': txt, 'env': env, 'xs': xs}


def run(c):
    from sims_pars.prob import parse_distribution
    import numpy as np
    fam, args, ref = c['fam'], c['args'], gen.LAW[c['fam']]
    env = dict(c['env'])
    d = parse_distribution(c['text'], loc=env)
    check(env == c['env'], 'reading {} changed the variables', c['text'])
    check(gen.close(d.mean(), ref.mean(*args), 1e-8), '{}: mean {} instead of {}', c['text'], d.mean(), ref.mean(*args))
    check(gen.close_sd(d.std(), ref.sd(*args), ref.mean(*args)), '{}: sd {} instead of {}', c['text'], d.std(), ref.sd(*args))
    lo, hi = ref.support(*args)
    check(gen.close(d.Lower, lo) and gen.close(d.Upper, hi) and gen.close(d.Interval[0], lo) and gen.close(d.Interval[1], hi),
          '{}: support {} instead of {}', c['text'], d.Interval, (lo, hi))
    check(d.Type == ('Integer' if ref.discrete else 'Double') or fam == 'k', '{}: type {}', c['text'], d.Type)
    n = 0
    outside = 0
    for x in c['xs']:
        if not ref.discrete and fam != 'k' and any(abs(x - b) <= 1e-9 * (1 + abs(b)) for b in (lo, hi) if abs(b) < gen.INF):
            continue  # densities on the boundary are conventional
        r = ref.logpdf(x, *args)
        if r == -gen.INF:
            outside += 1
        for v in (x, np.float64(x)):
            p = d.logpdf(v)
            check(gen.close(p, r, 1e-7, 1e-7), '{}: log density {} at {} instead of {}', c['text'], p, x, r)
        n += 1
    check(str(d) == repr(d) and repr(d.source) == repr(d), '{}: shown as {}', c['text'], d)
    again = parse_distribution(d.source, loc=env)
    check(again.source == d.source and again.mean() == d.mean() and again.std() == d.std(), '{}: its source {} is another law', c['text'], d.source)
    js = d.to_json()['Args']
    for nme, a in zip(ref.names, args):
        check(gen.close(js[nme], a), '{}: json says {}={}', c['text'], nme, js[nme])
    return {'nontrivial': any(a != b for a, b in zip(args, ref.defaults)) and n > 0, 'labels': [fam, 'outside' if outside else 'inside', 'variables' if env else 'numbers']}


@st.composite
def cat_cases(draw):
    kv = draw(gen.cats())
    return {'kv': kv, 'by': draw(st.booleans()), 'obs': draw(st.lists(st.sampled_from(sorted(kv)), min_size=1, max_size=6))}


def run_cat(c):
    from sims_pars.prob import parse_distribution
    kv = c['kv']
    keys = list(kv)
    env = {'w{}'.format(i): kv[k] for i, k in enumerate(keys)} if c['by'] else {}
    txt = 'cat({{{}}})'.format(', '.join('"{}": {}'.format(k, 'w{}'.format(i) if c['by'] else kv[k]) for i, k in enumerate(keys)))
    d = parse_distribution(txt, loc=env)
    tot = sum(kv.values())
    check(d.Type == 'Category', 'type {}', d.Type)
    for k in keys:
        check(gen.close(d.logpdf(k), math.log(kv[k] / tot)), '{}: log mass {} of {}', txt, d.logpdf(k), k)
        check(gen.close(d.logpdf({k: 3}), 3 * math.log(kv[k] / tot)), '{}: log mass {} of three {}', txt, d.logpdf({k: 3}), k)
    check(d.logpdf('nobody') == -gen.INF, '{}: log mass {} of an unknown category', txt, d.logpdf('nobody'))
    obs = {k: c['obs'].count(k) for k in set(c['obs'])}
    check(gen.close(d.logpdf(obs), sum(n * math.log(kv[k] / tot) for k, n in obs.items())), '{}: log mass {} of {}', txt, d.logpdf(obs), obs)
    check(set(d.sample(30)) <= set(keys) and d.sample() in kv, '{}: draws out of the categories', txt)
    return {'nontrivial': len(keys) > 1, 'labels': ['cat{}'.format(len(keys))]}


FACETS = [Facet('laws', cases(), run, 3000, 60000), Facet('categories', cat_cases(), run_cat, 600, 8000)]
