"""Draws follow the density of the distribution"""
import math
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P05'
RULE = ('families with generated valid parameters and a random seed: 400 draws (20,000 for one case out of four) in one call and 60 one by one, checked against the support and tested '
        'against the reference law (goodness of fit, alarm at p < 1e-9); non-trivial: the law is not degenerate')
ALPHA = 1e-9


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(sorted(gen.LAW) + ['cat', 'cat']))
    many = draw(st.sampled_from([0, 0, 0, 20000]))   # many enough to see what is rare
    if fam == 'cat':
        kv = draw(gen.cats())
        if many:
            for k in draw(st.lists(st.sampled_from(sorted(kv)), max_size=2, unique=True)):
                kv[k] = draw(st.sampled_from([0.003, 0.01, 0.02])) * max(kv.values())
        return {'fam': fam, 'kv': kv, 'many': many, 'seed': draw(st.integers(0, 10 ** 6))}
    args = draw(gen.wide_args(fam))
    if fam in ('beta', 'gamma', 'chisq'):
        # floating point cannot tell draws from the bounds for smaller shapes
        args = [max(a, 0.3) for a in args]
    return {'fam': fam, 'args': args, 'many': many, 'seed': draw(st.integers(0, 10 ** 6))}


def ref_law(fam, a):
    import scipy.stats as sts
    return {'gamma': lambda: sts.gamma(a[0], scale=1 / a[1]), 'exp': lambda: sts.expon(scale=1 / a[0]),
            'lnorm': lambda: sts.lognorm(s=math.exp(a[1]), scale=math.exp(math.exp(a[0]))), 'unif': lambda: sts.uniform(a[0], a[1] - a[0]),
            'chisq': lambda: sts.chi2(a[0]), 'beta': lambda: sts.beta(a[0], a[1]), 'invgamma': lambda: sts.invgamma(a[0], scale=1 / a[1]),
            'norm': lambda: sts.norm(a[0], a[1]), 'binom': lambda: sts.binom(a[0], a[1]), 'pois': lambda: sts.poisson(a[0]),
            'triangle': lambda: sts.triang(c=(sorted(a)[1] - min(a)) / (max(a) - min(a)), loc=min(a), scale=max(a) - min(a))}[fam]()


def run(c):
    from sims_pars.prob import parse_distribution
    import numpy as np
    fam = c['fam']
    if fam == 'cat':
        kv = c['kv']
        d = parse_distribution('cat({!r})'.format(kv))
        xs = list(d.sample(400))
        ys = [d.sample() for _ in range(60)]
        zs = list(d.sample(c['many'])) if c['many'] else []
        for x in xs + ys:
            check(x in kv, 'drew {}', x)
        tot = sum(kv.values())
        for k in kv:
            for s in (xs, ys, zs):
                if not s:
                    continue
                p = gen.binom_p(sum(1 for x in s if x == k), len(s), min(1, kv[k] / tot))
                check(p > ALPHA, 'cat({}): {} out of {} draws are {}', kv, sum(1 for x in s if x == k), len(s), k)
        gen.unrelated('cat({})'.format(kv), xs, ys)
        return {'nontrivial': len(kv) > 1, 'labels': [fam]}
    args, ref = c['args'], gen.LAW[fam]
    txt = '{}({})'.format(fam, ', '.join(map(repr, args)))
    d = parse_distribution(txt)
    xs = d.sample(400)
    zs = list(d.sample(c['many'])) if c['many'] else []
    check(len(xs) == 400, '{} gave {} draws', txt, len(xs))
    ys = [d.sample() for _ in range(40)] + [d() for _ in range(20)]
    lo, hi = ref.support(*args)
    for x in list(xs) + ys:
        check(np.ndim(x) == 0, '{}: a draw is {}', txt, x)
        check(lo - 1e-9 * abs(lo) <= x <= hi + 1e-9 * abs(hi), '{}: drew {} out of {}', txt, x, (lo, hi))
        if ref.discrete:
            check(float(x) == round(float(x)), '{}: drew {}', txt, x)
        check(d.logpdf(x) > -gen.INF or x in (lo, hi), '{}: drew {} of density zero', txt, x)
    if fam == 'k':
        check(all(x == args[0] for x in list(xs) + ys), '{}: not constant', txt)
        return {'nontrivial': False, 'labels': [fam]}
    law = ref_law(fam, args)
    if ref.discrete:
        m, s = ref.mean(*args), ref.sd(*args)
        for t in (m - 3 * s, m - s, m, m + s, m + 3 * s):
            q = law.cdf(t)
            for g in (list(xs), ys, zs):
                if not g:
                    continue
                k = sum(1 for x in g if x <= t)
                p = gen.binom_p(k, len(g), min(1, max(0, q)))
                check(p > ALPHA, '{}: {} of {} draws at most {}', txt, k, len(g), t)
    else:
        for g in (list(xs), ys, zs):
            if not g:
                continue
            p = gen.ks_p(g, law.cdf)
            check(p > ALPHA, '{}: draws do not follow the law (p={})', txt, p)
    gen.unrelated(txt, xs, ys)
    # fresh draws every time
    check(ref.sd(*args) == 0 or ref.discrete or len(set(ys)) > 30, '{}: repeated draws are equal', txt)
    return {'nontrivial': ref.sd(*args) > 0, 'labels': [fam]}


FACETS = [Facet('draws', cases(), run, 900, 15000)]
