"""Conversion between parameters and the unit interval"""
import math
from hypothesis import strategies as st
from core import Facet, check, Discard
import gen

PROPERTY = 'P28'
RULE = ('generated domains (both bounds, one bound, none; also the ones of generated priors) with generated points: round trips both ways, order, bounds, end '
        'points, and shifting/scaling of the domain; non-trivial: location, scale or a bound off its default')

us_ = st.one_of(st.floats(0.001, 0.999), st.sampled_from([0.5, 0.25, 0.75, 1e-6, 1 - 1e-6, 1e-9, 0.49999, 0.50001]))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['FF', 'FI', 'IF', 'II', 'prior']))
    c = {'kind': kind, 'us': draw(st.lists(us_, min_size=2, max_size=8)), 'ts': draw(st.lists(st.floats(-6, 6).map(lambda x: round(x, 4)), min_size=1, max_size=6)),
         'k': draw(st.sampled_from([2, 0.5, 10, 0.01])), 'shift': draw(st.sampled_from([0, 1, -7, 1000]))}
    if kind == 'prior':
        c['fam'] = draw(st.sampled_from([f for f in sorted(gen.LAW) if not gen.LAW[f].discrete and f not in ('k', 'lnorm', 'invgamma')]))
        c['args'] = draw(gen.law_args(c['fam']))
        if draw(st.integers(0, 2)) == 0 and gen.LAW[c['fam']].defaults[0] is not None:
            c['args'] = list(gen.LAW[c['fam']].defaults)
    else:
        c['lo'] = draw(st.one_of(st.integers(-50, 50), st.floats(-100, 100).map(lambda x: round(x, 3)), st.just(0)))
        c['wd'] = draw(st.sampled_from([1, 0.01, 3, 14, 1000, 1e-4]))
        c['loc'] = draw(st.one_of(st.just(0), st.integers(-30, 30), st.sampled_from([0.5, -7.25])))
        c['sc'] = draw(st.sampled_from([1, 0.1, 20, 30, 0.003, 500]))
    return c


def domain(c, k=1, shift=0):
    from sims_pars.fit.base import Domain
    kind = c['kind']
    if kind == 'prior':
        lo, hi = gen.LAW[c['fam']].support(*c['args'])
        loc, sc = gen.LAW[c['fam']].mean(*c['args']), gen.LAW[c['fam']].sd(*c['args'])
    else:
        lo = c['lo'] if kind[0] == 'F' else -gen.INF
        hi = (c['lo'] if kind[0] == 'I' else c['lo'] + c['wd']) if kind[1] == 'F' else gen.INF
        loc, sc = c['loc'], c['sc']
    lo, hi, loc, sc = k * lo + shift, k * hi + shift, k * loc + shift, k * sc
    return Domain('x', 'Double', lower=lo, upper=hi, loc=loc, scale=sc), lo, hi, loc, sc


def run(c):
    from sims_pars.fit.converter import get_converter
    from sims_pars.prob import parse_distribution
    dom, lo, hi, loc, sc = domain(c)
    if c['kind'] == 'prior':
        from sims_pars.fit.base import DataModel, Particle
        class M(DataModel):
            def simulate(self, pars):
                return Particle(pars, {})
        m = M({}, 'PCore A {{\n y ~ {}({})\n}}'.format(c['fam'], ', '.join(gen.num_text(a) for a in c['args'])))
        check(m.FreeParameters == ['y'], 'free parameters {}', m.FreeParameters)
        d2 = m.Domain[0]
        for a, b, what in ((d2.Lower, lo, 'lower bound'), (d2.Upper, hi, 'upper bound'), (d2.Location, loc, 'location'), (d2.Scale, sc, 'scale')):
            check(gen.close(a, b, 1e-7, 1e-9), '{} of {}{} is {} instead of {}', what, c['fam'], c['args'], a, b)
        dom = d2
    con = get_converter(dom)
    fin = [x for x in (lo, hi) if abs(x) < gen.INF]
    unit = hi - lo if len(fin) == 2 else sc
    if unit <= 0:
        raise Discard()
    mag = max([abs(x) for x in fin] or [abs(loc)]) + unit
    # from the unit interval and back
    pts = []
    for u in sorted(c['us']):
        v = con.uniform2value(u)
        check(math.isfinite(v) and lo <= v <= hi, '{} gives {} out of [{}, {}]', u, v, lo, hi)
        u2 = con.value2uniform(v)
        check(abs(u2 - u) <= 1e-9 + 1e-13 * mag / unit, '{} -> {} -> {}', u, v, u2)
        pts.append((u, v))
    for (u1, v1), (u2, v2) in zip(pts, pts[1:]):
        check(v1 <= v2, 'not increasing: {} -> {}, {} -> {}', u1, v1, u2, v2)
        if u2 - u1 > 1e-6:
            check(v1 < v2, '{} and {} both give {}', u1, u2, v1)
    # from values and back
    prev = None
    for t in sorted(c['ts']):
        f = (t + 6) / 12
        v = lo + f * unit if len(fin) == 2 else lo + (t + 6) * unit if lo > -gen.INF else hi - (6 - t) * unit if hi < gen.INF else loc + t * unit
        v = min(max(v, lo), hi)
        u = con.value2uniform(v)
        check(0 <= u <= 1, '{} gives {}', v, u)
        if 0 < u < 1:
            v2 = con.uniform2value(u)
            check(abs(v2 - v) <= 1e-9 * unit + 1e-9 * mag, '{} -> {} -> {}', v, u, v2)
        if prev:
            check(prev[1] <= u, 'not increasing: {} -> {}, {} -> {}', prev[0], prev[1], v, u)
        prev = v, u
    # end points
    check(con.uniform2value(0) == lo, '0 gives {} instead of {}', con.uniform2value(0), lo)
    check(con.uniform2value(1) == hi or abs(con.uniform2value(1) - hi) < 1e-12 * mag, '1 gives {} instead of {}', con.uniform2value(1), hi)
    if lo > -gen.INF:
        check(con.value2uniform(lo) == 0, 'the lower bound gives {}', con.value2uniform(lo))
    if hi < gen.INF:
        check(con.value2uniform(hi) == 1, 'the upper bound gives {}', con.value2uniform(hi))
    if not fin:
        check(con.uniform2value(0.5) == loc and con.value2uniform(loc) == 0.5, 'the middle is {} instead of {}', con.uniform2value(0.5), loc)
    if len(fin) == 2:
        check(gen.close(con.uniform2value(0.25), lo + unit / 4, 1e-9, 1e-12 * mag), 'a quarter is {} in {}', con.uniform2value(0.25), (lo, hi))
    # the same map on a moved and scaled domain
    k, s = c['k'], c['shift']
    con2 = get_converter(domain(c, k, s)[0])
    for u, v in pts:
        w = con2.uniform2value(u)
        check(abs(w - (k * v + s)) <= 1e-9 * (abs(w) + k * mag + abs(s)), 'scaled by {} and shifted by {}: {} gives {} instead of {}', k, s, u, w, k * v + s)
    return {'nontrivial': c['kind'] == 'prior' or c['lo'] != 0 or c['sc'] != 1 or c['loc'] != 0, 'labels': [c['kind']]}


FACETS = [Facet('round trip', cases(), run, 3000, 100000)]
