"""Impossible parameters are rejected, impossible values have no density"""
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P06'
RULE = ('each family with one parameter out of its range (zero or negative scale, probability out of [0,1], size below one or fractional), given as a '
        'number or computed by the network; non-trivial: every case with a bad parameter')

BAD = {'pos': [0, -1, -0.5, -30.0, 0.0], 'gt2': [2, 1.5, 0, -3], 'posint': [0, -1, 2.5, -7], 'prob': [-0.01, 1.01, 2, -5.0], 'ls': [0, -1.0, -0.2], 'lm': [-0.5, -3]}
FAMS = [f for f in sorted(gen.LAW) if any(t in BAD for t in gen.LAW[f].types)]


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(FAMS))
    args = draw(gen.law_args(fam))
    i = draw(st.sampled_from([j for j, t in enumerate(gen.LAW[fam].types) if t in BAD]))
    bad = draw(st.sampled_from(BAD[gen.LAW[fam].types[i]]))
    return {'fam': fam, 'good': list(args), 'i': i, 'bad': bad, 'kw': draw(st.booleans()), 'other': draw(st.booleans())}


def run(c):
    from sims_pars import bayes_net_from_script, evaluate_nodes, sample
    from sims_pars.prob import parse_distribution
    from pydantic import ValidationError
    fam, ref = c['fam'], gen.LAW[c['fam']]
    args = list(c['good'])
    args[c['i']] = c['bad']
    txt = '{}({})'.format(fam, ','.join(('{}={}'.format(n, a) if c['kw'] else str(a)) for n, a in zip(ref.names, args)))
    try:
        d = parse_distribution(txt)
    except ValidationError:
        pass
    else:
        check(False, '{} accepted, with mean {}', txt, d.mean())
    # through a network: the parameter is computed from its parents
    scr = 'PCore A {{\nq\nh = q + 0\nx ~ {}({})\ny ~ norm(0, 1)\n}}'.format(
        fam, ','.join('{}{}'.format(n + '=' if c['kw'] else '', 'h' if j == c['i'] else a) for j, (n, a) in enumerate(zip(ref.names, c['good']))))
    bn = bayes_net_from_script(scr)
    x = ref.mean(*c['good'])
    if ref.discrete:
        x = round(x)
    lp = evaluate_nodes(bn, {'q': c['bad'], 'h': c['bad'], 'x': x, 'y': 0})
    check(lp == -gen.INF, '{} with h={}: log density {}', scr, c['bad'], lp)
    good = c['good'][c['i']]
    lp = evaluate_nodes(bn, {'q': good, 'h': good, 'x': x, 'y': 0})
    r = ref.logpdf(x, *c['good']) + gen._norm(0, 0, 1)
    check(gen.close(lp, r, 1e-7), '{} with h={}: log density {} instead of {}', scr, good, lp, r)
    try:
        v = sample(bn, {'q': c['bad']})
    except ValidationError:
        pass
    else:
        check(False, '{} with q={} sampled {}', scr, c['bad'], v)
    v = sample(bn, {'q': good})
    check(set(v) == {'q', 'h', 'x', 'y'}, 'sampled {}', v)
    # values out of the support
    lo, hi = ref.support(*c['good'])
    for out in (lo - 1, hi + 1):
        if abs(out) < gen.INF:
            lp = evaluate_nodes(bn, {'q': good, 'h': good, 'x': out, 'y': 0})
            check(lp == -gen.INF, '{}: log density {} at x={}', scr, lp, out)
    return {'nontrivial': True, 'labels': [fam + '.' + ref.names[c['i']]]}


FACETS = [Facet('reject', cases(), run, 800, 12000)]
