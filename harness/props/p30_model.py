"""Data models: free parameters, served parameters, distances"""
import json
import math
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen
from props.p20_evaluate import ref_lp

PROPERTY = 'P30'
RULE = ('generated networks, targets and simulators: free parameters, their domains, sampled and served parameters, log densities, distances and likelihoods '
        'against reference formulas; non-trivial: a served value, an exogenous value or a variable that is not free')


@st.composite
def cases(draw):
    if draw(st.booleans()):
        c = draw(fitref.models(wide=True))
    else:
        net = draw(gen.nets(1, 7, cat=True, fams=('unif', 'norm', 'triangle', 'gamma', 'beta', 'binom', 'exp', 'pois', 'k')))
        defs = bnref.defs_of(net)
        exo = {n: draw(st.integers(-4, 5)) for n, m in defs.items() if m['k'] == 'exo'}
        names = [m['n'] for m in net['nodes'] if m.get('d') != 'cat']
        c = {'net': net, 'exo': exo, 'order': list(draw(st.permutations(range(len(net['nodes']))))), 'fail': None, 'data': {}, 'sims': {'extra': ['num', 3]}}
        for i in range(draw(st.integers(0, 3))):
            c['sims']['S{}'.format(i)] = gen.lin(draw(st.lists(st.sampled_from(names), max_size=2, unique=True)) if names else [], draw)
            c['data']['S{}'.format(i)] = draw(st.sampled_from([3, 0.5, {'m': 2, 'l': 1, 'u': 4}, {'m': -3, 'error': 0.2}, 'norm(1, 1)', 'norm(-20, 1)', 'norm(3, 0.02)']))
    # random roots may be given as well
    defs = bnref.defs_of(c['net'])
    env = bnref.assignment(defs, c['exo'])
    for n, m in defs.items():
        if m['k'] == 'rv' and not gen.parents_of(m) and m['d'] != 'cat' and draw(st.integers(0, 6)) == 0:
            c['exo'][n] = env[n]
    c['serve'] = draw(st.lists(st.sampled_from(sorted(defs)), max_size=3, unique=True))
    c['how'] = draw(st.sampled_from(['bn', 'bn', 'script', 'json']))
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def run(c):
    from sims_pars.fit.base import Particle
    defs = bnref.defs_of(c['net'])
    m = fitref.make(c, c['how'])
    if c['fail'] and c['fail'][0] in c['exo']:
        raise Discard()
    free = fitref.free_of(defs, c['exo'])
    check(sorted(m.FreeParameters) == sorted(free), 'free parameters {} instead of {}', m.FreeParameters, sorted(free))
    check(dict(m.ExoParameters) == c['exo'], 'given {}', m.ExoParameters)
    env = bnref.assignment(defs, c['exo'])
    env.update(c['exo'])
    doms = m.Domain
    check([d.Name for d in doms] == list(m.FreeParameters), 'domains of {}', [d.Name for d in doms])
    for n in bnref.topo(defs):
        if defs[n]['k'] in ('fn', 'val') and n not in c['exo']:
            env[n] = gen.ev(defs[n]['e'], env)
    for d in doms:
        a = [gen.ev(x, env) for x in defs[d.Name]['a']]
        law = gen.LAW[defs[d.Name]['d']]
        lo, hi = law.support(*a)
        for x, y, what in ((d.Lower, lo, 'lower bound'), (d.Upper, hi, 'upper bound'), (d.Location, law.mean(*a), 'location'), (d.Scale, law.sd(*a), 'scale')):
            check(gen.close_sd(x, y, law.mean(*a), 1e-5, 1e-9) if what == 'scale' else gen.close(x, y, 1e-5, 1e-9), '{} of {} is {} instead of {}', what, d.Name, x, y)
    pts = []
    for _ in range(2):
        p = m.sample_prior()
        check(p.is_evaluated(), 'sampled parameters are not evaluated')
        pts.append(m.simulate(p))
    # serve a part of the values
    vals = dict(iter(pts[0].Pars))
    g = bnref.graph(defs)
    give = {k: vals[k] for x in c['serve'] for k in {x} | g.anc(x) if k not in c['exo'] and defs[k]['k'] == 'rv'}
    keep = dict(give)
    for how in (dict, list):
        p = m.serve(give if how is dict else list(give.items()))
        check(give == keep, 'serving changed its input')
        check(all(p[k] == v for k, v in give.items()), 'served {} instead of {}', p, give)
        pts.append(m.simulate(p))
    # an exogenous value is not up to the caller
    if c['exo']:
        k = sorted(c['exo'])[0]
        p = m.serve({k: 12345})
        check(p[k] == c['exo'][k], '{} served as {}', k, p[k])
    full = m.serve(vals)
    check(dict(iter(full)) == vals, 'served {} instead of {}', full, vals)
    back = m.serve_from_json(json.loads(json.dumps(pts[0].Pars.to_json(), default=lambda o: o.item())))
    check(all(gen.close(back[k], v, 0, 0) for k, v in vals.items()) and set(back.keys()) == set(vals) and gen.close(back.LogProb, pts[0].Pars.LogProb, 0, 0),
          'served from JSON {} instead of {}', back.to_json(), pts[0].Pars.to_json())
    for lp in (0.0, -2.5, -math.inf):
        back = m.serve_from_json({'Locus': dict(vals), 'LogProb': lp})
        check(back.LogProb == lp and dict(iter(back)) == vals, 'served from JSON {} with {}', back.to_json(), lp)
    ch = full.clone()
    ch.reset_probability()
    for _ in range(2):
        lp = m.evaluate_prior(ch)
        check(gen.close(lp, ref_lp(defs, vals), 1e-6, 1e-6) and gen.close(ch.LogProb, lp, 0, 0), 'log density {} instead of {}', lp, ref_lp(defs, vals))
    ch.LogProb = -7.5
    check(m.evaluate_prior(ch) == -7.5, 'an evaluated chromosome was evaluated again')
    for i, pt in enumerate(pts):
        infinite = 'distance' in pt.Notes
        if not infinite and i % 2:
            m.flatten(pt)
        if not c['data']:
            check(m.calc_distance(pt) == 0, 'distance without data')
        d = m.calc_distance(pt)
        fitref.check_particle(pt, c, 'particle {}'.format(i))
        check(gen.close(d, fitref.ref_distance(c, pt.Pars), 1e-7, 1e-7), 'distance {} instead of {}', d, fitref.ref_distance(c, pt.Pars))
        check(pt['distance'] == d and m.calc_distance(pt) == d, 'distance noted as {}', pt.Notes)
        m.flatten(pt)
        check(list(pt['Xs']) == [pt.Pars[n] for n in m.FreeParameters], 'flattened {} instead of {}', pt['Xs'], [pt.Pars[n] for n in m.FreeParameters])
        check(pt['Ys'] == {k: pt.Sims[k] for k in c['data']}, 'flattened {}', pt['Ys'])
        if all(isinstance(t, str) for t in c['data'].values()):
            pt.Notes.pop('Ys', None) if i % 2 else None
            li = m.calc_likelihood(pt)
            r = sum(gen.LAW['norm'].logpdf(pt.Sims[k], *eval(t[4:])) for k, t in c['data'].items())
            check(gen.close(li, r, 1e-7, 1e-7), 'log likelihood {} instead of {}', li, r)
            check(m.calc_likelihood(pt) == li and pt['log_lik'] == li, 'log likelihood noted as {}', pt.Notes)
        else:
            try:
                m.calc_likelihood(pt)
            except AttributeError:
                pass
            else:
                check(False, 'a likelihood for targets without distribution')
    # an output which failed to be a number, or ran away, is no match
    whole = m.simulate(m.sample_prior())
    if 'distance' not in whole.Notes:
        for k in c['data']:
            for bad in (float('nan'), gen.INF, -gen.INF):
                d = m.calc_distance(Particle(whole.Pars.clone(), dict(whole.Sims, **{k: bad})))
                check(not d < gen.INF, 'distance {} although {} is {}', d, k, bad)
    other = [n for n, x in defs.items() if n not in free]
    return {'nontrivial': bool(give or c['exo'] or other), 'labels': [c['how']] + ['served'] * bool(give) + ['inf'] * bool(c['fail'])}


FACETS = [Facet('model', cases(), run, 1000, 30000)]
