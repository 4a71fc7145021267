"""Sequential Monte Carlo approximate Bayesian computation"""
import math
import numpy as np
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen
import shared
from props.p32_abc import law_problem, interval, cdf

PROPERTY = 'P33'
RULE = ('generated calibration problems and settings: tolerances, weights, trace, termination, particles and number of simulations against the simulations '
        'recorded, and one more round from the particles left; facet law: mean rank of the posterior within the prior restricted to the tolerance; non-trivial: a tolerance below the first one')


@st.composite
def cases(draw):
    c = draw(fitref.models(max_roots=2, fail=True, nan=True))
    c['set'] = {'n_iter': draw(st.integers(15, 24)), 'alpha': draw(st.sampled_from([0.9, 0.8, 0.7])), 'p_thres': draw(st.sampled_from([0.6, 0.6, 0.9, 0.5])),
                'max_round': draw(st.integers(1, 6)), 'max_stay': draw(st.integers(1, 3)), 'min_acc': draw(st.sampled_from([0, 0.1, 0.5, 0.75])),
                'parallel': draw(st.booleans())}
    c['n'] = draw(st.integers(1, 15))
    c['parents'] = None
    if draw(st.integers(0, 3)) == 0:
        defs = bnref.defs_of(c['net'])
        c['fail'] = None
        n = sorted(fitref.free_of(defs, {}))[0]
        if not gen.parents_of(defs[n]):
            lo, hi = gen.LAW[defs[n]['d']].support(*[a[1] for a in defs[n]['a']])
            me, sd = gen.LAW[defs[n]['d']].mean(*[a[1] for a in defs[n]['a']]), gen.LAW[defs[n]['d']].sd(*[a[1] for a in defs[n]['a']])
            c['parents'] = [n, draw(st.lists(st.floats(-0.5, 0.5).map(lambda u: round(me + u * sd, 3)), min_size=1, max_size=5))]
    c['discrete'] = draw(st.integers(0, 3)) == 0
    if c['discrete']:
        # few distinct outputs: distances are tied
        for k in list(c['data']):
            c['sims'][k] = ['call', 'floor', [c['sims'][k]]] if 'floor' in gen.REF_FUNC else c['sims'][k]
    # after the start, simulations may fail most of the time
    c['broken'], c['how'] = draw(st.sampled_from([0, 0, 0, 1009, 31])), draw(st.sampled_from(['inf', 'nan']))
    # the fitter has been used before
    c['again'] = draw(st.integers(0, 3)) == 0
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def run(c):
    from sims_pars.fit import ApproxBayesComSMC
    m = fitref.make(c)
    sims = shared.record(c)
    inner = m.simulate

    def simulate(pars):
        pt = inner(pars)
        d = fitref.ref_distance(c, pt.Pars)
        if c['broken'] and sum(x < gen.INF for x, _ in sims) >= c['set']['n_iter'] and len(sims) % c['broken']:
            d, pt['distance'] = gen.INF, float(c['how'])
        sims.append((d, dict(pt.Pars)))
        return pt
    m.simulate = simulate
    s = dict(c['set'], n_core=c.get('core', 1), verbose=0)
    alg = ApproxBayesComSMC(**s)
    if c['parents']:
        alg.set_parents([{c['parents'][0]: v} for v in c['parents'][1]])
    before = None
    if c['again']:
        alg.fit(m, max_round=2)
        before = alg.sample_posteriors(2)
        kept = before['Trace'].copy(), before['Eps'], [dict(pt.Pars) for pt in before.Particles]
        del sims[:]
    alg.fit(m, **({'max_round': s['max_round']} if before else {}))
    n = s['n_iter']
    tr = alg.Monitor.Trajectories
    eps, acc, ess, ev = [list(map(float, tr[k])) for k in ('Eps', 'Acc', 'ESS', 'Eval')]
    R = len(tr) - 1
    check(list(tr['Round']) == list(range(R + 1)) and list(tr.index) == list(range(R + 1)), 'rounds {}', list(tr['Round']))
    check(eps[0] == gen.INF and acc[0] == 1 and gen.close(ess[0], n, 1e-9), 'first row of the trace {}', (eps[0], acc[0], ess[0]))
    check(all(a >= b for a, b in zip(eps, eps[1:])), 'tolerances {}', eps)
    check(sum(ev) == len(sims), '{} simulations counted out of {}', sum(ev), len(sims))
    check(all(0 <= a <= 1 and abs(a * n - round(a * n)) < 1e-6 for a in acc), 'acceptance {}', acc)
    check(all(1 - 1e-9 <= e <= n + 1e-9 for e in ess), 'ESS {}', ess)
    first = sims[:int(ev[0])]
    fin = [d for d, _ in first if d < gen.INF]
    check(len(fin) == n and first[-1][0] < gen.INF, '{} usable particles at the start instead of {}', len(fin), n)
    q = float(np.quantile(np.array(fin), s['alpha']))
    check(gen.close(eps[1], q, 1e-9, 1e-9), 'first tolerance {} instead of {}', eps[1], q)
    defs = bnref.defs_of(c['net'])
    if c['parents']:
        k, vs = c['parents']
        check(all(p[k] in vs for _, p in first), 'started from {} instead of {}', sorted({p[k] for _, p in first}), vs)
    for d, p in sims:
        bnref.consistent(defs, {k: v for k, v in p.items() if k in defs}, 'simulated parameters')
    # what each round accepts: proposals within its tolerance, all of them when priors are uniform
    free = fitref.free_of(defs, c['exo'])
    at = int(ev[0])
    for r in range(1, R + 1):
        mine = sims[at:at + int(ev[r])]
        at += int(ev[r])
        if not c['fail'] and not c['broken']:
            check(len(mine) == n, 'round {}: {} simulations for {} proposals', r, len(mine), n)
            near = sum(abs(d - eps[r]) <= 1e-7 * (1 + abs(eps[r])) for d, _ in mine)
            within = sum(d <= eps[r] for d, _ in mine)
            check(acc[r] * n <= within + near + 1e-6, 'round {}: accepted {} although {} proposals are within {}', r, acc[r] * n, within, eps[r])
            if all(defs[x]['d'] == 'unif' for x in free):
                check(abs(acc[r] * n - within) <= near + 1e-6, 'round {}: accepted {} of {} proposals within {}', r, acc[r] * n, within, eps[r])
    # where it stops
    stay = 0
    for r in range(1, R + 1):
        stay = stay + 1 if eps[r] >= eps[r - 1] else 0
        stop = r >= s['max_round'] or (r >= 3 and stay >= s['max_stay']) or acc[r] < s['min_acc']
        check(stop == (r == R), 'round {} of {}: stop={} with eps {}, acceptance {}', r, R, stop, eps, acc)
    stt = alg.State
    w = np.array(stt.Wts, float)
    check(len(w) == len(stt.Particles) == n and (w >= 0).all() and abs(w.sum() - 1) < 1e-9, 'weights {}', w)
    check(gen.close(stt.ESS, 1 / (w ** 2).sum(), 1e-9) and gen.close(ess[-1], stt.ESS, 1e-9), 'ESS {} with weights {}', stt.ESS, w)
    check(stt.Stay == stay and stt.Round == R and gen.close(stt.Acceptance, acc[-1], 1e-9), 'state of round {}, {} without progress, acceptance {}, instead of {}',
          stt.Round, stt.Stay, stt.Acceptance, (R, stay, acc[-1]))
    check(stt.Eps == eps[-1], 'tolerance {} instead of {}', stt.Eps, eps[-1])
    for x, pt in zip(w, stt.Particles):
        fitref.check_particle(pt, c, 'particle', eps[-1] if x > 0 else None)
    mark, was = len(sims), ([float(x) for x in w], [dict(pt.Pars) for pt in stt.Particles])
    post = alg.sample_posteriors(c['n'])
    check(len(post) == c['n'] and post.Algorithm == 'ABC-SMC', '{} particles of {} by {}', len(post), c['n'], post.Algorithm)
    check(post['Eps'] == eps[-1], 'noted tolerance {}', post['Eps'])
    check(post['Trace'].equals(tr), 'noted trace {}', post['Trace'])
    check(alg.State is stt and len(sims) > mark, 'sampling changed the state')
    for pt in post.Particles:
        fitref.check_particle(pt, c, 'posterior', eps[-1])
    again = alg.sample_posteriors(2)
    check(len(again) == 2 and again['Eps'] == eps[-1] and again['Trace'].equals(tr), 'a second posterior notes {}', again.Notes)
    for pt in again.Particles:
        fitref.check_particle(pt, c, 'second posterior', eps[-1])
    check(alg.State is stt and ([float(x) for x in stt.Wts], [dict(pt.Pars) for pt in stt.Particles]) == was, 'sampling changed the state')
    if before:
        check(before['Trace'].equals(kept[0]) and before['Eps'] == kept[1] and [dict(pt.Pars) for pt in before.Particles] == kept[2], 'another fit changed a posterior')
    # one more round starts from the particles left
    more = None
    if not c['broken'] and c['seed'] % 2 == 0:
        ds = np.array([fitref.ref_distance(c, pt.Pars) for pt in stt.Particles])
        near = 1e-7 * (1 + abs(eps[-1]))
        if not any(0 < abs(d - eps[-1]) <= near for d in ds):
            more = min(eps[-1], float(np.quantile(ds, s['alpha'] * (ds <= eps[-1]).mean())))
            alg.update_settings(max_round=R + 1)
            alg.update()
            tr2 = alg.Monitor.Trajectories
            check(len(tr2) == R + 2 and tr2.iloc[:-1].equals(tr), 'one more round: trace {} after {}', tr2, tr)
            check(gen.close(alg.State.Eps, more, 1e-6, 1e-6) and tr2['Eps'].iloc[-1] == alg.State.Eps, 'one more round: tolerance {} instead of {}, the quantile of {}', alg.State.Eps, more, sorted(ds))
            for x, pt in zip(alg.State.Wts, alg.State.Particles):
                fitref.check_particle(pt, c, 'one more round', alg.State.Eps if x > 0 else None)
            check(len(alg.State.Particles) == n and abs(sum(alg.State.Wts) - 1) < 1e-9, 'one more round: weights {}', alg.State.Wts)
            stt = alg.State
    made = [p for d, p in sims if d < gen.INF]
    for pt in list(stt.Particles) + post.Particles:
        check(dict(pt.Pars) in made, 'particle {} was never simulated with success', pt.Pars)
    shared.forget(sims)
    return {'nontrivial': eps[-1] < eps[1], 'labels': ['parallel'] * s['parallel'] + ['parents'] * bool(c['parents']) + [c['fail'][2] if c['fail'] else 'sound'] + ['broken'] * bool(c['broken']) + ['again'] * c['again'] + ['more'] * (more is not None)}


@st.composite
def law_cases(draw):
    d, a, off = draw(st.sampled_from([('norm', [0, 1], 2.5), ('norm', [0, 1], -2.5), ('exp', [1], 4), ('gamma', [3, 1], 4), ('norm', [2, 2], 3)]))
    return {'d': d, 'a': a, 'k': draw(st.sampled_from([1, 2, -3])), 'c': draw(st.integers(-3, 3)), 'off': off, 'parallel': draw(st.booleans()),
            'kind': 'range', 'seed': draw(st.integers(0, 10 ** 6))}


N = 90


def run_law(c, tol=0.15, reps=4):
    from sims_pars.fit import ApproxBayesComSMC
    fc, m, half = law_problem(c)
    us = []
    for _ in range(reps):
        model = fitref.make(fc)
        alg = ApproxBayesComSMC(n_iter=N, alpha=0.8, max_round=4, min_acc=0, n_core=1, verbose=0, parallel=c['parallel'])
        alg.fit(model)
        post = alg.sample_posteriors(N)
        lo, hi = interval(c, m, half(post['Eps']))
        a, b = cdf(c, lo), cdf(c, hi)
        us += [(cdf(c, pt.Pars['x']) - a) / (b - a) for pt in post.Particles]
    mu, sd = float(np.mean(us)), float(np.std(us))
    # calibrated: over independent repeats of a case the mean rank has a standard deviation of 0.025
    check(abs(mu - 0.5) < tol and 0.18 < sd < 0.4, 'the posterior is not the prior restricted to the tolerance: mean rank {}, spread {}, quintiles {}',
          mu, sd, list(np.histogram(us, 5, (0, 1))[0]))
    return {'labels': [c['d']], 'mu': mu, 'sd': sd}


@st.composite
def free_cases(draw):
    c = draw(law_cases())
    c['y'] = draw(st.sampled_from([['norm', [0, 1]], ['norm', [-3, 2]], ['gamma', [3, 1]]]))
    c['more'] = draw(st.integers(1, 2))
    return c


def run_free(c):
    """A parameter which the data do not inform keeps its prior"""
    from sims_pars.fit import ApproxBayesComSMC
    fc, m, half = law_problem(c)
    fam, a = c['y']
    for n in ('y', 'z')[:c.get('more', 1)]:
        fc['net']['nodes'].append({'n': n, 'k': 'rv', 'd': fam, 'a': [['num', v] for v in a]})
    fc['order'] = list(range(len(fc['net']['nodes'])))
    us = []
    for _ in range(2):
        alg = ApproxBayesComSMC(n_iter=N, alpha=0.9, max_round=10, max_stay=99, min_acc=0, n_core=1, verbose=0, parallel=c['parallel'])
        alg.fit(fitref.make(fc))
        us += [cdf({'d': fam, 'a': a}, pt.Pars['y']) for pt in alg.sample_posteriors(N).Particles]
    mu, sd = float(np.mean(us)), float(np.std(us))
    # calibrated: the mean varies by 0.03, the spread by 0.014
    check(abs(mu - 0.5) < 0.16 and 0.22 < sd < 0.345, 'the posterior of a parameter unrelated to the data is not its prior: mean rank {}, spread {}, quintiles {}',
          mu, sd, list(np.histogram(us, 5, (0, 1))[0]))
    return {'labels': [c['d'], fam], 'mu': mu, 'sd': sd}


spread_cases = st.fixed_dictionaries({'vs': st.lists(st.tuples(st.floats(-50, 50).map(lambda x: round(x, 3)), st.floats(-50, 50).map(lambda x: round(x, 3)), st.sampled_from([0, 0, 1, 2, 0.3])).map(list),
                                                min_size=2, max_size=8).filter(lambda vs: sum(v[2] > 0 for v in vs) > 1)})


def run_spread(c):
    """The spread of weighted particles, which scales the proposals; priors of a proposal and its origin"""
    from sims_pars.fit import ApproxBayesComSMC
    fc = {'net': {'name': 'A', 'nodes': [{'n': n, 'k': 'rv', 'd': 'norm', 'a': [['num', 1], ['num', 20]]} for n in ('x', 'y')]}, 'order': [0, 1], 'exo': {}, 'fail': None,
          'sims': {'S': ['var', 'x']}, 'data': {'S': 1}}
    m = fitref.make(fc)
    alg = ApproxBayesComSMC(verbose=0, parallel=False)
    if not all(hasattr(alg, k) for k in ('attach', 'calc_weighted_std', 'prior_ratio')):
        raise Discard()
    alg.attach(m)
    from sims_pars.fit.base import Particle
    pts = [Particle(m.serve({'x': a, 'y': b}), {}) for a, b, _ in c['vs']]
    w = np.array([float(v[2]) for v in c['vs']])
    w /= w.sum()
    tau = alg.calc_weighted_std(pts, w)
    for i, k in enumerate(('x', 'y')):
        x = np.array([v[i] for v in c['vs']])
        mu = (w * x).sum()
        sd = math.sqrt((w * (x - mu) ** 2).sum())
        check(gen.close(tau.get(k, 0), sd, 1e-7, 1e-6), 'spread of {} is {} instead of {} with weights {}', k, tau.get(k), sd, w)
    lps = [sum(gen.LAW['norm'].logpdf(v, 1, 20) for v in p[:2]) for p in c['vs']]
    for p, lp in zip(pts[1:], lps[1:]):
        r = alg.prior_ratio(p, pts[0])
        check(gen.close(r, math.exp(min(lp - lps[0], 0)), 1e-7, 1e-9), 'ratio of priors {} instead of {}', r, math.exp(min(lp - lps[0], 0)))
    return {'nontrivial': (w == 0).any(), 'labels': ['weights']}


FACETS = [Facet('smc', cases(), run, 64, 2500), Facet('law', law_cases(), run_law, 8, 160, timeout=400), Facet('free', free_cases(), run_free, 5, 120, timeout=600),
          Facet('spread', spread_cases, run_spread, 300, 5000)]
