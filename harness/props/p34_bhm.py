"""Bayesian history matching"""
import contextlib
import math
import sys
import types
import numpy as np
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen

PROPERTY = 'P34'
RULE = ('generated calibration problems and settings with recording emulators (exact or distorted, with variances): training sets, plausible points, cut-off, '
        'bounds, notes and posteriors against reference formulas over the recorded points; facet gp: the Gaussian process emulators; non-trivial: two or more '
        'waves or points ruled out')
ASSUMPTIONS = ['facet waves replaces the Gaussian process emulators by recording ones; facet gp uses the real ones on a few small problems']


@st.composite
def cases(draw):
    c = draw(fitref.models(max_roots=2, extra=False, fail=False))
    if draw(st.booleans()):
        # a function of the parameters, a constant and a given variable besides
        a = c['net']['nodes'][0]['n']
        c['net']['nodes'] += [{'n': 'f1', 'k': 'fn', 'e': ['bin', '+', ['var', a], ['num', 2]]}, {'n': 'q', 'k': 'exo'}]
        c['order'] = list(range(len(c['net']['nodes'])))
        c['exo'] = {'q': 3}
        c['sims']['S0'] = ['bin', '+', ['var', 'f1'], ['num', 1]]
    if draw(st.integers(0, 2)) == 0:
        # many targets
        names = [m['n'] for m in c['net']['nodes'] if m['k'] == 'rv']
        for i in range(len(c['data']), draw(st.integers(4, 6))):
            c['sims']['S{}'.format(i)] = ['bin', '+', gen.lin([draw(st.sampled_from(names))], draw), ['num', 1]]
            c['data']['S{}'.format(i)] = draw(st.sampled_from([1, {'m': 2, 'l': 0.5, 'u': 4}, {'m': 1.5, 'error': 0.5}, 'norm(1, 2)', 'norm(3, 0.5)']))
            if draw(st.integers(0, 3)) == 0:
                # of another size than the others
                c['sims']['S{}'.format(i)], c['data']['S{}'.format(i)] = ['bin', '+', c['sims']['S{}'.format(i)], ['num', 5000]], draw(st.sampled_from([5001, {'m': 5000, 'error': 0.01}, 'norm(5002, 3)']))
    c['set'] = {'n_sims': draw(st.sampled_from([0, 3, 7, 10])), 'n_ems': draw(st.sampled_from([15, 40, 60])), 'max_wave': draw(st.integers(1, 4)),
                'var_model': draw(st.sampled_from([0, 1, 0.01])), 'cutoff': draw(st.sampled_from([3, 1, 0.2])), 'min_acc': draw(st.sampled_from([0.2, 0.05, 0.5, 1]))}
    c['var'] = draw(st.sampled_from([0, 0, 0.1, 4]))
    c['bias'] = draw(st.sampled_from([0, 0, 0.3]))
    c['n'] = draw(st.integers(1, 12))
    c['again'] = draw(st.integers(0, 4)) == 0
    c['seed'] = draw(st.integers(0, 10 ** 6))
    return c


def target(t):
    """(value, variance)"""
    if isinstance(t, str):
        m, sd = eval(t[4:])
        return m, sd ** 2
    if isinstance(t, dict):
        return t['m'], ((t['u'] - t['l']) / 2 / 1.96 if 'l' in t else t['error'] * abs(t['m']) / 2 / 1.96) ** 2
    return t, (0.1 * abs(t) / 2 / 1.96) ** 2


def values(xs, model, c, doms):
    from sims_pars.fit.converter import get_converter
    env = {d.Name: get_converter(d).uniform2value(x) for d, x in zip(doms, xs)}
    env.update(c['exo'])
    defs = bnref.defs_of(c['net'])
    for n in bnref.topo(defs):
        if n not in env:
            env[n] = gen.ev(defs[n]['e'], env)
    return env


@contextlib.contextmanager
def emulators(cls):
    """Fit with these emulators, wherever the algorithm looks them up"""
    name = 'sims_pars.fit.hme.emulator'
    mod, old = types.ModuleType(name), sys.modules.get(name)
    mod.GPREmulator = cls
    sys.modules[name] = mod
    try:
        import sims_pars.fit.hme.alg as alg
        has = getattr(alg, 'GPREmulator', None)
        if has:
            alg.GPREmulator = cls
        yield
    finally:
        if old is None:
            del sys.modules[name]
        else:
            sys.modules[name] = old
        if has:
            import sims_pars.fit.hme.emulator as real
            alg.GPREmulator = real.GPREmulator


def run(c):
    log = {'train': [], 'predict': []}
    model = fitref.make(c)
    doms = model.Domain
    names = [d.Name for d in doms]

    class Stub:
        def __init__(self, output, **kw):
            self.Output = output

        def train(self, xs, ys):
            log['train'].append((self.Output, [list(map(float, x)) for x in xs], [dict(y) for y in ys]))

        def predict(self, xs):
            xs = np.array(xs)
            out = []
            for x in xs:
                env = values(x, model, c, doms)
                out.append([gen.ev(c['sims'][self.Output], env) + c['bias'] * math.sin(40 * x[0])])
            var = [[c['var'] * (1 + x[0])] for x in xs]
            log['predict'].append((self.Output, xs.copy(), np.array(out), np.array(var)))
            return np.array(out), np.array(var)

    sims = []
    inner = model.simulate

    def simulate(pars):
        sims.append(dict(pars))
        return inner(pars)
    model.simulate = simulate
    with emulators(Stub):
        from sims_pars.fit.hme import BayesHistoryMatching
        alg = BayesHistoryMatching(**c['set'])
        if c['again']:
            # the fitter has been used before
            alg.fit(model, max_wave=1)
            before = alg.sample_posteriors(2)
            kept = dict(before.Notes), [dict(pt.Pars) for pt in before.Particles]
            del sims[:], log['train'][:], log['predict'][:]
        alg.fit(model, **({'max_wave': c['set']['max_wave']} if c['again'] else {}))
    s = c['set']
    n_sims = s['n_sims'] or 10 * len(doms)
    K, W = len(c['data']), s['max_wave']
    stt = alg.State
    check(stt.Wave == W, '{} waves instead of {}', stt.Wave, W)
    check(len(log['train']) == len(log['predict']) == K * W and len(sims) == W * n_sims, '{} trainings and {} simulations over {} waves', len(log['train']), len(sims), W)
    lo, hi = np.zeros(len(doms)), np.ones(len(doms))
    out = 0
    for w in range(W):
        tr, pr = log['train'][w * K:(w + 1) * K], log['predict'][w * K:(w + 1) * K]
        check(sorted(o for o, _, _ in tr) == sorted(c['data']) and sorted(x[0] for x in pr) == sorted(c['data']), 'emulated outputs of wave {}', w)
        for o, xs, ys in tr:
            check(len(xs) == len(ys) == n_sims, '{} training points instead of {}', len(xs), n_sims)
            for x, y, p in zip(xs, ys, sims[w * n_sims:]):
                x = np.array(x)
                check((x >= lo - 1e-12).all() and (x <= hi + 1e-12).all(), 'wave {}: training point {} out of {}', w, x, (lo, hi))
                env = values(x, model, c, doms)
                check(all(gen.close(p[k], v, 1e-9, 1e-9) for k, v in env.items()), 'wave {}: trained with {} at the simulation of {}', w, env, p)
                check(set(y) == set(c['data']) and all(gen.close(y[k], gen.ev(c['sims'][k], p), 1e-9, 1e-9) for k in y), 'wave {}: trained with outputs {} of {}', w, y, p)
            for j in range(len(doms)):
                if hi[j] - lo[j] > 1e-9:
                    u = (np.array(xs)[:, j] - lo[j]) / (hi[j] - lo[j]) * n_sims
                    cells = np.floor(u)
                    if (abs(u - np.round(u)) > 1e-6).all():
                        check(len(set(cells)) == n_sims, 'wave {}: training points do not spread over the bounds: {}', w, sorted(u))
        X = pr[0][1]
        check(X.shape == (s['n_ems'], len(doms)), '{} emulated points', X.shape)
        check(all((x[1] == X).all() for x in pr), 'outputs emulated at different points')
        check((X >= lo - 1e-12).all() and (X <= hi + 1e-12).all(), 'wave {}: emulated points out of the bounds', w)
        imp = np.zeros(len(X))
        mse = np.zeros(len(X))
        for o, _, y, v in pr:
            m, vo = target(c['data'][o])
            with np.errstate(all='ignore'):
                imp = np.maximum(imp, np.abs(y[:, 0] - m) / np.sqrt(s['var_model'] + vo + v[:, 0]))
            mse += (y[:, 0] - m) ** 2 / K
        co = max(s['cutoff'], float(np.quantile(imp, s['min_acc'])))
        close = imp[abs(imp - co) <= 1e-7 * (1 + co)]
        if (close != co).any():
            raise Discard()   # rounding decides which of these are plausible
        keep = imp <= co
        out += int((~keep).sum())
        lo, hi = X[keep].min(0), X[keep].max(0)
    check(gen.close(stt.CutOff, co, 1e-9, 1e-9), 'cut-off {} instead of {}', stt.CutOff, co)
    check(gen.close(stt.Acc, keep.mean(), 1e-9), 'share of plausible points {} instead of {}', stt.Acc, keep.mean())
    check(len(stt.Particles) == keep.sum(), '{} plausible points instead of {}', len(stt.Particles), keep.sum())
    check(np.allclose(stt.Bounds[0], lo, 1e-9, 1e-12) and np.allclose(stt.Bounds[1], hi, 1e-9, 1e-12), 'bounds {} instead of {}', stt.Bounds, (lo, hi))
    check(gen.close(stt.MSE, mse[keep].mean(), 1e-9, 1e-12), 'MSE {} instead of {}', stt.MSE, mse[keep].mean())
    del sims[:]
    post = alg.sample_posteriors(c['n'])
    check(len(post) == c['n'] and len(sims) == c['n'], '{} particles from {} simulations', len(post), len(sims))
    a, b = values(lo, model, c, doms), values(hi, model, c, doms)
    check([x[0] for x in post['Bounds']] == names, 'bounds of {}', post['Bounds'])
    for k, x, y in post['Bounds']:
        check(gen.close(x, a[k], 1e-9, 1e-9) and gen.close(y, b[k], 1e-9, 1e-9), 'bounds {} of {} instead of {}', (x, y), k, (a[k], b[k]))
    check((post['CutOff'], post['Acceptance'], post['MSE']) == (stt.CutOff, stt.Acc, stt.MSE), 'notes {}', post.Notes)
    for pt, p in zip(post.Particles, sims):
        fitref.check_particle(pt, c, 'posterior')
        check(list(pt['Xs']) == [pt.Pars[k] for k in names], 'inputs {} of {}', pt['Xs'], pt.Pars)
        for k in names:
            check(a[k] - 1e-9 * (1 + abs(a[k])) <= pt.Pars[k] <= b[k] + 1e-9 * (1 + abs(b[k])), 'posterior {}={} out of {}', k, pt.Pars[k], (a[k], b[k]))
    second = alg.sample_posteriors(2)
    check(len(second) == 2 and all(second[k] == post[k] for k in ('Bounds', 'CutOff', 'Acceptance', 'MSE')), 'a second posterior notes {} instead of {}', second.Notes, post.Notes)
    for pt in second.Particles:
        check(all(a[k] - 1e-9 * (1 + abs(a[k])) <= pt.Pars[k] <= b[k] + 1e-9 * (1 + abs(b[k])) for k in names), 'second posterior {} out of {}', pt.Pars, (a, b))
    if c['again']:
        check((dict(before.Notes), [dict(pt.Pars) for pt in before.Particles]) == kept, 'another fit changed a posterior')
    return {'nontrivial': W > 1 or out > 0, 'labels': ['waves{}'.format(W)] + ['ruled out'] * bool(out)}


@st.composite
def gp_cases(draw):
    d, a = draw(st.sampled_from([('unif', [0, 4]), ('norm', [2, 1]), ('exp', [1]), ('beta', [2, 3])]))
    return {'d': d, 'a': a, 'u': draw(st.sampled_from([0.2, 0.5, 0.8, 0.35])), 'two': draw(st.booleans()), 'square': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6))}


def run_gp(c):
    import scipy.stats as sts
    from sims_pars.fit.hme import BayesHistoryMatching
    dist = {'unif': sts.uniform(0, 4), 'norm': sts.norm(2, 1), 'exp': sts.expon(), 'beta': sts.beta(2, 3)}[c['d']]
    x0 = round(float(dist.ppf(c['u'])), 3)
    nodes = [{'n': 'x', 'k': 'rv', 'd': c['d'], 'a': [['num', v] for v in c['a']]}]
    sims = {'S': ['bin', '*', ['var', 'x'], ['var', 'x']] if c['square'] else ['bin', '+', ['var', 'x'], ['num', 1]]}
    if c['two']:
        nodes.append({'n': 'y', 'k': 'rv', 'd': 'unif', 'a': [['num', 0], ['num', 1]]})
        sims['R'] = ['bin', '-', ['var', 'x'], ['var', 'y']]
    truth = {'x': x0, 'y': 0.4}
    data = {k: {'m': round(gen.ev(e, truth), 4), 'l': round(gen.ev(e, truth), 4) - 0.4, 'u': round(gen.ev(e, truth), 4) + 0.4} for k, e in sims.items()}
    fc = {'net': {'name': 'G', 'nodes': nodes}, 'order': list(range(len(nodes))), 'exo': {}, 'fail': None, 'sims': sims, 'data': data}
    model = fitref.make(fc)
    alg = BayesHistoryMatching(n_sims=12, n_ems=150, max_wave=2, var_model=0.02, cutoff=3, min_acc=0.05)
    alg.fit(model)
    post = alg.sample_posteriors(10)
    for k, lo, hi in post['Bounds']:
        check(lo <= hi, 'bounds {}', post['Bounds'])
        w = 0.35 * (1 if k == 'y' else float(dist.std()))
        check(lo - w <= truth[k] <= hi + w, 'the true {}={} was ruled out: {}', k, truth[k], (lo, hi))
    for pt in post.Particles:
        fitref.check_particle(pt, fc, 'posterior')
    # most of the retained space reproduces the data
    if not c['two'] and not c['square'] and c['d'] != 'beta':
        k, lo, hi = post['Bounds'][0]
        m, v = target(data['S'])
        h = stt_half = 3 * math.sqrt(0.02 + v) + 1.0
        check(x0 - h <= lo and hi <= x0 + h or alg.State.CutOff > 3.01, 'bounds {} around {} keep what the data rule out', (lo, hi), x0)
    return {'labels': [c['d']]}


FACETS = [Facet('waves', cases(), run, 104, 6000), Facet('gp', gp_cases(), run_gp, 8, 160, timeout=400)]
