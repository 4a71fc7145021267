"""Data models for calibration: generator, model and reference"""
from hypothesis import strategies as st
import bnref
import gen


@st.composite
def priors(draw, max_roots=3, fams=('unif', 'norm', 'exp', 'gamma', 'beta', 'triangle'), extra=True, wide=False):
    """Networks with 1-3 continuous roots and a few variables below; every scale is about one"""
    names = list(draw(st.permutations(gen.PLAIN)))
    nodes = []
    for _ in range(draw(st.integers(1, max_roots))):
        d = draw(st.sampled_from(fams))
        a = {'unif': [[0, 1], [-2, 2], [1, 5]], 'norm': [[0, 1], [3, 0.5]], 'exp': [[1], [0.5]], 'gamma': [[2, 1], [5, 4]], 'beta': [[1, 1], [2, 3]],
             'triangle': [[0, 1, 2], [-1, 0, 3]]}[d]
        if wide:
            a = a + {'unif': [[-500, 900]], 'norm': [[-300, 80], [0, 0.002]], 'exp': [[0.003], [80]], 'gamma': [[2, 0.01]], 'beta': [[40, 0.6]], 'triangle': [[-200, 0, 5]]}[d]
        nodes.append({'n': names.pop(), 'k': 'rv', 'd': d, 'a': [['num', v] for v in draw(st.sampled_from(a))]})
    roots = [m['n'] for m in nodes]
    if extra:
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.sampled_from(['val', 'fn', 'fn', 'rv', 'bin', 'exo', 'vroot']))
            n = names.pop()
            pas = draw(st.lists(st.sampled_from(roots), min_size=1, max_size=2, unique=True))
            e = gen.lin(pas, draw)
            if k == 'val':
                nodes.append({'n': n, 'k': 'val', 'e': ['num', draw(st.sampled_from([1, 2, 0.5]))]})
            elif k == 'exo':
                nodes.append({'n': n, 'k': 'exo'})
            elif k == 'fn':
                nodes.append({'n': n, 'k': 'fn', 'e': e})
            elif k == 'rv':
                nodes.append({'n': n, 'k': 'rv', 'd': 'norm', 'a': [e, ['num', 0.5]]})
            elif k == 'bin':
                nodes.append({'n': n, 'k': 'rv', 'd': 'binom', 'a': [['num', 5], ['num', 0.5]]})
            else:
                # a random root below a constant
                v = names.pop()
                nodes.append({'n': v, 'k': 'val', 'e': ['num', draw(st.sampled_from([1, 2]))]})
                nodes.append({'n': n, 'k': 'rv', 'd': 'unif', 'a': [['var', v], ['bin', '+', ['var', v], ['num', 1]]]})
    return {'name': 'Fit', 'nodes': nodes}


@st.composite
def models(draw, max_roots=3, extra=True, fail=True, wide=False, nan=False):
    net = draw(priors(max_roots, extra=extra, wide=wide))
    defs = bnref.defs_of(net)
    exo = {n: draw(st.integers(1, 3)) for n, m in defs.items() if m['k'] == 'exo'}
    env = bnref.assignment(defs, exo)
    num = [n for n in defs if defs[n]['k'] != 'exo']
    sims, data = {}, {}
    free = free_of(defs, {})
    for i in range(draw(st.integers(1, 3))):
        pas = draw(st.lists(st.sampled_from(num), max_size=2, unique=True))
        if i == 0 and free[0] not in pas:
            pas = [free[0]] + pas[:1]
        e = gen.lin(pas, draw)
        s = 'S{}'.format(i)
        sims[s] = e
        m = gen.ev(e, env) + draw(st.sampled_from([0, 0.25, -0.5]))
        m = round(m, 3)
        if abs(m) < 0.01:
            m = 0.5
        data[s] = draw(st.sampled_from([m, {'m': m, 'l': m - 1, 'u': m + 1}, {'m': m, 'error': 0.5}, 'norm({!r}, 1)'.format(m), 'norm({!r}, 0.1)'.format(m)]))
    sims['extra'] = ['num', 9]
    return {'net': net, 'exo': exo, 'sims': sims, 'data': data, 'order': list(draw(st.permutations(range(len(net['nodes']))))),
            'fail': [free[0], env[free[0]], draw(st.sampled_from(['inf', 'nan'] if nan else ['inf']))] if fail and draw(st.integers(0, 2)) == 0 else None}


def free_of(defs, given):
    """Random roots with a continuous law which are not given"""
    g = bnref.graph(defs)
    rv = {n for n, m in defs.items() if m['k'] == 'rv'}
    return [n for n in rv if not g.anc(n) & rv and n not in given and defs[n]['d'] != 'cat' and not gen.LAW[defs[n]['d']].discrete]


def make(c, how='bn', data=None):
    from sims_pars import bayes_net_from_script
    from sims_pars.fit.base import DataModel, Particle
    from sims_pars.fit.targets import read_targets
    txt = gen.script(c['net'], c['order'])
    bn = bayes_net_from_script(txt)

    class Model(DataModel):
        calls = 0

        def simulate(self, pars):
            self.calls += 1
            sims = {k: gen.ev(e, dict(pars)) for k, e in c['sims'].items()}
            pt = Particle(pars, sims)
            if c.get('fail') and pars[c['fail'][0]] > c['fail'][1]:
                pt['distance'] = float(c['fail'][2])
            return pt

    src = {'bn': bn, 'script': txt, 'json': bn.to_json()}[how]
    return Model(read_targets(c['data']) if data is None else data, src, exo=dict(c['exo']) if c['exo'] else None)


def distance(c, sims):
    tot = 0
    for k, t in c['data'].items():
        x = sims[k]
        if isinstance(t, str):
            tot -= gen.LAW['norm'].logpdf(x, *eval(t[4:]))
        elif isinstance(t, dict):
            sd = (t['u'] - t['l']) / 2 / 1.96 if 'l' in t else t['error'] * abs(t['m']) / 2 / 1.96
            tot += (x - t['m']) ** 2 / sd
        else:
            tot += (x - t) ** 2 / (0.1 * abs(t) / 2 / 1.96)
    return tot


def ref_distance(c, pars):
    if c.get('fail') and pars[c['fail'][0]] > c['fail'][1]:
        return gen.INF
    return distance(c, {k: gen.ev(e, dict(pars)) for k, e in c['sims'].items()})


def check_particle(pt, c, what, eps=None):
    """A particle of a fit: parameters follow the network, outputs follow the parameters, within the tolerance"""
    from core import check
    defs = bnref.defs_of(c['net'])
    pars = dict(pt.Pars)
    check(set(pars) == set(defs) | set(c['exo']), '{}: parameters {}', what, sorted(pars))
    bnref.consistent(defs, pars, what)
    check(all(pars[k] == v for k, v in c['exo'].items()), '{}: given variables {}', what, pars)
    for k, e in c['sims'].items():
        check(gen.close(pt.Sims[k], gen.ev(e, pars), 1e-9, 1e-9), '{}: output {} is {} but the parameters make it {}', what, k, pt.Sims[k], gen.ev(e, pars))
    d = ref_distance(c, pars)
    if 'distance' in pt.Notes:
        check(gen.close(pt['distance'], d, 1e-7, 1e-7), '{}: distance {} instead of {}', what, pt['distance'], d)
    if eps is not None:
        check(d <= eps + 1e-7 * (1 + abs(eps)), '{}: distance {} beyond {} at {}', what, d, eps, pars)
    lp = sum(gen.node_logpdf(defs[n], pars, v) for n, v in pars.items() if defs.get(n, {}).get('k') == 'rv')
    if pt.Pars.is_evaluated():
        check(gen.close(pt.Pars.LogProb, lp, 1e-6, 1e-6), '{}: log density {} instead of {}', what, pt.Pars.LogProb, lp)
    if 'Ys' in pt.Notes:
        check(pt['Ys'] == {k: pt.Sims[k] for k in c['data']}, '{}: outputs {} of {}', what, pt['Ys'], pt.Sims)
    return pars, d
