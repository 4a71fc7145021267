"""Comparison of a network of the library with the reference model of a network (a dict name -> node of gen.nets)"""
import math
from core import check
import gen

TYPE = {'val': 'Value', 'exo': 'ExoValue', 'fn': 'Function', 'rv': 'Distribution', 'pseudo': 'Pseudo'}


def defs_of(net):
    return {m['n']: m for m in net['nodes']}


def close_defs(defs):
    """Undefined parents are exogenous"""
    for m in list(defs.values()):
        for p in gen.parents_of(m):
            defs.setdefault(p, {'n': p, 'k': 'exo'})
    return defs


class Graph(gen.RefDag):
    """Of a network that stays as it is: every answer is worked out once"""
    def __init__(self, nodes, edges):
        gen.RefDag.__init__(self, nodes, edges)
        self._pa, self._ch, self._up, self._dn = {}, {}, {}, {}
        for a, b in self.edges:
            self._pa.setdefault(b, set()).add(a)
            self._ch.setdefault(a, set()).add(b)

    def parents(self, n):
        return set(self._pa.get(n, ()))

    def children(self, n):
        return set(self._ch.get(n, ()))

    def anc(self, n):
        if n not in self._up:
            self._up[n] = gen.RefDag.anc(self, n)
        return set(self._up[n])

    def des(self, n):
        if n not in self._dn:
            self._dn[n] = gen.RefDag.des(self, n)
        return set(self._dn[n])


def graph(defs):
    return Graph(defs, [(p, m['n']) for m in defs.values() for p in gen.parents_of(m)])


def topo(defs):
    g, out, todo = graph(defs), [], list(defs)
    while todo:
        nxt = [n for n in todo if g.parents(n) <= set(out)]
        if not nxt:
            return None
        out += nxt
        todo = [n for n in todo if n not in nxt]
    return out


def assignment(defs, exo=None):
    """A possible value for every variable (means for the random ones)"""
    env = {}
    for i, n in enumerate(topo(defs)):
        m = defs[n]
        if m['k'] in ('exo', 'pseudo'):
            env[n] = (exo or {}).get(n, 2 + i)
        elif m['k'] in ('val', 'fn'):
            env[n] = gen.ev(m['e'], env)
        elif m['d'] == 'cat':
            env[n] = sorted(m['kv'])[0]
        else:
            args = [gen.ev(a, env) for a in m['a']]
            v = gen.LAW[m['d']].mean(*args)
            env[n] = int(round(v)) if gen.LAW[m['d']].discrete else v
    return env


def rv_roots(defs, g):
    rv = {n for n, m in defs.items() if m['k'] == 'rv'}
    return {n for n in rv if not g.anc(n) & rv}


def check_network(bn, defs, env=None, what='network', des=True, order=True):
    g = graph(defs)
    check(set(bn.DAG.nodes) == set(defs), '{}: variables {} instead of {}', what, sorted(bn.DAG.nodes), sorted(defs))
    env = env or assignment(defs)
    for n, m in defs.items():
        lo = bn[n]
        js = lo.to_json()
        check(js['Type'] == TYPE[m['k']] and js['Name'] == n, '{}: {} is {} instead of {}', what, n, js, m['k'])
        pa = gen.parents_of(m)
        check(set(lo.Parents) == pa, '{}: parents of {}: {} instead of {}', what, n, sorted(lo.Parents), sorted(pa))
        check(bn.DAG.parents(n) == pa, '{}: edges into {}: {} instead of {}', what, n, sorted(bn.DAG.parents(n)), sorted(pa))
        vis = {p: env[p] for p in pa}
        if m['k'] in ('val', 'fn'):
            v = lo.render(dict(vis))
            check(gen.close(v, gen.ev(m['e'], vis)), '{}: {} is {} instead of {}', what, n, v, gen.ev(m['e'], vis))
        elif m['k'] == 'exo':
            check(lo.render({n: 4.5}) == 4.5, '{}: exogenous {}', what, n)
        elif m['k'] == 'rv':
            for v in [env[n]] + ([] if m['d'] == 'cat' else [env[n] + 1, env[n] - 0.25]):
                r = gen.node_logpdf(m, vis, v)
                lp = lo.evaluate(dict(vis, **{n: v}))
                check(gen.close(lp, r, 1e-7, 1e-7), '{}: log density {} of {}={} given {}, instead of {}', what, lp, n, v, vis, r)
        if des:
            d = bn.DAG.nodes[n].get('Des')
            r = gen.squash(m['des']) if m.get('des') else None
            check(d == r, '{}: description of {} is {!r} instead of {!r}', what, n, d, r)
        check(n in bn, '{}: {} not found', what, n)
    if order:
        od = list(bn.Order)
        pos = {n: i for i, n in enumerate(od)}
        check(len(od) == len(pos) == len(defs) and all(pos[a] < pos[b] for a, b in g.edges), '{}: order {}', what, od)
        check(sorted(bn.Roots) == sorted(n for n in defs if not g.parents(n)), '{}: roots {}', what, bn.Roots)
        check(sorted(bn.Leaves) == sorted(n for n in defs if not g.children(n)), '{}: leaves {}', what, bn.Leaves)
        check(sorted(bn.Exo) == sorted(n for n, m in defs.items() if m['k'] == 'exo'), '{}: exogenous {}', what, bn.Exo)
        check(sorted(bn.RVRoots) == sorted(rv_roots(defs, g)), '{}: random roots {}', what, bn.RVRoots)


def consistent(defs, vals, what, only=None, skip=()):
    """Values of variables agree with their definitions given the values of their parents"""
    for n, v in vals.items():
        m = defs.get(n)
        if m is None or n in skip or (only is not None and n not in only):
            continue
        if m['k'] in ('exo', 'pseudo'):
            continue
        if m['k'] == 'val':
            check(gen.close(v, gen.ev(m['e'], {})), '{}: constant {} is {}', what, n, v)
            continue
        pa = gen.parents_of(m)
        check(pa <= set(vals), '{}: {} has a value without its parents {}', what, n, sorted(pa - set(vals)))
        if m['k'] == 'fn':
            r = gen.ev(m['e'], vals)
            check(gen.close(v, r, 1e-8, 1e-8), '{}: {} is {} but its parents make it {}', what, n, v, r)
        else:
            check(gen.support_ok(m, vals, v), '{}: {}={} is impossible given its parents in {}', what, n, v, vals)


def pit(m, env, v):
    """Uniform residual of a continuous variable given its parents (None if it has none)"""
    import scipy.stats as sts
    if m['k'] != 'rv' or m['d'] in ('cat', 'k') or gen.LAW[m['d']].discrete:
        return None
    a = [gen.ev(x, env) for x in m['a']]
    d = m['d']
    if d == 'unif':
        return (v - a[0]) / (a[1] - a[0])
    if d == 'norm':
        return float(0.5 * math.erfc(-(v - a[0]) / a[1] / math.sqrt(2)))
    if d == 'exp':
        return 1 - math.exp(-a[0] * v)
    if d == 'gamma':
        return float(sts.gamma.cdf(v, a[0], scale=1 / a[1])) if a[0] >= 0.3 else None
    if d == 'beta':
        return float(sts.beta.cdf(v, a[0], a[1])) if min(a) >= 0.3 else None
    if d == 'triangle':
        lo, mid, hi = sorted(a)
        if v <= mid:
            return (v - lo) ** 2 / ((hi - lo) * (mid - lo)) if mid > lo else 0.0
        return 1 - (hi - v) ** 2 / ((hi - lo) * (hi - mid))
    return None


def check_residuals(us, what, alpha=1e-9):
    """us: name -> residuals over repeated draws; uniform and unrelated"""
    import numpy as np
    names = sorted(us)
    for n in names:
        p = gen.ks_p(us[n], 'uniform')
        check(p > alpha, '{}: draws of {} do not follow its law given its parents (p={})', what, n, p)
    k = len(us[names[0]]) if names else 0
    if k < 60:
        return
    for i, a in enumerate(names):
        x = np.array(us[a]) - 0.5
        for lag in (1, 2, k // 2):
            r = float((x[lag:] * x[:-lag]).mean() * 12)
            check(abs(r) * math.sqrt(k - lag) < 7, '{}: draws of {} which are {} apart are related ({})', what, a, lag, r)
        check(len(set(us[a])) > 0.8 * k, '{}: draws of {} repeat', what, a)
        for b in names[:i]:
            r = float((x * (np.array(us[b]) - 0.5)).mean() * 12)
            check(abs(r) * math.sqrt(k) < 7, '{}: draws of {} and {} are related ({})', what, a, b, r)
