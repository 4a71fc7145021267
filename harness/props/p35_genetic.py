"""Operators of the genetic algorithm"""
import math
import numpy as np
from collections import namedtuple
from hypothesis import strategies as st
from core import Facet, check, Known
import gen

PROPERTY = 'P35'
RULE = ('generated populations and domains: offspring of crossovers, bounds, centre and scale of mutations, members and frequencies of selections against '
        'reference laws; facet fit: whole runs; non-trivial: two or more free parameters or an impossible individual')

Dom = namedtuple('Dom', ('Name', 'Type', 'Lower', 'Upper'))


class Ind:
    """An individual of the documented shape"""
    def __init__(self, locus, lp=0.0, ll=0.0):
        self.Locus, self.LogPosterior, self.LogLikelihood = dict(locus), lp, ll
        self.copies = 0

    def __getitem__(self, k):
        return self.Locus[k]

    def clone(self):
        x = Ind(self.Locus, self.LogPosterior, self.LogLikelihood)
        x.origin = self
        return x


class Obj:
    def __init__(self, doms):
        self.Domain = [Dom(n, 'Double', -gen.INF if lo is None else lo, gen.INF if hi is None else hi) for n, lo, hi in doms]


@st.composite
def cases(draw):
    doms = []
    for n in draw(st.lists(st.sampled_from(['a', 'b', 'c', 'beta']), min_size=1, max_size=4, unique=True)):
        lo = draw(st.one_of(st.none(), st.sampled_from([0, -3, 10.5])))
        hi = draw(st.one_of(st.none(), st.sampled_from([1, 4, 20]).map(lambda w: (lo or 0) + w)))
        doms.append([n, lo, hi])
    size = draw(st.integers(6, 20))

    def value(lo, hi):
        a = -10 if lo is None and hi is None else lo if lo is not None else hi - 8
        b = 10 if lo is None and hi is None else hi if hi is not None else lo + 8
        return st.floats(0, 1).map(lambda u: a + u * (b - a))
    pop = [{n: draw(value(lo, hi)) for n, lo, hi in doms} for _ in range(size)]
    if draw(st.integers(0, 6)) == 0:
        pop = [dict(pop[0]) for _ in pop]
    return {'doms': doms, 'pop': pop, 'fit': [[draw(st.floats(-6, 3)), draw(st.floats(-6, 3))] for _ in pop],
            'dead': draw(st.lists(st.integers(0, size - 1), max_size=3)), 'k': draw(st.integers(1, 4)), 'mle': draw(st.booleans()),
            'scale': draw(st.sampled_from([2, 0.5, 100])), 'shift': draw(st.sampled_from([0, 3, -50])), 'seed': draw(st.integers(0, 10 ** 6)),
            'n': draw(st.sampled_from([1, 1, 1, 400])), 'text': draw(st.booleans())}


def run(c):
    from sims_pars.fit.ga.cross import get_crossover
    from sims_pars.fit.ga.mutate import get_mutator
    from sims_pars.fit.ga.select import get_selector
    obj = Obj(c['doms'])
    names = [d[0] for d in c['doms']]
    pop = [Ind(p, a, b) for p, (a, b) in zip(c['pop'], c['fit'])]
    # crossover
    p, q = pop[0], pop[1]
    for how in ('average', 'shuffle', 'average()', 'shuffle()')[:4 if c['n'] == 1 else 2]:
        cro = get_crossover(how)
        swaps = {n: [] for n in names}
        for _ in range(c['n']):
            kids = cro.crossover(p, q, obj)
            check(len(kids) == 2 and kids[0] is not kids[1], '{}: {} children', how, len(kids))
            x, y = [dict(k) for k in kids]
            check(set(x) == set(y) == set(names), '{}: children {} and {}', how, x, y)
            for n in names:
                if how.startswith('average'):
                    m = (p[n] + q[n]) / 2
                    check(gen.close(x[n], m) and gen.close(y[n], m), 'average of {} and {} is {} and {}', p[n], q[n], x[n], y[n])
                else:
                    check((x[n], y[n]) in ((p[n], q[n]), (q[n], p[n])), 'shuffle of {} and {} is {} and {}', p[n], q[n], x[n], y[n])
                    swaps[n].append(x[n] != p[n])
            check(p.Locus == c['pop'][0] and q.Locus == c['pop'][1], 'crossover changed the parents')
        if how == 'shuffle' and c['n'] > 1:
            diff = [n for n in names if p[n] != q[n]]
            for n in diff:
                check(gen.binom_p(sum(swaps[n]), c['n'], 0.5) > 1e-9, '{} of {} children swap {}', sum(swaps[n]), c['n'], n)
            for a, b in zip(diff, diff[1:]):
                both = sum(x == y for x, y in zip(swaps[a], swaps[b]))
                check(gen.binom_p(both, c['n'], 0.5) > 1e-9, '{} and {} swap together {} times out of {}', a, b, both, c['n'])
    # mutation
    mut = get_mutator('rw')
    mut.set_scales(pop, obj)
    sc = dict(mut.Scales)
    check(set(sc) == set(names) and all(v > 0 and math.isfinite(v) for v in sc.values()), 'scales {}', sc)
    mut2 = get_mutator('rw()')
    mut2.set_scales([Ind({k: v * c['scale'] + c['shift'] for k, v in x.Locus.items()}) for x in pop], Obj([[n, None, None] for n in names]))
    for n in names:
        xs = np.array([x[n] for x in pop])
        if xs.std() > 1e-6 and np.subtract(*np.percentile(xs, [75, 25])) > 1e-6:
            check(gen.close(mut2.Scales[n], sc[n] * c['scale'], 1e-6), 'a population {} times as wide has scale {} instead of {}', c['scale'], mut2.Scales[n], sc[n] * c['scale'])
            check(sc[n] < 2 * (xs.max() - xs.min()), 'scale {} for {}', sc[n], sorted(xs))
    # the generations before do not matter
    mut2.set_scales(pop, obj)
    check(all(gen.close(mut2.Scales[n], sc[n], 1e-9) for n in names), 'scales {} depend on the populations before, instead of {}', mut2.Scales, sc)
    got = {n: [] for n in names}
    for _ in range(max(3, c['n'])):
        z = mut.propose(p, obj)
        check(set(z) == set(names), 'proposal {}', z)
        for d in obj.Domain:
            check(d.Lower <= z[d.Name] <= d.Upper, 'proposal {}={} out of {}', d.Name, z[d.Name], (d.Lower, d.Upper))
            got[d.Name].append(z[d.Name])
        check(p.Locus == c['pop'][0], 'mutation changed its parent')
    if c['n'] > 1:
        import scipy.stats as sts
        for d in obj.Domain:
            n = d.Name
            if sc[n] < 1e-6 * (1 + abs(p[n])):
                continue
            us = [sts.norm.cdf((v - p[n]) / sc[n]) for v in got[n]]
            a, b = sts.norm.cdf((d.Lower - p[n]) / sc[n]), sts.norm.cdf((d.Upper - p[n]) / sc[n])
            inn = [(u - a) / (b - a) for u in us if a + 1e-6 < u < b - 1e-6]
            if len(inn) > 100:
                check(gen.ks_p(inn, 'uniform') > 1e-9, 'proposals of {} are not normal around {} with scale {}', n, p[n], sc[n])
    # selection
    for i in c['dead']:
        pop[i].LogLikelihood = pop[i].LogPosterior = -gen.INF
    alive = [x for x in pop if x.LogLikelihood > -gen.INF]
    fitness = 'MLE' if c['mle'] else 'MAP'
    val = [x.LogLikelihood if c['mle'] else x.LogPosterior for x in alive]
    reps = 1 if c['n'] == 1 else 80
    for how in ('tour({})'.format(c['k']) if c['text'] else 'tour(K={})'.format(c['k']), 'importance', 'tour'):
        k = c['k'] if '(' in how else 3
        if len(alive) <= (5 if how == 'importance' else k):
            continue
        sel = get_selector(how)
        cnt = np.zeros(len(alive))
        idx = {id(x): i for i, x in enumerate(alive)}
        for _ in range(reps):
            out = sel.select(pop, obj, fitness) if c['mle'] else sel.select(pop, obj)
            check(len(out) == len(pop), '{}: {} selected out of {}', how, len(out), len(pop))
            check(len({id(x) for x in out}) == len(out) and not any(x in pop for x in out), '{}: selected individuals are shared', how)
            for x in out:
                o = getattr(x, 'origin', None)
                check(o is not None and id(o) in idx, '{}: selected {}', how, x.Locus)
                cnt[idx[id(o)]] += 1
        if how == 'importance':
            w = np.exp(np.array(val) - max(val))
            w = w / w.sum()
        else:
            order = sorted(range(len(alive)), key=lambda i: val[i])
            w = np.zeros(len(alive))
            for r, i in enumerate(order):
                w[i] = math.comb(r, k - 1) / math.comb(len(alive), k)
            if len(set(val)) < len(val):
                continue
        tot = int(cnt.sum())
        check(not cnt[w == 0].any(), '{}: selected an individual that cannot win', how)
        for i in range(len(alive)):
            if w[i] > 0:
                check(gen.binom_p(cnt[i], tot, min(1.0, w[i])) > 1e-10, '{} by {}: fitness {} among {} selected {} times out of {}, expected {}', how, fitness, val[i], sorted(val), cnt[i], tot, w[i] * tot)
        check([x.Locus for x in pop] == c['pop'], '{} changed the population', how)
    return {'nontrivial': len(names) > 1 or bool(c['dead']), 'labels': ['law'] * (c['n'] > 1)}


fits = st.fixed_dictionaries({'sel': st.sampled_from(['importance', 'tour(2)']), 'cro': st.sampled_from(['average', 'shuffle']), 'n': st.integers(20, 30),
                              'seed': st.integers(0, 10 ** 6)})


def run_fit(c):
    from sims_pars.fit.ga import GeneticAlg
    from sims_pars.fitting.cases import NormalTwo
    try:
        m = NormalTwo([1, -1])
        alg = GeneticAlg(parallel=False, n_collect=c['n'], max_round=4, verbose=0, sel=c['sel'], cro=c['cro'])
        alg.fit(m)
    except AttributeError as e:
        if "'Chromosome' object has no attribute 'is_prior_evaluated'" in str(e):
            raise Known('genetic-fit')
        raise
    check(math.isfinite(alg.States.MaxFitness), 'fitness {}', alg.States.MaxFitness)
    return {}


FACETS = [Facet('operators', cases(), run, 500, 12000), Facet('fit', fits, run_fit, 8, 24)]
