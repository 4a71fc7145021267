"""Interventions on values, their copies and exports"""
import copy
import json
import math
import pickle
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
from props.p18_sample import build

PROPERTY = 'P21'
RULE = ('generated networks; histories of up to 4 interventions (set values, ask for new draws, unknown names) on sampled values: set values stay, what is below is '
        'recomputed, the rest is untouched; copies and exports keep the values; non-trivial: an intervention above another variable')


@st.composite
def cases(draw):
    net = draw(gen.nets(2, 8, kinds=('val', 'exo', 'fn', 'fn', 'rv', 'rv', 'rv')))
    defs = bnref.defs_of(net)
    names = [m['n'] for m in net['nodes']]
    exo = {n: draw(st.integers(-5, 6)) for n, m in defs.items() if m['k'] == 'exo'}
    imps = []
    for _ in range(draw(st.integers(1, 4))):
        im = {}
        for n in draw(st.lists(st.sampled_from(names), min_size=0, max_size=3, unique=True)):
            im[n] = None if defs[n]['k'] != 'exo' and draw(st.integers(0, 2)) == 0 else draw(st.sampled_from([1, 2.5, 0, -3]))
        if draw(st.integers(0, 6)) == 0:
            im['vp_unknown'] = 4
        imps.append([im, draw(st.integers(0, 4)) > 0])
    return {'net': net, 'exo': exo, 'order': list(draw(st.permutations(range(len(names))))), 'done': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6)), 'imps': imps,
            'n': draw(st.sampled_from([1, 1, 1, 100]))}


def run(c):
    from sims_pars import sample_chromosome
    from sims_pars.bayesnet import Chromosome
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn = build(c)
    ch = sample_chromosome(bn, dict(c['exo']))
    start = dict(iter(ch))
    forced = set()      # variables whose value may disagree with their definition
    below = False
    cont = lambda n: defs[n]['k'] == 'rv' and defs[n]['d'] != 'k' and not gen.LAW[defs[n]['d']].discrete
    for im, with_bn in c['imps']:
        old = dict(iter(ch))
        shadow = ch.clone()
        lp = ch.LogProb
        if not with_bn:
            im = {k: (1 if x is None else x) for k, x in im.items()}
        arg = dict(im)
        ch.impulse(arg, bn if with_bn else None)
        check(arg == im, 'the intervention was changed')
        new = dict(iter(ch))
        check(dict(iter(shadow)) == old and (shadow.LogProb == lp or lp != lp), 'the clone followed the intervention')
        check(set(new) == set(old), 'intervention {} changed the names to {}', im, sorted(new))
        known = {k: x for k, x in im.items() if k in defs}
        sets = {k for k, x in known.items() if x is not None}
        des = set().union(*[g.des(k) for k in known]) if with_bn else set()
        fresh = (des - sets) | {k for k, x in known.items() if x is None}
        below = below or bool(des)
        for k in sets:
            check(new[k] == im[k], '{} was set to {} and is {}', k, im[k], new[k])
        for k in set(new) - sets - fresh:
            check(new[k] == old[k], '{} changed from {} to {} by {}', k, old[k], new[k], im)
        forced = (forced | sets) - fresh
        if not with_bn:
            forced |= set().union(*[g.children(k) for k in sets]) - sets
        bnref.consistent(defs, new, 'after ' + str(im), skip=forced)
        for k in fresh:
            if cont(k):
                check(new[k] != old[k], '{} was not drawn again by {}', k, im)
        if known:
            check(not ch.is_evaluated() and math.isnan(ch.LogProb), 'log density {} kept after {}', ch.LogProb, im)
        else:
            check(ch.LogProb == lp or lp != lp, 'log density {} became {} by an empty intervention', lp, ch.LogProb)
        if with_bn and c['n'] > 1 and fresh:
            us = {}
            for _ in range(c['n']):
                k2 = shadow.clone()
                k2.impulse(dict(im), bn)
                v = dict(iter(k2))
                for k in fresh:
                    u = bnref.pit(defs[k], v, v[k])
                    if u is not None:
                        us.setdefault(k, []).append(u)
            bnref.check_residuals(us, 'draws after ' + str(im))
    vals = dict(iter(ch))
    # copies and exports
    ch2 = sample_chromosome(bn, dict(c['exo']))
    for x in (ch, ch2):
        v = dict(iter(x))
        for how, y in (('clone', x.clone()), ('deepcopy', copy.deepcopy(x)), ('pickle', pickle.loads(pickle.dumps(x))), ('json', Chromosome.from_json(json.loads(json.dumps(x.to_json(), default=lambda o: o.item()))))):
            check(dict(iter(y)) == v and (y.LogProb == x.LogProb or (y.LogProb != y.LogProb and x.LogProb != x.LogProb)), '{} has {} {}', how, y, y.LogProb)
            if v:
                k = sorted(v)[0]
                y[k] = -12345
                check(x[k] == v[k] and not y.is_evaluated() and y[k] == -12345, 'editing the {} changed the original', how)
        check(len(x) == len(v) and bool(x) and set(x.keys()) == set(v) and all(k in x for k in v) and 'vp_none' not in x, 'container')
        d = x.to_data()
        check({k: d[k] for k in v} == v and set(d) == set(v) | ({'LogProb'} if x.is_evaluated() else set()), 'data {}', d)
        if x.is_evaluated():
            check(d['LogProb'] == x.LogProb, 'data {}', d)
    num = [n for n in vals if all(isinstance(q[n], (int, float)) for q in (ch, ch2))]
    df = Chromosome.to_data_frame([ch, ch2])
    check(len(df) == 2 and all(gen.close(df[n].iloc[0], ch[n]) and gen.close(df[n].iloc[1], ch2[n]) for n in num), 'data frame {}', df)
    mu = Chromosome.mean([ch, ch2])
    check(set(mu) == set(vals) and all(gen.close(mu[n], (ch[n] + ch2[n]) / 2, 1e-9, 1e-9) for n in num), 'means {}', mu)
    sm = Chromosome.summarise([ch, ch2])
    check(all(gen.close(sm[n]['mean'], mu[n], 1e-9) and gen.close(sm[n]['max'], max(ch[n], ch2[n])) and sm[n]['count'] == 2 for n in num), 'summary {}', sm)
    return {'nontrivial': below, 'labels': ['with network'] * any(b for _, b in c['imps']) + ['without'] * any(not b for _, b in c['imps']) + ['redraw'] * any(None in i.values() for i, _ in c['imps'])}


FACETS = [Facet('impulse', cases(), run, 1600, 25000)]
