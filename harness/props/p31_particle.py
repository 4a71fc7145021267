"""Particles and sets of them as data"""
import copy
import json
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P31'
RULE = ('generated particles with notes and histories of up to 8 operations (note, copy, JSON round trip, edits of a copy) against a model; tables and JSON of '
        'sets of particles against the particles; single and lists of parameters likewise (data, JSON, copies, tables, means); non-trivial: a copy or a round trip of particles with notes')

num = st.one_of(st.integers(-100, 100), st.floats(-1e6, 1e6), st.sampled_from([0.1, 1 / 3, 1e-12]))
NAMES = ['beta', 'gamma', 'x', 'y1', 'Sex']


@st.composite
def particles(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    return {'pars': {n: draw(st.sampled_from(['F', 'M'])) if n == 'Sex' else draw(num) for n in names}, 'lp': draw(st.one_of(st.none(), st.floats(-100, 5), st.sampled_from(['-inf', 0]))),
            'sims': {'S{}'.format(i): draw(num) for i in range(draw(st.integers(0, 3)))},
            'ops': draw(st.lists(st.one_of(
                st.tuples(st.just('note'), st.sampled_from(['Xs', 'Ys', 'distance', 'log_lik', 'k1']), st.one_of(num, st.lists(num, max_size=3))).map(list),
                st.tuples(st.just('copy'), st.booleans(), st.sampled_from(NAMES), num).map(list),
                st.just(['json']), st.just(['get', 'vp_none'])), max_size=8))}


cases = st.fixed_dictionaries({'pts': st.lists(particles(), min_size=1, max_size=4), 'alg': st.sampled_from([None, 'ABC', 'x']),
                               'notes': st.dictionaries(st.sampled_from(['Eps', 'ESS', 'Acceptance']), num, max_size=3)})


def view(pt):
    return dict(pt.Pars), pt.Pars.LogProb if pt.Pars.is_evaluated() else None, dict(pt.Sims), copy.deepcopy(dict(pt.Notes))


def run(c):
    from sims_pars.bayesnet import Chromosome
    from sims_pars.fit.base import Particle
    from sims_pars.fit.results import ParameterSet
    pts, deep, labels = [], False, set()
    for s in c['pts']:
        s = dict(s, lp=s['lp'] if s['lp'] is None else float(s['lp']))
        pt = Particle(Chromosome(s['pars'], float('nan') if s['lp'] is None else s['lp']), dict(s['sims']))
        ref = (dict(s['pars']), s['lp'], dict(s['sims']), {})
        check(view(pt) == ref, 'new particle {}', view(pt))
        for o in s['ops']:
            labels.add(o[0])
            if o[0] == 'note':
                pt[o[1]] = o[2]
                ref[3][o[1]] = copy.copy(o[2])
                check(pt[o[1]] == o[2], 'note')
            elif o[0] == 'get':
                try:
                    pt[o[1]]
                except KeyError:
                    pass
                else:
                    check(False, 'a note nobody took')
            elif o[0] == 'json':
                deep = deep or bool(ref[3])
                js = json.loads(json.dumps(pt.to_json()))
                keep = copy.deepcopy(js)
                pt, x = Particle.from_json(js), Particle.from_json(js)
                x['vp_new'] = 1
                x.Sims['vp_new'] = 1
                x.Pars['vp_new'] = 1
                check(js == keep, 'editing a particle read from JSON changed the JSON')
                check('vp_new' not in pt.Notes and 'vp_new' not in pt.Sims and 'vp_new' not in pt.Pars, 'particles read from the same JSON share data')
            else:
                deep = deep or bool(ref[3])
                x = pt.copy()
                check(x is not pt and x.Pars is not pt.Pars, 'copy is the original')
                # distances belong to the particle they were computed for, its inputs and outputs are kept
                check(view(x)[:3] == ref[:3] and dict(x.Notes) == {k: v for k, v in ref[3].items() if k in ('Xs', 'Ys')}, 'copy {} of {}', view(x), ref)
                y = pt if o[1] else x
                before = view(x if o[1] else pt)
                y.Pars[o[2]] = o[3]
                y['k1'] = 77
                y.Sims['later'] = 5
                for k in ('Xs', 'Ys'):
                    if isinstance(y.Notes.get(k), list):
                        y[k].append(6)
                check(view(x if o[1] else pt) == before, 'editing one of original and copy changed the other')
                if o[1]:
                    ref[0][o[2]] = o[3]
                    ref[3]['k1'] = 77
                    ref[2]['later'] = 5
                    for k in ('Xs', 'Ys'):
                        if isinstance(ref[3].get(k), list):
                            ref[3][k] = ref[3][k] + [6]
                    ref = (ref[0], None, ref[2], ref[3])
            check(view(pt) == ref, 'particle {} instead of {}', view(pt), ref)
        pts.append(pt)
        c2 = pt.Pars
        check(set(c2.keys()) == set(ref[0]), 'parameters')
    post = ParameterSet() if c['alg'] is None else ParameterSet(c['alg'])
    other = ParameterSet()
    for i, pt in enumerate(pts):
        check(len(post) == i, 'size')
        post.append(pt)
        pt['Ys'] = dict(pt.Sims)
    check(len(other) == 0 and not other.Notes, 'sets share particles')
    for k, v in c['notes'].items():
        post.keep(k, v)
        check(post[k] == v, 'note')
    js = json.loads(json.dumps(post.to_json()))
    check(js == {'Algorithm': c['alg'] or 'Prior', 'Settings': {}, 'Notes': c['notes'], 'Posterior': [dict(pt.Pars) for pt in pts]}, 'set as JSON {}', js)
    for df, rows in ((post.to_df(), [dict(pt.Pars) for pt in pts]), (post.to_pred_df(), [pt.Sims for pt in pts])):
        check(len(df) == len(pts), '{} rows', len(df))
        check(set(df.columns) == set().union(*rows), 'columns {}', list(df.columns))
        for i, r in enumerate(rows):
            for k in df.columns:
                v = df[k].iloc[i]
                check(gen.close(v, r[k], 1e-12) or v == r[k] if k in r else v != v or v is None, 'row {} has {}={} instead of {}', i, k, v, r.get(k))
    return {'nontrivial': deep, 'labels': sorted(labels)}



loci = st.fixed_dictionaries({'names': st.lists(st.sampled_from(NAMES[:4]), min_size=1, max_size=4, unique=True), 'rows': st.lists(st.tuples(num, num, num, num, st.one_of(
    st.none(), st.floats(-100, 5), st.sampled_from(['-inf', 0]))).map(list), min_size=1, max_size=6), 'i': st.integers(0, 99), 'v': num})


def run_loci(c):
    import copy
    import pickle
    from sims_pars.bayesnet import Chromosome
    ks = c['names']
    refs = [(dict(zip(ks, r)), None if r[4] is None else float(r[4])) for r in c['rows']]
    given = [dict(v) for v, _ in refs]
    gs = [Chromosome(v) if lp is None else Chromosome(v, lp) for v, (_, lp) in zip(given, refs)]

    def same(g, ref, what):
        v, lp = ref
        check(dict(g.Locus) == v and dict(iter(g)) == v and set(g.keys()) == set(v) and len(g) == len(v), '{}: {} instead of {}', what, g.Locus, v)
        check(all(k in g and g[k] == x for k, x in v.items()) and 'vp_none' not in g, '{}: {} instead of {}', what, g.Locus, v)
        check(bool(g.is_evaluated()) == (lp is not None), '{}: evaluated is {} at {}', what, g.is_evaluated(), g.LogProb)
        check(lp is None or g.LogProb == lp, '{}: log density {} instead of {}', what, g.LogProb, lp)
        check(dict(g.to_data()) == (v if lp is None else dict(v, LogProb=lp)), '{}: data {} of {}', what, g.to_data(), ref)
        check(bool(g) and isinstance(repr(g), str) and all(k in repr(g) for k in v), '{}: shown as {!r}', what, g)

    for g, ref in zip(gs, refs):
        same(g, ref, 'new')
        copies = [('json', Chromosome.from_json(json.loads(json.dumps(g.to_json())))), ('clone', g.clone()), ('deep copy', copy.deepcopy(g)), ('pickle', pickle.loads(pickle.dumps(g)))]
        for what, x in copies:
            same(x, ref, what)
            k = ks[c['i'] % len(ks)]
            x[k] = c['v']
            same(x, (dict(ref[0], **{k: c['v']}), None), 'edited ' + what)
            same(g, ref, 'original of the ' + what)
    check(given == [v for v, _ in refs], 'the given values changed')
    df = Chromosome.to_data_frame(gs)
    check(len(df) == len(gs), '{} rows', len(df))
    for i, (v, lp) in enumerate(refs):
        row = df.iloc[i]
        check(all(gen.close(row[k], x, 1e-12, 0) for k, x in v.items()), 'row {} is {} instead of {}', i, dict(row), v)
        check(lp is None or row['LogProb'] == lp, 'row {} has log density {} instead of {}', i, row.get('LogProb'), lp)
    m = Chromosome.mean(gs)
    s = Chromosome.summarise(gs)
    check(set(m) == set(ks), 'means of {}', sorted(m))
    for k in ks:
        xs = [v[k] for v, _ in refs]
        mu = sum(xs) / len(xs)
        big = max(map(abs, xs))
        check(gen.close(m[k], mu, 1e-9, 1e-9 * big), 'mean of {} is {} instead of {}', k, m[k], mu)
        check(gen.close(s[k]['mean'], mu, 1e-9, 1e-9 * big) and s[k]['min'] == min(xs) and s[k]['max'] == max(xs) and s[k]['count'] == len(xs), 'summary of {} is {}', k, dict(s[k]))
    return {'nontrivial': len(gs) > 1 and any(lp is not None for _, lp in refs), 'labels': ['impossible'] * any(lp == -gen.INF for _, lp in refs)}


FACETS = [Facet('history', cases, run, 2000, 50000), Facet('loci', loci, run_loci, 1500, 40000)]
