"""Work shared out over processes or threads"""
import copy
import functools
import sys
import threading
from hypothesis import strategies as st
from core import Facet, check, Discard, Violation
import bnref
import gen
import parserve
import simref
from props import p01_expr, p02_calls, p04_laws, p08_dag, p11_read, p20_evaluate, p29_targets, p32_abc, p33_smc, p37_series
from props.p20_evaluate import ref_lp
from props.p23_generate import grow

PROPERTY = 'P47'
RULE = ('calibration problems fitted by two or three processes or threads, every simulation of any of them recorded: the checks of P32 and P33; generated networks and '
        'hierarchies used by four threads at once, everything each of them gets against the reference models; non-trivial: a rejected simulation, or a random variable below another')

SERVER = []


@st.composite
def fits(draw, of, alg):
    c = draw(of)
    c['set']['parallel'] = True
    c['alg'] = alg
    c['broken'] = 0
    c['core'] = draw(st.sampled_from([2, 2, 3]))
    c['backend'] = draw(st.sampled_from(['loky', 'threading']))
    return c


def run(c):
    if not SERVER or SERVER[0].p.poll() is not None:
        SERVER[:] = [parserve.Server()]
    r = SERVER[0](c)
    if 'discard' in r:
        raise Discard()
    if 'violation' in r:
        raise Violation('{} with {} workers ({}): {}'.format(c['alg'], c['core'], c['backend'], r['violation']))
    info = r['info']
    info['labels'] = info.get('labels', []) + [c['backend']]
    return info


@st.composite
def cases(draw):
    c = draw(simref.sims())
    g = bnref.graph(bnref.defs_of(c['net']))
    for grp, _ in simref.groups(c['tree']):
        grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
    names = [m['n'] for m in c['net']['nodes']]
    op = st.one_of(st.just(['sample']), st.tuples(st.just('minimal'), st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)).map(list),
                   st.tuples(st.just('chromosome'), st.sampled_from(names)).map(list), st.tuples(st.just('grow'), st.sampled_from(names), st.booleans()).map(list),
                   st.tuples(st.just('given'), st.sampled_from(names), st.sampled_from([1, 500, 20.5])).map(list), st.just(['read']))
    c['jobs'] = [draw(st.lists(op, min_size=2, max_size=5)) for _ in range(4)]
    c['frozen'] = draw(st.booleans())
    c['rep'] = 3
    if draw(st.integers(0, 2)) == 0:    # the same all over again
        c['rep'] = 40
        o = draw(op.filter(lambda o: o[0] != 'read'))
        c['jobs'] = [[o]] * 4
    return c


def run_threads(c):
    from sims_pars import sample, sample_minimally, sample_chromosome, evaluate_nodes, bayes_net_from_script
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn, sc = simref.build(c)
    if sc is None:
        raise Discard()
    if not c['frozen']:
        bn = bayes_net_from_script(gen.script(c['net'], c['order']))
    tree, exo = c['tree'], c['exo']
    out = [[] for _ in c['jobs']]

    def work(i):
        for _ in range(c['rep']):
            for o in c['jobs'][i]:
                if o[0] == 'sample':
                    v = sample(bn, dict(exo))
                    out[i].append((o, v, evaluate_nodes(bn, v)))
                elif o[0] == 'given':
                    v = sample(bn, dict(exo, **{o[1]: o[2]}))
                    out[i].append((o, v, evaluate_nodes(bn, v)))
                elif o[0] == 'minimal':
                    need = g.needed(set(o[1]), set(exo))
                    out[i].append((o, sample_minimally(bn, list(o[1]), {k: x for k, x in exo.items() if k in need}), need))
                elif o[0] == 'chromosome':
                    ch = sample_chromosome(bn, dict(exo))
                    old, lp = dict(iter(ch)), ch.LogProb
                    ch.impulse({o[1]: 20.5}, bn)
                    out[i].append((o, old, lp, dict(iter(ch))))
                elif o[0] == 'read':
                    out[i].append((o, bayes_net_from_script(gen.script(c['net'], c['order']))))
                else:
                    root = grow(sc.generate('R', dict(exo)), tree, o[2])
                    cores = list(simref.walk(root, tree))
                    lps = [x.LogProb for x, _ in cores]
                    first = [dict(simref.visible(x)) for x, _ in cores]
                    if o[1] in root.Locus and defs[o[1]]['k'] != 'exo':
                        root.impulse({o[1]: 20.5})
                    draws = [{k: s() for k, s in x.get_samplers(x.Parent is not None).items()} for x, _ in cores]
                    out[i].append((o, root, first, lps, draws))

    together([functools.partial(work, i) for i in range(len(c['jobs']))])
    roots = {n for n, m in defs.items() if m['k'] == 'rv' and not g.parents(n)}
    seen = {}
    for rs in out:
        for r in rs:
            o, vals = r[0], []
            if o[0] in ('sample', 'given'):
                check(set(r[1]) == set(defs), 'in a thread: sampled {}', sorted(r[1]))
                bnref.consistent(defs, r[1], 'sample of a thread', skip=[o[1]] if o[0] == 'given' else ())
                check(o[0] != 'given' or r[1][o[1]] == o[2], 'in a thread: {} was {}', o, r[1])
                check(gen.close(r[2], ref_lp(defs, r[1]), 1e-7, 1e-6) or on_edge(defs, r[1]), 'in a thread: log density {} instead of {}', r[2], ref_lp(defs, r[1]))
                vals = {k: x for k, x in r[1].items() if not (o[0] == 'given' and k == o[1])}
            elif o[0] == 'minimal':
                v = dict(r[1][1], **r[1][0])
                check(set(r[1][0]) == set(o[1]) and set(v) == r[2], 'in a thread: drew {} for {}', sorted(v), o[1])
                bnref.consistent(defs, v, 'minimal sample of a thread')
                vals = v
            elif o[0] == 'chromosome':
                bnref.consistent(defs, r[1], 'parameters of a thread')
                check(gen.close(r[2], ref_lp(defs, r[1]), 1e-7, 1e-6) or on_edge(defs, r[1]), 'in a thread: parameters have log density {} instead of {}', r[2], ref_lp(defs, r[1]))
                check(r[3][o[1]] == 20.5 and all(r[3][k] == r[1][k] for k in defs if k != o[1] and k not in g.des(o[1])), 'in a thread: an intervention on {} made {} of {}', o[1], r[3], r[1])
                bnref.consistent(defs, r[3], 'parameters of a thread after an intervention', skip=[o[1]])
                vals = r[1]
            elif o[0] == 'read':
                bnref.check_network(r[1], defs, what='network read in a thread')
            else:
                root, first, lps, draws = r[1:]
                forced = {o[1]} if o[1] in root.Locus else ()
                for (core, grp), f, lp, ds in zip(simref.walk(root, tree), first, lps, draws):
                    bnref.consistent(defs, {k: x for k, x in f.items() if k in defs}, 'hierarchy of a thread')
                    simref.check_core(core, grp, defs, 'hierarchy of a thread', forced=forced)
                    vis = simref.visible(core)
                    for k, x in ds.items():
                        lo, hi = simref.interval(k, defs, {a: b for a, b in vis.items() if a != k})
                        check(lo - simref.tol(x) <= x <= hi + simref.tol(x), 'in a thread: sampler of {} gave {} out of {}', k, x, (lo, hi))
                    vals = f
                    for k in roots & set(f):
                        if core.Parent is None or k not in simref.visible(core.Parent):
                            check(f[k] not in seen.setdefault(k, set()), 'two draws of {} are the same', k)
                            seen[k].add(f[k])
                vals = {}
            for k in roots & set(vals):
                check(vals[k] not in seen.setdefault(k, set()), 'two draws of {} are the same', k)
                seen[k].add(vals[k])
    return {'nontrivial': any(m['k'] == 'rv' and g.anc(n) & {a for a, b in defs.items() if b['k'] == 'rv'} for n, m in defs.items()), 'labels': sorted({o[0] for j in c['jobs'] for o in j})}


def together(jobs):
    """Runs them in threads of their own, all at once"""
    start = threading.Barrier(len(jobs))
    bad = []

    def work(job):
        try:
            start.wait()
            job()
        except BaseException as e:
            bad.append(e)
            start.abort()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for e in bad:
        if not isinstance(e, (threading.BrokenBarrierError, Discard)):
            raise e
    if bad:
        raise Discard()


@st.composite
def shared_cases(draw):
    c = draw(p02_calls.cases())
    e = draw(gen.exprs(p02_calls.NAMES, max_leaves=6))
    envs = [{n: draw(st.one_of(st.integers(-8, 12), st.floats(-6, 6).map(lambda v: round(v, 3)))) for n in p02_calls.NAMES} for _ in range(4)]
    fam = draw(st.sampled_from(sorted(gen.LAW)))
    return {'call': c, 'e': e, 'envs': envs, 'fam': fam, 'args': draw(gen.law_args(fam)), 'us': draw(st.lists(st.floats(-5, 5).map(lambda v: round(v, 4)), min_size=4, max_size=4)), 'rep': draw(st.sampled_from([20, 60]))}


def run_shared(c):
    """One parsed expression, call, law and definition used by all"""
    from sims_pars.util import parse_function, evaluate_function, parse_math_expression
    from sims_pars.bayesnet.loci import FunctionLoci
    from sims_pars.prob import parse_distribution
    k, e, envs = c['call'], c['e'], c['envs']
    every = [[None, a] for a in k['args']] + k['kws']
    wants = [[p02_calls.value(a, v) for _, a in every] for v in envs]
    evs = [gen.ev(e, v) for v in envs]
    text = '{}({})'.format(k['fn'], ','.join([p02_calls.text(a, '') for a in k['args']] + ['{}={}'.format(n, p02_calls.text(a, '')) for n, a in k['kws']]))
    f, m, loci = parse_function(text), parse_math_expression(gen.show(e, '')), FunctionLoci('out', gen.show(e, ''))
    ref = gen.LAW[c['fam']]
    d = parse_distribution('{}({})'.format(c['fam'], ','.join(str(a) for a in c['args'])))
    lo, hi = ref.support(*c['args'])
    lps = [float(d.logpdf(u)) for u in c['us']]

    def job(i):
        def work():
            for _ in range(c['rep']):
                env = dict(envs[i])
                check(gen.close(m(env), evs[i]), '{} with {} gave {} instead of {} in a thread', m, env, m(env), evs[i])
                check(gen.close(loci.render(env), evs[i]), 'definition {} gave another value in a thread', loci)
                check(env == envs[i], '{} changed its input in a thread', m)
                for args in (f.get_arguments(env), evaluate_function(f, env).Arguments):
                    check(len(args) == len(every) and all(p02_calls.same(g['value'], r) for g, r in zip(args, wants[i])), '{} with {} has arguments {} in a thread', text, env, args)
                x = d.sample()
                check(lo <= x <= hi, '{} drew {} in a thread', d, x)
                y = float(d.logpdf(c['us'][i]))
                check(y == lps[i] or (y != y and lps[i] != lps[i]), 'density of {} at {}: {} instead of {} in a thread', d, c['us'][i], y, lps[i])
        return work
    together([job(i) for i in range(4)])
    return {'nontrivial': bool(gen.evars(e)) and len({repr(v) for v in evs}) > 1, 'labels': [c['fam']]}


MODS = {'expression': p01_expr, 'call': p02_calls, 'law': p04_laws, 'graph': p08_dag, 'network': p11_read, 'density': p20_evaluate, 'target': p29_targets, 'series': p37_series}


@st.composite
def mixed_cases(draw):
    out = []
    for _ in range(4):
        k = draw(st.sampled_from(sorted(MODS)))
        case = draw(MODS[k].FACETS[0].strategy)
        out.append([k, case])
    return {'jobs': out, 'rep': draw(st.sampled_from([3, 8]))}


def run_mixed(c):
    """The checks of other properties, all at once"""
    def job(k, case):
        def work():
            for _ in range(c['rep']):
                MODS[k].FACETS[0].run(copy.deepcopy(case))
        return work
    together([job(*j) for j in c['jobs']])
    ks = {k for k, _ in c['jobs']}
    return {'nontrivial': len(ks) > 1, 'labels': sorted(ks)}


def on_edge(defs, v):
    for n, m in defs.items():
        if m['k'] == 'rv':
            a, b = [gen.ev(x, v) for x in m['a']]
            if min(abs(v[n] - a), abs(v[n] - b)) <= 1e-9 * (1 + abs(v[n])):
                return True
    return False


FACETS = [Facet('threads', cases(), run_threads, 360, 8000), Facet('shared', shared_cases(), run_shared, 240, 6000), Facet('mixed', mixed_cases(), run_mixed, 200, 5000), Facet('abc', fits(p32_abc.cases(), 'abc'), run, 40, 900), Facet('smc', fits(p33_smc.cases(), 'smc'), run, 24, 700)]
