"""Functions and data models registered by the user"""
import itertools
import json
import math
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
import simref

PROPERTY = 'P40'
RULE = ('facet math: generated functions registered under new names and used in generated expressions, against the same expressions with the functions written out; facet '
        'data: generated regressions registered and used as laws of variables (chained, with undeclared covariates), sampled, evaluated, copied, intervened on and put in '
        'hierarchies, against networks with the laws written out; non-trivial: a registered function above or below another variable')

counter = itertools.count()
ARGS = ['p', 'q', 's']


def tame(e):
    """No divisions nor powers"""
    k = e[0]
    if k in ('num', 'var'):
        return e
    if k == 'neg':
        return ['neg', tame(e[1])]
    if k == 'call':
        return ['call', e[1], [tame(a) for a in e[2]]]
    return [k, {'/': '-', '**': '*'}.get(e[1], e[1]), tame(e[2]), tame(e[3])]


# ---------------------------------------------------------------- functions of values
@st.composite
def math_cases(draw):
    fns = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.integers(1, 3))
        fns.append({'args': k, 'body': draw(gen.exprs(ARGS[:k], funcs=('abs', 'max', 'ifelse', 'min'), max_leaves=4).map(tame))})
    net = draw(gen.nets(1, 4, names=gen.PLAIN, kinds=('val', 'exo', 'rv', 'rv', 'fn'), fams=('unif', 'norm', 'binom', 'exp', 'triangle')))
    names = [m['n'] for m in net['nodes']]
    calls = []
    for i in range(draw(st.integers(1, 3))):
        f = draw(st.integers(0, len(fns) - 1))
        # an expression over the names, with the argument U for the call
        args = [draw(gen.exprs(names + ['n{}'.format(j) for j in range(i)], funcs=('abs', 'max'), max_leaves=2).map(tame)) for _ in range(fns[f]['args'])]
        calls.append({'n': 'n{}'.format(i), 'f': f, 'args': args, 'around': draw(gen.exprs(['U'] + names[:1], funcs=('abs', 'min'), max_leaves=3).map(tame)), 'kw': draw(st.sampled_from([False, False, True]))})
    return {'fns': fns, 'net': net, 'calls': calls, 'replace': draw(st.sampled_from([False, False, True])), 'seed': draw(st.integers(0, 10 ** 6))}


def subst(e, env):
    k = e[0]
    if k == 'var':
        return env.get(e[1], e)
    if k == 'num':
        return e
    if k == 'neg':
        return ['neg', subst(e[1], env)]
    if k == 'call':
        return ['call', e[1], [subst(a, env) for a in e[2]]]
    return [k, e[1], subst(e[2], env), subst(e[3], env)]


def run_math(c):
    from sims_pars import add_math_func, bayes_net_from_script, bayes_net_from_json, sample, evaluate_nodes
    from sims_pars.util import parse_math_expression
    uid = next(counter)
    names = []
    for i, f in enumerate(c['fns']):
        name = 'vp_f{}_{}'.format(uid, i)
        names.append(name)
        params = ARGS[:f['args']]
        if c['replace']:
            add_math_func(name, lambda *a: 1e6)
            check(parse_math_expression('{}({})+1'.format(name, ','.join('1' for _ in params)))({}) == 1e6 + 1, 'registered function does not answer')
        add_math_func(name, (lambda body, params: lambda *a, **kw: gen.ev(body, dict(zip(params, a), **kw)))(f['body'], params))
    defs = bnref.defs_of(c['net'])
    ref = {'name': c['net']['name'], 'nodes': list(c['net']['nodes'])}
    lines = [gen.node_text(m) for m in c['net']['nodes']]
    for call in c['calls']:
        f = c['fns'][call['f']]
        body = subst(f['body'], dict(zip(ARGS, call['args'])))
        inl = subst(call['around'], {'U': body})
        text = gen.show(call['around'])
        ctext = '{}({})'.format(names[call['f']], ','.join(gen.show(a) if not call['kw'] or i < 1 else '{}={}'.format(ARGS[i], gen.show(a)) for i, a in enumerate(call['args'])))
        # the call in place of U
        marker = 'U'
        import re
        text = re.sub(r'\bU\b', lambda m: ctext, text)
        if 'U' not in gen.evars(call['around']):
            text, inl = '{}+{}'.format(ctext, text), ['bin', '+', body, inl]
        # all the variables named in the text, used or not by the function
        used = set().union(*[gen.evars(a) for a in call['args']]) | (gen.evars(call['around']) - {'U'})
        ref['nodes'].append({'n': call['n'], 'k': 'fn', 'e': inl})
        defs[call['n']] = ref['nodes'][-1]
        lines.append('{} = {}'.format(call['n'], text))
        call['used'] = used
    bn = bayes_net_from_script('PCore {} {{\n{}\n}}'.format(c['net']['name'], '\n'.join(lines)))
    exo = {m['n']: 2 + i for i, m in enumerate(c['net']['nodes']) if m['k'] == 'exo'}
    for what, b in (('network', bn), ('JSON round trip', bayes_net_from_json(json.loads(json.dumps(bn.to_json())))), ('script round trip', bayes_net_from_script(bn.to_script()))):
        for call in c['calls']:
            check(set(b[call['n']].Parents) == call['used'], '{}: parents of {} are {} instead of {}', what, call['n'], sorted(b[call['n']].Parents), sorted(call['used']))
        for _ in range(3):
            v = sample(b, exo)
            ok = True
            for n, m in defs.items():
                if m['k'] == 'fn':
                    r = gen.ev(m['e'], v)
                    check(gen.close(v[n], r, 1e-7, 1e-7), '{}: {} is {} instead of {} ({})', what, n, v[n], r, b[n])
            lp = evaluate_nodes(b, v)
            check(gen.close(lp, sum(gen.node_logpdf(m, v, v[n]) for n, m in defs.items() if m['k'] == 'rv'), 1e-7, 1e-7), '{}: log density {}', what, lp)
    add_math_func('vp_not_callable', 3)
    check(parse_math_expression('1+1')({}) == 2, 'expressions are broken by something that is not a function')
    return {'nontrivial': any(call['used'] for call in c['calls']), 'labels': ['chained'] * any(x.startswith('n') and x[1:].isdigit() for call in c['calls'] for x in call['used'])}


# ---------------------------------------------------------------- data models as laws
COV = ['Age', 'bmi', 'x1', 'Male', 'w']


@st.composite
def data_cases(draw):
    ups = []
    for n in draw(st.lists(st.sampled_from(COV), min_size=1, max_size=4, unique=True)):
        k = draw(st.sampled_from(['unif', 'unif', 'exo', 'binom', 'val', 'undeclared', 'flag', 'flag']))
        ups.append([n, k])
    ys = []
    for i in range(draw(st.integers(1, 2))):
        pool = [u[0] for u in ups] + ['y{}'.format(j) for j in range(i)]
        pas = draw(st.lists(st.sampled_from(pool), min_size=0 if draw(st.integers(0, 5)) == 0 else 1, max_size=3, unique=True))
        ys.append({'kind': draw(st.sampled_from(['linear', 'logistic', 'poisson', 'cox', 'own'])), 'pas': [[p, draw(st.sampled_from(['Continuous', 'Boolean'])), draw(st.sampled_from([0.5, -1, 1, 0.25, -0.3]))] for p in pas],
                   'b0': draw(st.sampled_from([0, 0.5, -1, 1])), 'se': draw(st.sampled_from([1, 0.5, 2])), 'order': draw(st.booleans())})
    return {'ups': ups, 'ys': ys, 'n': draw(st.sampled_from([3, 3, 3, 100])), 'seed': draw(st.integers(0, 10 ** 6)), 'imp': draw(st.integers(0, 5)), 'perm': list(draw(st.permutations(range(len(ups) + len(ys) + 1))))}


class Own:
    """A user's data model: anything with get_sampler"""
    def __init__(self, pas, b0, se):
        self.pas, self.b0, self.se = pas, b0, se
        self.seen = []

    def get_sampler(self, xs):
        import scipy.stats as sts
        self.seen.append(dict(xs))
        mu = self.b0 + sum((v * xs[p] if tp == 'Continuous' else v if xs[p] else 0) for p, tp, v in self.pas)
        law = sts.norm(mu, self.se)

        class Law:
            def sample(self, n=1, **kw):
                return float(law.rvs()) if n == 1 else list(law.rvs(n))

            __call__ = sample

            def logpdf(self, v):
                return float(law.logpdf(v))
        return Law()


def run_data(c):
    from sims_pars import (add_data_func, bayes_net_from_script, bayes_net_from_json, sample, sample_minimally, evaluate_nodes, as_simulation_core, NodeSet, sample_chromosome)
    from sims_pars.data import LinearRegression, LogisticRegression, PoissonRegression, CoxRegression
    uid = next(counter)
    defs, lines, exo, owns, loose = {}, [], {}, {}, set()
    for i, (n, k) in enumerate(c['ups']):
        if k == 'undeclared':
            if any(n == p[0] for y in c['ys'] for p in y['pas']):
                exo[n] = 0.5 * i
                defs[n] = {'n': n, 'k': 'exo'}
            continue
        if k == 'exo':
            exo[n] = 0.5 * i
            m = {'n': n, 'k': 'exo'}
        elif k == 'val':
            m = {'n': n, 'k': 'val', 'e': ['num', 0.75]}
        elif k == 'unif':
            m = {'n': n, 'k': 'rv', 'd': 'unif', 'a': [['num', 0], ['num', 1]]}
        elif k == 'flag':   # true or false, and not a number
            src = next((u for u, ku in c['ups'][:i] if ku in ('unif', 'exo', 'val')), None)
            m = {'n': n, 'k': 'fn', 'e': ['cmp', '>', ['var', src] if src else ['num', 1], ['num', 0.5 if i % 2 or src else 3]]}
        else:
            m = {'n': n, 'k': 'rv', 'd': 'binom', 'a': [['num', 1], ['num', 0.4]]}
        defs[n] = m
        lines.append(gen.node_text(m))
    for i, y in enumerate(c['ys']):
        name, fn = 'y{}'.format(i), 'vp_d{}_{}'.format(uid, i)
        regs = [{'Name': p, 'Type': tp, 'Value': v} for p, tp, v in y['pas']]
        if y['kind'] in ('poisson', 'cox', 'logistic'):   # chained values may be large
            y['pas'] = [p for p in y['pas'] if not p[0].startswith('y')]
            regs = [r for r in regs if not r['Name'].startswith('y')]
        e = ['num', y['b0']]
        for p, tp, v in y['pas']:
            t = ['bin', '*', ['num', v], ['var', p]] if tp == 'Continuous' else ['call', 'ifelse', [['cmp', '!=', ['var', p], ['num', 0]], ['num', v], ['num', 0]]]
            e = ['bin', '+', e, t]
        if y['kind'] == 'linear':
            obj, law = LinearRegression({'Intercept': y['b0'], 'SE': y['se'], 'Regressors': regs}), ('norm', [e, ['num', y['se']]])
        elif y['kind'] == 'logistic':
            obj, law = LogisticRegression({'Intercept': y['b0'], 'Regressors': regs}), ('binom', [['num', 1], ['call', 'expit', [e]]])
        elif y['kind'] == 'poisson':
            obj, law = PoissonRegression({'Intercept': y['b0'], 'Regressors': regs}), ('pois', [['call', 'exp', [e]]])
        elif y['kind'] == 'cox':
            obj, law = CoxRegression({'Baseline': {'Type': 'exp', 'Rate': math.exp(y['b0'])}, 'Regressors': regs}), ('exp', [['call', 'exp', [e]]])
            loose.add(name)
        else:
            obj, law = Own(y['pas'], y['b0'], y['se']), ('norm', [e, ['num', y['se']]])
            owns[name] = obj
        add_data_func(fn, obj)
        y['fn'] = fn
        defs[name] = {'n': name, 'k': 'rv', 'd': law[0], 'a': law[1]}
        ps = [p for p, _, _ in y['pas']]
        lines.append('{} ~ {}({})'.format(name, fn, ', '.join(ps if y['order'] else ps[::-1])))
        try:
            add_data_func(fn, Own([], 1e6, 1))
        except AssertionError:
            pass
        else:
            check(False, 'registered twice')
    last = 'y{}'.format(len(c['ys']) - 1)
    defs['z'] = {'n': 'z', 'k': 'fn', 'e': ['bin', '+', ['bin', '*', ['num', 2], ['var', last]], ['num', 1]]}
    lines.append(gen.node_text(defs['z']))
    order = [i for i in c['perm'] if i < len(lines)]
    bn = bayes_net_from_script('PCore D {\n' + '\n'.join(lines[i] for i in order) + '\n}')
    g = bnref.graph(defs)
    rvs = [n for n, m in defs.items() if m['k'] == 'rv']

    def logp(v):
        return sum(gen.node_logpdf(defs[n], v, v[n]) for n in rvs if n in v)

    def near(a, b):
        return gen.close(a, b, 1e-6, 2e-2 if loose else 1e-6)

    two = [('network', bn), ('JSON round trip', bayes_net_from_json(json.loads(json.dumps(bn.to_json())))), ('script round trip', bayes_net_from_script(bn.to_script())), ('clone', bn.clone())]
    for what, b in two:
        check(set(b.DAG.nodes) == set(defs), '{}: variables {}', what, sorted(b.DAG.nodes))
        us = {}
        for n in defs:
            check(b.DAG.parents(n) == g.parents(n), '{}: parents of {}: {}', what, n, sorted(b.DAG.parents(n)))
            check(b.is_rv(n) == (n in rvs), '{}: {} is random: {}', what, n, b.is_rv(n))
        for _ in range(c['n'] if what == 'network' else 3):
            for o in owns.values():
                o.seen.clear()
            v = sample(b, exo)
            check(set(v) == set(defs), '{}: sampled {}', what, sorted(v))
            bnref.consistent(defs, v, what)
            for n, o in owns.items():
                check(all(type(x) is type(v[p]) for p, x in o.seen[0].items() if p in v), '{}: the data model of {} was given {} from {}', what, n, o.seen[0], v)
                check(len(o.seen) == 1 and o.seen[0] == {p: v[p] for p in g.parents(n)}, '{}: the data model of {} was given {} instead of {}', what, n, o.seen, {p: v[p] for p in g.parents(n)})
            for n in rvs:
                u = bnref.pit(defs[n], v, v[n])
                if u is not None:
                    us.setdefault(n, []).append(u)
            if not any(v[n] < 1e-3 for n in loose):
                check(near(evaluate_nodes(b, v), logp(v)), '{}: log density {} of {} instead of {}', what, evaluate_nodes(b, v), v, logp(v))
        if c['n'] > 50 and what == 'network':
            bnref.check_residuals(us, 'samples')
    v, med = sample_minimally(bn, ['z'], exo)
    check(set(med) >= g.anc('z') and set(v) == {'z'}, 'minimal sample {} {}', v, med)
    bnref.consistent(defs, dict(v, **med), 'minimal sample')
    # intervention
    ch = sample_chromosome(bn, exo)
    before = dict(ch)
    k = rvs[c['imp'] % len(rvs)]
    new = 1 if defs[k]['d'] in ('binom', 'pois') else 0.5
    ch.impulse({k: new}, bn)
    after = dict(ch)
    check(after[k] == new, 'intervention lost')
    bnref.consistent(defs, after, 'intervention', skip={k})
    for n in defs:
        if n != k and n not in g.des(k):
            check(after[n] == before[n], '{} changed by an intervention on {}', n, k)
    # hierarchy: covariates fixed above, the law offered as a sampler
    top = [u for u in defs if not u.startswith('y') and u != 'z' and defs[u]['k'] != 'exo']
    ns = NodeSet('root', as_fixed=top or None)
    ns.new_child('ind', as_fixed=['z']).new_child('more') if c['seed'] % 2 else ns.new_child('ind', as_floating=['z', last])
    sc = as_simulation_core(bn, ns)
    core = sc.generate('R', exo)
    kid = core.breed('kid', 'ind')
    simref_visible = simref.visible(kid)
    bnref.consistent(defs, {a: b for a, b in simref_visible.items() if a in defs}, 'hierarchy', only=set(simref_visible) - set(exo))
    for a in kid.list_actors(False):
        xs = [kid.get_sampler(a, False)() for _ in range(c['n'])]
        if g.parents(a) <= set(simref_visible) and defs[a]['k'] == 'rv':
            for x in xs:
                check(gen.support_ok(defs[a], simref_visible, x), 'sampler of {} gave {} given {}', a, x, simref_visible)
            us = [bnref.pit(defs[a], simref_visible, x) for x in xs]
            if c['n'] > 50 and us[0] is not None:
                bnref.check_residuals({a: us}, 'sampler')
    return {'nontrivial': any(y['pas'] for y in c['ys']), 'labels': sorted({y['kind'] for y in c['ys']})}


FACETS = [Facet('math', math_cases(), run_math, 1000, 25000), Facet('data', data_cases(), run_data, 400, 10000)]
