"""Calls written as text: name, arguments and their evaluation"""
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P02'
RULE = ('calls with positional and keyword arguments (expressions over variables, texts, booleans) are printed with random spacing and read back; '
        'non-trivial: at least two arguments and one variable')

NAMES = ['x', 'y', 'k', 'a1', 'mu', 'Rate']
FN = ['norm', 'my_func', 'f', 'g2', 'unif', 'Pr', 'x', 'k']
KEY = ['t', 's', 'mean', 'x', 'prob', 'k']


@st.composite
def cases(draw):
    def arg():
        return draw(st.one_of(
            gen.exprs(NAMES, max_leaves=5).map(lambda e: ['e', e]),
            gen.exprs(NAMES, max_leaves=3).map(lambda e: ['e', e]),
            st.sampled_from(['k', 'txt', 'a(b', 'x,y', '#1', "it's"]).map(lambda s: ['s', s]),
            st.one_of(st.booleans(), st.none()).map(lambda b: ['b', b]),
            st.lists(st.tuples(st.sampled_from(['A', 'B', 'C']), gen.exprs(NAMES, max_leaves=2)), min_size=1, max_size=3, unique_by=lambda t: t[0]).map(lambda d: ['d', d])))
    args = [arg() for _ in range(draw(st.integers(0, 4)))]
    keys = draw(st.lists(st.sampled_from(KEY), max_size=3, unique=True))
    kws = [[k, arg()] for k in keys]
    env = {n: draw(st.one_of(st.integers(-8, 12), st.floats(-6, 6).map(lambda v: round(v, 3)))) for n in NAMES}
    return {'fn': draw(st.sampled_from(FN)), 'args': args, 'kws': kws, 'env': env, 'sp': draw(st.sampled_from(['', ' '])), 'drop': draw(st.sampled_from(NAMES))}


def text(a, sp):
    if a[0] == 'e':
        return gen.show(a[1], sp)
    if a[0] == 'd':
        return '{' + (',' + sp).join('"{}":{}{}'.format(k, sp, gen.show(e, sp)) for k, e in a[1]) + '}'
    return repr(a[1])


def vars_(a):
    if a[0] == 'e':
        return gen.evars(a[1])
    if a[0] == 'd':
        return set().union(*[gen.evars(e) for _, e in a[1]])
    return set()


def value(a, env):
    if a[0] == 'e':
        return gen.ev(a[1], env)
    if a[0] == 'd':
        return {k: gen.ev(e, env) for k, e in a[1]}
    return a[1]


def same(v, r):
    if isinstance(r, dict):
        return isinstance(v, dict) and set(v) == set(r) and all(gen.close(v[k], r[k]) for k in r)
    if r is None:
        return v is None
    if isinstance(r, str) or isinstance(r, bool):
        return v == r
    return gen.close(v, r)


def run(c):
    from sims_pars.util import parse_function, evaluate_function, parse_math_expression
    sp, env = c['sp'], c['env']
    every = [[None, a] for a in c['args']] + c['kws']
    refs = [value(a, env) for _, a in every]
    tx = '{}({})'.format(c['fn'], (',' + sp).join([text(a, sp) for a in c['args']] + ['{}{}={}{}'.format(k, sp, sp, text(a, sp)) for k, a in c['kws']]))
    vs = set().union(*[vars_(a) for _, a in every])
    f = parse_function(tx)
    check(f.Function == c['fn'], '{}: function {}', tx, f.Function)
    check(set(f.Parents) == vs, '{}: parents {} instead of {}', tx, sorted(f.Parents), sorted(vs))
    check(len(f.Arguments) == len(every), '{}: {} arguments', tx, len(f.Arguments))
    check(str(f) == gen.squash(tx), '{}: source {}', tx, f)
    for rep in range(5):
        if rep >= 2 and vs:
            break
        env = [c['env'], c['env'], {}, None, None][rep]
        args = f.get_arguments(env)
        check(len(args) == len(every), '{}: {} arguments evaluated', tx, len(args))
        for (k, a), g, r in zip(every, args, refs):
            check(g.get('key') == k, '{}: key {} instead of {}', tx, g.get('key'), k)
            check(same(g['value'], r), '{}: argument {} is {} instead of {}', tx, text(a, sp), g['value'], r)
        js = f.to_json(env)
        check(js['Type'] == c['fn'] and len(js['Args']) == len(refs) and all(same(v, r) for v, r in zip(js['Args'], refs)), '{}: json {}', tx, js)
        bp = f.to_blueprint('nm', env)
        check(bp['Name'] == 'nm' and bp['Type'] == c['fn'] and [g.get('key') for g in bp['Args']] == [k for k, _ in every]
              and all(same(g['value'], r) for g, r in zip(bp['Args'], refs)), '{}: blueprint {}', tx, bp)
    env = c['env']
    ef = evaluate_function(f, env)
    js = ef.to_json()
    check(js['Type'] == c['fn'] and len(js['Args']) == len(refs) and all(same(v, r) for v, r in zip(js['Args'], refs)), '{}: evaluated {}', tx, js)
    bp = ef.to_blueprint('q')
    check(bp['Name'] == 'q' and bp['Type'] == c['fn'] and len(bp['Args']) == len(refs), '{}: evaluated blueprint {}', tx, bp)
    # partly defined
    part = {k: v for k, v in env.items() if k != c['drop']}
    js = f.to_json(part)
    for (k, a), v, r in zip(every, js['Args'], refs):
        if c['drop'] in vars_(a):
            check(isinstance(v, str), '{}: {} without {}', tx, v, c['drop'])
            check(same(parse_math_expression(v)(env), r), '{}: left as {}', tx, v)
        else:
            check(same(v, r), '{}: argument {} is {} instead of {}', tx, text(a, sp), v, r)
    if c['drop'] in vs:
        try:
            f.get_arguments(part)
        except NameError:
            pass
        else:
            check(False, '{}: evaluated without {}', tx, c['drop'])
    return {'nontrivial': len(every) >= 2 and bool(vs), 'labels': ['keyword'] * bool(c['kws']) + ['positional'] * bool(c['args']) + ['dict'] * any(a[0] == 'd' for _, a in every)}


@st.composite
def strict(draw):
    c = draw(cases())
    # whitespace is removed before reading: texts have none
    return c


FACETS = [Facet('call', strict(), run, 5000, 80000)]
