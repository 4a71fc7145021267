"""Arithmetic expressions: values and dependencies"""
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P01'
RULE = ('expression trees over numbers, variables, + - * / **, comparisons and the built-in functions are printed with random spacing '
        'and brackets, read by the library and compared with a direct evaluation of the tree; non-trivial: at least one variable and two operations')

NAMES = ['x', 'y', 'zz', 'a1', 'b_c', 'Rate', 'expo', 'x1']
SHADOW = ['exp', 'abs', 'max', 'log', 'step', 'pow']


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    e = draw(gen.exprs(names, max_leaves=10))
    env = {n: draw(st.one_of(st.integers(-8, 12), st.floats(-6, 6).map(lambda v: round(v, 3)))) for n in names}
    return {'e': e, 'env': env, 'sp': draw(st.sampled_from(['', ' ', '  '])), 'paren': draw(st.booleans()),
            'extra': draw(st.lists(st.sampled_from(SHADOW), max_size=2, unique=True)), 'drop': draw(st.integers(0, 5))}


def size(e):
    if e[0] in ('num', 'var'):
        return 0
    if e[0] == 'neg':
        return 1 + size(e[1])
    if e[0] == 'call':
        return 1 + sum(size(a) for a in e[2])
    return 1 + size(e[2]) + size(e[3])


def run(c):
    from sims_pars.util import parse_math_expression, parse_parents, MATH_FUNC
    from sims_pars.bayesnet.loci import FunctionLoci
    e, env = c['e'], dict(c['env'])
    ref = gen.ev(e, env)
    text = gen.show(e, c['sp'], c['paren'])
    vs, fs = gen.evars(e), gen.efuncs(e)
    pv, pf = parse_parents(text)
    check(set(pv) == vs, '{}: variables {} but read {}', text, sorted(vs), sorted(pv))
    check(set(pf) == fs, '{}: functions {} but read {}', text, sorted(fs), sorted(pf))
    me = parse_math_expression(text)
    check(set(me.Parents) == vs, '{}: parents {}', text, sorted(me.Parents))
    if not fs & {'max', 'min'}:
        check(me.is_executable(env), '{}: not executable with all variables', text)
    # a function nobody knows makes an expression impossible to evaluate, whatever the variables are called
    odd = parse_math_expression('vp_unknown({})'.format(text))
    check(set(odd.Parents) == vs and not odd.is_executable(env) and not odd.is_executable(dict(env, vp_unknown=3)), 'vp_unknown({}): executable', text)
    env.update({'unused{}'.format(i): i for i in range(c['drop'])})
    loc = dict(env)
    for _ in range(2):
        v = me(loc)
        check(gen.close(v, ref, 1e-9, 1e-9), '{} with {} gives {} instead of {}', text, env, v, ref)
        v = me.execute(loc)
        check(gen.close(v, ref, 1e-9, 1e-9), '{} with {} executes to {} instead of {}', text, env, v, ref)
    check(loc == env, '{}: evaluation changed its inputs', text)
    check('x' not in MATH_FUNC and 'y' not in MATH_FUNC, 'evaluation leaked variables to the functions')
    # a variable not defined
    if vs:
        miss = sorted(vs)[c['drop'] % len(vs)]
        part = {k: v for k, v in env.items() if k != miss}
        check(not me.is_executable(part), '{}: executable without {}', text, miss)
        try:
            r = me.execute(part)
        except NameError:
            pass
        else:
            check(False, '{}: gave {} without {}', text, r, miss)
        check(me(part) == str(me), '{}: should be left unevaluated without {}', text, miss)
        # the expression of a variable, among variables which are not its parents
        lo = FunctionLoci('out', gen.squash(text))
        check(set(lo.Parents) == vs, '{}: parents of the variable {}', text, sorted(lo.Parents))
        wide = dict(env)
        wide.update({k: 77 for k in c['extra']})
        v = lo.render(wide)
        check(gen.close(v, ref), '{}: {} among other variables, instead of {}', text, v, ref)
        g = dict(wide)
        lo.fill(g)
        check(gen.close(g.pop('out'), ref) and g == wide, '{}: filling changed other variables', text)
        try:
            r = lo.render({k: v for k, v in wide.items() if k != miss})
        except KeyError:
            pass
        else:
            check(False, '{}: variable rendered {} without {}', text, r, miss)
        check(lo.evaluate(wide) == 0, '{}: a deterministic variable has log density', text)
    return {'nontrivial': bool(vs) and size(e) >= 2, 'labels': sorted(fs) + (['cmp'] if 'cmp' in str(e) else []) + (['pow'] if '**' in str(e) else [])}


FACETS = [Facet('value', cases(), run, 6000, 120000)]
