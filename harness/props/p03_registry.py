"""Definition completion and registries of creators"""
import typing
from hypothesis import strategies as st
from core import Facet, check
import gen

PROPERTY = 'P03'
RULE = ('creators with generated parameter lists (numbers, texts, whole numbers; with and without defaults) and calls giving any mix of positional, '
        'named and omitted arguments; also the built-in distributions; non-trivial: one argument given and one parameter omitted or named')

FIELDS = ['a', 'b', 'rate', 'label', 'n', 'shape1', 'sd', 'x_1']
VARS = ['u', 'v', 'sd', 'rate', 'Z']


@st.composite
def cases(draw):
    fs = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=5, unique=True))
    sch = []
    for f in fs:
        tp = draw(st.sampled_from(['float', 'float', 'int', 'str']))
        df = {'float': st.sampled_from([0.0, 1.0, 2.5, -3.0]), 'int': st.integers(-3, 9), 'str': st.sampled_from(['M', 'a b', "it's", 'x(', 'k,l', ''])}[tp]
        sch.append([f, tp, draw(df), draw(st.integers(0, 4)) > 0])
    named = [s for s in sch if draw(st.integers(0, 2)) == 0]
    rest = [s for s in sch if s not in named]
    lo = max([i + 1 for i, s in enumerate(rest) if not s[3]] or [0])
    npos = draw(st.integers(lo, len(rest)))
    env = {v: draw(st.integers(-5, 9)) for v in VARS}

    def arg(s):
        if s[1] == 'str':
            return ['s', draw(st.sampled_from(['M', 'F', 'a(b', 'x,y', 'q=1', "d'e"]))]
        return ['e', draw(gen.exprs(VARS if s[1] == 'float' else [], funcs=(), max_leaves=3)) if s[1] == 'float' else ['num', draw(st.integers(0, 20))]]

    pos = [[s[0], arg(s)] for s in rest[:npos]]
    kw = [[s[0], arg(s)] for s in draw(st.permutations(named))]
    return {'schema': sch, 'pos': pos, 'kw': kw, 'env': env, 'sp': draw(st.sampled_from(['', ' '])), 'src': draw(st.booleans())}


def text(a, sp):
    return repr(a[1]) if a[0] == 's' else gen.show(a[1], sp)


def run(c):
    from sims_pars.factory import AbsCreator, get_atelier
    from sims_pars.factory.craftstation import Atelier
    from pydantic import create_model

    class Product:
        def __init__(self, vs):
            self.vs, self.source, self.json = vs, None, None

    class Base(AbsCreator):
        def create(self):
            return Product({f[0]: getattr(self, f[0]) for f in c['schema']})

    tps = {'float': float, 'int': int, 'str': str}
    Cre = create_model('Cre', __base__=Base, **{f: (tps[t], d if has else ...) for f, t, d, has in c['schema']})
    at = Atelier()
    at.register('Thing', Cre)
    at.register('Other', Cre)
    check('Thing' in at and 'None' not in at and list(at.list()) == ['Thing', 'Other'], 'registry lists {}', at.list())
    check(get_atelier('vp-one') is get_atelier('vp-one') and get_atelier('vp-one') is not get_atelier('vp-two'), 'registries by name')
    sp = c['sp']
    seq = 'Thing({})'.format((',' + sp).join([text(a, sp) for _, a in c['pos']] + ['{}={}'.format(k, text(a, sp)) for k, a in c['kw']]))
    ref = {}
    given = dict(c['pos'] + c['kw'])
    for f, t, d, has in c['schema']:
        if f in given:
            a = given[f]
            ref[f] = a[1] if a[0] == 's' else gen.ev(a[1], c['env'])
            if t == 'float':
                ref[f] = float(ref[f])
        else:
            ref[f] = d
    full = at.complete_def(seq)
    check(at.complete_def(full) == full, '{}: completion {} is not stable', seq, full)
    env = dict(c['env'])
    for s, comp in ((seq, True), (full, True), (full, False)):
        obj = at.create(s, loc=env, append_src=c['src'], to_complete=comp)
        for f in ref:
            v = obj.vs[f]
            ok = v == ref[f] if isinstance(ref[f], str) else gen.close(v, ref[f])
            check(ok, '{} (from {}): {} is {!r} instead of {!r}', s, seq, f, v, ref[f])
        if c['src']:
            check(obj.source is not None and at.create(obj.source, loc=env).vs == obj.vs, '{}: source {}', seq, obj.source)
            check(set(obj.json['Args']) == set(ref), '{}: json {}', seq, obj.json)
    check(env == c['env'], 'creation changed the variables')
    # every parameter is explicit after completion: a second default cannot sneak in
    import ast
    call = ast.parse(full.replace('\n', '')).body[0].value
    keys = [k.arg for k in call.keywords]
    if len(c['pos']) + len(c['schema']) > 0 and not (len(c['kw']) == len(c['schema'])):
        check(sorted(keys) == sorted(f[0] for f in c['schema']) and not call.args, '{}: completed as {}', seq, full)
    check(call.func.id == 'Thing', '{}: completed as {}', seq, full)
    for bad in ('Missing(1)', 'vpnone()'):
        try:
            at.create(bad)
        except KeyError:
            pass
        else:
            check(False, '{} created from nothing', bad)
    # a creator registered anew takes the place of the former one
    class Sub(Cre):
        def create(self):
            return ['anew', Cre.create(self).vs]

    at.register('Thing', Sub)
    obj = at.create(seq, loc=env)
    check(type(obj) is list and obj[0] == 'anew', '{}: the former creator of that name answered', seq)
    check(type(at.create(seq.replace('Thing', 'Other', 1), loc=env)) is Product and list(at.list()) == ['Thing', 'Other'], 'another creator changed')
    om = len(c['schema']) - len(given)
    return {'nontrivial': bool(given) and (om > 0 or bool(c['kw'])), 'labels': ['omitted'] * (om > 0) + ['named'] * bool(c['kw']) + ['positional'] * bool(c['pos']) + ['text'] * any(a[0] == 's' for a in given.values())}


@st.composite
def builtin(draw):
    fam = draw(st.sampled_from(sorted(gen.LAW)))
    args = draw(gen.law_args(fam))
    ref = gen.LAW[fam]
    # some defaults
    for i, d in enumerate(ref.defaults):
        if d is not None and draw(st.integers(0, 2)) == 0 and fam not in ('unif', 'triangle'):
            args[i] = d
    return {'fam': fam, 'args': args, 'text': draw(gen.spellings(fam, args))}


def run_builtin(c):
    from sims_pars.prob import complete_function, DistributionCentre
    import ast
    ref = gen.LAW[c['fam']]
    full = complete_function(c['text'])
    call = ast.parse(full).body[0].value
    kws = {k.arg: ast.literal_eval(k.value) for k in call.keywords}
    check(set(kws) == set(ref.names) and len(call.keywords) == len(ref.names) and not call.args, '{} completed as {}', c['text'], full)
    for n, a in zip(ref.names, c['args']):
        check(gen.close(kws[n], a), '{} completed as {}: {}', c['text'], full, n)
    check(complete_function(full) == full, '{} completed as {}, then as {}', c['text'], full, complete_function(full))
    bp = DistributionCentre.get_blueprint(c['text'])
    for n, a in zip(ref.names, c['args']):
        check(gen.close(getattr(bp, n), a), '{} read with {}={}', c['text'], n, getattr(bp, n))
    return {'nontrivial': True, 'labels': [c['fam']]}


FACETS = [Facet('creators', cases(), run, 2400, 40000), Facet('distributions', builtin(), run_builtin, 2000, 30000)]
