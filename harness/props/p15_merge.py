"""Merging networks"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P15'
RULE = ('pairs of generated networks over overlapping names, merged and compared with a model (definitions of the second one win, exogenous variables '
        'nobody uses go); cyclic unions must be refused; non-trivial: a shared variable is overridden')

POOL = ['a', 'b', 'c', 'd', 'e1', 'g', 'beta', 'h1', 'i', 'j_']


@st.composite
def cases(draw):
    a = draw(gen.nets(1, 8, names=POOL[:draw(st.sampled_from([7, 7, 10]))], des=True, pseudo=True))
    b = draw(gen.nets(1, 7, names=POOL[:draw(st.sampled_from([7, 7, 10]))], des=True, pseudo=True))
    a['name'], b['name'] = 'First', 'Second'
    return {'a': a, 'b': b, 'done': [draw(st.booleans()), draw(st.booleans())]}


def build(net, done):
    from sims_pars.bayesnet import BayesianNetwork
    bn = BayesianNetwork(net['name'])
    for m in net['nodes']:
        bn.append_from_definition(gen.node_text(m))
    if done:
        bn.complete()
    return bn


def run(c):
    from sims_pars import sample
    da, db = bnref.defs_of(c['a']), bnref.defs_of(c['b'])
    A, B = build(c['a'], c['done'][0]), build(c['b'], c['done'][1])
    A.add_user_defined_func('fa', len)
    B.add_user_defined_func('fb', max)
    A.add_user_defined_func('both', abs)
    B.add_user_defined_func('both', min)
    over = {n: m for n, m in db.items() if m['k'] not in ('exo', 'pseudo')}
    ref = dict(da)
    ref.update(over)
    bnref.close_defs(ref)
    for bad in ('First', 'Second'):
        try:
            A.merge(bad, B)
        except AssertionError:
            pass
        else:
            check(False, 'merged under the name of a source')
    cyclic = bnref.topo(ref) is None
    if cyclic:
        try:
            M = A.merge('M', B)
        except AttributeError:
            bnref.check_network(A, da, what='first after a refusal')
            bnref.check_network(B, db, what='second after a refusal')
            return {'nontrivial': True, 'labels': ['cyclic']}
        check(False, 'a cyclic union was merged: {}', M)
    g = bnref.graph(ref)
    for n in list(ref):
        if ref[n]['k'] == 'exo' and not g.children(n):
            del ref[n]
    M = A.merge('M', B)
    env = bnref.assignment(ref)
    check(M.Name == 'M', 'name {}', M.Name)
    bnref.check_network(M, ref, env, what='merged')
    check(M.UserDefinedFunctions == {'fa': len, 'fb': max, 'both': min}, 'user functions {}', M.UserDefinedFunctions)
    bnref.check_network(A, da, what='first after the merge')
    bnref.check_network(B, db, what='second after the merge')
    check(bool(A.is_frozen()) == c['done'][0] and bool(B.is_frozen()) == c['done'][1], 'the sources changed their state')
    check(A.UserDefinedFunctions == {'fa': len, 'both': abs}, 'user functions of the first {}', A.UserDefinedFunctions)
    check(B.UserDefinedFunctions == {'fb': max, 'both': min}, 'user functions of the second {}', B.UserDefinedFunctions)
    if not any(m['k'] == 'pseudo' for m in ref.values()):
        M.complete()
        v = sample(M, {n: 3 for n, m in ref.items() if m['k'] == 'exo'})
        bnref.consistent(ref, v, 'sample of the merged network')
    sh = set(over) & set(da)
    return {'nontrivial': bool(sh), 'labels': ['override'] * bool(sh) + ['new'] * bool(set(over) - set(da)) + ['dropped'] * bool(set(da) - set(ref))}


FACETS = [Facet('merge', cases(), run, 1600, 30000)]
