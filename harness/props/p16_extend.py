"""Extending networks"""
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import gen
from props.p15_merge import build, POOL

PROPERTY = 'P16'
RULE = ('a network extended into another one over overlapping names, overriding or not, compared with a model; cyclic results must be refused; '
        'non-trivial: both define a shared variable')


@st.composite
def cases(draw):
    a = draw(gen.nets(1, 6, names=POOL, des=True))
    b = draw(gen.nets(1, 5, names=POOL, des=True)) if draw(st.integers(0, 5)) else None
    a['name'] = 'First'
    if b:
        b['name'] = draw(st.sampled_from(['Second', 'First']))
    return {'a': a, 'b': b, 'override': draw(st.booleans()), 'done': [draw(st.booleans()), draw(st.booleans())]}


def run(c):
    da = bnref.defs_of(c['a'])
    A = build(c['a'], c['done'][0])
    if c['b'] is None:
        E = A.extend(override=c['override'])
        check(E is not A and E.Name == 'First' and E.is_frozen(), 'plain extension')
        bnref.check_network(E, da, what='extension of nothing')
        bnref.check_network(A, da, what='source after the extension')
        return {'nontrivial': len(da) > 2, 'labels': ['alone']}
    db = bnref.defs_of(c['b'])
    B = build(c['b'], c['done'][1])
    ref, clash, steps = dict(db), False, False
    for n in A.Order:
        if n in db:
            if not c['override'] or da[n]['k'] == 'exo':
                continue
            clash = clash or db[n]['k'] != 'exo'
            old = db[n].get('des')
            ref[n] = dict(da[n])
            if old and not da[n].get('des'):
                ref[n]['des'] = '?'
        else:
            ref[n] = dict(da[n])
        bnref.close_defs(ref)
        steps = steps or bnref.topo(ref) is None
    if bnref.topo(ref) is None:
        try:
            E = A.extend(B, override=c['override'])
        except AttributeError:
            bnref.check_network(A, da, what='source after a refusal')
            return {'nontrivial': True, 'labels': ['cyclic']}
        check(False, 'a cyclic extension was built: {}', E)
    if steps:
        raise Discard()
    E = A.extend(B, override=c['override'])
    check(E.is_frozen() and E.Name == c['b']['name'], 'name {}', E.Name)
    for n, m in ref.items():
        if m.get('des') == '?':
            m.pop('des')
            if E.DAG.nodes[n].get('Des'):
                m['des'] = db[n]['des']
    bnref.check_network(E, ref, what='extended')
    bnref.check_network(A, da, what='source after the extension')
    check(bool(A.is_frozen()) == c['done'][0], 'the source changed its state')
    return {'nontrivial': bool(set(da) & set(db)), 'labels': ['override' if c['override'] else 'keep'] + ['clash'] * clash}


FACETS = [Facet('extend', cases(), run, 1600, 30000)]
