"""Runs under the same seed"""
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen
import reprog
import simref

PROPERTY = 'P43'
RULE = ('generated networks, hierarchies and calibrations run as small programs twice in this interpreter and in two others with different hashes, under the same seed of '
        'NumPy: the same numbers everywhere; another seed gives others; non-trivial: something random was drawn')

SERVERS = {}
HASHES = (1, 77)


@st.composite
def cases(draw, kinds=('network', 'hierarchy')):
    what = draw(st.sampled_from(kinds))
    if what == 'network':
        net = draw(gen.nets(2, 8, names=gen.PLAIN, kinds=('val', 'exo', 'fn', 'rv', 'rv', 'rv')))
        names = [m['n'] for m in net['nodes']]
        c = {'net': net, 'exo': {m['n']: 2 + i for i, m in enumerate(net['nodes']) if m['k'] == 'exo'}, 'order': list(draw(st.permutations(range(len(names))))),
             'targets': draw(st.lists(st.sampled_from(names), max_size=3, unique=True)), 'imps': draw(st.lists(st.sampled_from(names), max_size=2, unique=True))}
    elif what == 'hierarchy':
        c = draw(simref.sims(max_nodes=8))
        g = bnref.graph(bnref.defs_of(c['net']))
        for grp, _ in simref.groups(c['tree']):
            grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
        c['imps'] = draw(st.lists(st.sampled_from([m['n'] for m in c['net']['nodes']]), max_size=2, unique=True))
    else:
        c = draw(fitref.models(fail=False))
    return dict(c, what=what, seed=draw(st.integers(0, 10 ** 6)))




def first_diff(a, b, path=''):
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, dict):
        if set(a) != set(b):
            return path, sorted(a), sorted(b)
        for k in a:
            d = first_diff(a[k], b[k], path + '/' + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, path + '/' + str(i))
            if d:
                return d
        return None
    return None if a == b else (path, a, b)


def run(c):
    base = reprog.answer(c)
    if 'refused' in base:
        raise Discard()
    d = first_diff(base, reprog.answer(c))
    check(d is None, 'two runs under the same seed differ: {}', d)
    rest = {}
    for h in HASHES:
        if h not in SERVERS:
            SERVERS[h] = reprog.Server(h)
        rest[h] = SERVERS[h](c)
        d = first_diff(base, rest[h])
        check(d is None, 'two interpreters under the same seed differ: {}', d)
    check('raised' not in base, 'the program failed: {}', base)
    defs = bnref.defs_of(c['net'])
    random = any(m['k'] == 'rv' and m.get('d') in ('unif', 'norm', 'exp', 'gamma') for m in defs.values())
    if random and c['what'] in ('network', 'abc', 'bhm'):
        other = reprog.answer(dict(c, seed=c['seed'] + 1))
        check(other != base, 'another seed gives the same numbers')
    return {'nontrivial': random, 'labels': [c['what']]}


FACETS = [Facet('programs', cases(), run, 480, 12000), Facet('fits', cases(('abc', 'smc', 'bhm')), run, 48, 2000, chunk=6)]
