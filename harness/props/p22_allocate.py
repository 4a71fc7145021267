"""Allocation of variables to a hierarchy of groups"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
import simref

PROPERTY = 'P22'
RULE = ('generated networks and trees of groups (up to three levels) requesting fixed and floating variables; the allocation is checked against the graph: '
        'what must be refused, fixed once, computable, random or offered as samplers; non-trivial: two or more groups with requests')


def run(c):
    defs = bnref.defs_of(c['net'])
    g = bnref.graph(defs)
    bn, sc = simref.build(c, c['seed'] % 2 == 0)
    bad = simref.refused(c['tree'], g)
    check((sc is None) == bad, 'the request {} was {}', c['tree'], 'refused' if sc is None else 'accepted')
    if bad:
        return {'nontrivial': True, 'labels': ['refused']}
    rv = {n for n, m in defs.items() if m['k'] == 'rv'}
    used, places = set(), []
    for grp, path in simref.groups(c['tree']):
        sg = sc[grp[0]]
        check(sc.get(grp[0]) is sg and sg.Name == grp[0], 'group {}', grp[0])
        check(list(sg.Children) == [ch[0] for ch in grp[3]], 'children of {}: {}', grp[0], sg.Children)
        above = set().union(*[set(sc[p[0]].Fixed) for p in path[:-1]])
        fixed = set(sg.Fixed)
        check(len(fixed) == len(sg.Fixed), 'fixed twice in {}: {}', grp[0], sg.Fixed)
        check(not fixed & above, '{} fixed in {} and above', sorted(fixed & above), grp[0])
        seen = fixed | above
        for i, n in enumerate(sg.Fixed):
            check(g.parents(n) <= above | set(sg.Fixed[:i]), '{} is fixed in {} before its parents', n, grp[0])
        check(set(grp[1]) <= seen, '{} should be fixed at {}', sorted(set(grp[1]) - seen), grp[0])
        wanted = set().union(*[set(p[1]) for p in path])
        closure = wanted | set().union(*[g.anc(n) for n in wanted])
        for n in fixed:
            random = n in rv or bool(g.needed({n}, seen - {n}) & rv - seen)
            check(n in closure or n not in rv, 'random {} fixed in {} though nobody asked ({})', n, grp[0], c['tree'])
        floating = set(sg.Floating)
        check(not floating & seen, '{} both fixed and floating at {}', sorted(floating & seen), grp[0])
        local, shared = set(sg.LocalActors), set(sg.SharedActors)
        check(local == shared, 'samplers of {}: {} and {}', grp[0], sorted(local), sorted(shared))
        check(floating <= local, '{} float in {} without samplers', sorted(floating - local), grp[0])
        for n in grp[2]:
            check(n in seen or n in local, '{} should float at {}', n, grp[0])
            if n in seen:
                check(n in closure or not (n in rv or g.needed({n}, seen - {n}) & rv - seen), '{} should float at {} but is fixed', n, grp[0])
        check(not local & seen, 'samplers of the fixed {} at {}', sorted(local & seen), grp[0])
        used |= seen | floating
        places.append(seen.union(*[set(sc[p[0]].Floating) for p in path]))
    # left out only when its parents were requested in separate branches
    for n in set(defs) - used:
        check(not any(g.parents(n) <= p for p in places), '{} has no place in {}', n, c['tree'])
        check(not any(n in grp[1] + grp[2] for grp, _ in simref.groups(c['tree'])), 'requested {} has no place', n)
    bnref.check_network(bn, defs, what='network after the allocation')
    # the same request gives the same allocation
    _, sc2 = simref.build(c, c['seed'] % 2 == 1)
    for grp, _ in simref.groups(c['tree']):
        a, b = sc[grp[0]].to_json(), sc2[grp[0]].to_json()
        check({k: sorted(v) if isinstance(v, list) else v for k, v in a.items()} == {k: sorted(v) if isinstance(v, list) else v for k, v in b.items()}, 'allocations differ: {} {}', a, b)
    n = sum(1 for grp, _ in simref.groups(c['tree']) if grp[1] or grp[2])
    return {'nontrivial': n >= 2, 'labels': ['groups {}'.format(min(n, 4))] + ['deep'] * any(len(p) > 2 for _, p in simref.groups(c['tree']))}


@st.composite
def mixed(draw):
    c = draw(simref.sims())
    g = bnref.graph(bnref.defs_of(c['net']))
    # mostly acceptable requests
    if draw(st.integers(0, 7)):
        for grp, _ in simref.groups(c['tree']):
            grp[2] = [d for d in grp[2] if not any(d in g.anc(f) for f in grp[1])]
    return c


FACETS = [Facet('allocation', mixed(), run, 4000, 60000)]
