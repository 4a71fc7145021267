"""Script round trip"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P12'
RULE = 'generated networks built by appending definitions (complete or not), printed as scripts and read again; both compared with the model; non-trivial: an edge and a random variable'


@st.composite
def cases(draw):
    net = draw(gen.nets(1, 8, des=True, pseudo=True, cat=True))
    for m in net['nodes']:
        if m['k'] == 'rv' and m['d'] != 'cat':
            m['kw'] = draw(st.integers(0, len(m['a'])))
    return {'net': net, 'order': list(draw(st.permutations(range(len(net['nodes']))))), 'done': draw(st.booleans()), 'late': draw(st.integers(0, 47))}


def run(c):
    from sims_pars import bayes_net_from_script
    from sims_pars.bayesnet import BayesianNetwork
    net = c['net']
    defs = bnref.defs_of(net)
    bn = BayesianNetwork(net['name'])
    for i in c['order']:
        bn.append_from_definition(gen.node_text(net['nodes'][i], ' '))
    if c['done']:
        bn.complete()
    env = bnref.assignment(defs)
    bnref.check_network(bn, defs, env, what='built')
    scr = bn.to_script()
    again = bayes_net_from_script(scr)
    check(again.Name == net['name'], 'name {}', again.Name)
    bnref.check_network(again, defs, env, what='read from ' + scr)
    for n, m in defs.items():
        if m['k'] == 'val':
            check(again[n].render() == bn[n].render(), 'the constant {} is {!r} and was {!r}', n, again[n].render(), bn[n].render())
    third = again.copy()
    check(third.to_script().split('\n')[0].split() == scr.split('\n')[0].split(), 'head {}', third.to_script())
    bnref.check_network(bayes_net_from_script(third.to_script()), defs, env, what='read from ' + third.to_script())
    bnref.check_network(bn, defs, env, what='after printing')
    # reopened, changed and completed: the script is that of the network as it is now
    for b in (bn, again):
        b.defrost()
        late = dict(defs)
        leaf = sorted(late)[c['late'] % len(late)]
        by = [{'n': 'vp_late', 'k': 'val', 'e': ['num', 3]}, {'n': 'vp_late', 'k': 'exo'}]
        if defs[leaf]['k'] != 'pseudo' and defs[leaf].get('d') != 'cat':
            by.append({'n': 'vp_late', 'k': 'fn', 'e': ['bin', '+', ['var', leaf], ['num', 1]]})
        m = by[c['late'] // 8 % len(by)]
        b.append_from_definition(gen.node_text(m))
        late['vp_late'] = m
        if c['late'] % 2:
            b.complete()
        bnref.check_network(bayes_net_from_script(b.to_script()), late, what='read from the script after a change: ' + b.to_script())
    return {'nontrivial': any(m['k'] == 'rv' for m in defs.values()) and bool(bnref.graph(defs).edges), 'labels': sorted({m['k'] for m in defs.values()}) + ['complete' if c['done'] else 'open']}


FACETS = [Facet('roundtrip', cases(), run, 1600, 30000)]
