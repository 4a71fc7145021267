"""JSON round trip, clones and copies of networks"""
import json
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P13'
RULE = 'generated networks (complete or open), through JSON text, clone, copy and renamed copy; each compared with the model; copies edited to show independence; non-trivial: an edge and a random variable'


@st.composite
def cases(draw):
    net = draw(gen.nets(1, 8, des=True, pseudo=True, cat=True))
    return {'net': net, 'order': list(draw(st.permutations(range(len(net['nodes']))))), 'done': draw(st.booleans()), 'new': draw(st.sampled_from([None, 'Other']))}


def f_user(x):
    return x


def run(c):
    from sims_pars import bayes_net_from_json
    from sims_pars.bayesnet import BayesianNetwork
    net = c['net']
    defs = bnref.defs_of(net)
    bn = BayesianNetwork(net['name'])
    for i in c['order']:
        bn.append_from_definition(gen.node_text(net['nodes'][i], ''))
    bn.add_user_defined_func('fu', f_user)
    if c['done']:
        bn.complete()
    env = bnref.assignment(defs)
    js = bn.to_json()
    g = bnref.graph(defs)
    check(js['Name'] == net['name'], 'json name {}', js['Name'])
    check([n['Name'] for n in js['Nodes']] == list(bn.DAG.nodes), 'json variables {}', js['Nodes'])
    check(sorted(js['Order']) == sorted(defs) and sorted(js['Roots']) == sorted(n for n in defs if not g.parents(n))
          and sorted(js['Leaves']) == sorted(n for n in defs if not g.children(n)) and sorted(js['Exo']) == sorted(n for n in defs if defs[n]['k'] == 'exo'), 'json roles {}', js)
    txt = json.dumps(js)
    outs = [('json', bayes_net_from_json(json.loads(txt)), True, net['name']), ('json object', bayes_net_from_json(js), True, net['name']),
            ('clone', bn.clone(), True, net['name']), ('copy', bn.copy(c['new']), c['done'], c['new'] or net['name'])]
    for what, b, frozen, name in outs:
        check(b is not bn and b.DAG is not bn.DAG, '{} is the same object', what)
        check(b.Name == name, '{}: name {}', what, b.Name)
        check(bool(b.is_frozen()) == frozen, '{}: complete is {}', what, b.is_frozen())
        bnref.check_network(b, defs, env, what=what)
        for n, m in defs.items():
            if m['k'] == 'val':
                check(b[n].render() == bn[n].render(), '{}: the constant {} is {!r} and was {!r}', what, n, b[n].render(), bn[n].render())
        js2 = b.to_json()
        check({n['Name']: n for n in map(norm, js2['Nodes'])} == {n['Name']: n for n in map(norm, js['Nodes'])}, '{}: json {}', what, js2['Nodes'])
        if what in ('clone', 'copy'):
            check(b.UserDefinedFunctions == {'fu': f_user} and b.UserDefinedFunctions is not bn.UserDefinedFunctions, '{}: user functions {}', what, b.UserDefinedFunctions)
    for what, b, _, _ in outs:
        b.defrost()
        leaf = b.DAG.leaves()[0]
        b.append_from_definition('vp_new ~ norm({}, 1)'.format(leaf if defs[leaf].get('d') != 'cat' else 0))
        b.append_from_definition('{} = 3'.format(leaf))
        check('vp_new' in b and json.dumps(bn.to_json()) == txt, 'editing the {} changed the original', what)
    bn2 = bn.copy()
    for what, b in (('clone', bn.clone()), ('copy', bn.copy()), ('copy of the copy', bn2.copy())):
        # what a copy wrote belongs to it
        for node in b.to_json()['Nodes']:
            node['Def'] = node['Des'] = 'overwritten'
        b.to_json()['Nodes'].clear()
        for k in ('Order', 'Roots', 'Leaves', 'Exo'):
            b.to_json()[k].append('overwritten')
        check(json.dumps(bn.to_json()) == txt, 'editing the json of the {} changed the original', what)
        bnref.check_network(bn, defs, what='original after editing the json of the ' + what)
        bnref.check_network(bn2, defs, what='copy after editing the json of its ' + what)
    for what, b in (('network', bn.copy()), ('clone', bn.clone()), ('network read from JSON', bayes_net_from_json(json.loads(txt))), ('network read from a JSON object', bayes_net_from_json(js))):
        # what was written is not the definitions themselves
        was = {n: (repr(b[n]), sorted(b[n].Parents)) for n in defs}
        for node in b.to_json()['Nodes']:
            for k, v in list(node.items()):
                if isinstance(v, list):
                    v.append('overwritten')
                elif isinstance(v, dict):
                    v['overwritten'] = 1
            node['Def'] = 'overwritten'
        now = {n: (repr(b[n]), sorted(b[n].Parents)) for n in defs}
        check(now == was, 'editing the json of the {} changed its definitions {} to {}', what, was, now)
        check(all(set(b.DAG.parents(n)) == g.parents(n) for n in defs), 'editing the json of the {} changed its edges', what)
    bnref.check_network(bn, defs, env, what='original after the edits of its copies')
    check(json.dumps(bn.to_json()) == txt, 'original json after the edits')
    return {'nontrivial': any(m['k'] == 'rv' for m in defs.values()) and bool(g.edges), 'labels': sorted({m['k'] for m in defs.values()}) + ['complete' if c['done'] else 'open']}


def norm(n):
    n = dict(n)
    if 'Parents' in n:
        n['Parents'] = sorted(n['Parents'])
    return n


FACETS = [Facet('roundtrip', cases(), run, 1600, 30000)]
