"""Histories of structural changes of a network"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P14'
RULE = ('histories of up to 12 operations (define, redefine, make exogenous, complete, defrost, attempts on complete networks, cyclic definitions) against a '
        'model of definitions, compared after every step; non-trivial: a redefinition or a rejected definition happened')

POOL = ['a', 'b', 'c', 'd', 'e1', 'gamma']
MORE = POOL + ['h', 'x_1', 'sigma', 'Zed']


@st.composite
def cases(draw):
    ops = []
    big = draw(st.sampled_from([False, False, True]))
    # in larger networks some variables have many children
    pool, hubs = (MORE, draw(st.lists(st.sampled_from(MORE), min_size=1, max_size=2))) if big else (POOL, POOL)
    for _ in range(draw(st.integers(4, 20) if big else st.integers(1, 12))):
        k = draw(st.sampled_from(['def', 'def', 'def', 'def', 'def', 'complete', 'defrost', 'js']))
        if k in ('def', 'js'):
            n = draw(st.sampled_from(pool))
            t = draw(st.sampled_from(['val', 'exo', 'fn', 'fn', 'rv', 'rv']))
            pas = draw(st.lists(st.sampled_from(hubs if big and draw(st.integers(0, 2)) else pool), min_size=1, max_size=2, unique=True))
            m = {'n': n, 'k': t}
            if t == 'val':
                m['e'] = ['num', draw(st.integers(0, 9))]
            elif t == 'fn':
                m['e'] = gen.lin(pas, draw)
            elif t == 'rv':
                m['d'], m['a'] = 'norm', [gen.lin(pas, draw) if draw(st.booleans()) else ['num', 1], ['num', 1]]
            if draw(st.integers(0, 3)) == 0:
                m['des'] = draw(st.sampled_from(['one', 'two']))
            ops.append([k, m])
        else:
            ops.append([k])
    if big:
        # a variable used by many, defined from one of them (or of those below)
        hub = hubs[0]
        kids = [x for x in draw(st.permutations(pool)) if x != hub][:draw(st.integers(2, 7))]
        pre = [['def', {'n': x, 'k': 'fn', 'e': gen.lin([hub], draw)}] for x in kids]
        if draw(st.booleans()):
            pre.append(['def', {'n': kids[0], 'k': 'fn', 'e': gen.lin([kids[1]], draw)}])
        ops = pre + ops[:draw(st.integers(0, 6))] + [['def', {'n': hub, 'k': 'fn', 'e': gen.lin([draw(st.sampled_from(kids))], draw)}]]
    if draw(st.integers(0, 5)) == 0:
        # a long chain, closed far above
        ch = list(draw(st.permutations(pool)))[:draw(st.integers(4, len(pool)))]
        pre = [['def', {'n': x, 'k': 'fn', 'e': gen.lin([p], draw)}] for p, x in zip(ch, ch[1:])]
        i = draw(st.integers(0, 1))
        end = ['def', {'n': ch[i], 'k': 'fn', 'e': gen.lin([ch[draw(st.integers(i + 2, len(ch) - 1))]], draw)}]
        ops = list(draw(st.permutations(pre))) + [op for op in ops if op[0] in ('complete', 'defrost')][:2] + [['defrost'], end] + ops[:draw(st.integers(0, 3))]
    return {'ops': ops}


def run(c):
    from sims_pars.bayesnet import BayesianNetwork, parse_loci
    bn = BayesianNetwork('H')
    defs, frozen = {}, False
    labels = set()
    for op in c['ops']:
        if op[0] == 'complete':
            bn.complete()
            frozen = True
        elif op[0] == 'defrost':
            bn.defrost()
            frozen = False
        else:
            m = op[1]
            new = dict(defs)
            new[m['n']] = dict(m)
            if not m.get('des') and defs.get(m['n'], {}).get('des'):
                new[m['n']]['des'] = '?'   # whether a description outlives its definition is not stated
            bnref.close_defs(new)
            cyclic = bnref.topo(new) is None
            try:
                if op[0] == 'def':
                    bn.append_from_definition(gen.node_text(m, ' '))
                else:
                    js = parse_loci(gen.node_text(dict(m, des=None)))[0].to_json()
                    if m.get('des'):
                        js['Des'] = m['des']
                    bn.append_from_js(js)
            except AttributeError:
                check(frozen or cyclic, '{} was rejected on {}', m, sorted(defs))
                labels.add('frozen' if frozen else 'cyclic')
            else:
                check(not frozen, '{} was added to a complete network', m)
                check(not cyclic, '{} was added to {} though cyclic', m, sorted(defs))
                if m['n'] in defs:
                    labels.add('redefined')
                defs = new
        for m in defs.values():
            if m.get('des') == '?':
                d = bn.DAG.nodes[m['n']].get('Des')
                m.pop('des')
                if d:
                    m['des'] = d
        check(bool(bn.is_frozen()) == frozen, 'complete is {}', bn.is_frozen())
        bnref.check_network(bn, defs, what='after {}'.format(op))
        js = bn.to_json()
        check(sorted(n['Name'] for n in js['Nodes']) == sorted(defs), 'json {}', js)
        check(all(n in bn.to_script() for n in defs), 'script {}', bn.to_script())
    return {'nontrivial': bool(labels), 'labels': sorted(labels)}


FACETS = [Facet('history', cases(), run, 2400, 40000)]
