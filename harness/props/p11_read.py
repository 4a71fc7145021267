"""Reading scripts"""
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen

PROPERTY = 'P11'
RULE = ('generated networks written as scripts with shuffled lines, blank and comment lines, tabs, odd spacing, descriptions, undeclared exogenous '
        'variables and redefinitions; the network read is compared with the model; non-trivial: three or more variables with an edge')

SPACE = ['', ' ', '  ', '\t']


@st.composite
def cases(draw):
    net = draw(gen.nets(1, 8, des=True, pseudo=True, cat=True))
    for m in net['nodes']:
        if m['k'] == 'rv' and m['d'] != 'cat':
            m['kw'] = draw(st.integers(0, len(m['a'])))
    order = draw(st.permutations(range(len(net['nodes']))))
    lines = []
    children = {p for m in net['nodes'] for p in gen.parents_of(m)}
    implied = []
    for i in order:
        m = net['nodes'][i]
        if m['k'] == 'exo' and m['n'] in children and not m.get('des') and draw(st.booleans()):
            implied.append(m['n'])
            continue
        if draw(st.integers(0, 7)) == 0:   # an earlier definition, replaced
            old = draw(st.sampled_from(['{}', '{}=77', '{}~norm(50,1)', '{}~unif(0,old_one)', '{}=old_one+3']))
            lines.append(['old', old.format(m['n'])])
        lines.append(['node', i, draw(st.sampled_from(SPACE)), draw(st.sampled_from(SPACE))])
        if draw(st.integers(0, 4)) == 0:
            lines.append(['junk', draw(st.sampled_from(['', '   ', '# only a comment', '\t', '  # x = 3', '#']))])
    return {'net': net, 'lines': lines, 'head': draw(st.sampled_from(['PCore {} {{', 'pcore {}{{', 'PCORE  {}  {{', '  PCore\t{} {{', 'PCore {}{{ ', 'Pcore {} {{'])),
            'lead': draw(st.sampled_from(['', '\n', '\n   \n'])), 'tail': draw(st.sampled_from(['}', '  }', '}\n\n', '\t}\n']))}


def text(c):
    out = [c['head'].format(c['net']['name'])]
    for ln in c['lines']:
        if ln[0] == 'node':
            out.append(ln[2] + '  ' * (len(ln[2]) > 1) + gen.node_text(c['net']['nodes'][ln[1]], ln[3]) + ln[2])
        else:
            out.append(ln[1])
    return c['lead'] + '\n'.join(out) + '\n' + c['tail']


def run(c):
    from sims_pars import bayes_net_from_script
    from sims_pars.util import ScriptException
    defs = bnref.defs_of(c['net'])
    if any(ln[0] == 'old' and 'old_one' in ln[1] for ln in c['lines']):
        defs['old_one'] = {'n': 'old_one', 'k': 'exo'}
    scr = text(c)
    bn = bayes_net_from_script(scr)
    check(bn.Name == c['net']['name'], 'name {}', bn.Name)
    check(bn.is_frozen(), 'the network read is not complete')
    bnref.check_network(bn, defs, what=scr)
    check(bn.to_script() == scr and str(bn) == scr, 'the script is kept as {}', bn.to_script())
    try:
        bayes_net_from_script(scr[scr.index('{') + 1:])
    except ScriptException:
        pass
    else:
        check(False, 'read a script without its head')
    g = bnref.graph(defs)
    ks = {m['k'] for m in defs.values()}
    return {'nontrivial': len(defs) >= 3 and len(g.edges) > 0, 'labels': sorted(ks) + ['redefined'] * any(ln[0] == 'old' for ln in c['lines'])
            + ['described'] * any(m.get('des') for m in defs.values()) + ['undeclared'] * (len([x for x in c['lines'] if x[0] == 'node']) < len(c['net']['nodes']))}


FACETS = [Facet('read', cases(), run, 2400, 50000)]
