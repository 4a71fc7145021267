"""Size and shape do not change an answer"""
import json
import random
import sys
from hypothesis import strategies as st
from core import Facet, check
import bnref
import gen
import simref
from props.p20_evaluate import ref_lp
from props.p23_generate import grow

PROPERTY = 'P46'
RULE = ('networks of up to 240 variables in any shape (chains, layers, trees, stars, dense, apart) with everything asked of them compared with the reference models; '
        'groups of many variables and of many members over them; long and deeply bracketed formulas, numbers, comments; every case must come back within its time; '
        'non-trivial: 40 or more variables, or 60 or more terms')


def build(c):
    """Network of a shape: links first, then linear definitions whose values stay on one scale"""
    rng = random.Random(c['seed'])
    k, w = c['k'], c['w']
    links, shape = [], c['shape']

    def add(pas):
        links.append(sorted(set(pas)))
        return len(links) - 1

    if shape == 'chain':
        for i in range(k):
            add([i - 1] if i else [])
    elif shape == 'layers':         # every variable depends on all of the layer above
        for i in range(max(1, k // w)):
            for _ in range(w):
                add(range((i - 1) * w, i * w) if i else [])
    elif shape == 'skip':           # and on those of the layers before
        for i in range(k):
            add([j for j in range(max(0, i - 1 - w), i)])
    elif shape == 'tree':
        for i in range(k):
            add([(i - 1) // w] if i else [])
    elif shape == 'funnel':         # a tree upside down
        for i in range(k):
            add([j for j in (2 * i - k + 1, 2 * i - k) if 0 <= j < i])
    elif shape == 'star':
        for i in range(k):
            add([])
        for _ in range(w):
            add(range(k))
    elif shape == 'burst':
        for i in range(w):
            add([])
        for i in range(k):
            add(range(w))
    elif shape == 'dense':
        for i in range(k):
            add(rng.sample(range(i), min(i, rng.randint(0, 2 * w))))
    else:                           # chains apart
        for i in range(k):
            add([i - w] if i >= w else [])
    n = len(links)
    names = [c['prefix'] + str(i) for i in range(n)]
    nodes = []
    for i, pas in enumerate(links):
        m = {'n': names[i]}
        if pas:
            m['k'] = 'rv' if rng.random() < c['rv'] else 'fn'
            e = None
            for p in pas:
                t = ['var', names[p]]
                if len(pas) > 1 or rng.random() < 0.5:
                    t = ['bin', '*', ['num', round(1 / len(pas), 4)], t]
                e = t if e is None else ['bin', '+', e, t]
            if rng.random() < 0.5:
                e = ['bin', '+', e, ['num', rng.randint(1, 3)]]
            if m['k'] == 'fn':
                m['e'] = e if e[0] != 'var' else ['bin', '+', e, ['num', 1]]
            else:
                m['d'], m['a'] = 'unif', [e, ['bin', '+', e, ['num', 1]]]
        else:
            m['k'] = rng.choice((['rv', 'rv', 'rv'] if c['rv'] else []) + ['val', 'exo'] if c['exo'] else ['rv', 'rv', 'val'] if c['rv'] else ['val'])
            if m['k'] == 'val':
                m['e'] = ['num', rng.randint(1, 50)]
            elif m['k'] == 'rv':
                m['d'], m['a'] = 'unif', [['num', 0], ['num', 100]]
        nodes.append(m)
    order = list(range(n))
    if c['mix'] == 'back':
        order.reverse()
    elif c['mix']:
        rng.shuffle(order)
    return {'name': 'Large', 'nodes': nodes}, order, rng


@st.composite
def shapes(draw, top=240):
    shape = draw(st.sampled_from(['chain', 'layers', 'skip', 'tree', 'funnel', 'star', 'burst', 'dense', 'apart', 'layers', 'skip', 'dense']))
    return {'shape': shape, 'k': draw(st.integers(2, top) if draw(st.integers(0, 3)) else st.just(top)), 'w': draw(st.integers(1, 4)) if shape not in ('layers', 'skip') else draw(st.integers(2, 4)),
            'rv': draw(st.sampled_from([0.5, 0.1, 0.9, 0])), 'exo': draw(st.booleans()), 'mix': draw(st.sampled_from(['', 'back', 'mix'])), 'prefix': draw(st.sampled_from(['x', 'v_', 'beta'])),
            'seed': draw(st.integers(0, 10 ** 6))}


def plain(f):
    """Within the depth of calls which Python allows by default"""
    def g(c):
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(1000)
        try:
            return f(c)
        finally:
            sys.setrecursionlimit(old)
    return g


def pick(rng, names, n):
    return rng.sample(names, min(n, len(names)))


@plain
def run(c):
    from sims_pars import bayes_net_from_script, bayes_net_from_json, sample, sample_minimally, sample_chromosome, evaluate_nodes
    from sims_pars.bayesnet.dag import minimal_dag, minimal_requirements, get_sufficient_nodes, get_minimal_nodes
    net, order, rng = build(c)
    defs = bnref.defs_of(net)
    g = bnref.graph(defs)
    names = list(defs)
    bn = bayes_net_from_script(gen.script(net, order))
    exo = {n: rng.randint(-5, 6) for n, m in defs.items() if m['k'] == 'exo'}
    env = bnref.assignment(defs, exo)
    bnref.check_network(bn, defs, env)
    for what, b in (('json', bayes_net_from_json(json.loads(json.dumps(bn.to_json())))), ('script', bayes_net_from_script(bn.clone().to_script())),
                    ('clone', bn.clone()), ('merged', bn.merge('M', bayes_net_from_script('PCore B {\nvp_b = 1\n}'))), ('extended', bn.extend())):
        if what == 'merged':
            check('vp_b' in b, 'merged network')
            used = [n for n in names if defs[n]['k'] != 'exo' or g.children(n)]
            check(set(b.DAG.nodes) == set(used) | {'vp_b'}, 'merged: {} variables', len(b.DAG.nodes))
            continue
        bnref.check_network(b, defs, env, what=what)
    # queries
    dag = bn.DAG
    od = list(bn.Order)
    ends = [names[0], names[-1]]
    for sub in (ends, pick(rng, names, 4), pick(rng, names, 2), names):
        sub = sorted(set(sub))
        span = set(sub)
        dn = set().union(*[g.des(a) for a in sub])
        up = set().union(*[g.anc(a) for a in sub])
        span |= dn & up
        m = minimal_dag(dag, sub)
        check(set(m.nodes) == span, 'graph spanned by {}: {} instead of {}', sub[:5], sorted(m.nodes), sorted(span))
        check(set(m.edges) == {(a, b) for a, b in g.edges if a in span and b in span}, 'edges spanned by {}', sub[:5])
        check(dag.upstream(sub) == up and dag.downstream(sub) == dn, 'above and below {}', sub[:5])
        given = pick(rng, names, rng.choice([0, 1, 5]))
        need = g.needed(set(sub), set(given))
        check(set(get_sufficient_nodes(dag, sub, given)) == need, 'needed for {} given {}', sub[:5], given)
        check(set(get_minimal_nodes(dag, sub, given)) == need - set(given), 'needed for {} but {}', sub[:5], given)
        t = sub[-1]
        r = g.needed({t}, set(given) - {t}) - {t}
        check(list(minimal_requirements(dag, t, given)) == [n for n in od if n in r], 'requirements of {} given {}', t, given)
        # draws of what is needed only
        cond = {n: env[n] for n in given}
        cond.update({n: exo[n] for n in need & set(exo)})
        sinks, med = sample_minimally(bn, sub, dict(cond))
        v = dict(med, **sinks)
        check(set(sinks) == set(sub) and not set(sinks) & set(med) and set(v) == need | set(cond), 'drew {} for {} given {}', len(v), sub[:5], sorted(cond)[:5])
        bnref.consistent(defs, v, 'minimal sample', skip=cond)
    rv = {n for n, m in defs.items() if m['k'] == 'rv'}
    for n in {od[0], od[-1]} | set(pick(rng, names, 3)):
        given = [a for a in pick(rng, names, rng.choice([1, 5])) if a != n]
        check(bool(bn.has_randomness(n)) == (n in rv or bool(g.anc(n) & rv)), 'randomness of {}', n)
        need = g.needed({n}, set(given)) - set(given)
        check(bool(bn.has_randomness(n, given)) == bool(need & rv), 'randomness of {} given {}', n, given)
    # draws of all
    v = sample(bn, dict(exo))
    check(set(v) == set(defs), '{} of {} variables drawn', len(v), len(defs))
    bnref.consistent(defs, v, 'sample')
    check(gen.close(evaluate_nodes(bn, v), ref_lp(defs, v), 1e-7, 1e-6), 'log density {} instead of {}', evaluate_nodes(bn, v), ref_lp(defs, v))
    ch = sample_chromosome(bn, dict(exo))
    old = dict(iter(ch))
    bnref.consistent(defs, old, 'chromosome')
    im = {n: old[n] + 1 for n in pick(rng, names, rng.choice([1, 1, 3]))}
    ch.impulse(dict(im), bn)
    new = dict(iter(ch))
    below = set().union(*[g.des(n) for n in im]) - set(im)
    check(set(new) == set(old), 'an intervention changed the names')
    check(all(new[n] == x for n, x in im.items()), 'the values {} were not kept', im)
    check(all(new[n] == old[n] for n in names if n not in below and n not in im), 'an intervention on {} changed what is not below', im)
    bnref.consistent(defs, new, 'after an intervention', skip=im)
    return {'nontrivial': len(defs) >= 40, 'labels': [c['shape'], '{} variables or more'.format(len(defs) // 50 * 50)]}


@st.composite
def longs(draw):
    return {'shape': draw(st.sampled_from(['chain', 'chain', 'tree', 'apart', 'dense'])), 'k': draw(st.integers(500, 1300)), 'w': draw(st.integers(1, 2)), 'rv': draw(st.sampled_from([0.5, 0.1, 0.9])),
            'exo': False, 'mix': draw(st.sampled_from(['', 'back', 'mix'])), 'prefix': 'x', 'seed': draw(st.integers(0, 10 ** 6)), 'ask': draw(st.integers(0, 3))}


@plain
def run_long(c):
    """Beyond the depth of any recursion"""
    from sims_pars import bayes_net_from_script, sample, sample_minimally, sample_chromosome, evaluate_nodes, as_simulation_core
    from sims_pars.bayesnet.dag import minimal_requirements, get_minimal_nodes, minimal_dag
    net, order, rng = build(c)
    defs = bnref.defs_of(net)
    g = bnref.graph(defs)
    names = list(defs)
    bn = bayes_net_from_script(gen.script(net, order))
    od = list(bn.Order)
    pos = {n: i for i, n in enumerate(od)}
    check(set(pos) == set(defs) and all(pos[a] < pos[b] for a, b in g.edges), 'order of {} variables', len(od))
    v = sample(bn)
    bnref.consistent(defs, v, 'sample')
    last = od[-1]
    if c['ask'] == 0:
        check(gen.close(evaluate_nodes(bn, v), ref_lp(defs, v), 1e-7, 1e-6), 'log density {} instead of {}', evaluate_nodes(bn, v), ref_lp(defs, v))
        for n in (od[0], last, rng.choice(od)):
            check(set(bn.DAG.ancestors(n)) == g.anc(n) and set(bn.DAG.descendants(n)) == g.des(n), 'relatives of {}', n)
        t = bayes_net_from_script(bn.clone().to_script())
        check(set(t.Order) == set(defs), 'script of {} variables', len(t.Order))
    elif c['ask'] == 1:
        need = g.needed({last}, set())
        sinks, med = sample_minimally(bn, [last], {})
        check(set(sinks) == {last} and set(med) == need - {last}, 'drew {} for {}', len(med), last)
        bnref.consistent(defs, dict(med, **sinks), 'minimal sample')
        check(set(get_minimal_nodes(bn.DAG, [last], [])) == need, 'needed for {}', last)
        check(list(minimal_requirements(bn.DAG, last, [])) == [n for n in od if n in need and n != last], 'requirements of {}', last)
        check(set(minimal_dag(bn.DAG, [od[0], last]).nodes) == {od[0], last} | (g.des(od[0]) & g.anc(last)), 'graph spanned by {} and {}', od[0], last)
    elif c['ask'] == 2:
        ch = sample_chromosome(bn)
        old = dict(iter(ch))
        bnref.consistent(defs, old, 'chromosome')
        n = rng.choice(od[:5])
        ch.impulse({n: old[n] + 1}, bn)
        new = dict(iter(ch))
        check(new[n] == old[n] + 1 and all(new[k] == old[k] for k in names if k != n and k not in g.des(n)), 'an intervention on {} changed what is not below', n)
        bnref.consistent(defs, new, 'after an intervention', skip=[n])
    else:
        root = as_simulation_core(bn, simref.nodeset(['g', names, [], []])).generate('R')
        check(set(root.Locus) >= {n for n in names}, 'generated {} of {} variables', len(root.Locus), len(names))
        bnref.consistent(defs, {k: root.Locus[k] for k in names}, 'generated')
    return {'nontrivial': True, 'labels': [c['shape'], 'ask {}'.format(c['ask'])]}


@st.composite
def hierarchies(draw):
    c = draw(shapes(draw(st.sampled_from([120, 120, 60]))))
    c['tree'] = draw(st.sampled_from([1, 2, 3, 6]))
    c['wide'] = draw(st.sampled_from([1, 1, 3]))
    c['ask'] = draw(st.sampled_from([2, 6, 30]))
    c['members'] = draw(st.sampled_from([1, 2, 40]))
    return c


@plain
def run_hierarchy(c):
    from sims_pars import as_simulation_core, bayes_net_from_script
    net, order, rng = build(c)
    defs = bnref.defs_of(net)
    g = bnref.graph(defs)
    names = [n for n in defs if defs[n]['k'] != 'exo']
    exo = {n: rng.randint(1, 6) for n, m in defs.items() if m['k'] == 'exo'}
    pos = {n: i for i, n in enumerate(bnref.topo(defs))}

    def tree(name, depth, rest):
        mine = sorted(pick(rng, rest, c['ask']), key=pos.get)
        left = [n for n in rest if n not in mine]
        fl = [n for n in mine if rng.random() < 0.4]
        fx = [n for n in mine if n not in fl]
        above = set().union(*[g.anc(n) for n in fx])
        fl = [n for n in fl if n not in above]
        return [name, fx, fl, [tree('{}{}'.format(name, i), depth + 1, left) for i in range(c['wide'] if depth == 0 else 1)] if depth < c['tree'] else []]

    t = tree('g', 0, names)
    ns = simref.nodeset(t)
    bn = bayes_net_from_script(gen.script(net, order))
    if c['seed'] % 2:
        ns = simref.nodeset2(t)
    sc = as_simulation_core(bn, ns)
    for grp, path in simref.groups(t):
        sg = sc[grp[0]]
        above = set().union(*[set(sc[p[0]].Fixed) for p in path[:-1]])
        fixed = set(sg.Fixed)
        check(len(fixed) == len(sg.Fixed) and not fixed & above, 'fixed twice in {}', grp[0])
        for i, n in enumerate(sg.Fixed):
            check(g.parents(n) <= above | set(sg.Fixed[:i]), '{} is fixed in {} before its parents', n, grp[0])
        check(set(grp[1]) <= fixed | above, '{} should be fixed at {}', sorted(set(grp[1]) - fixed - above), grp[0])
        check(all(n in fixed | above or n in sg.LocalActors for n in grp[2]), 'should float at {}: {}', grp[0], grp[2])
    root = sc.generate('R', dict(exo))
    if c['members'] > 2:
        last = sorted(ch[0] for ch in t[3])[-1:]
        for grp in last:
            for i in range(c['members']):
                root.breed('m{}'.format(i), grp)
    else:
        grow(root, t, c['members'] == 2)
    cores = list(simref.walk(root, t))
    for core, grp in cores:
        simref.check_core(core, grp, defs, 'generated')
        check(set(sc[grp[0]].Fixed) <= set(core.Locus), '{} lacks values', core.Nickname)
    for core, grp in cores[:1] + cores[-1:]:
        simref.check_samplers(core, grp, defs, 'generated')
        if not simref.on_edge(core, defs):
            check(gen.close(core.LogProb, simref.prior(core, defs), 1e-6, 1e-6), '{} has log density {} instead of {}', core.Nickname, core.LogProb, simref.prior(core, defs))
    seen = {}
    for core, grp in cores:
        for n in sc[grp[0]].Fixed:
            if defs[n]['k'] == 'rv':
                seen.setdefault(n, []).append(core.Locus[n])
    check(all(len(set(xs)) == len(xs) for xs in seen.values()), 'members share draws')
    # an intervention at the top goes down to all the members
    can = [n for n in sc[t[0]].Fixed]
    if can:
        n = can[len(can) // 2] if c['seed'] % 3 else can[0]
        old = [dict(x.Locus) for x, _ in cores]
        root.impulse({n: root[n] + 1})
        hit = g.des(n)
        for (core, grp), o in zip(cores, old):
            fixed = set(sc[grp[0]].Fixed)
            simref.check_core(core, grp, defs, 'after an intervention on ' + n, forced={n})
            for k, x in core.Locus.items():
                if k in fixed and k not in hit and k != n:
                    check(x == o[k], '{} of {} changed by an intervention on {}', k, core.Nickname, n)
                elif k in fixed and k in hit and defs[k]['k'] == 'rv':
                    check(x != o[k], '{} of {} was not renewed by an intervention on {}', k, core.Nickname, n)
    return {'nontrivial': len(defs) >= 40, 'labels': [c['shape'], 'deep' if c['tree'] > 2 else 'shallow', '{} members'.format(c['members'])]}


@st.composite
def texts(draw):
    return {'form': draw(st.sampled_from(['sum', 'brackets', 'calls', 'powers', 'minus', 'wide', 'number', 'nested', 'comment', 'name', 'args'])),
            'k': draw(st.integers(1, 400)), 'seed': draw(st.integers(0, 10 ** 6)), 'sp': draw(st.sampled_from(['', ' ', '  '])), 'rv': draw(st.booleans())}


@plain
def run_text(c):
    from sims_pars import bayes_net_from_script, bayes_net_from_json, sample
    rng = random.Random(c['seed'])
    k, f, sp = c['k'], c['form'], c['sp']
    vals = {'x': 0.5, 'y': 2.0, 'zz': 3.0}
    vs = [['var', n] for n in sorted(vals)]
    des, long = None, 'a'
    if f == 'sum':
        e = rng.choice(vs)
        for _ in range(k):
            e = ['bin', rng.choice('+-'), e, rng.choice(vs + [['num', rng.randint(1, 9)]])]
    elif f == 'brackets':
        e = ['var', 'x']
        for _ in range(min(k, 60)):
            e = ['bin', '+', ['num', 1], ['bin', '*', ['num', 0.5], e]] if rng.random() < 0.5 else ['bin', '-', ['num', 2], e]
    elif f == 'calls':
        e = ['var', 'x']
        for _ in range(min(k, 60)):
            e = ['call', rng.choice(['cos', 'sin', 'abs']), [e]]
    elif f == 'powers':
        e = ['num', 1]
        for _ in range(min(k, 12)):
            e = ['bin', '**', ['num', 1.25], e]
    elif f == 'minus':
        e = ['var', 'x']
        for _ in range(min(k, 60)):
            e = ['neg', e]
    elif f == 'wide':
        e = ['call', 'max', [rng.choice(vs + [['num', rng.randint(1, 9)]]) for _ in range(min(k, 200) + 1)]]
    elif f == 'number':
        e = ['bin', '+', vs[0], ['num', float('0.' + ''.join(rng.choice('123456789') for _ in range(min(k, 16))))]]
    elif f == 'nested':
        e = rng.choice(vs)
        for _ in range(min(k, 40)):
            e = rng.choice([['bin', '/', e, ['num', 2]], ['call', 'min', [e, rng.choice(vs)]], ['bin', '*', ['num', 0.5], e], ['neg', e]])
    else:
        e = ['bin', '+', vs[0], ['num', 1]]
        if f == 'comment':
            des = ' '.join('word{}'.format(rng.randint(0, 99)) for _ in range(k))
        elif f == 'name':
            long = 'n' + '_'.join(rng.choice('abxyz') for _ in range(k))
    txt = gen.show(e, sp)
    want = gen.ev(e, vals)
    lines = ['x = 0.5', 'y = 2', 'zz = 3', '{} = {}'.format(long, txt) + (' # ' + des if des else '')]
    rv = c['rv'] and not gen.efuncs(e) and not (f == 'sum' and k > 90)  # beyond, the depth of Python's own printer of expressions ends
    if rv:
        lines.append('r ~ unif({}, {} + 1)'.format(txt, txt))
    lines.append('out = {} + 1'.format(long))
    rng.shuffle(lines)
    bn = bayes_net_from_script('PCore T {\n' + '\n'.join(lines) + '\n}')
    j = bayes_net_from_json(json.loads(json.dumps(bn.to_json())))
    for what, b in (('read', bn), ('json', j), ('script', bayes_net_from_script(j.to_script()))):
        v = sample(b)
        check(gen.close(v[long], want, 1e-8, 1e-8), '{}: {} is {} instead of {}', what, txt[:300], v[long], want)
        check(gen.close(v['out'], want + 1, 1e-8, 1e-8), '{}: {} below {}', what, v['out'], v[long])
        check(set(b[long].Parents) == gen.evars(e), '{}: parents {}', what, b[long].Parents)
        if rv:
            check(want - 1e-6 <= v['r'] <= want + 1 + 1e-6, '{}: drew {} out of {}', what, v['r'], (want, want + 1))
        if des:
            check(b.DAG.nodes[long]['Des'] == gen.squash(des), '{}: description of {} characters', what, len(b.DAG.nodes[long]['Des']))
    return {'nontrivial': k >= 60 or f in ('powers', 'number'), 'labels': [f]}


@st.composite
def data(draw):
    return {'form': draw(st.sampled_from(['table', 'matrix', 'series', 'regression', 'particles'])), 'k': draw(st.integers(2, 100)), 'seed': draw(st.integers(0, 10 ** 6)),
            'sub': draw(st.integers(0, 11))}


@plain
def run_data(c):
    rng = random.Random(c['seed'])
    k, f, sub = c['k'], c['form'], c['sub']
    if f == 'table':
        from props import p36_tables as mod
        n = [k // 10 + 2, k // 20 + 1, 3]
        cells = [[i, 'l{}'.format(j), h] for i in range(n[0]) for j in range(n[1]) for h in (False, True, 'x')[:n[2]]]
        rng.shuffle(cells)
        rows = [r + [rng.choice([1, 2, 0.5, 7, 30, 0])] for r in cells if rng.random() < 0.9] or [cells[0] + [1]]
        rows[0][-1] = 3
        mod.run({'ix': ['i', 'j', 'h'], 'rows': rows, 'ops': [[rng.choice(['marg', 'cond']), rng.randint(0, 9), rng.randint(0, 9)] for _ in range(sub % 4)], 'n': 400 * (sub % 2), 'int': False, 'pname': 'Prob', 'seed': 0})
    elif f == 'matrix':
        from props import p36_tables as mod
        ss = ['S{}'.format(i) for i in range(k)]
        rows = [[rng.choice([0, 0, 1, 0.5, 3]) for _ in ss] for _ in ss]
        for r in rows:
            r[rng.randrange(k)] = 2
        mod.run_matrix({'fr': ss, 'to': ss, 'rows': rows, 'cur': [rng.choice(ss) for _ in range(k)], 'n': 0, 'seed': 0})
    elif f == 'series':
        from props import p37_series as mod
        n = 10 * k
        ts = sorted(rng.sample(range(-5 * n, 5 * n), n))
        order = list(range(n))
        rng.shuffle(order)
        mod.run({'ts': ts, 'xs': [[rng.randint(-20, 20) for _ in ts] for _ in range(2)], 'order': order, 'kind': mod.KINDS[sub % 5],
                 'ps': [[rng.choice([0, 1, 2]), rng.choice([0, 1, 5]), 1] for _ in ts], 'at': [[rng.randint(-1, n), rng.choice([0, 0.2, 0.55, 0.9])] for _ in range(20)],
                 'ages': [[a, rng.randint(-60, 0) / 10, rng.choice([0.1, 0.5, -0.2])] for a in range(k)], 'n': 0, 'idx': sub % 2 == 0, 'seed': 0})
    elif f == 'regression':
        from props import p38_regression as mod
        regs, xs = [], {'unrelated': 9}
        for i in range(k):
            tp = rng.choice(['Boolean', 'Continuous', 'Categorical'])
            r = {'Name': 'x{}'.format(i), 'Type': tp}
            if tp == 'Categorical':
                m = rng.randint(1, 30)
                ref = rng.randrange(m)
                r.update({'Values': [0 if j == ref else rng.randint(-20, 20) / 100 for j in range(m)], 'Labels': ['L{}'.format(j) for j in range(m)], 'Ref': 'L{}'.format(ref)})
            else:
                r['Value'] = rng.randint(-20, 20) / 100
            regs.append(r)
            xs[r['Name']] = rng.random() < 0.5 if tp == 'Boolean' else rng.randint(-10, 10) / 10 if tp == 'Continuous' else rng.randrange(m)
        mod.run({'kind': ['linear', 'logistic', 'poisson'][sub % 3], 'regs': regs, 'b0': 0.1, 'xs': [xs], 'n': 400 * (sub % 2), 'se': 1, 'offset': None, 'seed': 0})
    else:
        from props import p31_particle as mod
        names = ['p{}'.format(i) for i in range(rng.choice([3, 3, k]))]
        mod.run({'pts': [{'pars': {n: rng.randint(-900, 900) / 8 for n in names}, 'lp': rng.choice([None, -1.5]), 'sims': {'S{}'.format(i): rng.random() for i in range(2)},
                          'ops': [['note', 'Ys', [1, 2]], ['copy', True, names[0], 5], ['json']][:rng.randint(0, 3)]} for _ in range(k)], 'alg': 'ABC', 'notes': {'Eps': 1}})
    return {'nontrivial': k >= 20, 'labels': [f]}


FACETS = [Facet('network', shapes(), run, 160, 4000, timeout=60), Facet('long', longs(), run_long, 40, 600, timeout=90), Facet('hierarchy', hierarchies(), run_hierarchy, 160, 4000, timeout=60), Facet('text', texts(), run_text, 300, 5000, timeout=60), Facet('data', data(), run_data, 200, 3000, timeout=60)]
