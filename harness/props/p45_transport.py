"""Pickles and deep copies, as used for parallel runs"""
import copy
import pickle
import numpy as np
from hypothesis import strategies as st
from core import Facet, check, Discard
import bnref
import fitref
import gen
import simref

PROPERTY = 'P45'
RULE = ('generated networks, laws, sampled values, hierarchies with samplers, calibration problems, particles and fitted algorithms sent through pickle (any protocol) or deep copies: '
        'the same content, links, and draws under the same seed as the original; later changes on one side do not reach the other; non-trivial: a random variable below another')


def ways(h):
    if h == 'deep':
        return copy.deepcopy
    return lambda x: pickle.loads(pickle.dumps(x, protocol=h))


def seeded(seed, f):
    import random
    np.random.seed(seed)
    random.seed(seed)
    return f()


HOW = st.sampled_from([2, 4, 5, 'deep'])


def plain(bn):
    js = bn.to_json()
    return dict(js, Nodes=[dict(x, Parents=sorted(x.get('Parents', []))) for x in js['Nodes']])


@st.composite
def nets(draw):
    net = draw(gen.nets(2, 8, kinds=('val', 'exo', 'fn', 'rv', 'rv', 'rv'), des=True, cat=True))
    names = [m['n'] for m in net['nodes']]
    return {'net': net, 'order': list(draw(st.permutations(range(len(names))))), 'how': draw(HOW), 'imp': draw(st.sampled_from(names)), 'open': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6))}


def run_nets(c):
    from sims_pars import bayes_net_from_script, sample, sample_chromosome, evaluate_nodes, parse_distribution
    from sims_pars.bayesnet import BayesianNetwork
    ship = ways(c['how'])
    net, defs = c['net'], bnref.defs_of(c['net'])
    if c['open']:
        bn = BayesianNetwork(net['name'])
        for i in c['order']:
            bn.append_from_definition(gen.node_text(net['nodes'][i], ''))
    else:
        bn = bayes_net_from_script(gen.script(net, c['order']))
    env = bnref.assignment(defs)
    b2 = ship(bn)
    check(b2 is not bn and b2.Name == bn.Name and b2.is_frozen() == bn.is_frozen(), 'shipped {}: {}', bn, b2)
    bnref.check_network(b2, defs, env, what='shipped network')
    check(plain(b2) == plain(bn) and b2.to_script() == bn.to_script(), 'shipped network reads {} instead of {}', b2.to_json(), bn.to_json())
    exo = {n: env[n] for n in defs if defs[n]['k'] == 'exo'}
    if not c['open']:
        x, y = [seeded(c['seed'], lambda: sample(b, dict(exo))) for b in (bn, b2)]
        check(x == y and list(x) == list(y), 'sample {} of the shipped network instead of {}', y, x)
        check(evaluate_nodes(b2, x) == evaluate_nodes(bn, x), 'density {}', evaluate_nodes(b2, x))
        ch = seeded(c['seed'], lambda: sample_chromosome(bn, dict(exo)))
        c2 = ship(ch)
        check(dict(c2) == dict(ch) and list(c2) == list(ch) and c2.LogProb == ch.LogProb, 'shipped values {} instead of {}', (dict(c2), c2.LogProb), (dict(ch), ch.LogProb))
        if defs[c['imp']]['k'] != 'exo':
            kept = dict(c2), c2.LogProb
            seeded(c['seed'], lambda: ch.impulse({c["imp"]: None}, bn))
            check((dict(c2), c2.LogProb) == kept, 'an intervention on the original reached the shipped values: {} instead of {}', dict(c2), kept)
            seeded(c['seed'], lambda: c2.impulse({c["imp"]: None}, b2))
            check(dict(c2) == dict(ch), 'the same intervention on the shipped values gives {} instead of {}', dict(c2), dict(ch))
            c3 = ship(ch)
            check(dict(c3) == dict(ch) and c3.is_evaluated() == ch.is_evaluated(), 'shipped values after an intervention')
        for n, m in defs.items():
            if m['k'] == 'rv':
                d = bn[n].get_distribution(x)
                d2 = ship(d)
                u, v = [seeded(c['seed'], lambda: [q.sample(), list(np.atleast_1d(q.sample(3)))]) for q in (d, d2)]
                check(u == v, 'draws {} of the shipped law of {} instead of {}', v, n, u)
                check(d2.logpdf(x[n]) == d.logpdf(x[n]) and d2.to_json() == d.to_json(), 'shipped law of {}', n)
                if m['d'] != 'cat':
                    check((d2.Lower, d2.Upper, d2.mean(), d2.std()) == (d.Lower, d.Upper, d.mean(), d.std()), 'shipped law of {}: moments', n)
    txt, mine = bn.to_json(), b2.to_script()
    bn.defrost()
    leaf = bn.DAG.leaves()[0]
    bn.append_from_definition(leaf + ' = 12345')
    bn.append_from_definition('vp_new = 1')
    check(b2.to_script() == mine and 'vp_new' not in b2, 'edits of the original reached the shipped network')
    bnref.check_network(b2, defs, env, what='shipped network after edits of the original')
    b2.defrost()
    b2.append_from_definition('vp_other = 1')
    check('vp_other' not in bn, 'edits of the shipped network reached the original')
    g = bnref.graph(defs)
    return {'nontrivial': any(m['k'] == 'rv' and gen.parents_of(m) for m in defs.values()), 'labels': [str(c['how']), 'open' if c['open'] else 'complete'] + ['edge'] * bool(g.edges)}


@st.composite
def trees(draw):
    c = draw(simref.sims(max_nodes=7))
    return dict(c, how=draw(HOW), pick=draw(st.integers(0, 50)), imps=draw(st.lists(st.sampled_from([m['n'] for m in c['net']['nodes']]), min_size=1, max_size=2, unique=True)),
                probe=draw(st.booleans()))


def picture(root, tree):
    """Everything in a tree of parameters"""
    return [(x.Nickname, x.Group, x.Parent.Nickname if x.Parent is not None else None, sorted(x.Children), dict(x.Locus), x.LogProb) for x, _ in simref.walk(root, tree)]


def linked(root, tree):
    return all(ch.Parent is x and x.Children[k] is ch for x, _ in simref.walk(root, tree) for k, ch in x.Children.items())


def draws(root, tree, seed):
    def f():
        out = []
        for x, _ in simref.walk(root, tree):
            for shared in ([False, True] if x.Parent is not None else [False]):
                out.append([(k, s.sample(2)) for k, s in x.get_samplers(shared).items()])
        return out
    return seeded(seed, f)


def run_trees(c):
    ship = ways(c['how'])
    defs = bnref.defs_of(c['net'])
    _, sc = simref.build(c)
    if sc is None:
        raise Discard()
    s2 = ship(sc)
    check(s2 is not sc and list(s2.SGs) == list(sc.SGs) and all(s2[k].to_json() == sc[k].to_json() and s2[k].SC is s2 for k in sc.SGs), 'shipped simulation core: groups')
    check(plain(s2.BN) == plain(sc.BN) and s2.to_json()['Root'] == sc.to_json()['Root'], 'shipped simulation core: {}', s2.to_json())

    def grow(sim):
        root = sim.generate('R', dict(c['exo']))

        def down(core, t):
            for ch in t[3]:
                for i in range(2):
                    down(core.breed('{}_{}'.format(ch[0], i), ch[0]), ch)
        down(root, c['tree'])
        return root
    r1 = seeded(c['seed'], lambda: grow(sc))
    r2 = seeded(c['seed'], lambda: grow(s2))
    check(picture(r1, c['tree']) == picture(r2, c['tree']), 'the shipped core generates {} instead of {}', picture(r2, c['tree']), picture(r1, c['tree']))
    for x, _ in simref.walk(r2, c['tree']):
        check(x.SG is s2[x.Group], 'parameters of the shipped core refer to another core')
    first = draws(r1, c['tree'], 5) if c['probe'] else None   # samplers in use are shipped with the rest
    r3 = ship(r1)
    check(picture(r3, c['tree']) == picture(r1, c['tree']) and linked(r3, c['tree']), 'shipped parameters {} instead of {}', picture(r3, c['tree']), picture(r1, c['tree']))
    cores = list(simref.walk(r1, c['tree']))
    a, b = draws(r1, c['tree'], 6), draws(r3, c['tree'], 6)
    check(a == b, 'samplers of the shipped parameters draw {} instead of {}', b, a)
    # one member, with those above it
    core, grp = cores[c['pick'] % len(cores)]
    one = ship(core)
    x, y = one, core
    while y is not None:
        check(x is not None and x.Nickname == y.Nickname and dict(x.Locus) == dict(y.Locus) and x.LogProb == y.LogProb, 'shipped member: {} became {}', y, x)
        x, y = x.Parent, y.Parent
    check(x is None, 'shipped member has more parents')
    check(dict(one) == dict(core) and simref.visible(one) == simref.visible(core), 'shipped member sees {} instead of {}', simref.visible(one), simref.visible(core))
    for k, s in core.get_samplers(False).items():
        q = ship(s)
        u, v = seeded(9, lambda: s.sample(3)), seeded(9, lambda: q.sample(3))
        check(u == v, 'the shipped sampler of {} draws {} instead of {}', k, v, u)
    # interventions and growth on one side
    imps = [k for k in c['imps'] if defs[k]['k'] != 'exo']
    if imps:
        kept = picture(r3, c['tree'])
        seeded(c['seed'] + 1, lambda: r1.impulse(list(imps)))
        check(picture(r3, c['tree']) == kept, 'an intervention on the original reached the shipped parameters')
        check(draws(r3, c['tree'], 6) == b, 'an intervention on the original reached the shipped samplers')
        seeded(c['seed'] + 1, lambda: r3.impulse(list(imps)))
        check(picture(r3, c['tree']) == picture(r1, c['tree']), 'intervention {} on the shipped parameters: {} instead of {}', imps, picture(r3, c['tree']), picture(r1, c['tree']))
        check(draws(r3, c['tree'], 7) == draws(r1, c['tree'], 7), 'samplers after an intervention on the shipped parameters')
    if c['tree'][3]:
        kept = picture(r1, c['tree'])
        nick = 'new', c['tree'][3][0][0]
        n3 = seeded(3, lambda: r3.breed(*nick))
        check(picture(r1, c['tree']) == kept and n3.Parent is r3 and r3.Children['new'] is n3, 'breeding from the shipped parameters')
        n1 = seeded(3, lambda: r1.breed(*nick))
        check(dict(n1.Locus) == dict(n3.Locus), 'bred {} from the shipped parameters instead of {}', dict(n3.Locus), dict(n1.Locus))
    return {'nontrivial': bool(c['tree'][3]) and any(m['k'] == 'rv' and gen.parents_of(m) for m in defs.values()), 'labels': [str(c['how'])] + ['in use'] * c['probe']}


from sims_pars.fit.base import DataModel, Particle


class Shippable(DataModel):
    """At the level of the module, as pickle asks"""
    Case = None

    def simulate(self, pars):
        return Particle(pars, {k: gen.ev(e, dict(pars)) for k, e in self.Case['sims'].items()})


@st.composite
def fits(draw):
    c = draw(fitref.models(fail=False))
    return dict(c, how=draw(st.sampled_from([2, 4, 5, 'deep'])), fit=draw(st.sampled_from(['none', 'none', 'none', 'abc', 'smc'])), seed=draw(st.integers(0, 10 ** 6)))


def run_fits(c):
    from sims_pars import bayes_net_from_script
    from sims_pars.fit.targets import read_targets
    from sims_pars.fit.results import ParameterSet
    from sims_pars.fit import ApproxBayesCom, ApproxBayesComSMC
    ship = ways(c['how'])
    m = Shippable(read_targets(c['data']), bayes_net_from_script(gen.script(c['net'], c['order'])), exo=dict(c['exo']) if c['exo'] else None)
    m.Case = c
    m2 = ship(m)
    check(list(m2.FreeParameters) == list(m.FreeParameters) and [vars(d) if hasattr(d, '__dict__') else tuple(d) for d in m2.Domain] == [vars(d) if hasattr(d, '__dict__') else tuple(d) for d in m.Domain],
          'shipped problem: parameters {} instead of {}', m2.Domain, m.Domain)

    laws = all(isinstance(t, str) for t in c['data'].values())   # targets with a likelihood

    def go(q):
        out = []
        for _ in range(3):
            p = q.sample_prior()
            pt = q.simulate(p)
            out.append((dict(p), p.LogProb, dict(pt.Sims), q.calc_distance(pt), q.calc_likelihood(pt) if laws else 0, q.evaluate_prior(p)))
        return out
    a, b = seeded(c['seed'], lambda: go(m)), seeded(c['seed'], lambda: go(m2))
    check(a == b, 'shipped problem: {} instead of {}', b, a)
    pars = {k: a[0][0][k] for k in m.FreeParameters}
    s1, s2 = seeded(1, lambda: m.serve(dict(pars))), seeded(1, lambda: m2.serve(dict(pars)))
    check(dict(s1) == dict(s2), 'shipped problem serves {} instead of {}', dict(s2), dict(s1))
    pt = m.simulate(s1)
    pt['note'] = [1, {'a': 2}]
    q = ship(pt)
    check(dict(q.Pars) == dict(pt.Pars) and q.Pars.LogProb == pt.Pars.LogProb and dict(q.Sims) == dict(pt.Sims) and dict(q.Notes) == dict(pt.Notes), 'shipped particle {} instead of {}', q.to_json(), pt.to_json())
    q['note'][1]['a'] = 3
    q['more'] = 1
    check(pt['note'] == [1, {'a': 2}] and 'more' not in pt.Notes, 'changes of the shipped particle reached the original')
    ps = ParameterSet('set')
    for i in range(3):
        x = m.simulate(s1)
        x['i'] = i
        ps.append(x)
    ps.keep('k', 5)
    p2 = ship(ps)
    check(p2['k'] == 5 and len(p2) == 3 and [dict(x.Pars) for x in p2.Particles] == [dict(x.Pars) for x in ps.Particles] and [x['i'] for x in p2.Particles] == [0, 1, 2], 'shipped set of particles')
    p2.append(q)
    check(len(ps) == 3, 'appending to the shipped set reached the original')
    if c['fit'] != 'none':
        alg = ApproxBayesCom(parallel=False, n_test=6, p_test=0.6, verbose=0) if c['fit'] == 'abc' else ApproxBayesComSMC(parallel=False, n_iter=8, max_round=2, min_acc=0, verbose=0)
        seeded(c['seed'], lambda: alg.fit(m))
        a2 = ship(alg)
        x, y = [seeded(2, lambda: [(dict(p.Pars), dict(p.Sims)) for p in z.sample_posteriors(3).Particles]) for z in (alg, a2)]
        check(x == y, 'shipped {}: posterior {} instead of {}', c['fit'], y, x)
        a3 = ship(type(alg)(parallel=False, **({'n_test': 6, 'p_test': 0.6} if c['fit'] == 'abc' else {'n_iter': 8, 'max_round': 2, 'min_acc': 0}), verbose=0))
        seeded(c['seed'], lambda: a3.fit(m2))
        check(a3.State.Eps == alg.State.Eps, 'shipped {}: tolerance {} instead of {}', c['fit'], a3.State.Eps, alg.State.Eps)
    return {'nontrivial': any(x['k'] == 'rv' and gen.parents_of(x) for x in c['net']['nodes']), 'labels': [str(c['how']), c['fit']]}


FACETS = [Facet('networks', nets(), run_nets, 600, 20000), Facet('hierarchies', trees(), run_trees, 400, 12000), Facet('calibrations', fits(), run_fits, 200, 6000)]
