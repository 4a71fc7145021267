"""A program over the library, run under a given seed; what it computed comes back as JSON.

Also a server: one case (JSON) per line of the input, one result per line of the output."""
import json
import os
import sys


def plain(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (int, float, bool)):
        return repr(float(x))
    return str(x)


def program(c):
    import random
    import numpy as np
    import bnref
    import gen
    np.random.seed(c['seed'])
    random.seed(c['seed'])
    out = {}
    if c['what'] == 'network':
        from sims_pars import bayes_net_from_script, bayes_net_from_json, sample, sample_minimally, sample_chromosome, evaluate_nodes
        from sims_pars.util import resample
        bn = bayes_net_from_script(gen.script(c['net'], c['order']))
        b2 = bayes_net_from_json(json.loads(json.dumps(bn.to_json())))
        b3 = bayes_net_from_script(bn.to_script())
        for how, b in (('script', bn), ('json', b2), ('again', b3)):
            out[how] = [sample(b, dict(c['exo'])) for _ in range(3)]
            if c['targets']:
                out[how + ' minimal'] = sample_minimally(b, c['targets'], dict(c['exo']))
        ch = sample_chromosome(bn, dict(c['exo']))
        out['chromosome'] = [dict(ch), ch.LogProb]
        for imp in c['imps']:
            x = ch.clone()
            x.impulse({imp: None}, bn)
            out['impulse ' + imp] = dict(x)
        pts = [sample(bn, dict(c['exo'])) for _ in range(5)]
        out['resample'] = resample([evaluate_nodes(bn, p) for p in pts], list(range(5)))
    elif c['what'] == 'hierarchy':
        import simref
        bn, sc = simref.build(c)
        if sc is None:
            return {'refused': True}
        root = sc.generate('R', dict(c['exo']))

        def grow(core, t):
            for ch in t[3]:
                for i in range(2):
                    grow(core.breed('{}_{}'.format(ch[0], i), ch[0]), ch)

        grow(root, c['tree'])
        for turn in range(2):
            for core, grp in simref.walk(root, c['tree']):
                path, x = [], core
                while x is not None:
                    path.append(x.Nickname)
                    x = x.Parent
                name = '@'.join(path) + str(turn)
                out[name] = dict(core.Locus)
                for shared in ([False, True] if core.Parent is not None else [False]):
                    out[name + ' samplers ' + str(shared)] = [[k, s.sample(2)] for k, s in core.get_samplers(shared).items()]
            if not turn and c['imps']:
                root.impulse(list(c['imps']))
    else:
        import fitref
        from sims_pars.fit import ApproxBayesCom, ApproxBayesComSMC
        m = fitref.make(c)
        out['free'] = list(m.FreeParameters)
        out['domain'] = [d.Name for d in m.Domain]
        out['prior'] = [dict(m.sample_prior()) for _ in range(3)]
        if c['what'] == 'abc':
            alg = ApproxBayesCom(parallel=False, n_test=6, p_test=0.6, verbose=0)
            alg.fit(m)
            post = alg.sample_posteriors(3)
            out['eps'] = alg.State.Eps
        elif c['what'] == 'bhm':
            alg, post = history_matching(m)
            out['bounds'] = [list(b) for b in alg.State.Bounds]
            out['cutoff'] = alg.State.CutOff
        else:
            alg = ApproxBayesComSMC(parallel=False, n_iter=8, max_round=2, min_acc=0, verbose=0)
            alg.fit(m)
            post = alg.sample_posteriors(4)
            out['trace'] = {k: list(alg.Monitor.Trajectories[k]) for k in ('Eps', 'Acc', 'ESS', 'Eval')}
        out['posterior'] = [dict(p.Pars) for p in post.Particles]
    return plain(out)


def history_matching(m):
    """With emulators which repeat the nearest simulation"""
    import types
    import numpy as np

    class Nearest:
        def __init__(self, output, **kw):
            self.Output = output

        def train(self, xs, ys):
            self.xs, self.ys = np.array(xs), np.array([[y[self.Output]] for y in ys])

        def predict(self, xs):
            i = [int(((self.xs - x) ** 2).sum(1).argmin()) for x in np.array(xs)]
            return self.ys[i], np.full((len(i), 1), 0.01)

    name = 'sims_pars.fit.hme.emulator'
    mod, old = types.ModuleType(name), sys.modules.get(name)
    mod.GPREmulator = Nearest
    sys.modules[name] = mod
    try:
        from sims_pars.fit.hme import BayesHistoryMatching
        alg = BayesHistoryMatching(n_sims=6, n_ems=30, max_wave=2)
        alg.fit(m)
        return alg, alg.sample_posteriors(4)
    finally:
        if old is None:
            del sys.modules[name]
        else:
            sys.modules[name] = old


def answer(c):
    try:
        return program(c)
    except Exception as e:
        return {'raised': type(e).__name__}


class Server:
    """The same programs in another interpreter, with other hashes"""
    def __init__(self, hashseed):
        import subprocess
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def __call__(self, c):
        self.p.stdin.write(json.dumps(c) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        return json.loads(line)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import borrow  # noqa
    import core
    sys.path.insert(0, core.SRC)
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    real = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        real.write(json.dumps(answer(json.loads(line))) + '\n')
        real.flush()
