"""Engine of the property checks: facets, generated search, shrinking, replay, evidence.

A property module in props/ defines PROPERTY (id), RULE (text) and FACETS (list of Facet).
A facet is a Hypothesis strategy of JSON-able cases plus a pure oracle run(case).
Everything random is inside the case (NumPy/random seeds are part of it), so a case replays.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
import random

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class Violation(Exception):
    """The property is broken by this case"""


class Discard(Exception):
    """The case is out of the domain"""


class CaseTimeout(Exception):
    """The code under test did not come back"""


class Known(Exception):
    """A listed finding was met (key of the known-findings file)"""
    def __init__(self, key):
        Exception.__init__(self, key)
        self.key = key


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Facet:
    def __init__(self, name, strategy, run, quick, thorough, chunk=None, corpus=(), timeout=120):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.chunk = chunk
        self.corpus = list(corpus)
        self.timeout = timeout


def load_property(pid):
    for fn in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if fn.lower().startswith(pid.lower()) and fn.endswith('.py'):
            mod = importlib.import_module('props.' + fn[:-3])
            assert mod.PROPERTY == pid, fn
            return mod
    raise SystemExit('unknown property ' + pid)


def derive(*xs):
    return int.from_bytes(hashlib.sha256(repr(xs).encode()).digest()[:6], 'big')


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout('no answer within the time of the case')


def seed_everything(x):
    import numpy as np
    random.seed(x)
    np.random.seed(x % (2 ** 32))


def execute(facet, case):
    """Run the oracle on one case. Returns (info, failure message or None)"""
    case = json.loads(json.dumps(case))  # what the replay file will hold
    seed_everything(derive('case', case.get('seed', 0) if isinstance(case, dict) else 0))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(facet.timeout)
    try:
        info = facet.run(case) or {}
        return info, None
    except (Discard, Known, KeyboardInterrupt, MemoryError):
        raise
    except Violation as e:
        return {}, str(e)
    except BaseException as e:
        if isinstance(e, (SystemExit, GeneratorExit)) or type(e).__module__.startswith('hypothesis'):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = ['{}:{} {}'.format(f.filename.replace(SRC + '/', ''), f.lineno, f.name) for f in tb if f.filename.startswith(SRC)]
        at = where[-1] if where else '{}:{}'.format(tb[-1].filename, tb[-1].lineno)
        return {}, 'unexpected {}: {} [at {}]'.format(type(e).__name__, str(e)[:300], at)
    finally:
        signal.alarm(0)


class _Fail(Exception):
    pass


def run_chunk(args):
    """One chunk of generated cases in a worker process"""
    pid, fname, chunk, n, seed, corpus = args
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    mod = load_property(pid)
    facet = next(f for f in mod.FACETS if f.name == fname)
    st = {'n': 0, 'nontrivial': set(), 'distinct': set(), 'labels': collections.Counter(), 'samples': [],
          'discarded': 0, 'known': collections.Counter(), 'fail': None, 'facet': fname, 'chunk': chunk, 'first_fail': None}

    def one(case):
        try:
            info, msg = execute(facet, case)
        except Known as k:
            st['n'] += 1
            st['known'][k.key] += 1
            return
        if st['fail'] is None:
            st['n'] += 1
        if msg is not None:
            if st['first_fail'] is None:
                st['first_fail'] = {'case': case, 'message': msg}
            st['fail'] = {'case': case, 'message': msg}
            raise _Fail(msg)
        if st['fail'] is not None:
            return
        key = case_key(case)
        st['distinct'].add(key)
        if info.get('nontrivial', True):
            if key not in st['nontrivial'] and len(st['samples']) < 2:
                st['samples'].append(case)
            st['nontrivial'].add(key)
        for lab in info.get('labels', ()):
            st['labels'][lab] += 1

    if corpus:
        for case in facet.corpus:
            try:
                one(case)
            except _Fail:
                return st
            except Discard:
                st['discarded'] += 1
        if n == 0:
            return st

    @hypothesis.strategies.composite
    def guarded(draw):
        try:
            return draw(facet.strategy)
        except Discard:
            hypothesis.reject()

    @hypothesis.seed(seed)
    @settings(max_examples=n + (n < 30), database=None, deadline=None, print_blob=False, verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], derandomize=False)
    @given(guarded())
    def test(case):
        if n < 30 and not st.get('begun'):
            # the first example is the simplest one, the same in all the small chunks
            st['begun'] = True
            return
        try:
            one(case)
        except Discard:
            st['discarded'] += 1
            hypothesis.reject()

    try:
        test()
    except _Fail:
        pass
    except BaseException as e:
        if st['fail'] is None:
            st['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    return st


def quiet_run_chunk(args):
    import warnings
    warnings.simplefilter('ignore')
    return run_chunk(args)


def replay(path):
    js = json.load(open(path))
    mod = load_property(js['property'])
    facet = next(f for f in mod.FACETS if f.name == js['facet'])
    if 'case' in js:
        try:
            _, msg = execute(facet, js['case'])
        except (Discard, Known):
            msg = None
    else:
        st = run_chunk(tuple(js['chunk']))
        msg = st['fail']['message'] if st['fail'] else None
    if msg is None:
        print('replay: the property held')
        return 0
    print('replay: ' + msg)
    print('VIOLATION property={} replay={}'.format(js['property'], path))
    return 1


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                head, _, text = line[len('finding: '):].partition(' :: ')
                prop, key = [x.split('=', 1)[1] for x in head.split()]
                out[(prop, key)] = text
    return out


def reproduce(js, tag):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '{}-{}.json'.format(js['property'], tag))
    with open(path, 'w') as f:
        json.dump(js, f, indent=1)
    try:
        r = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'run.py'), js['property'], '--replay', path],
                           capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return path, None
    return path, r.returncode == 1


def run_property(pid, tier, seed):
    t0 = time.time()
    mod = load_property(pid)
    budget = float(os.environ.get('VP_BUDGET', '200' if tier == 'quick' else '780'))
    scale = float(os.environ.get('VP_SCALE', '1'))
    workers = int(os.environ.get('VP_WORKERS', '8'))
    tasks = []
    for f in mod.FACETS:
        n = max(1, int((f.quick if tier == 'quick' else f.thorough) * scale))
        size = f.chunk or max(1, min(500, -(-n // workers)))
        k = 0
        if f.corpus:
            tasks.append((pid, f.name, -1, 0, 0, True))
        while n > 0:
            tasks.append((pid, f.name, k, min(size, n), derive(seed, pid, f.name, k), False))
            n -= size
            k += 1
    # interleave the facets, so that a budget hit thins all of them
    tasks.sort(key=lambda t: t[2])
    res, fail, errors = [], [], []
    skipped = 0
    ctx = mp.get_context('fork')
    with ctx.Pool(workers, maxtasksperchild=None) as pool:
        pending = collections.deque(tasks)
        running = []
        while pending or running:
            while pending and len(running) < workers and not fail:
                if time.time() - t0 > budget:
                    skipped += len(pending)
                    pending.clear()
                    break
                t = pending.popleft()
                running.append((t, pool.apply_async(quiet_run_chunk, (t,))))
            if fail:
                pending.clear()
            still = []
            for t, r in running:
                if r.ready():
                    try:
                        st = r.get()
                    except BaseException as e:
                        errors.append('worker: {!r}'.format(e))
                        continue
                    res.append(st)
                    if st['fail']:
                        fail.append((t, st))
                    if st.get('error'):
                        errors.append(st['error'])
                else:
                    still.append((t, r))
            running = still
            if fail and time.time() - t0 > budget + 60:
                break
            time.sleep(0.02)
        pool.terminate()

    known = load_known()
    hits = collections.Counter()
    for st in res:
        hits.update(st['known'])
    for key in list(hits):
        if (pid, key) not in known:
            errors.append('unlisted finding raised by the oracle: ' + key)
    for (p, key), text in known.items():
        if p == pid and hits.get(key):
            print('KNOWN-FINDING: property={} {}'.format(pid, text))

    violation = None
    unreproduced = []
    for t, st in fail:
        tag = '{}-{}'.format(t[1], hashlib.blake2b(case_key(st['fail']['case']), digest_size=4).hexdigest())
        for c in (st['fail'], st['first_fail']):
            path, ok = reproduce({'property': pid, 'facet': t[1], 'case': c['case'], 'message': c['message']}, tag)
            if ok:
                violation = (path, c['message'])
                break
        else:
            path, ok = reproduce({'property': pid, 'facet': t[1], 'chunk': list(t), 'message': st['fail']['message']}, tag + '-history')
            if ok:
                violation = (path, st['fail']['message'])
        if violation:
            break
        unreproduced.append({'facet': t[1], 'message': st['fail']['message']})

    per = {}
    nontrivial, labels = 0, {}
    for f in mod.FACETS:
        sts = [s for s in res if s['facet'] == f.name]
        nt = set().union(*[s['nontrivial'] for s in sts]) if sts else set()
        di = set().union(*[s['distinct'] for s in sts]) if sts else set()
        lab = collections.Counter()
        for s in sts:
            lab.update(s['labels'])
        per[f.name] = {'evaluations': sum(s['n'] for s in sts), 'distinct': len(di), 'distinct_nontrivial': len(nt),
                       'discarded': sum(s['discarded'] for s in sts), 'labels': dict(sorted(lab.items()))}
        nontrivial += len(nt)
    samples = []
    for f in mod.FACETS:
        for s in res:
            if s['facet'] == f.name and s['samples']:
                samples.append({'facet': f.name, 'case': s['samples'][0]})
                break
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['n'] for s in res), 'distinct_nontrivial': nontrivial, 'rule': mod.RULE,
            'samples': [json.loads(json.dumps(s)) if len(json.dumps(s)) < 6000 else {'facet': s['facet'], 'case': json.dumps(s['case'])[:6000]} for s in samples],
            'facets': per, 'chunks_skipped_for_time': skipped, 'exhaustive': False,
            'unreproduced_failures': unreproduced,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('{} {}: {} cases, {} distinct non-trivial, {:.1f} s{}'.format(
        pid, tier, ev['coverage']['evaluations'], nontrivial, ev['wall_s'],
        ', {} chunks skipped for time'.format(skipped) if skipped else ''))
    if violation:
        print('what: ' + violation[1])
        print('VIOLATION property={} replay={}'.format(pid, violation[0]))
        return 1
    if errors:
        print('harness error:\n' + errors[0], file=sys.stderr)
        return 2
    if unreproduced:
        print('a failure did not reproduce, not reported: ' + json.dumps(unreproduced[0]), file=sys.stderr)
    return 0
