"""Runs cases of fits with several workers in an interpreter of its own (a process of a pool cannot have workers)"""
import json
import os
import signal
import subprocess
import sys

NAMES = {'abc': 'p32_abc', 'smc': 'p33_smc'}


def answer(c):
    import contextlib
    import importlib
    import joblib
    import core
    core.seed_everything(core.derive('case', c['seed']))
    mod = importlib.import_module('props.' + NAMES[c['alg']])
    try:
        with joblib.parallel_config(backend='threading') if c['backend'] == 'threading' else contextlib.nullcontext():
            info = mod.run(c)
        return {'info': info}
    except core.Discard:
        return {'discard': True}
    except core.Violation as e:
        return {'violation': str(e)}
    except Exception as e:
        import traceback
        tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(core.SRC)]
        return {'violation': 'unexpected {}: {} [at {}]'.format(type(e).__name__, str(e)[:300], '{}:{}'.format(tb[-1].filename, tb[-1].lineno) if tb else '')}


class Server:
    def __init__(self):
        # ends with the harness: its input is closed then
        self.p = subprocess.Popen([sys.executable, '-B', os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)

    def __call__(self, c):
        try:
            self.p.stdin.write(json.dumps(c) + '\n')
            self.p.stdin.flush()
            return json.loads(self.p.stdout.readline())
        except BaseException:
            self.kill()
            raise

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import borrow  # noqa
    import core
    sys.path.insert(0, core.SRC)
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.modules['parserve'] = sys.modules['__main__']
    real = sys.stdout
    sys.stdout = sys.stderr
    import shared
    import shutil
    import tempfile
    shared.PLACE = tempfile.mkdtemp(prefix='vp-sims-')
    try:
        for line in sys.stdin:
            real.write(json.dumps(answer(json.loads(line)), default=float) + '\n')
            real.flush()
    finally:
        shutil.rmtree(shared.PLACE, ignore_errors=True)
