"""Usage: run.py <property id> [--tier quick|thorough] [--replay file]"""
import os
import sys

ENV = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'TF_CPP_MIN_LOG_LEVEL': '3', 'TF_NUM_INTRAOP_THREADS': '1', 'TF_NUM_INTEROP_THREADS': '1',
       'CUDA_VISIBLE_DEVICES': '', 'HYPOTHESIS_STORAGE_DIRECTORY': '/nonexistent', 'TQDM_DISABLE': '1'}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import borrow  # noqa: hypothesis from the tool environment
import core

sys.path.insert(0, core.SRC)


def main():
    import argparse
    import logging
    import warnings
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy
    numpy.seterr(all='ignore')
    import sims_pars
    src = os.path.realpath(sims_pars.__file__)
    if not src.startswith(os.path.realpath(core.SRC) + os.sep):
        print('sims_pars comes from ' + src, file=sys.stderr)
        return 2
    if a.setup or not a.property:
        import hypothesis
        print('sims_pars from {}, hypothesis {}'.format(src, hypothesis.__version__))
        return 0
    if a.replay:
        return core.replay(a.replay)
    return core.run_property(a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick',
                             int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    # what the libraries leave in the temporary folder goes away with the run
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='vp-run-')
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    try:
        code = main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
