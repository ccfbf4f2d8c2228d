"""Run one check: run.py <property> [quick|thorough] [--replay FILE]"""
import atexit
import importlib
import os
import shutil
import sys
import tempfile
import warnings


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        del args[i:i + 2]
    tier = args[0] if args else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    repo = os.environ.get('VERIF_REPO', '/repo')
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [repo, here]
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    # libraries may use their byte code, the code under test is compiled
    # afresh from the current sources
    import numpy, scipy.linalg, scipy.optimize, scipy.ndimage  # noqa
    import scipy.signal, qutip, filter_functions, simanneal  # noqa
    import matplotlib.pyplot  # noqa
    sys.pycache_prefix = tempfile.mkdtemp(prefix='verif_pyc_')
    atexit.register(shutil.rmtree, sys.pycache_prefix, ignore_errors=True)
    import qopt
    assert os.path.realpath(qopt.__file__).startswith(
        os.path.realpath(repo) + os.sep), qopt.__file__
    from mc import core
    mod = importlib.import_module('checks.' + prop.lower())
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.environ['VERIF_SCRATCH'] = scratch
    os.chdir(scratch)
    try:
        code = core.main(mod, prop, tier, seed, replay)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
