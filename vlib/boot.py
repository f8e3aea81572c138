"""Process set-up for every check: environment, cold numba cache, parallel pre-compilation.

Nothing here changes what is executed: the package is imported from /repo's working
tree and compiled by numba from source on every run (an empty NUMBA_CACHE_DIR is used,
since numba's on-disk index does not notice changes in callees).  `precompile` only
spreads the eager, signature-driven compilations over the cores: shard processes import
the very same sources and fill the fresh cache directory with the functions of their
shard; the real import then loads them.
"""
import os, sys, tempfile, shutil, subprocess, atexit, time

REPO = os.environ.get('VB_REPO', '/repo')
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

SHARD = r'''
import sys
shard = int(sys.argv[1]); n = int(sys.argv[2])
import numba
real = numba.njit
cnt = [0]
def njit(*a, **k):
    if len(a) == 1 and not k and hasattr(a[0], '__code__'):
        return real(a[0])
    def deco(f):
        i = cnt[0]; cnt[0] += 1
        if i % n == shard:
            return real(*a, **k)(f)
        kk = {x: v for x, v in k.items() if x not in ('signature_or_function',)}
        return real(**kk)(f)
    return deco
numba.njit = njit
import pipedream_solver.nsuperlink
'''


def reexec(extra=None):
    """Re-execute under the project's interpreter with a controlled environment."""
    if os.environ.get('VB_BOOTED') == '1':
        return
    env = dict(os.environ)
    cache = tempfile.mkdtemp(prefix='pd_nb_')
    env.update(VB_BOOTED='1', PYTHONPATH=REPO + os.pathsep + VERIF,
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               NUMBA_NUM_THREADS='1', NUMBA_CACHE_DIR=os.path.join(cache, 'numba'),
               MPLCONFIGDIR=os.path.join(cache, 'mpl'), VB_TMP=cache,
               PYTHONWARNINGS='ignore')
    os.makedirs(env['NUMBA_CACHE_DIR'], exist_ok=True)
    os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    env.update(extra or {})
    rc = 1
    try:
        rc = subprocess.call([PY] + sys.argv, env=env)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 128 - rc)


def ncores():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except Exception:
        return 4


def precompile():
    if os.environ.get('NUMBA_DISABLE_JIT') == '1':
        return
    n = min(8, ncores())
    if n < 2:
        return
    ps = [subprocess.Popen([sys.executable, '-c', SHARD, str(i), str(n)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
          for i in range(n)]
    t = time.time()
    for p in ps:
        try:
            p.wait(timeout=max(1, 240 - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()


def load(jit=True):
    """Import the package under test; asserts that it comes from REPO."""
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    if jit:
        precompile()
    import pipedream_solver.nsuperlink as ns
    p = os.path.realpath(ns.__file__)
    assert p.startswith(os.path.realpath(REPO) + os.sep), p
    return ns
