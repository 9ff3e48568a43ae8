"""Process set-up. Import before numpy: fixes the environment (re-executing if
needed), installs the seams and imports the library under test from /repo/src."""
import os, sys

REPO = os.environ.get('LOP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_FIXED = {
    'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'NUMBA_NUM_THREADS': '1',
    'OPENBLAS_CORETYPE': 'Haswell', 'NUMBA_DISABLE_PERFORMANCE_WARNINGS': '1',
}


def fix_env(hashseed='0'):
    want = dict(_FIXED)
    want['PYTHONHASHSEED'] = os.environ.get('SIM_HASHSEED', hashseed)
    if any(os.environ.get(k) != v for k, v in want.items()):
        env = dict(os.environ)
        env.update(want)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    mpl = os.environ.get('MPLCONFIGDIR')
    if not mpl and os.path.isdir('/opt/vp/mpl'):
        os.environ['MPLCONFIGDIR'] = '/opt/vp/mpl'


def load():
    """Installs the seams, then imports lop from the working tree."""
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, 'src')
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != src]
    sys.path.insert(0, src)
    from sim import seams
    seams.install(src)
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        import lop
    finally:
        sys.stdout = so
    got = os.path.abspath(lop.__file__)
    if not got.startswith(os.path.abspath(src) + os.sep):
        raise RuntimeError('lop imported from %s, not %s' % (got, src))
    import numpy as np
    np.seterr(all='ignore')
    return lop
