"""Process environment of a check: where harold comes from, and who owns randomness.

Imported before anything else.  `numpy.random.rand`, `choice` and friends are replaced by
dispatchers *before* harold is imported, so that whatever way the library reaches them the
checks can answer the draws (see `scripted`).
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import warnings
import contextlib

import numpy as np

_script = {'rand': None, 'choice': None}
_orig = {'rand': np.random.rand, 'choice': np.random.choice}


def _rand(*a, **k):
    f = _script['rand']
    return _orig['rand'](*a, **k) if f is None else f(*a, **k)


def _choice(*a, **k):
    f = _script['choice']
    return _orig['choice'](*a, **k) if f is None else f(*a, **k)


np.random.rand = _rand
np.random.choice = _choice


@contextlib.contextmanager
def scripted(rand=None, choice=None):
    """Answer the library's random draws from a script while the context is active."""
    old = dict(_script)
    _script.update(rand=rand, choice=choice)
    try:
        yield
    finally:
        _script.update(old)


import harold

if os.path.realpath(os.path.dirname(harold.__file__)) != os.path.realpath(os.path.join(REPO, 'harold')):
    print('harold was imported from %s instead of %s' % (harold.__file__, REPO))
    sys.exit(2)

warnings.simplefilter('ignore')
np.seterr(all='ignore')
