#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--replay FILE] [--dump FILE]

Decides one property by exhaustive exploration of the code in /repo."""
import os
import sys

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    want = dict(PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    e = dict(os.environ)
    if os.environ.get('VERIF_CHILD') == '1':
        return
    e.update(want)
    e['VERIF_CHILD'] = '1'
    e.pop('PYTHONPATH', None)
    import subprocess
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='verif-mpl-')
    e['MPLCONFIGDIR'] = d
    try:
        r = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=e, cwd=HERE)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(r)


def main():
    reexec()
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--dump')
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from mc import core
    if a.replay:
        return core.replay(a.replay)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return core.main(a.property, tier, seed, a.dump)


if __name__ == '__main__':
    sys.exit(main())
