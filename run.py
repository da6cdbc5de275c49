#!/usr/bin/env python3
"""Launcher: python3 run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the monitor of one property against the code in /repo's working tree. The code under test runs in
/opt/venv's Python with fresh byte-code and numba caches in a scratch directory, so nothing stale is used and
nothing is written into /repo. Exit status: 0 held, 1 violated, 3 inconclusive, anything else is an error.
"""
import os, shutil, subprocess, sys, tempfile, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FRM_REPO', '/repo')
PY = '/opt/venv/bin/python'


def main():
    args = sys.argv[1:]
    if args == ['--setup']:
        # Nothing to build: check that the interpreter and the libraries the code under test needs are here.
        return subprocess.call([PY, '-c', 'import numpy, pandas, scipy, numba, holidays; print("ok")'])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    scratch = tempfile.mkdtemp(prefix='frmmon_')
    env = dict(os.environ)
    env.update(PROJECT_DIR_FRM=REPO, PYTHONPATH=REPO + os.pathsep + os.path.join(HERE, 'lib') + os.pathsep + HERE,
               MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TZ='UTC', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), NUMBA_CACHE_DIR=os.path.join(scratch, 'numba'),
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
               FRMMON_SCRATCH=scratch, FRM_REPO=REPO)
    for d in ('mpl', 'pyc', 'numba', 'cwd'):
        os.makedirs(os.path.join(scratch, d))
    limit = 870 if tier == 'quick' else 4 * 3600
    p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'lib', 'frmmon.py')] + args,
                         env=env, cwd=os.path.join(scratch, 'cwd'), start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        print('INCONCLUSIVE: watchdog after %d s' % limit)
        rc = 3
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
