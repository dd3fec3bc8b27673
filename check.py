#!/usr/bin/env python3
"""Entry point of every registered check:  python3 check.py <PROPERTY-ID>

Sets up a private scratch directory (HOME, TMPDIR, cwd), runs checks/<id>.py in the interpreter
that kerncraft is installed for, with /repo's working tree first on sys.path, and turns the outcome
into the exit code / VIOLATION line / evidence file the interface asks for.
"""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))


def main():
    if len(sys.argv) < 2:
        print('usage: check.py <PROPERTY-ID> [quick|thorough]')
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    py = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
    scratch = tempfile.mkdtemp(prefix='kcv-%s-' % pid)
    home = os.path.join(scratch, 'home')
    tmp = os.path.join(scratch, 'tmp')
    work = os.path.join(scratch, 'work')
    for d in (home, tmp, work):
        os.makedirs(d)
    env = dict(os.environ)
    env.update(HOME=home, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', PYTHONWARNINGS='ignore', LANG='C.UTF-8', VERIF_TIER=tier, VERIF_SEED=seed,
               VERIF_SCRATCH=scratch, VERIF_DIR=VERIF, OMP_NUM_THREADS='1')
    env['PYTHONPATH'] = os.pathsep.join(
        [os.environ.get('VERIF_REPO', '/repo'), VERIF, os.path.join(VERIF, 'checks')])
    proc = subprocess.Popen([py, '-B', os.path.join(VERIF, 'lib', 'runner.py'), pid],
                            cwd=work, env=env)
    try:
        rc = proc.wait()
    except BaseException:
        proc.kill()
        proc.wait()
        raise
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
