#!/usr/bin/env python3
"""Helps with planted changes (development tool; no check uses it).

  seedtool.py new FILE.py     create seeded/<id>/ from a definition (see below) 
  seedtool.py verify [ID...]  demo on unchanged and changed code, stable tests, the property's check

A definition file has SEEDS = [dict(id=, property=, edits=[(file, old, new), ...], needs=, breaks=, demo=)].
Everything runs on scratch copies of /repo.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 if the code behaves, nonzero if not
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PRELUDE = '''import os, sys, tempfile, shutil, atexit
sys.path.insert(0, os.getcwd())
REPO = os.getcwd()
SCRATCH = tempfile.mkdtemp()
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
os.environ['HOME'] = SCRATCH
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch_copy():
    d = tempfile.mkdtemp(prefix='seed-')
    sh(['cp', '-a', '/repo', d])
    r = os.path.join(d, 'repo')
    sh(['git', 'checkout', '-q', '--', '.'], cwd=r)
    return d, r


def new(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        d, r = scratch_copy()
        try:
            for f, old, new_ in s['edits']:
                p = os.path.join(r, 'kerncraft', f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, old, t.count(old))
                open(p, 'w').write(t.replace(old, new_))
            diff = sh(['git', 'diff'], cwd=r).stdout
            base = sh(['git', 'log', '--format=%h', '--author-date-order', '7b7938a'], cwd=r)
        finally:
            shutil.rmtree(d)
        out = os.path.join(SEEDED, s['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(PRELUDE + s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)


def one(sid, check=True, tests=True):
    out = [sid]
    src = os.path.join(SEEDED, sid)
    pid = json.load(open(src + '/meta.json'))['property']
    d, r = scratch_copy()
    try:
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', HOME='/root',
                   MPLBACKEND='Agg')
        a = sh(['bash', src + '/demo.sh'], cwd=r, env=env, timeout=300)
        out.append('demo-unchanged=%d' % a.returncode + ('' if not a.returncode else a.stdout[-600:]))
        g = sh(['git', 'apply', src + '/patch.diff'], cwd=r)
        if g.returncode:
            out.append('PATCH DOES NOT APPLY ' + g.stdout)
            return out
        # changed lines have to be lines of the original repository
        b = sh(['bash', src + '/demo.sh'], cwd=r, env=env, timeout=300)
        out.append('demo-changed=%d' % b.returncode + ('' if b.returncode else ' NOT SHOWN') +
                   ' [' + b.stdout.strip()[-120:] + ']')
        if tests:
            x = os.path.join(d, 'junit.xml')
            sh(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist',
                '--disable-warnings', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x], cwd=r, env=env)
            ok = set()
            for c in ET.parse(x).getroot().iter('testcase'):
                if not list(c):
                    ok.add(c.get('classname') + '::' + c.get('name'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            out.append('tests-broken=%s' % sorted(stable - ok))
        if check:
            env2 = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d + '/evidence', VERIF_SEED='1', VERIF_TIER='quick')
            c = sh(['python3', os.path.join(VERIF, 'check.py'), pid], cwd=VERIF, env=env2)
            v = [l[:200] for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append('check rc=%d %s' % (c.returncode, v[0] if v else 'NOT CAUGHT ' + c.stdout[-300:]))
    except Exception as e:
        out.append(repr(e))
    finally:
        shutil.rmtree(d)
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for f in sys.argv[2:]:
            new(f)
    else:
        args = sys.argv[2:]
        kw = {'tests': '--no-tests' not in args, 'check': '--no-check' not in args}
        ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for res in ex.map(lambda i: one(i, **kw), ids):
                print('\n    '.join(res), flush=True)
