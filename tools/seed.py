"""Work with planted bugs (never run by a check).

  seed.py make SPEC.py       write seeded/<id>/ from a spec, confirm the demo
  seed.py demo ID...         demo on a clean and on a patched copy
  seed.py check ID... [-p P] the property's quick check on a patched copy
  seed.py tests ID...        the stable tests on a patched copy
"""
import fcntl
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is right; non-zero: it is not.  Run in the repository.
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"
'''


def copy(patch=None):
    d = tempfile.mkdtemp(prefix='plyseed-', dir='/tmp')
    r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    if patch:
        subprocess.run(['git', '-C', r, 'apply', patch], check=True)
    return d, r


def demo(i):
    s = os.path.join(SEEDED, i)
    out = []
    for patch in (None, os.path.join(s, 'patch.diff')):
        d, r = copy(patch)
        e = tempfile.mkdtemp(prefix='plydemo-', dir='/tmp')
        try:
            for f in os.listdir(s):
                if not f.endswith(('.diff', '.json')):
                    shutil.copy(os.path.join(s, f), e)
            p = subprocess.run(['bash', os.path.join(e, 'demo.sh')], cwd=r,
                               capture_output=True, text=True, timeout=300)
            out.append(p.returncode)
            last = (p.stdout + p.stderr).strip().splitlines()[-1:]
            print(i, 'patched' if patch else 'clean', p.returncode, last)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(e)
    ok = out[0] == 0 and out[1] != 0
    print(i, 'DEMO', 'ok' if ok else 'BAD')
    return ok


def record(i, **kw):
    f = os.path.join(ROOT, 'tools', 'seeded.json')
    lock = open(os.path.join(tempfile.gettempdir(), 'seeded.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    d = json.load(open(f)) if os.path.exists(f) else {}
    d.setdefault(i, {}).update(kw)
    with open(f, 'w') as g:
        json.dump(d, g, indent=1, sort_keys=True)
        g.write('\n')


def check(i, prop=None, seed='1'):
    s = os.path.join(SEEDED, i)
    prop = prop or json.load(open(os.path.join(s, 'meta.json')))['property']
    d, r = copy(os.path.join(s, 'patch.diff'))
    v = os.path.join(d, 'verif')
    try:
        shutil.copytree(os.path.join(ROOT, 'pbt'), os.path.join(v, 'pbt'))
        shutil.copy(os.path.join(ROOT, 'known_findings.txt'), v)
        shutil.copy(os.path.join(ROOT, 'properties.jsonl'), v)
        os.makedirs(os.path.join(v, 'evidence'))
        p = subprocess.run(['python3', 'pbt/check.py', prop, 'quick'], cwd=v,
                           env=dict(os.environ, PLY_REPO=r, VERIF_SEED=seed),
                           capture_output=True, text=True)
        o = p.stdout.strip().splitlines()
        res = {0: 'missed', 1: 'caught'}.get(p.returncode, 'error')
        print(i, prop, 'seed', seed, res.upper(), o[-3:], flush=True)
        record(i, **{prop: res})
        if p.returncode not in (0, 1):
            print(p.stderr[-2000:])
    finally:
        shutil.rmtree(d)


def tests(i):
    d, r = copy(os.path.join(SEEDED, i, 'patch.diff'))
    env = dict(os.environ, CI='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8',
             '--dist=load', '--maxschedchunk=1', '--benchmark-disable',
             '--timeout=600', '--timeout-method=thread'],
            cwd=r, env=env, capture_output=True, text=True)
        tail = p.stdout.strip().splitlines()
        print(i, 'TESTS', p.returncode,
              [x for x in tail if x.startswith(('FAILED', 'ERROR'))][:5],
              tail[-1:], flush=True)
        record(i, tests='pass' if p.returncode == 0 else 'FAIL')
    finally:
        shutil.rmtree(d)


def make(spec):
    for b in runpy.run_path(spec)['BUGS']:
        i = b['id']
        s = os.path.join(SEEDED, i)
        os.makedirs(s, exist_ok=True)
        d, r = copy()
        try:
            for f, old, new in b['edits']:
                p = os.path.join(r, 'plycutter', f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', r, 'diff'], check=True,
                                  capture_output=True, text=True).stdout
            open(os.path.join(s, 'patch.diff'), 'w').write(diff)
        finally:
            shutil.rmtree(d)
        open(os.path.join(s, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(s, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(s, 'meta.json'), 'w'), indent=1)
        demo(i)


def main():
    cmd, *a = sys.argv[1:]
    if cmd == 'make':
        for x in a:
            make(x)
        return
    prop = None
    seed = '1'
    ids = []
    it = iter(a)
    for x in it:
        if x == '-p':
            prop = next(it)
        elif x == '-s':
            seed = next(it)
        else:
            ids.append(x)
    if not ids:
        ids = sorted(os.listdir(SEEDED))
    for i in ids:
        if cmd == 'demo':
            demo(i)
        elif cmd == 'check':
            check(i, prop, seed)
        elif cmd == 'tests':
            tests(i)


main()
