"""Driver: `check.py <ID> [quick|thorough]` or `check.py --replay FILE`."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get('PLY_PYTHON', '/opt/venv/bin/python')
NWORK = int(os.environ.get('PLY_WORKERS', '8'))


def child_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONNOUSERSITE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, 'hyp'),
               TMPDIR=scratch, PYTHONPATH=HERE, LANG='C.UTF-8')
    env.pop('CI', None)
    return env


def main():
    if sys.argv[1] == '--replay':
        scratch = tempfile.mkdtemp(prefix='plyv-')
        try:
            p = subprocess.run(
                [PY, '-B', '-c', 'import sys,harness;'
                 'sys.exit(harness.replay_main(sys.argv[1]))',
                 os.path.abspath(sys.argv[2])],
                env=child_env(scratch), cwd=scratch)
            return p.returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    # Generation stops at this budget (reported as inconclusive, never as a
    # violation).  The case counts are chosen to stay far below it.
    budget = float(os.environ.get('VERIF_BUDGET') or
                   (500 if tier == 'quick' else 3000))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='plyv-')
    try:
        return run(prop, tier, seed, budget, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, budget, t0, scratch):
    procs = []
    outs = []
    for i in range(NWORK):
        out = os.path.join(scratch, 'w%d.json' % i)
        outs.append(out)
        procs.append(subprocess.Popen(
            [PY, '-B', '-c', 'import sys,harness;'
             'harness.worker_main(sys.argv[1:])',
             prop, tier, str(seed), str(i), str(NWORK), str(budget), out],
            env=child_env(scratch), cwd=scratch,
            stdout=subprocess.DEVNULL,
            stderr=open(os.path.join(scratch, 'w%d.err' % i), 'w')))
    hard_end = time.time() + budget + 330
    results = [None] * NWORK
    stopped = False
    while True:
        for i in range(NWORK):
            if results[i] is None and procs[i].poll() is not None:
                if os.path.exists(outs[i]):
                    with open(outs[i]) as f:
                        results[i] = json.load(f)
                else:
                    with open(os.path.join(scratch, 'w%d.err' % i)) as f:
                        err = f.read()[-2000:]
                    results[i] = {'subs': {}, 'failure': None,
                                  'inconclusive': [],
                                  'error': 'worker %d ended with %s: %s' %
                                  (i, procs[i].returncode, err)}
                    # A library gave up: out of memory, or bad access
                    if procs[i].returncode in (-6, -11) and \
                            os.path.exists(outs[i] + '.case'):
                        with open(outs[i] + '.case') as f:
                            sub, case = json.load(f)
                        results[i]['failure'] = {
                            'sub': sub, 'case': case, 'traceback': err,
                            'msg': 'valid input, but the process was ended '
                            'by a library: ' + err[-300:]}
        if all(r is not None for r in results):
            break
        if any(r and r['failure'] for r in results) or \
                time.time() > hard_end:
            stopped = True
            break
        time.sleep(0.05)
    for p in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    done = [r for r in results if r is not None]

    failures = [r['failure'] for r in done if r['failure']]
    errors = [r['error'] for r in done if r['error']]
    incon = [m for r in done for m in r['inconclusive']]
    if stopped and not failures:
        incon.append('workers were still running at the hard time limit')

    subs = {}
    digests = {}
    for r in done:
        for name, s in r['subs'].items():
            t = subs.setdefault(name, {
                'cases': 0, 'nontrivial_distinct': 0, 'rejected': 0,
                'labels': {}, 'rule': s['rule'], 'samples': [],
                'slowest_case_s': 0.0})
            t['cases'] += s['cases']
            t['rejected'] += s['rejected']
            t['slowest_case_s'] = round(max(t['slowest_case_s'],
                                            s['max_s']), 3)
            for k, v in s['labels'].items():
                t['labels'][k] = t['labels'].get(k, 0) + v
            if len(t['samples']) < 2:
                t['samples'].extend(s['samples'][:2 - len(t['samples'])])
            digests.setdefault(name, set()).update(s['digests'])
    for name, t in subs.items():
        t['nontrivial_distinct'] = len(digests[name])
        t['labels'] = dict(sorted(t['labels'].items()))

    samples = [{'sub': name, 'case': c}
               for name, t in subs.items() for c in t.pop('samples')]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['cases'] for t in subs.values()),
            'distinct_nontrivial': sum(t['nontrivial_distinct']
                                       for t in subs.values()),
            'rule': '; '.join('%s: %s' % (n, t['rule'])
                              for n, t in subs.items()) or 'none run',
            'samples': samples,
            'by_sub_check': subs,
            'inconclusive': incon,
            'exhaustive': False,
        },
        'assumptions': [
            'CPython, gmpy2, numpy, shapely, trimesh and ezdxf behave as '
            'documented; the oracle code in /verif/pbt is correct',
        ],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f['case'])))
        f = failures[0]
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop, f['sub']))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'sub': f['sub'], 'case': f['case'],
                       'message': f['msg'], 'traceback': f['traceback'],
                       'seed': seed, 'tier': tier,
                       'run': 'python3 /verif/pbt/check.py --replay ' + path},
                      fh, indent=1)
        evidence['coverage']['failure'] = {'sub': f['sub'],
                                           'message': f['msg'],
                                           'case': f['case']}
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)

    known = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(known):
        with open(known) as fh:
            for line in fh:
                if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                    print(line.strip())
    for n, t in subs.items():
        print('%s %-28s cases %6d  nontrivial %6d  rejected %d  slowest %.2fs'
              % (prop, n, t['cases'], t['nontrivial_distinct'],
                 t['rejected'], t['slowest_case_s']))
    for m in incon:
        print('INCONCLUSIVE', m)
    print('%s %s seed=%d wall=%.1fs' % (prop, tier, seed,
                                        time.time() - t0))
    if failures:
        print(f['sub'] + ': ' + f['msg'])
        print('case:', json.dumps(f['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('HARNESS ERROR\n' + errors[0], file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
