"""C21: the same input and random seed give the same parts."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

import det
import models
from harness import Reject, Sub, Violation


@st.composite
def jobs(draw, kinds=('L', 'L', 'T', 'U', 'corner', 'overhang', 'partial',
                       'tray', 'room', 'box')):
    m = draw(models.kits(list(kinds), 3, 4))
    m = dict(m, place=draw(models.placements(100)),
             order=draw(st.sampled_from([None, 1])))
    return {'m': m, 'mesh': draw(st.booleans()),
            'p': {'random_seed': draw(st.integers(0, 99)),
                  'min_finger_width': draw(st.sampled_from(['3', '2'])),
                  'max_finger_width': draw(st.sampled_from(['5', '7']))}}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 2))
    js = [draw(jobs()) for _ in range(n)]
    procs = []
    for k in range(2):
        order = draw(st.permutations(list(range(n))))
        if k and draw(st.booleans()):
            order = list(order) + [order[0]]
        procs.append({'hash': draw(st.integers(0, 2 ** 32 - 1)) if k else 0,
                      'malloc': draw(st.sampled_from(['pymalloc', 'malloc'])),
                      'order': list(order),
                      'disturb': draw(st.one_of(st.none(),
                                                st.integers(0, 999)))})
    return {'jobs': js, 'procs': procs}


def valid(js):
    for j in js:
        b = models.kit_boxes(j['m'])
        if not b.manifold() or not b.connected():
            return False
    return True


def process(js, p):
    env = dict(os.environ, PYTHONHASHSEED=str(p['hash']),
               PYTHONMALLOC=p['malloc'])
    r = subprocess.run([sys.executable, '-B', '-c', 'import det; det.main()'],
                       input=json.dumps({'jobs': js, 'order': p['order'],
                                         'disturb': p['disturb']}),
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[-2000:])
    return json.loads(r.stdout.splitlines()[-1])


def run_processes(case, ctx):
    if not valid(case['jobs']):
        raise Reject
    outs = []
    for p in case['procs']:
        o = process(case['jobs'], p)
        if 'twice' in o:
            raise Violation('model %d gave other parts when it was run again '
                            'in the same process' % o['twice'][0])
        outs.append(o['out'])
    for i, (a, b) in enumerate(zip(*outs)):
        if a != b:
            what = [k for k in a if a[k] != b.get(k)]
            raise Violation('model %d: %s differ between two processes: %s '
                            'and %s' % (i, what, a, b))
        ctx.nontrivial('cuts' in a and len(a['joints']) > 0)
        if 'cuts' in a and len(a['joints']) > 2:
            ctx.label('several joints')
        ctx.label('mesh' if case['jobs'][i]['mesh'] else 'sheets')
        if 'error' in a:
            ctx.label('refused')
    if any(len(p['order']) > len(case['jobs']) for p in case['procs']):
        ctx.label('twice in a process')


@st.composite
def seed_cases(draw):
    t = draw(st.sampled_from(['3', '4']))
    D = draw(st.integers(18, 23))
    return {'t': t, 'D': D, 'seed': draw(st.integers(0, 10 ** 6)),
            'mesh': draw(st.sampled_from([False, False, True])),
            'place': draw(models.placements(100, rotate=False)),
            'disturb': draw(st.integers(0, 999))}


def run_seeds(case, ctx):
    t, D = int(case['t']), case['D']
    m = {'kind': 'L', 't': case['t'], 'n': 2, 'cut': [], 'order': None,
         'place': case['place'],
         'add': [[0, 0, 0, 4 * t, D, t], [0, 0, 0, t, D, 4 * t]]}
    outs = []
    for k in (0, 0, 1, 2):
        if k == 2 and outs[0]['cuts'] != outs[2]['cuts'] and \
                outs[0]['joints'] != outs[2]['joints']:
            return ctx.nontrivial()
        det.disturb(case['disturb'] + k)
        outs.append(det.run_job({'m': m, 'mesh': case['mesh'],
                                 'p': {'random_seed': case['seed'] + k}}))
        if 'cuts' not in outs[-1]:
            raise Violation('no result: %s' % outs[-1])
        if len(outs) == 2 and outs[0] != outs[1]:
            raise Violation('the same random seed gave other parts later on')
    for what in ('cuts', 'joints'):
        if all(o[what] == outs[0][what] for o in outs):
            raise Violation('three random seeds gave the same fingers for a '
                            'joint of %d (%s)' % (D, what))
    ctx.nontrivial()


SUBS = [
    Sub('processes', cases(), run_processes, 8, 500,
        '1-2 models run in two processes with different hash seeds, memory '
        'allocators, orders and work before; non-trivial = a result with '
        'joints'),
    Sub('seeds', seed_cases(), run_seeds, 8, 300,
        'one long joint with three random seeds and the first one again; '
        'all are non-trivial'),
]
