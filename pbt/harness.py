"""Property harness: Hypothesis drives generation, JSON cases carry replays.

A check is a list of `Sub`s.  A Sub has a Hypothesis strategy that yields
JSON-able cases and a function `fn(case, ctx)` that runs the code under test on
the case and compares it with the oracle.  `fn` raises `Violation` when the
oracle is contradicted.  An exception that comes out of the code under test on
a valid case is a violation, too, and so is one in the oracle: it fails only on
results of the wrong kind.  Lack of memory, files or modules in the harness is
an error (exit 2), never a violation.
"""
import collections
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import zlib

REPO = os.environ.get('PLY_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK = float(os.environ.get('PLY_SHRINK', '45'))      # seconds


class Violation(Exception):
    """The oracle was contradicted."""


class _Stop(BaseException):
    """Leave Hypothesis now (budget, hang)."""


class Reject(Exception):
    """The case is outside the domain of the property (counted)."""


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.labels = collections.Counter()
        self._nt = False
        self._case_labels = set()

    def begin(self):
        self._nt = False
        self._case_labels = set()

    def label(self, name):
        """Classify the case: each name counts once per case."""
        if name not in self._case_labels:
            self._case_labels.add(name)
            self.labels[name] += 1

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule,
                 hang=240, workers=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.hang = hang


def import_repo():
    """Import plycutter from the working tree, never from a cached .pyc."""
    import logging
    import warnings
    warnings.simplefilter('ignore')
    # Heavy libraries first, with their ordinary caches
    import numpy, scipy.spatial, gmpy2, shapely, shapely.ops  # noqa
    import trimesh, ezdxf, pyrsistent, sortedcontainers  # noqa
    import matplotlib.path, matplotlib.patches  # noqa
    import networkx, rtree  # noqa
    sys.dont_write_bytecode = True
    old = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.path.insert(0, REPO)
    import plycutter
    import plycutter.canned, plycutter.command_line  # noqa
    import plycutter.create_sheetplex, plycutter.writer  # noqa
    import plycutter.heuristics, plycutter.sheetbuild  # noqa
    import plycutter.sheetplex, plycutter.plytypes, plycutter.misc  # noqa
    from plycutter.geometry import geom1d, geom2d, aabb  # noqa
    from plycutter.geometry.impl2d import (  # noqa
        arrangement2d, cell_merger, frangle2d, geom2d_simple_holes,
        pmr_quadtree, primitive2d, scan2d, segment_tree)
    sys.pycache_prefix = old
    assert os.path.abspath(plycutter.__file__).startswith(
        os.path.abspath(REPO) + '/'), plycutter.__file__
    logging.disable(logging.CRITICAL)
    return plycutter


def from_repo(exc):
    """Did the code under test take part in raising this exception?"""
    pre = os.path.abspath(REPO) + '/plycutter/'
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre):
            return True
        tb = tb.tb_next
    return False


def counts(exc):
    """Is it a violation?  The oracle fails only on results that are not of
    the kind that was asked for."""
    return isinstance(exc, Violation) or from_repo(exc) or \
        not isinstance(exc, (MemoryError, OSError, ImportError))


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)[:1500]
    tail = traceback.extract_tb(exc.__traceback__)[-3:]
    where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                        for f in reversed(tail))
    return ('valid input, but %s raised %s: %s (%s)' %
            ('the code' if from_repo(exc) else
             'looking at what the code made of it',
             type(exc).__name__, str(exc)[:600], where))


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]


class Worker:
    def __init__(self, prop, tier, seed, idx, n, budget):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.idx, self.n = idx, n
        self.trace = None
        self.t_end = time.monotonic() + budget
        self.out = {'subs': {}, 'failure': None, 'error': None,
                    'inconclusive': []}

    def run(self, subs):
        for sub in subs:
            self.run_sub(sub)
            if self.out['failure'] or self.out['error']:
                break
        return self.out

    def run_sub(self, sub):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings, given

        total = sub.quick if self.tier == 'quick' else sub.thorough
        share = total // self.n + (1 if self.idx < total % self.n else 0)
        rec = self.out['subs'][sub.name] = {
            'cases': 0, 'nontrivial': 0, 'rejected': 0, 'samples': [],
            'labels': {}, 'rule': sub.rule, 'digests': [], 'max_s': 0.0,
            'planned': share}
        if share == 0:
            return
        ctx = Ctx(self.tier)
        seen = set()
        best = {}
        state = {'fail_t': None, 'slow': 0.0}

        def on_alarm(signum, frame):
            raise _Stop('hang')
        signal.signal(signal.SIGPROF, on_alarm)

        def body(case):
            now = time.monotonic()
            if state['fail_t'] is not None:
                if now - state['fail_t'] > SHRINK:
                    raise _Stop('shrink')
            elif now > self.t_end:
                self.out['inconclusive'].append(
                    '%s: time budget reached after %d of %d cases' %
                    (sub.name, rec['cases'], share))
                raise _Stop('budget')
            ctx.begin()
            state['case'] = case
            if self.trace:
                # For the driver, should a library end the process
                self.trace.seek(0)
                self.trace.write(json.dumps([sub.name, case]))
                self.trace.truncate()
                self.trace.flush()
            limit = max(sub.hang, 40 * state['slow'])
            t0 = time.process_time()
            signal.setitimer(signal.ITIMER_PROF, limit)
            try:
                sub.fn(case, ctx)
            except Reject:
                rec['rejected'] += 1
                return
            except _Stop:
                if best.get('msg') is None:
                    best.update(case=case, msg='no result within %d CPU '
                                'seconds (slowest other case: %.1f s)' %
                                (limit, state['slow']))
                raise
            except Exception as e:
                if counts(e):
                    size = len(json.dumps(case))
                    if 'size' not in best or size <= best['size']:
                        best.update(case=case, msg=describe(e), size=size,
                                    tb=traceback.format_exc()[-3000:])
                    if state['fail_t'] is None:
                        state['fail_t'] = now
                    raise
                # An error of the harness itself: no shrinking
                self.out['error'] = '%s: %s\ncase: %s' % (
                    sub.name, traceback.format_exc()[-4000:],
                    json.dumps(case)[:2000])
                raise _Stop('error')
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                dt = time.process_time() - t0
                state['slow'] = max(state['slow'], dt)
                rec['max_s'] = max(rec['max_s'], dt)
            if state['fail_t'] is None:
                rec['cases'] += 1
                if ctx._nt:
                    d = digest(case)
                    if d not in seen:
                        seen.add(d)
                        rec['nontrivial'] += 1
                        if len(rec['samples']) < 2:
                            rec['samples'].append(case)

        test = given(sub.strategy)(body)
        test = settings(
            # The first example is always the simplest one
            max_examples=share + 1, deadline=None, database=None,
            phases=(Phase.generate, Phase.shrink), print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=[HealthCheck.too_slow,
                                   HealthCheck.data_too_large,
                                   HealthCheck.large_base_example,
                                   HealthCheck.filter_too_much])(test)
        key = '%s/%s/%s/%s' % (self.prop, sub.name, self.seed, self.idx)
        test = hypothesis.seed(zlib.crc32(key.encode()))(test)
        try:
            test()
        except _Stop:
            pass
        except BaseException as e:
            if 'case' not in best and isinstance(e, MemoryError):
                best.update(case=state['case'], msg='more than 6 GB of '
                            'memory needed')
            if 'case' not in best:
                self.out['error'] = '%s: %s' % (
                    sub.name, ''.join(traceback.format_exception(e))[-4000:])
        if 'case' in best:
            self.out['failure'] = {'sub': sub.name, 'case': best['case'],
                                   'msg': best['msg'],
                                   'traceback': best.get('tb', '')}
        rec['labels'] = dict(ctx.labels)
        rec['digests'] = [d.hex() for d in seen]


def worker_main(argv):
    prop, tier, seed, idx, n, budget, outfile = argv
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = {'error': 'worker did not finish'}
    try:
        import_repo()
        import importlib
        mod = importlib.import_module('props.' + prop.lower())
        w = Worker(prop, tier, int(seed), int(idx), int(n), float(budget))
        w.trace = open(outfile + '.case', 'w')
        out = w.run(mod.SUBS)
    except BaseException as e:
        if isinstance(e, Exception) and from_repo(e):
            out = {'subs': {}, 'error': None, 'inconclusive': [],
                   'failure': {'sub': 'import', 'case': None,
                               'msg': describe(e),
                               'traceback': traceback.format_exc()[-3000:]}}
        else:
            out = {'subs': {}, 'failure': None, 'inconclusive': [],
                   'error': traceback.format_exc()[-4000:]}
    with open(outfile + '.tmp', 'w') as f:
        json.dump(out, f)
    os.replace(outfile + '.tmp', outfile)


def replay_main(path):
    with open(path) as f:
        rep = json.load(f)
    import_repo()
    import importlib
    mod = importlib.import_module('props.' + rep['property'].lower())
    for sub in mod.SUBS:
        if sub.name == rep['sub']:
            try:
                # The code under test iterates over sets of objects, whose
                # order varies with memory addresses: try several times
                for _ in range(20):
                    sub.fn(rep['case'], Ctx('quick'))
                    if time.process_time() > 120:
                        break
            except Exception as e:
                if counts(e):
                    traceback.print_exc()
                    print('VIOLATION property=%s replay=%s' %
                          (rep['property'], path))
                    return 1
                raise
            print('holds on this case')
            return 0
    print('no such sub-check: %s' % rep['sub'])
    return 2
