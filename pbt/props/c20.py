"""C20: faults at every step of joint making and at every decision in it."""
import contextlib
import inspect

from hypothesis import strategies as st
from gmpy2 import mpq

import geo
import models
import ref1d
import ref2d
from harness import Reject, Sub, Violation

KITS = [
    {'t': '6', 'add': [[0, 0, 0, 20, 10, 6], [0, 0, 0, 6, 10, 20]],
     'cut': [], 'n': 2},
    {'t': '3', 'add': [[0, 0, 0, 20, 8, 3], [0, 0, 0, 3, 8, 20]],
     'cut': [], 'n': 2},
    {'t': '6', 'add': [[0, 0, 0, 30, 14, 6], [12, 0, 0, 18, 14, 24]],
     'cut': [], 'n': 2},
    {'t': '4', 'add': [[0, 0, 0, 16, 16, 4], [0, 0, 0, 4, 16, 16],
                       [0, 0, 0, 16, 4, 16]], 'cut': [], 'n': 3},
]


class Injected(Exception):
    pass


class InjectedKey(KeyError):
    pass


class InjectedAssert(AssertionError):
    pass


class InjectedMemory(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


KINDS = {c.__name__: c for c in (Injected, InjectedKey, InjectedAssert,
                                 InjectedMemory, InjectedInterrupt)}


def targets():
    from plycutter.geometry.geom1d import Geom1D
    from plycutter.sheetbuild import SheetBuild
    from plycutter.sheetplex import InterSide
    G2 = type(geo.G2().empty())
    out = {}
    for cls, names in (
            (Geom1D, '__and__ __or__ __sub__ __invert__ buffer is_empty'),
            (G2, '__and__ __or__ __sub__ buffer area is_empty polygons'),
            (InterSide, 'make_fingers project_to_1d opposite'),
            (SheetBuild, 'check _check choose_interside unchoose_interside '
                         'unchoose_sheet_area transform')):
        for n in names.split():
            if inspect.isroutine(getattr(cls, n, None)):
                out[cls.__name__ + '.' + n] = (cls, n)
    return out


NAMES = ['Geom1D.__and__', 'Geom1D.__or__', 'Geom1D.__sub__',
         'Geom1D.buffer', 'Geom2D_Py_Simple_Holes.__and__',
         'Geom2D_Py_Simple_Holes.__sub__', 'Geom2D_Py_Simple_Holes.buffer',
         'Geom2D_Py_Simple_Holes.area', 'InterSide.make_fingers',
         'InterSide.project_to_1d', 'InterSide.opposite', 'SheetBuild.check',
         'SheetBuild._check', 'SheetBuild.choose_interside',
         'SheetBuild.unchoose_interside', 'SheetBuild.unchoose_sheet_area',
         'SheetBuild.choose_interside', 'SheetBuild.check']


@contextlib.contextmanager
def patched(obj, name, make):
    own = name in vars(obj)
    old = getattr(obj, name)
    setattr(obj, name, make(old))
    try:
        yield
    finally:
        if own:
            setattr(obj, name, old)
        else:
            delattr(obj, name)


class Counter:
    """Counts the calls of a method; fails at call number k."""

    def __init__(self, k=None, exc=None):
        self.n, self.k, self.exc = 0, k, exc

    def make(self, old):
        def f(*args, **kw):
            self.n += 1
            if self.n - 1 == self.k:
                raise self.exc
            return old(*args, **kw)
        return f


@contextlib.contextmanager
def steps_watched(on_exit):
    """Report every step that joint making calls from heuristics."""
    from plycutter import heuristics as heu
    depth = [0]
    with contextlib.ExitStack() as stack:
        for name, f in sorted(vars(heu).items()):
            if name.startswith('_') or not inspect.isfunction(f) or \
                    f.__module__ != heu.__name__:
                continue
            par = list(inspect.signature(f).parameters)
            if par[:1] != ['sb']:
                continue

            def make(old, name=name):
                def g(*args, **kw):
                    depth[0] += 1
                    try:
                        r = old(*args, **kw)
                    finally:
                        depth[0] -= 1
                    if depth[0] == 0:
                        on_exit(name, r)
                    return r
                return g
            stack.enter_context(patched(heu, name, make))
        yield


def edges(g):
    """Undirected edges: the same however the outline was put together."""
    return sorted(tuple(sorted(e)) for e in ref2d.region_edges(geo.region(g)))


def state(sb):
    return tuple(
        tuple(sorted((k, tuple(edges(v)) if f.startswith('sheet') else
                      tuple(v.get_intervals()))
                     for k, v in getattr(sb, f).items()))
        for f in ('sheet_chosen', 'sheet_ok', 'interside_chosen',
                  'interside_ok'))


@contextlib.contextmanager
def no_extra_checks():
    """Only forced self-checks: the others come at every 150th call, counted
    across runs."""
    from plycutter import sheetbuild
    old = getattr(sheetbuild, 'check_interval', None)
    if old is not None:
        sheetbuild.check_interval = 10 ** 9
    try:
        yield
    finally:
        if old is not None:
            sheetbuild.check_interval = old


def dedupe(seq):
    out = []
    for s in seq:
        if not out or out[-1] != s:
            out.append(s)
    return out


_cache = {}


def reference(case):
    """The run without a fault, and how often each target is called up to the
    end of each step."""
    from plycutter import canned, sheetbuild
    key = (case['kit'], case['seed'])
    if key in _cache:
        return _cache[key]
    kit = KITS[case['kit']]
    sp = models.plex(models.box_sheets(kit))
    params = models.params(thickness=kit['t'], random_seed=case['seed'],
                           max_finger_width='8')
    cnt = {n: Counter() for n in targets()}
    marks, states = [], []

    def mark(name, sb):
        marks.append({n: c.n for n, c in cnt.items()})
        states.append(sb)
    with contextlib.ExitStack() as stack:
        for n, (cls, meth) in targets().items():
            stack.enter_context(patched(cls, meth, cnt[n].make))
        mark('create', sheetbuild.create_sheetbuild(sp, params))
        for c in cnt.values():
            c.n = 0
        with steps_watched(mark), no_extra_checks():
            res = canned.canned_1(sp, params)
    total = {n: c.n for n, c in cnt.items()}
    if res.ok is not True:
        raise Violation('a run without a fault is not marked ok')
    hist = [state(s) for s in res.history]
    # Where the steps cannot be watched, the history tells what they made
    S = [state(s) for s in states] if len(marks) > 1 else dedupe(hist)
    _cache[key] = (sp, params, marks, S, total, hist, state(res.sheetbuild))
    return _cache[key]


@st.composite
def cases(draw):
    return {'kit': draw(st.sampled_from([0, 0, 0, 0, 1, 2])),
            'seed': 42,
            'target': draw(st.sampled_from(NAMES)),
            'at': draw(st.one_of(st.sampled_from([0, 1000]),
                                 st.integers(0, 1000), st.integers(0, 1000),
                                 st.integers(0, 1000))),
            'exc': draw(st.sampled_from(sorted(KINDS))),
            'ret': draw(st.sampled_from([None, False, True, True, True])),
            'again': draw(st.sampled_from([False, False, True]))}


def check_result(res, S, want, params, what):
    if res.ok is not False:
        raise Violation('%s: the result is marked ok=%r' % (what, res.ok))
    if res.sheetbuild is None:
        raise Violation('%s: the result has no state' % what)
    got = state(res.sheetbuild)
    if want is not None and got != S[want]:
        at = S.index(got) if got in S else None
        raise Violation('%s: the result has the state after step %s, the last '
                        'one completed is %d' % (what, at, want))
    if got not in S:
        raise Violation('%s: the result is no state that was completed' %
                        what)
    hist = dedupe([state(s) for s in res.history])
    full = dedupe(S)
    if hist != full[:len(hist)]:
        raise Violation('%s: the history is not that of the run' % what)
    if hist[-1] != got:
        raise Violation('%s: the history does not end with the last state' %
                        what)
    if res.params != params:
        raise Violation('%s: the parameters in the result differ' % what)
    cuts = {k: edges(v) for k, v in res.sheet_cuts.items()}
    if cuts != {k: edges(v) for k, v in res.sheetbuild.sheet_chosen.items()}:
        raise Violation('%s: sheet_cuts are not those of the state' % what)


def run_again(case, ctx):
    """The next run must not know about the failure."""
    from plycutter import canned
    sp, params, marks, S, total, hist, final = reference(case)
    res = canned.canned_1(sp, params)
    if res.ok is not True or state(res.sheetbuild) != final or \
            [state(s) for s in res.history] != hist:
        raise Violation('the run after a failed one gives something else')
    ctx.label('next run')


def run(case, ctx):
    from plycutter import canned
    sp, params, marks, S, total, hist, final = reference(case)
    name = case['target']
    if not total.get(name):
        raise Reject
    k = min(total[name] - 1, case['at'] * total[name] // 1000)
    exc = KINDS[case['exc']]('injected fault')
    p = dict(params)
    if case['ret'] is not None:
        p['return_on_failure'] = case['ret']
    what = '%s number %d of %d fails with %s, return_on_failure=%s' % (
        name, k + 1, total[name], case['exc'], case['ret'])
    c = Counter(k, exc)
    steps = []
    cls, meth = targets()[name]
    res = caught = None
    with patched(cls, meth, c.make), no_extra_checks(), \
            steps_watched(lambda n, sb: steps.append(n)):
        try:
            res = canned.canned_1(sp, p)
        except BaseException as e:
            if type(e).__name__ == '_Stop':
                raise
            caught = e
    if c.n <= k:
        raise Reject
    # Steps that were complete before the fault; 0 = only created
    if k < marks[0][name]:
        done = -1
    else:
        done = len(steps) if len(marks) > 1 else None
    if done == -1 or not case['ret'] or not isinstance(exc, Exception):
        if caught is None:
            raise Violation(what + ': a result was returned')
        if caught is not exc:
            raise Violation('%s: the caller got %r instead' % (what, caught))
    else:
        if caught is not None:
            raise Violation('%s: the caller got %r and no result' %
                            (what, caught))
        check_result(res, S, done, p, what)
    if case['again']:
        run_again(case, ctx)
    ctx.nontrivial()
    ctx.label('created' if done == 0 else 'before the first state'
              if done == -1 else 'final check' if done == len(S) - 1
              else 'step')
    if case['ret']:
        ctx.label('return_on_failure')


@st.composite
def broken_cases(draw):
    return {'kit': draw(st.sampled_from([0, 0, 1, 2])),
            'seed': 42,
            'at': draw(st.integers(0, 30)),
            'how': draw(st.sampled_from(['both', 'ok'])),
            'ret': draw(st.booleans()),
            'again': draw(st.sampled_from([False, False, True]))}


def run_broken(case, ctx):
    """A decision goes wrong without an exception: the final self-check has
    to find it."""
    from plycutter import canned
    from plycutter.sheetbuild import SheetBuild
    sp, params, marks, S, total, hist, final = reference(case)
    n = total.get('SheetBuild.choose_interside', 0)
    if not n:
        raise Reject
    k = case['at'] % n
    count = [0]
    hit = []

    def make(old):
        def f(self, interside_id, v, *args, **kw):
            sb = old(self, interside_id, v, *args, **kw)
            count[0] += 1
            if count[0] > k and not hit and float(v.measure1d()) > 0.1:
                hit.append(1)
                opp = sp.interside(interside_id).opposite(sp).id
                if case['how'] == 'both':
                    m = sb.interside_chosen
                    sb = sb.set('interside_chosen', m.set(opp, m[opp] | v))
                m = sb.interside_ok
                sb = sb.set('interside_ok', m.set(opp, m[opp] | v))
            return sb
        return f
    p = dict(params, return_on_failure=case['ret'])
    res = caught = None
    with patched(SheetBuild, 'choose_interside', make):
        try:
            res = canned.canned_1(sp, p)
        except Exception as e:
            caught = e
    if not hit:
        raise Reject
    what = 'a place of a joint is %s for both sheets after decision %d' % (
        'chosen' if case['how'] == 'both' else 'possible', k)
    if case['ret']:
        if caught is not None:
            raise Violation('%s: the caller got %r and no result' %
                            (what, caught))
        if res.ok is not False:
            raise Violation(what + ': the result is marked ok=%r' % res.ok)
    elif caught is None:
        raise Violation(what + ': a result was returned')
    if case['again']:
        run_again(case, ctx)
    ctx.nontrivial()
    ctx.label(case['how'])


@st.composite
def good_cases(draw):
    return {'kit': draw(st.integers(0, 3)), 'seed': draw(st.integers(0, 5)),
            'ret': draw(st.sampled_from([None, False, True]))}


def run_good(case, ctx):
    from plycutter import canned
    sp, params, marks, S, total, hist, final = reference(case)
    p = dict(params)
    if case['ret'] is not None:
        p['return_on_failure'] = case['ret']
    keep = dict(p)
    res = canned.canned_1(sp, p)
    if res.ok is not True:
        raise Violation('a run without a fault is marked ok=%r' % res.ok)
    if p != keep or res.params != keep:
        raise Violation('the parameters have changed')
    if state(res.sheetbuild) != final:
        raise Violation('another run gives another state')
    if len(marks) > 1 and dedupe([state(s) for s in res.history]) != \
            dedupe(S):
        raise Violation('the history does not hold every state')
    if state(res.history[-1]) != final:
        raise Violation('the history does not end with the result')
    if {k: edges(v) for k, v in res.sheet_cuts.items()} != \
            {k: edges(v) for k, v in res.sheetbuild.sheet_chosen.items()}:
        raise Violation('sheet_cuts are not those of the final state')
    res.sheetbuild.check(force=True)
    ctx.nontrivial()


SUBS = [
    Sub('faults', cases(), run, 184, 4000,
        'an exception (five kinds, also an interrupt) at a call of one of the '
        'methods that joint making uses, anywhere from the first to the last '
        'call; non-trivial = the fault was reached'),
    Sub('broken', broken_cases(), run_broken, 24, 500,
        'a decision silently leaves an inconsistent state; non-trivial = it '
        'was reached'),
    Sub('good', good_cases(), run_good, 8, 200,
        'runs without a fault; all are non-trivial'),
]
