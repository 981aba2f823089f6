"""C15: random division of the free stretches of a joint into fingers."""
import math

import numpy as np
import pyrsistent as pyr
from gmpy2 import mpq
from hypothesis import strategies as st

import gen
import geo
import models
import ref1d
from harness import Reject, Sub, Violation

EPS = 1e-6


@st.composite
def widths(draw):
    mn = draw(st.sampled_from(['3', '2', '5/2', '7/3', '9/2', '1', '33/10']))
    r = draw(st.sampled_from(['1', '5/4', '5/3', '2', '3', '11/10',
                              '101/100']))
    return mn, gen.qs(mpq(mn) * mpq(r))


@st.composite
def length(draw, mn, mx):
    mn, mx = mpq(mn), mpq(mx)
    k = draw(st.integers(0, 9))
    n = draw(st.integers(1, 9))
    if k == 0:
        v = n * mn                      # just so many at the least
    elif k == 1:
        v = n * mx
    elif k == 2:
        v = n * mn + draw(st.sampled_from([-1, 1])) * mpq(1, 10 ** 5)
    elif k == 3:
        v = mn * mpq(draw(st.integers(1, 11)), 12)    # none fits
    elif k == 4:
        v = mpq(draw(st.floats(0.5, 36)))
    else:
        v = n * (mn + (mx - mn) * mpq(draw(st.integers(0, 12)), 12)) + \
            mpq(draw(st.integers(0, 3)), 7)
    return gen.qs(min(max(v, mpq(1, 4)), 13 * mn))


@st.composite
def cases(draw):
    mn, mx = draw(widths())
    joints = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        parts = []
        for k in range(draw(st.integers(1, 2))):
            if k == 0 or parts[-1][0] == 'free':
                nb = draw(st.sampled_from([0, 1, 0, 1, 'none']))
                parts.append([nb, gen.qs(mpq(draw(st.integers(6, 30)), 2)
                                         if nb == 'none' else
                                         mpq(draw(st.integers(4, 20)), 2))])
            parts.append(['free', draw(length(mn, mx))])
        nb = draw(st.sampled_from([0, 1, 0, 1, 'none']))
        parts.append([nb, gen.qs(mpq(draw(st.integers(6, 30)), 2)
                                 if nb == 'none' else
                                 mpq(draw(st.integers(4, 20)), 2))])
        joints.append(parts)
    return {'mn': mn, 'mx': mx, 'joints': joints,
            'n': draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [3, 4, 0],
                                       [1, 0, 1]])),
            'spin': draw(st.sampled_from([0, 0, 0.7])),
            'seed': draw(st.one_of(st.sampled_from([0, 42]),
                                   st.integers(0, 2 ** 32 - 1)))}


def setup(case):
    """A base plate and one wall per joint, with the given decisions."""
    from plycutter.sheetbuild import SheetBuild
    G2, G1 = geo.G2(), geo.G1()
    big = G2.rectangle(-1500, -1500, 1500, 1500)
    # Oblique planes through the base: keep the walls far from each other
    sheets = [models.plane_sheet('a', [0, 0, 1], 0, 3, case['spin'],
                                 faces=[big, big], slices_max=big)]
    for k in range(len(case['joints'])):
        sheets.append(models.plane_sheet(
            'bcd'[k], case['n'], 40 * k, 3, 0, faces=[big, big],
            slices_max=big))
    sp = models.plex(sheets)
    ok1, plan = {}, []
    e = G1.empty()
    chosen = {i.id: e for i in sp.intersides()}
    joints = [sp.intersections[k] for k in sorted(sp.intersections)]
    for inter, parts in zip(joints, case['joints']):
        x = mpq(-20)
        ok, todo, free = e, [], []
        for i, (kind, ln) in enumerate(parts):
            y = x + mpq(ln)
            if kind == 'free':
                ok = ok | G1([(x, y)])
                free.append((x, y, parts[i - 1][0], parts[i + 1][0]))
            elif kind != 'none':
                ok = ok | G1([(x, y)])
                todo.append((kind, (x, y)))
            x = y
        for s in inter.sides:
            ok1[s.id] = ok
        plan.append((inter, todo, free))
    m = pyr.pmap({s: G2.empty() for s in sp.sheets})
    sb = SheetBuild(sheetplex=sp, sheet_chosen=m,
                    sheet_ok=pyr.pmap({s: big for s in sp.sheets}),
                    interside_chosen=pyr.pmap(chosen),
                    interside_ok=pyr.pmap(ok1))
    for inter, todo, _ in plan:
        for k, iv in todo:
            sb = sb.choose_interside(inter.sides[k].id, G1([iv]))
    return sb, plan


def feasible(L, mn, mx, even):
    for n in range(max(1, math.ceil(L / mx)), math.floor(L / mn) + 1):
        if (n % 2 == 0) == even:
            yield n


def pieces(sb, inter, s, e):
    out = []
    for k in range(2):
        for a, b in sb.interside_chosen[inter.sides[k].id].get_intervals():
            a, b = max(a, s), min(b, e)
            if b - a > EPS:
                out.append((float(a - s), float(b - s), k))
    return sorted(out)


def check_stretch(sb, inter, free, mn, mx, ctx):
    s, e, left, right = free
    L = e - s
    left = 0 if left == 'none' else left
    right = 0 if right == 'none' else right
    even = left != right
    got = pieces(sb, inter, s, e)
    what = 'stretch of %s, widths %s to %s, neighbours %s and %s' % (
        gen.qs(L), gen.qs(mn), gen.qs(mx), left, right)
    x = 0.0
    for a, b, k in got:
        if abs(a - x) > EPS:
            raise Violation('%s: gap or overlap at %.6f, divided into %s' %
                            (what, x, got))
        x = b
    if abs(x - float(L)) > EPS:
        raise Violation('%s: covered up to %.6f only: %s' % (what, x, got))
    ns = list(feasible(L, mn, mx, even))
    if not ns:
        ctx.label('no division possible')
        if len(got) != 1:
            raise Violation('%s: no division is possible, but there is %s' %
                            (what, got))
        return 0
    for a, b, k in got:
        if not float(mn) - EPS <= b - a <= float(mx) + EPS:
            raise Violation('%s: a finger is %.6f wide, in %s' %
                            (what, b - a, got))
    if got[0][2] == left:
        raise Violation('%s: the first finger does not alternate with the '
                        'neighbour: %s' % (what, got))
    if got[-1][2] == right:
        raise Violation('%s: the last finger does not alternate with the '
                        'neighbour: %s' % (what, got))
    if len(got) not in ns:
        raise Violation('%s: %d fingers' % (what, len(got)))
    ctx.label('even' if even else 'odd')
    if len(ns) > 1:
        ctx.label('several numbers of fingers possible')
    # Is there clearly something to choose?
    return int(all(n > 1 and L - n * mn > 1 and n * mx - L > 1 for n in ns))


def decide(sb, case, seed):
    from plycutter.heuristics import single_fingers_random
    return single_fingers_random(sb, {
        'min_finger_width': mpq(case['mn']),
        'max_finger_width': mpq(case['mx']), 'random_seed': seed,
        'thickness': mpq(3), 'support_radius': mpq(12)})


def read(sb):
    return {k: tuple(v.get_intervals())
            for k, v in sb.interside_chosen.items()}


def run(case, ctx):
    sb, plan = setup(case)
    before = read(sb)
    mn, mx = mpq(case['mn']), mpq(case['mx'])
    res = decide(sb, case, case['seed'])
    room = 0
    n = 0
    for inter, todo, free in plan:
        for f in free:
            room += check_stretch(res, inter, f, mn, mx, ctx)
            n += 1
        for side in inter.sides:
            i = side.id
            old = ref1d.m_from(before[i])[0]
            new = ref1d.m_from(read(res)[i])[0]
            ok = ref1d.m_from(res.interside_ok[i].get_intervals())[0]
            lost = ref1d.m_op(lambda x, y: x and not y, old, new)
            if lost[1]:
                raise Violation('earlier decisions of %s are gone' % (i,))
            left = ref1d.m_op(lambda x, y: x and not y, ok, new)
            if ref1d.measure(left) > EPS:
                raise Violation('%s: still open: %s' % (
                    i, ref1d.m_intervals(left)))
    if before != read(sb):
        raise Violation('the state given has changed')
    np.random.seed(case['seed'] % 1000)     # must not matter
    np.random.random(3)
    if read(decide(sb, case, case['seed'])) != read(res):
        raise Violation('the same random seed gave other fingers')
    if room and n <= 2:
        others = [read(decide(sb, case, (case['seed'] + d) % 2 ** 32))
                  for d in (1, 2)]
        if all(o == read(res) for o in others):
            raise Violation('three random seeds gave the same fingers')
        ctx.label('seeds differ')
    ctx.nontrivial(any(len(pieces(res, i, *f[:2])) > 2
                       for i, _, fs in plan for f in fs))


@st.composite
def split_cases(draw):
    mn, mx = draw(widths())
    n = draw(st.integers(1, 40))
    k = draw(st.sampled_from([0, 1, None, None, None]))
    if k is None:
        k = mpq(draw(st.integers(0, 1000)), 1000)
    total = n * (mpq(mn) + (mpq(mx) - mpq(mn)) * k)
    return {'n': n, 'mn': mn, 'mx': mx, 'total': gen.qs(total),
            'seed': draw(st.integers(0, 10 ** 6)),
            'kind': draw(st.sampled_from(['exact', 'float']))}


def run_split(case, ctx):
    from plycutter import heuristics
    f = getattr(heuristics, 'random_min_max', None)
    if f is None:
        raise Reject
    conv = mpq if case['kind'] == 'exact' else (lambda v: float(mpq(v)))
    mn, mx, total = [conv(case[k]) for k in ('mn', 'mx', 'total')]
    n = case['n']
    if not mn * n <= total <= mx * n:
        raise Reject                    # rounding of the floats
    res = f(n, mn, mx, total, np.random.RandomState(case['seed']))
    if len(res) != n:
        raise Violation('%d spans instead of %d' % (len(res), n))
    x = 0
    for a, b in res:
        if abs(a - x) > 1e-7:
            raise Violation('spans do not follow each other: %s' % (res,))
        if not float(mn) - 1e-7 <= b - a <= float(mx) + 1e-7:
            raise Violation('span %s to %s is %s wide' % (a, b, b - a))
        x = b
    if abs(x - float(total)) > 1e-6:
        raise Violation('spans end at %s, not %s' % (x, float(total)))
    ctx.nontrivial(n > 2)
    if mn == mx or mn * n == total or mx * n == total:
        ctx.label('no freedom')


SUBS = [
    Sub('stretches', cases(), run, 104, 4000,
        'base plate with 1-3 walls; stretches between decided or open places, '
        'lengths also at and just beside multiples of the limits; each '
        'divided with one seed, again, and with others; non-trivial = a '
        'stretch got more than two fingers'),
    Sub('split', split_cases(), run_split, 2000, 50000,
        'random_min_max with forced and free lengths, exact and float; '
        'non-trivial = more than two spans'),
]
