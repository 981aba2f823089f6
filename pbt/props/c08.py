"""C08: spatial indexes never miss an item."""
import collections

from gmpy2 import mpq
from hypothesis import strategies as st

import gen
import geo
import ref2d
from harness import Sub, Violation


def Q(v):
    return mpq(v)


def pt(v):
    return (mpq(v[0]), mpq(v[1]))


def box_meets_segment(lo, up, a, b):
    """Closed box and closed segment, exact (parametric clipping)."""
    t0, t1 = mpq(0), mpq(1)
    for i in range(2):
        d = b[i] - a[i]
        if d == 0:
            if not lo[i] <= a[i] <= up[i]:
                return False
        else:
            u, v = (lo[i] - a[i]) / d, (up[i] - a[i]) / d
            t0, t1 = max(t0, min(u, v)), min(t1, max(u, v))
    return t0 <= t1


def segments_meet(s, t):
    (a, b), (c, d) = s, t
    if any(ref2d.on_segment(p, *q) for p, q in
           ((a, t), (b, t), (c, s), (d, s))):
        return True

    def sg(x):
        return (x > 0) - (x < 0)
    return (sg(ref2d.cross(a, b, c)) * sg(ref2d.cross(a, b, d)) < 0 and
            sg(ref2d.cross(c, d, a)) * sg(ref2d.cross(c, d, b)) < 0)


# --- AABB -------------------------------------------------------------------

num = st.one_of(st.integers(-6, 6), st.integers(-6, 6), gen.numbers(-6, 6))
point = st.tuples(num, num).map(list)


@st.composite
def aabb_case(draw):
    return {'pts': draw(st.lists(point, min_size=1, max_size=6)),
            'other': draw(st.lists(point, min_size=1, max_size=4)),
            'q': draw(st.lists(point, min_size=1, max_size=6)),
            'segs': draw(st.lists(st.tuples(point, point).map(list),
                                  min_size=1, max_size=6))}


def run_aabb(case, ctx):
    from plycutter.geometry.aabb import AABB

    def make(pts):
        b = AABB()
        for i, p in enumerate(pts):
            b.include_point(p)
            lo = [min(q[k] for q in pts[:i + 1]) for k in range(2)]
            up = [max(q[k] for q in pts[:i + 1]) for k in range(2)]
            if list(b.lower) != lo or list(b.upper) != up:
                raise Violation('box of %s is %s..%s' %
                                (pts[:i + 1], list(b.lower), list(b.upper)))
        return b, lo, up
    pts = [pt(p) for p in case['pts']]
    b, lo, up = make(pts)
    o, olo, oup = make([pt(p) for p in case['other']])
    qs = [pt(p) for p in case['q']]
    qs += [(lo[0], up[1]), (up[0], lo[1]),
           ((lo[0] + up[0]) / 2, up[1]), (up[0] + 1, lo[1])]
    for q in qs:
        want = all(lo[k] <= q[k] <= up[k] for k in range(2))
        if bool(b.contains(q)) != want:
            raise Violation('contains(%s) is wrong for %s..%s' %
                            (geo.pt_s(q), lo, up))
        ctx.label('point inside' if want else 'point outside')
    want = all(lo[k] <= oup[k] and olo[k] <= up[k] for k in range(2))
    for x, y in ((b, o), (o, b)):
        if bool(x.intersects_aabb(y)) != want:
            raise Violation('intersects_aabb is wrong: %s..%s and %s..%s' %
                            (lo, up, olo, oup))
    b2 = AABB(tuple(lo), tuple(up))
    segs = [(pt(p), pt(q)) for p, q in case['segs']]
    c = ((lo[0] + up[0]) / 2, (lo[1] + up[1]) / 2)
    # Segments that just touch a corner or just miss it
    w, h = up[0] - lo[0] + 1, up[1] - lo[1] + 1
    for e in (0, mpq(1, 1000), mpq(-1, 1000)):
        segs += [((lo[0] - h, up[1] - w + e), (lo[0] + h, up[1] + w + e)),
                 ((up[0] - w, lo[1] - h - e), (up[0] + w, lo[1] + h - e)),
                 ((c[0], up[1] + e), (c[0] + 9, up[1] + e)),
                 ((up[0] + e, up[1] + 1), (up[0] + e, lo[1] - 1))]
    for s in segs:
        want = box_meets_segment(lo, up, *s)
        for t in (s, s[::-1]):
            for x in (b, b2):
                if bool(x.intersects_segment(t)) != want:
                    raise Violation('intersects_segment(%s) should be %s for '
                                    '%s..%s' % (t, want, lo, up))
        ctx.label('segment meets' if want else 'segment misses')
        if want and not any(all(lo[k] <= q[k] <= up[k] for k in range(2))
                            for q in s):
            ctx.label('segment passes through')
    ctx.nontrivial(lo != up and len(pts) > 1)


# --- interval index ---------------------------------------------------------

@st.composite
def stab_case(draw):
    kind = draw(st.sampled_from(['int', 'int', 'num', 'many']))
    v = st.integers(0, 12) if kind != 'num' else gen.numbers(-5, 5)
    n = 60 if kind == 'many' else 14
    if kind == 'many':
        v = st.integers(0, 70)
    segs = draw(st.lists(st.tuples(v, v).map(
        lambda t: sorted(t, key=lambda x: mpq(x))), max_size=n))
    return {'segs': [list(s) for s in segs],
            'q': draw(st.lists(v, max_size=8))}


def run_stab(case, ctx):
    from plycutter.geometry.impl2d.segment_tree import SegmentTree1D
    segs = [(mpq(a), mpq(b), 'id%d' % i)
            for i, (a, b) in enumerate(case['segs'])]
    t = SegmentTree1D(list(segs))
    ends = sorted({v for s in segs for v in s[:2]})
    qs = [mpq(q) for q in case['q']] + ends + \
        [(a + b) / 2 for a, b in zip(ends, ends[1:])]
    if ends:
        qs += [ends[0] - 1, ends[-1] + 1, ends[0] - mpq(1, 10 ** 9)]
    most = 0
    for q in qs:
        want = collections.Counter(s for s in segs if s[0] <= q <= s[1])
        got = collections.Counter(tuple(s) for s in t.stab(q))
        if want != got:
            raise Violation('stab(%s) gives %s, should give %s' %
                            (q, sorted(got.elements()),
                             sorted(want.elements())))
        most = max(most, len(want))
    ctx.nontrivial(len(segs) > 2 and most > 1)
    if any(s[0] == s[1] for s in segs):
        ctx.label('point interval')
    if len(set(s[:2] for s in segs)) < len(segs):
        ctx.label('duplicates')
    if not segs:
        ctx.label('empty')


# --- quadtree ---------------------------------------------------------------

@st.composite
def quad_case(draw):
    v = draw(st.sampled_from(['int', 'int', 'num']))
    c = st.integers(0, 8) if v == 'int' else gen.numbers(0, 8)
    p = st.tuples(c, c).map(list)
    seg = st.tuples(p, p).map(list)
    return {'items': draw(st.lists(seg, min_size=0, max_size=30)),
            'q': draw(st.lists(seg, min_size=1, max_size=8)),
            'threshold': draw(st.integers(1, 12)),
            'box': draw(st.booleans())}


def run_quad(case, ctx):
    from plycutter.geometry.aabb import AABB
    from plycutter.geometry.impl2d.pmr_quadtree import SegmentPMRQuadTree
    items = [(pt(a), pt(b)) for a, b in case['items']]
    items = [s for s in items if s[0] != s[1]]
    qs = [(pt(a), pt(b)) for a, b in case['q']]
    # Queries that are items, and such through the middle lines
    qs += items[:3]
    qs += [((mpq(4), mpq(-1)), (mpq(4), mpq(9))),
           ((mpq(-1), mpq(4)), (mpq(9), mpq(4))),
           ((mpq(-3), mpq(-3)), (mpq(11), mpq(11)))]
    qs = [q for q in qs if q[0] != q[1]]
    box = AABB((mpq(-1), mpq(-1)), (mpq(9), mpq(9))) if case['box'] else None
    if box is None and not items:
        return
    t = SegmentPMRQuadTree(box, items, threshold=case['threshold'])
    total = 0
    for q in qs:
        got = list(t.find(q))
        if len(got) != len(set(got)):
            raise Violation('find(%s) lists a segment twice' % (q,))
        for g in got:
            if g not in items:
                raise Violation('find(%s) invents %s' % (q, g))
        for s in items:
            if segments_meet(s, q):
                total += 1
                if s not in got:
                    raise Violation('find(%s) misses %s (threshold %d)' %
                                    (q, s, case['threshold']))
    ctx.nontrivial(total > 2 and len(items) > 2)
    if len(items) > case['threshold']:
        ctx.label('tree was split')


@st.composite
def many_case(draw):
    return {'n': draw(st.integers(60, 250)),
            'k': draw(st.lists(st.integers(1, 60), min_size=6, max_size=6)),
            'threshold': draw(st.integers(2, 12))}


def run_many(case, ctx):
    k = case['k']
    items = []
    for i in range(case['n']):
        x, y = (k[0] * i + k[1] * i * i) % 61, (k[2] * i + i // 4) % 59
        dx, dy = (k[3] * i) % 9 - 4, (k[4] * i + k[5]) % 9 - 4
        if (dx, dy) != (0, 0):
            items.append([[x, y], [x + dx, y + dy]])
    run_quad({'items': items, 'threshold': case['threshold'], 'box': False,
              'q': [[[0, 0], [60, 50]], [[k[0], k[1]], [k[2], k[3]]],
                    [[k[0], -5], [k[0], 70]]]}, ctx)


SUBS = [
    Sub('aabb', aabb_case(), run_aabb, 9000, 60000,
        'boxes of 1-6 points, queries at and near corners and sides; '
        'non-trivial = more than one point'),
    Sub('stab', stab_case(), run_stab, 12000, 100000,
        'up to 60 intervals (points, duplicates), queried at every end, '
        'between ends and outside; non-trivial = some value is in two '
        'intervals'),
    Sub('quadtree', quad_case(), run_quad, 1500, 12000,
        'up to 30 segments, thresholds 1-12, queries incl. middle lines; '
        'non-trivial = more than two hits'),
    Sub('quadtree-many', many_case(), run_many, 72, 600,
        '60-250 segments; non-trivial = more than two hits'),
]
