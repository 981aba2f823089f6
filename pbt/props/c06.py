"""C06: the sweep finds every intersection of a set of segments, once."""
from hypothesis import strategies as st
from gmpy2 import mpq

import gen
import geo
import ref2d
from harness import Sub, Violation


def brute(segs):
    """{point: set of segments through it} for all points where two segments
    meet: proper crossings and end points on other segments."""
    pts = {}
    n = len(segs)
    for i in range(n):
        a, b = segs[i]
        for p in (a, b):
            for j in range(n):
                if j != i and ref2d.on_segment(p, *segs[j]):
                    pts.setdefault(p, set()).update((segs[i], segs[j]))
        for j in range(i + 1, n):
            c, d = segs[j]
            rx, ry = b[0] - a[0], b[1] - a[1]
            sx, sy = d[0] - c[0], d[1] - c[1]
            den = rx * sy - ry * sx
            if den == 0:
                continue
            t = ((c[0] - a[0]) * sy - (c[1] - a[1]) * sx) / den
            u = ((c[0] - a[0]) * ry - (c[1] - a[1]) * rx) / den
            if 0 <= t <= 1 and 0 <= u <= 1:
                p = (a[0] + t * rx, a[1] + t * ry)
                pts.setdefault(p, set()).update((segs[i], segs[j]))
    return pts


def check(segs, ctx):
    from plycutter.geometry.impl2d.scan2d import all_segment_intersections
    want = brute(segs)
    seen = {}
    before = list(segs)
    for pt, ss in all_segment_intersections(segs):
        pt = (mpq(pt[0]), mpq(pt[1]))
        if pt in seen:
            raise Violation('%s is reported twice' % geo.pt_s(pt))
        if len(set(ss)) != len(list(ss)):
            raise Violation('a segment is listed twice at %s' % geo.pt_s(pt))
        seen[pt] = set(ss)
    if list(segs) != before:
        raise Violation('the input was modified')
    for p in want:
        if p not in seen:
            raise Violation('the intersection %s of %d segments is missing' %
                            (geo.pt_s(p), len(want[p])))
        if seen[p] != want[p]:
            raise Violation('%s: segments %s, should be %s' %
                            (geo.pt_s(p), sorted(seen[p]), sorted(want[p])))
    for p in seen:
        if p not in want:
            raise Violation('%s is reported, but no two segments meet there' %
                            geo.pt_s(p))
    ctx.nontrivial(len(want) > 1)
    if any(len(s) > 2 for s in want.values()):
        ctx.label('three or more segments through a point')
    ends = {p for s in segs for p in s}
    if any(p not in ends for p in want):
        ctx.label('crossing inside segments')
    if any(s[0][1] == s[1][1] for s in segs):
        ctx.label('horizontal')
    if any(s[0][0] == s[1][0] for s in segs):
        ctx.label('vertical')
    if any(ref2d.cross(s[0], s[1], t[0]) == 0 and
           ref2d.cross(s[0], s[1], t[1]) == 0 and
           max(s[0], t[0]) < min(s[1], t[1])
           for i, s in enumerate(segs) for t in segs[:i]):
        ctx.label('overlapping')
    if not want:
        ctx.label('none')


def mk(raw, m):
    out = []
    for a, b in raw:
        p, q = gen.apply_affine(m, a), gen.apply_affine(m, b)
        if p == q:
            continue
        s = (p, q) if p < q else (q, p)
        if s not in out:
            out.append(s)
    return out


@st.composite
def grid_case(draw):
    n = draw(st.integers(2, 9))
    c = st.integers(0, n)
    k = draw(st.sampled_from([3, 5, 8, 12, 18]))
    return {'affine': draw(gen.affine()),
            'segs': draw(st.lists(st.tuples(
                st.tuples(c, c).map(list), st.tuples(c, c).map(list))
                .map(list), min_size=2, max_size=k))}


def run_grid(case, ctx):
    segs = mk(case['segs'], case['affine'])
    if segs:
        check(segs, ctx)


@st.composite
def pencil_case(draw):
    """Many lines through few points, plus chords and pieces of the same
    lines."""
    cs = draw(st.lists(st.tuples(st.integers(-3, 3), st.integers(-3, 3)),
                       min_size=1, max_size=3))
    segs = []
    for i in range(draw(st.integers(2, 10))):
        cx, cy = cs[i % len(cs)]
        d = gen.DIRS[draw(st.integers(0, 15))]
        a = draw(st.integers(-3, 0))
        b = draw(st.integers(0, 3))
        segs.append([[cx + a * d[0], cy + a * d[1]],
                     [cx + b * d[0], cy + b * d[1]]])
    for i in range(draw(st.integers(0, 4))):
        p = draw(st.tuples(gen.coords(4), gen.coords(4)))
        q = draw(st.tuples(gen.coords(4), gen.coords(4)))
        segs.append([list(p), list(q)])
    return {'affine': draw(gen.affine()), 'segs': segs}


@st.composite
def real_case(draw):
    return {'affine': None, 'segs': draw(st.lists(st.tuples(
        st.tuples(gen.numbers(), gen.numbers()).map(list),
        st.tuples(gen.numbers(), gen.numbers()).map(list)).map(list),
        min_size=2, max_size=10))}


@st.composite
def many_case(draw):
    k = draw(st.lists(st.integers(1, 40), min_size=6, max_size=6))
    return {'n': draw(st.integers(20, 60)), 'k': k,
            'affine': draw(gen.affine())}


def run_many(case, ctx):
    k = case['k']
    raw = []
    for i in range(case['n']):
        x = (k[0] * i + k[1]) % 31
        y = (k[2] * i * i + k[3] * i) % 29
        raw.append([[x, y], [x + (k[4] * i) % 13 - 6,
                             y + (k[5] * i + i // 3) % 11 - 5]])
    segs = mk(raw, case['affine'])
    if segs:
        check(segs, ctx)


SUBS = [
    Sub('grid', grid_case(), run_grid, 10000, 80000,
        '2-18 segments between grid points (overlaps, shared ends, '
        'T-junctions, horizontals, verticals), optionally under an affine '
        'map; compared with an all-pairs enumeration; non-trivial = at least '
        'two intersection points'),
    Sub('pencils', pencil_case(), run_grid, 4800, 40000,
        'many segments through 1-3 common points, pieces of the same lines; '
        'non-trivial = at least two intersection points'),
    Sub('real', real_case(), run_grid, 3200, 20000,
        '2-10 segments with float-valued and rational ends; non-trivial = '
        'at least two intersection points'),
    Sub('many', many_case(), run_many, 640, 4000,
        '20-60 segments; non-trivial = at least two intersection points'),
]
