"""C09: exact numbers and planar primitives."""
import fractions
import functools

import gmpy2
from gmpy2 import mpq
from hypothesis import strategies as st

import gen
import geo
import ref2d
from harness import Reject, Sub, Violation
from props.c07 import ccw_key

FR = type(mpq(1))
num = st.one_of(st.integers(-6, 6), st.integers(-6, 6), gen.numbers(-9, 9),
                st.sampled_from([0, 1, -1, '1/2', '-1/2', 10 ** 9,
                                 '1/1000000007']))
vec = st.tuples(num, num).map(list)


def pt(v):
    return (mpq(v[0]), mpq(v[1]))


def refuses(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation('%s is accepted and gives %r' % (what, r))


# --- fractional angles ------------------------------------------------------

@st.composite
def frangle_case(draw):
    return {'v': draw(st.lists(vec, min_size=2, max_size=6)),
            'scale': draw(num), 'fr': draw(num)}


def run_frangle(case, ctx):
    from plycutter.geometry.impl2d.frangle2d import (
        vector_frangle, frangle_unit_square_vector)
    vs = [pt(v) for v in case['v'] if pt(v) != (0, 0)]
    vs += [(x, y) for x, y in [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1),
                               (-1, 1), (1, -1), (-1, -1)]]
    vs = [(mpq(x), mpq(y)) for x, y in vs]
    k = abs(mpq(case['scale'])) or mpq(1)
    fr = {}
    for v in vs:
        a = vector_frangle(v)
        fr[v] = a
        if not 0 <= a < 8:
            # 8 stands for the same direction as 0
            if a != 8:
                raise Violation('frangle of %s is %s' % (geo.pt_s(v), a))
        if type(a) not in (FR, int):
            raise Violation('frangle of %s is not exact: %r' %
                            (geo.pt_s(v), a))
        if vector_frangle((v[0] * k, v[1] * k)) != a:
            raise Violation('frangle of %s changes with its length' %
                            geo.pt_s(v))
        # Quarter turns clockwise: (x, y) -> (y, -x)
        w = v
        for q in range(1, 5):
            w = (w[1], -w[0])
            if (vector_frangle(w) - a - 2 * q) % 8 != 0:
                raise Violation('frangle of %s turned by %d quarters is %s, '
                                'not %s' % (geo.pt_s(v), q,
                                            vector_frangle(w), a + 2 * q))
        u = frangle_unit_square_vector(a)
        if max(abs(u[0]), abs(u[1])) != 1 or \
                u[0] * v[1] != u[1] * v[0] or \
                u[0] * v[0] + u[1] * v[1] <= 0:
            raise Violation('unit square vector of frangle %s of %s is %s' %
                            (a, geo.pt_s(v), geo.pt_s(u)))
        # The clockwise order of directions
        m = (v[0], -v[1])
    order = sorted(fr, key=lambda v: ccw_key((v[0], -v[1])))
    for a, b in zip(order, order[1:]):
        same = a[0] * b[1] == a[1] * b[0]
        if (fr[a] % 8 != fr[b] % 8 if same else
                not fr[a] % 8 < fr[b] % 8):
            raise Violation('frangles of %s and %s are %s and %s: not the '
                            'order of the directions' %
                            (geo.pt_s(a), geo.pt_s(b), fr[a], fr[b]))
    for f in (mpq(case['fr']), mpq(case['fr']) + 8, mpq(case['fr']) - 8):
        u = frangle_unit_square_vector(f)
        if (vector_frangle((mpq(u[0]), mpq(u[1]))) - f) % 8 != 0:
            raise Violation('frangle of the vector at frangle %s is %s' %
                            (f, vector_frangle((mpq(u[0]), mpq(u[1])))))
    refuses(lambda: vector_frangle((mpq(0), mpq(0))), 'the zero vector')
    ctx.nontrivial(len(vs) > 9)


# --- polygons ---------------------------------------------------------------

@st.composite
def poly_case(draw):
    return {'affine': draw(gen.affine()), 'poly': draw(gen.polygon()),
            'rev': draw(st.booleans()), 'start': draw(st.integers(0, 9)),
            'pts': draw(st.lists(vec, max_size=4)),
            'fr': draw(st.lists(st.integers(0, 12), min_size=2, max_size=4))}


def run_poly(case, ctx):
    from plycutter.geometry.impl2d.primitive2d import (
        simple_polygon_area, locate_point_polygon_winding_number,
        edges_iter)
    m = case['affine']
    r = gen.ring(m, case['poly'])
    s = case['start'] % len(r)
    r = r[s:] + r[:s]
    if case['rev']:
        r = r[::-1]
    area = ref2d.signed_area(r)
    # Clockwise polygons have positive area here
    if simple_polygon_area(r) != -area:
        raise Violation('area of %s is %s, exact %s (clockwise positive)' %
                        ([geo.pt_s(p) for p in r], simple_polygon_area(r),
                         -area))
    if list(edges_iter(r)) != list(ref2d.ring_edges(r)):
        raise Violation('edges_iter is wrong')
    if len(case['pts']) == 1:
        if list(edges_iter([r[0]])) != [(r[0], r[0])]:
            raise Violation('edges_iter of one point')
    pts = [gen.apply_affine(m, p) for p in case['pts']]
    xs = [p[0] for p in r]
    ys = [p[1] for p in r]
    # On vertices, edges, at the height and abscissa of vertices
    pts += r
    for i, f in enumerate(case['fr']):
        a, b = list(ref2d.ring_edges(r))[(f + i) % len(r)]
        t = mpq(f, 13)
        p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        pts += [p, (p[0] + mpq(1, 10 ** 6), p[1]),
                (p[0], p[1] - mpq(1, 10 ** 6)),
                (xs[f % len(r)], ys[(f + i + 1) % len(r)]),
                ((min(xs) + max(xs)) / 2, ys[(f + i) % len(r)]),
                (max(xs) + 1, ys[(f + 2) % len(r)]),
                (min(xs) - 1, ys[(f + 3) % len(r)])]
    for p in pts:
        want = ref2d.ring_locate(r, p)
        got = locate_point_polygon_winding_number(r, p)
        if got != want:
            raise Violation('location of %s in %s is %s, should be %s' %
                            (geo.pt_s(p), [geo.pt_s(q) for q in r], got,
                             want))
        ctx.label({1: 'inside', 0: 'on boundary', -1: 'outside'}[want])
    ctx.nontrivial(len(r) > 3)


# --- lines ------------------------------------------------------------------

@st.composite
def line_case(draw):
    return {'p': [draw(vec) for _ in range(4)], 't': draw(num),
            'u': draw(num), 'affine': draw(gen.affine())}


def run_line(case, ctx):
    from plycutter.geometry.impl2d.primitive2d import (
        segment_segment_general_intersection, line_segment_point_fraction)
    a, b, c, d = [gen.apply_affine(case['affine'], p) for p in case['p']]
    t, u = mpq(case['t']), mpq(case['u'])
    if a != b:
        p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        got = line_segment_point_fraction((a, b), p)
        if got is None or got != t:
            raise Violation('fraction of %s on %s-%s is %s, should be %s' %
                            (geo.pt_s(p), geo.pt_s(a), geo.pt_s(b), got, t))
        n = (b[1] - a[1], a[0] - b[0])
        for off in (mpq(1), mpq(1, 10 ** 9), u):
            if off == 0:
                continue
            q = (p[0] + off * n[0], p[1] + off * n[1])
            if line_segment_point_fraction((a, b), q) is not None:
                raise Violation('%s is taken to be on the line %s-%s' %
                                (geo.pt_s(q), geo.pt_s(a), geo.pt_s(b)))
    for p in (a, b):
        got = line_segment_point_fraction((a, a), p)
        if got != (0 if p == a else None):
            raise Violation('fraction on a degenerate segment: %s' % got)
    rx, ry = b[0] - a[0], b[1] - a[1]
    sx, sy = d[0] - c[0], d[1] - c[1]
    den = rx * sy - ry * sx
    if den == 0:
        refuses(lambda: segment_segment_general_intersection((a, b), (c, d)),
                'the intersection of parallel segments')
        return
    wt = ((c[0] - a[0]) * sy - (c[1] - a[1]) * sx) / den
    wu = ((c[0] - a[0]) * ry - (c[1] - a[1]) * rx) / den
    p, gt, gu = segment_segment_general_intersection((a, b), (c, d))
    if (gt, gu) != (wt, wu) or \
            tuple(p) != (a[0] + wt * rx, a[1] + wt * ry):
        raise Violation('intersection of %s-%s and %s-%s is %s at %s, %s; '
                        'exact fractions %s, %s' %
                        (geo.pt_s(a), geo.pt_s(b), geo.pt_s(c), geo.pt_s(d),
                         geo.pt_s(p), gt, gu, wt, wu))
    ctx.nontrivial()


# --- numbers ----------------------------------------------------------------

leaf = st.one_of(st.tuples(st.just('q'), num).map(list),
                 st.tuples(st.just('i'), st.integers(-10 ** 20, 10 ** 20))
                 .map(list),
                 st.tuples(st.just('s'), st.text('ab', max_size=3))
                 .map(list))
tree = st.recursive(leaf, lambda c: st.tuples(
    st.sampled_from(['list', 'tuple', 'array', 'dict']),
    st.lists(c, max_size=4)).map(list), max_leaves=10)


@st.composite
def number_case(draw):
    return {'n': draw(num), 'd': draw(st.integers(1, 10 ** 12)),
            'f': draw(st.floats(allow_nan=False, allow_infinity=False)),
            'tree': draw(tree),
            'grid': draw(st.lists(st.lists(num, min_size=2, max_size=2),
                                  min_size=1, max_size=4))}


def make(t):
    import numpy as np
    k, v = t
    if k == 'q':
        return mpq(v)
    if k in 'is':
        return v
    kids = [make(c) for c in v]
    if k == 'list':
        return kids
    if k == 'tuple':
        return tuple(kids)
    if k == 'array':
        a = np.empty(len(kids), object)
        for i, x in enumerate(kids):
            a[i] = tuple(x) if isinstance(x, (list, np.ndarray)) else x
        return a
    return {'k%d' % i: x for i, x in enumerate(kids)}


def show(t):
    import numpy as np

    def go(o):
        if isinstance(o, (list, np.ndarray)):
            return '[' + ', '.join(go(x) for x in o) + ']'
        if isinstance(o, tuple):
            return '(' + ', '.join(go(x) for x in o) + ')'
        if isinstance(o, dict):
            return '{' + ', '.join('%s: %s' % (k, go(x))
                                   for k, x in o.items()) + '}'
        if isinstance(o, FR):
            return str(o.numerator) if o.denominator == 1 else \
                '%s/%s' % (o.numerator, o.denominator)
        return str(o)
    return go(t)


def run_number(case, ctx):
    import numpy as np
    from plycutter.plytypes import (
        F, Fraction, FractionFromExact, FractionFromExactOrInf, fstr, fastr,
        totuple, FractionClass)
    q = mpq(case['n']) / case['d']
    i = q.numerator
    for v in (q, int(i), fractions.Fraction(int(i), int(q.denominator)),
              gmpy2.mpz(i)):
        for f in (FractionFromExact, FractionFromExactOrInf):
            r = f(v)
            if type(r) is not FractionClass or \
                    r != mpq(int(v.numerator), int(v.denominator)):
                raise Violation('%s(%r) is %r' % (f.__name__, v, r))
    for v in (case['f'], np.float64(case['f']), '1', None, gmpy2.mpfr(1),
              np.float32(1), float(i % 1000), [1]):
        refuses(lambda: FractionFromExact(v), 'FractionFromExact(%r)' % (v,))
        if v is not None and not isinstance(v, (str, list)):
            refuses(lambda: FractionFromExactOrInf(v),
                    'FractionFromExactOrInf(%r)' % (v,))
    inf = float('inf')
    if FractionFromExactOrInf(inf) != inf or \
            FractionFromExactOrInf(-inf) != -inf:
        raise Violation('FractionFromExactOrInf changes infinities')
    refuses(lambda: FractionFromExact(inf), 'FractionFromExact(inf)')
    refuses(lambda: FractionFromExactOrInf(float('nan')),
            'FractionFromExactOrInf(nan)')
    if Fraction(case['f']) != fractions.Fraction(case['f']):
        raise Violation('Fraction(%r) is not its exact value' % case['f'])
    o = make(case['tree'])
    if fstr(o) != 'FS/%s/' % show(o):
        raise Violation('fstr(%r) is %s' % (o, fstr(o)))
    if fstr(o, q) != 'FS/%s,%s/' % (show(o), show(q)):
        raise Violation('fstr of two objects is %s' % fstr(o, q))
    g = geo.G1()([(q, q + 1), (q + 2, q + 3)])
    for o2 in (g, [g, q], {'a': g}):
        txt = fstr(o2)
        if not all(show(v) in txt for iv in ((q, q + 1), (q + 2, q + 3))
                   for v in iv) or 'Geom1D' not in txt:
            raise Violation('fstr of intervals from %s is %s' % (q, txt))
        if 'Geom1D' not in fastr(o2):
            raise Violation('fastr of intervals is %s' % fastr(o2))
    txt = fastr(q)
    if not (txt.startswith('FS/') and txt.endswith('/')) or \
            float(txt[3:-1]) != float(q):
        raise Violation('fastr(%s) is %s' % (q, txt))
    grid = [[mpq(x) for x in row] for row in case['grid']]
    want = tuple(tuple(r) for r in grid)
    for g in (grid, np.array(grid, object), [tuple(r) for r in grid],
              tuple(np.array(r, object) for r in grid)):
        t = totuple(g)
        if t != want or not isinstance(t, tuple) or \
                any(type(r) is not tuple or
                    any(type(x) is not FractionClass for x in r) for r in t):
            raise Violation('totuple(%r) is %r' % (g, t))
        hash(t)
    ctx.nontrivial(q.denominator != 1)


SUBS = [
    Sub('frangle', frangle_case(), run_frangle, 12500, 60000,
        'up to 6 rational vectors plus the 8 main directions, any scale; '
        'non-trivial = at least two generated vectors'),
    Sub('polygon', poly_case(), run_poly, 12500, 60000,
        'random simple polygons in both orientations, any start vertex, '
        'under affine maps; queries on vertices, edges, level with vertices; '
        'non-trivial = more than three vertices'),
    Sub('line', line_case(), run_line, 20000, 100000,
        'two rational lines and a point on / off the first; non-trivial = '
        'lines not parallel'),
    Sub('number', number_case(), run_number, 12500, 60000,
        'conversions, formatting and tuples of nested containers; '
        'non-trivial = a proper fraction'),
]
