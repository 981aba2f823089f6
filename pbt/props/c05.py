"""C05: buffer() grows and shrinks by one convex shape."""
from functools import lru_cache

from hypothesis import strategies as st
from gmpy2 import mpq

import gen
import geo
import ref2d
from harness import Sub, Violation


@lru_cache(maxsize=500)
def kernel(r):
    """The convex shape K(r) that buffer(r) adds, ccw, taken from what
    buffer() does to a square: K = {x : n.x <= h_sum(n) - h_square(n)} over
    the edge normals n of square + K."""
    G = geo.G2()
    s = r / 7
    sq = [(-s, -s), (s, -s), (s, s), (-s, s)]
    out = geo.region(G.polygon(sq, reorient=True).buffer(r))
    if len(out) != 1 or out[0][1]:
        raise Violation('buffer(%s) of a square is not one simple piece' % r)
    hull = ref2d.convex_hull(out[0][0])
    if ref2d.region_area(out) != ref2d.signed_area(hull):
        raise Violation('buffer(%s) of a square is not convex' % r)
    planes = []
    for a, b in ref2d.ring_edges(hull):
        n = (b[1] - a[1], a[0] - b[0])
        h = n[0] * a[0] + n[1] * a[1]
        planes.append((n, h - max(n[0] * x + n[1] * y for x, y in sq)))
    big = 10 * r
    poly = [(-big, -big), (big, -big), (big, big), (-big, big)]
    for n, h in planes:
        nxt = []
        for a, b in ref2d.ring_edges(poly):
            da = n[0] * a[0] + n[1] * a[1] - h
            db = n[0] * b[0] + n[1] * b[1] - h
            if da <= 0:
                nxt.append(a)
            if (da < 0) != (db < 0) and da != 0 and db != 0:
                t = da / (da - db)
                nxt.append((a[0] + t * (b[0] - a[0]),
                            a[1] + t * (b[1] - a[1])))
        poly = nxt
        if len(poly) < 3:
            raise Violation('buffer(%s) adds nothing to a square' % r)
    K = ref2d.convex_hull(poly)
    if {(-x, -y) for x, y in K} != set(K):
        raise Violation('buffer(%s) does not grow evenly in opposite '
                        'directions' % r)
    for a, b in ref2d.ring_edges(K):
        if a[0] ** 2 + a[1] ** 2 > (mpq(1001, 1000) * r) ** 2:
            raise Violation('buffer(%s) reaches as far as %s' %
                            (r, geo.pt_s(a)))
        if ref2d.dist2_point_segment((mpq(0), mpq(0)), a, b) < \
                (mpq(92, 100) * r) ** 2:
            raise Violation('buffer(%s) reaches less than 0.92 of the '
                            'distance' % r)
    return K


def at(K, p):
    return [(p[0] + x, p[1] + y) for x, y in K]


def grown(reg, K, p):
    return ref2d.open_convex_meets_region(at(K, p), reg)


def shrunk(reg, K, p):
    return ref2d.open_convex_inside_region(at(K, p), reg)


def verify(g, reg, r, ctx, what):
    K = kernel(abs(r))
    res = g.buffer(r)
    out = geo.region(res)
    truth = grown if r > 0 else shrunk
    eps = abs(r) / 10 ** 5
    nudge = [(eps * mpq(731, 1000), eps * mpq(418, 1000)),
             (-eps * mpq(397, 1000), eps * mpq(773, 1000)),
             (-eps * mpq(811, 1000), -eps * mpq(307, 1000)),
             (eps * mpq(291, 1000), -eps * mpq(877, 1000))]
    tested = 0

    def test(p):
        nonlocal tested
        tested += 1
        want = truth(reg, K, p)
        got = ref2d.region_contains(out, p)
        if want == got:
            return
        if ref2d.region_on_boundary(out, p):
            return
        raise Violation('%s: %s is %s the result, but should be %s' % (
            what, geo.pt_s(p), 'in' if got else 'not in',
            'in' if want else 'out'))
    # 1. Both sides of every edge of the result, and its corners
    for a, b in ref2d.region_edges(out):
        dx, dy = b[0] - a[0], b[1] - a[1]
        s = eps / max(abs(dx), abs(dy))
        for t in (mpq(3, 7), mpq(999, 1000)):
            m = (a[0] + t * dx, a[1] + t * dy)
            test((m[0] - s * dy, m[1] + s * dx))
            test((m[0] + s * dy, m[1] - s * dx))
    # 2. Around every corner that the true result may have
    vs = sorted({v for ring in ref2d.region_rings(reg) for v in ring})
    for v in vs:
        for k in K:
            c = (v[0] + k[0], v[1] + k[1])
            for d in nudge:
                test((c[0] + d[0], c[1] + d[1]))
    # 3. The middle of every part of the input and of the result
    n = 0
    for pt, w, h, mem in ref2d.slab_points([reg, out]):
        n += 1
        if n <= 150:
            test((pt[0] + eps / 7, pt[1] + eps / 11))
    return res, out


def run(case, ctx):
    pool = []
    for p in case['polys']:
        pool.append(geo.leaf(case['affine'], p)[0])
    for name, i, j, k in case['ops']:
        n = len(pool)
        gs = [pool[i % n], pool[j % n]] + \
            ([pool[k % n]] if name == 'union' else [])
        pool.append(geo.apply_op(name, gs))
        if geo.n_edges(geo.region(pool[-1])) > 24:
            pool.pop()
    g = next((q for q in reversed(pool) if not q.is_empty()), pool[-1])
    reg = geo.region(g)
    scale = mpq(1)
    if reg and case['affine'] is not None:
        vs = [v for r in ref2d.region_rings(reg) for v in r]
        scale = max(max(x for x, y in vs) - min(x for x, y in vs),
                    max(y for x, y in vs) - min(y for x, y in vs)) / 8
        scale = mpq(int(scale * 1000) + 1, 1000)
    nt = False
    for a in case['amounts']:
        r = mpq(a) * scale
        if r == 0:
            same = g.buffer(0)
            if geo.region(same) != reg:
                raise Violation('buffer(0) changes the set')
            continue
        if geo.n_edges(reg) > 30:
            break
        g, out = verify(g, reg, r, ctx, 'buffer(%s)' % r)
        ctx.label('grow' if r > 0 else 'shrink')
        if any(hs for _, hs in reg):
            ctx.label('input has holes')
            if r > 0 and sum(len(hs) for _, hs in out) < \
                    sum(len(hs) for _, hs in reg):
                ctx.label('a hole closes')
        if len(reg) > 1:
            ctx.label('input has several pieces')
            for o, hs in reg:
                for h in hs:
                    if any(ref2d.ring_locate(h, q[0][0]) > 0 for q in reg):
                        ctx.label('island in a hole')
        if not out and reg:
            ctx.label('vanishes')
        if len(out) > len(reg):
            ctx.label('falls apart')
        if len(out) < len(reg):
            ctx.label('pieces merge or vanish')
        reg = out
        nt = nt or bool(out)
    ctx.nontrivial(nt)


amounts = st.one_of(
    st.lists(st.sampled_from(
        ['1/10', '1/2', 1, '-1/10', '-1/2', -1, '1/1000', '-1/1000', '7/3',
         '-1/3', '3/2', '-3/2', 0, 5, '-2']), min_size=1, max_size=2),
    # Grow and shrink, back to about the same
    st.tuples(st.sampled_from(['1/2', 1, '3/2', 5, 20, 60]),
              st.sampled_from(['1', '99/100', '19/20', '101/100']),
              st.booleans()).map(
        lambda v: [str(mpq(v[0])), str(-mpq(v[0]) * mpq(v[1]))][
            ::-1 if v[2] and mpq(v[0]) < 2 else 1]))


@st.composite
def leaf_case(draw):
    return {'affine': draw(gen.affine()),
            'polys': [draw(gen.polygon())], 'ops': [],
            'amounts': draw(amounts)}


@st.composite
def combo_case(draw):
    c = draw(st.one_of(gen.pools(nmax=3, opmax=2), gen.nested_pools(1)))
    c['amounts'] = draw(amounts)
    return c


@st.composite
def island_case(draw):
    """Rings with islands in their holes, at every distance."""
    w = draw(st.integers(1, 3))
    gap = draw(st.integers(1, 4))
    isl = draw(st.integers(1, 4))
    t = w + gap
    n = 2 * t + isl
    inner = draw(st.sampled_from(['rect', 'tri', 'ring']))
    ip = [(t, t), (t + isl, t), (t + isl, t + isl), (t, t + isl)]
    if inner == 'tri':
        ip = ip[:3]
    polys = [gen._out([(0, 0), (n, 0), (n, n), (0, n)]),
             gen._out([(w, w), (n - w, w), (n - w, n - w), (w, n - w)]),
             gen._out(ip)]
    ops = [['sub', 0, 1, 0], ['or', 3, 2, 0]]
    if inner == 'ring':
        q = mpq(isl, 4)
        polys.append(gen._out([(t + q, t + q), (t + isl - q, t + q),
                               (t + isl - q, t + isl - q)]))
        ops = [['sub', 0, 1, 0], ['or', 4, 2, 0], ['sub', 5, 3, 0]]
    return {'affine': draw(gen.affine()), 'polys': polys, 'ops': ops,
            'amounts': draw(amounts)}


SUBS = [
    Sub('polygons', leaf_case(), run, 520, 9000,
        'one random simple polygon, one or two amounts; the result is '
        'compared with the exact Minkowski sum/erosion on both sides of '
        'every edge, around every possible corner and in every cell; '
        'non-trivial = a result that is not empty'),
    Sub('combinations', combo_case(), run, 240, 5000,
        'results of set operations (holes, several pieces); non-trivial = '
        'a result that is not empty'),
    Sub('islands', island_case(), run, 180, 3000,
        'rings with islands or rings in their holes; non-trivial = a result '
        'that is not empty'),
]
