"""C04: 2D constructors, queries and conversions agree with one point set."""
from hypothesis import strategies as st
from gmpy2 import mpq
import numpy as np

import gen
import geo
import ref2d
import wellformed
from harness import Sub, Violation
from props.c01 import m_from, m_intervals


def probes(reg, grid):
    """Points inside, outside, on vertices, on edges, level with vertices."""
    vs = sorted({v for r in ref2d.region_rings(reg) for v in r})
    es = list(ref2d.region_edges(reg))
    out = list(vs)
    for i, (a, b) in enumerate(es):
        t = mpq(1 + (i + grid) % 5, 6)
        out.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
    xs = sorted({v[0] for v in vs})
    ys = sorted({v[1] for v in vs})

    def mids(z):
        return [z[0] - 1] + [(p + q) / 2 for p, q in zip(z, z[1:])] + \
            [z[-1] + 1]
    if vs:
        k = 0
        for x in (mids(xs) + xs):
            for y in (mids(ys) + ys):
                k += 1
                if (k + grid) % 5 == 0 or len(xs) * len(ys) < 30:
                    out.append((x, y))
    else:
        out = [(mpq(0), mpq(0)), (mpq(grid), mpq(1, 3))]
    return out


def truth(reg, p):
    if ref2d.region_on_boundary(reg, p):
        return 0
    return 1 if ref2d.region_contains(reg, p) else -1


def check_queries(g, reg, ctx, grid, what):
    """reg: independent knowledge of the set (canonical rings)."""
    for p in probes(reg, grid):
        w = truth(reg, p)
        got = g.locate(p)
        if got != w:
            raise Violation('%s: locate(%s) is %s, the truth is %s' %
                            (what, geo.pt_s(p), got, w))
    a = ref2d.region_area(reg)
    if g.area() != a:
        raise Violation('%s: area() is %s, exact %s' % (what, g.area(), a))
    if g.is_empty() != (a == 0):
        raise Violation('%s: is_empty() is %s' % (what, g.is_empty()))


def build(case):
    pool = []
    m = case['affine']
    for p in case['polys']:
        pool.append(geo.leaf(m, p)[0])
    for name, i, j, k in case['ops']:
        n = len(pool)
        gs = [pool[i % n], pool[j % n]] + \
            ([pool[k % n]] if name == 'union' else [])
        pool.append(geo.apply_op(name, gs))
        if geo.n_edges(geo.region(pool[-1])) > 60:
            pool.pop()
    g = pool[-1]
    for q in reversed(pool):
        if not q.is_empty():
            return q
    return g


def label(ctx, reg):
    if len(reg) > 1:
        ctx.label('several pieces')
    if any(hs for _, hs in reg):
        ctx.label('holes')
    if not reg:
        ctx.label('empty')


def run_locate(case, ctx):
    g = build(case)
    reg = geo.region(g)
    check_queries(g, reg, ctx, len(case['ops']), 'result')
    label(ctx, reg)
    ps = g.polygons()
    if len(ps) != len(reg):
        raise Violation('polygons() gives %d pieces' % len(ps))
    parts = [geo.region(p) for p in ps]
    if sum((p.area() for p in ps), mpq(0)) != g.area():
        raise Violation('areas of polygons() do not add up')
    back = geo.G2().union(ps)
    geo.check_same(parts, lambda *b: any(b), geo.region(back),
                   'union of polygons()')
    if len(reg) > 1:
        for f in (lambda: g.exterior(), lambda: list(g.holes())):
            try:
                f()
            except Exception:
                continue
            raise Violation('exterior()/holes() answered for a set of '
                            'several pieces')
    ctx.nontrivial(geo.n_edges(reg) > 3)


@st.composite
def spread_pools(draw):
    """Separate, touching and overlapping shapes in a row."""
    ps = draw(st.lists(gen.polygon(), min_size=2, max_size=4))
    x = 0
    out = []
    for p in ps:
        out.append(_shift(p, x, draw(st.integers(-3, 3))))
        x += draw(st.integers(5, 12))
    n = len(out)
    ops = [['or', 0, 1, 0]] + [['or', n + i - 2, i, 0] for i in range(2, n)]
    return {'affine': draw(gen.affine()), 'polys': out, 'ops': ops}


@st.composite
def proj_case(draw):
    c = draw(st.one_of(gen.nested_pools(2), gen.pools(), spread_pools()))
    c['vec'] = draw(st.one_of(
        st.sampled_from([[1, 0], [0, 1], [-1, 0], [0, -1], ['3/5', '4/5'],
                         ['-5/13', '12/13']]),
        st.tuples(gen.fractions(-3, 3), gen.fractions(-3, 3)).map(list),
        st.tuples(gen.floaty(-1.0, 1.0), gen.floaty(-1.0, 1.0)).map(list)))
    c['offs'] = draw(gen.numbers())
    return c


def run_project(case, ctx):
    g = build(case)
    vx, vy = [mpq(v) for v in case['vec']]
    if vx == 0 and vy == 0:
        vx = mpq(1)
    offs = mpq(case['offs'])
    reg = geo.region(g)
    label(ctx, reg)
    got = g.project_to_1d(np.array([vx, vy], object), offs)
    if not isinstance(got, geo.G1()):
        raise Violation('project_to_1d gives no Geom1D')

    def t(r):
        return [(vx * x + vy * y + offs, vx * y - vy * x) for x, y in r]
    treg = [(t(o), [t(h) for h in hs]) for o, hs in reg]
    xs = ref2d.slab_xs([treg])
    hit = set()
    for pt, w, h, mem in ref2d.slab_points([treg]):
        if mem[0]:
            hit.add((pt[0] - w / 2, pt[0] + w / 2))
    want = m_intervals(m_from(sorted(hit))[0])
    if list(map(tuple, got.get_intervals())) != want:
        raise Violation('project_to_1d(%s, %s) is %s, exact %s' %
                        (case['vec'], offs, got.get_intervals(), want))
    if len(want) > 1:
        ctx.label('several intervals')
    ctx.nontrivial(len(xs) > 2)


@st.composite
def transform_case(draw):
    c = draw(st.one_of(gen.nested_pools(2), gen.pools()))
    c['f'] = draw(gen.affine()) or [2, 0, 0, 3, '1/2', -7]
    return c


def run_transform(case, ctx):
    g = build(case)
    m = case['f']
    a, b, c, d, e, f = [mpq(v) for v in m]
    A = np.array([[a, b], [c, d]], object)
    T = np.array([e, f], object)
    h = g.transformed_with(lambda v: np.array(v, object).dot(A.T) + T)
    reg = geo.region(g)
    label(ctx, reg)
    want = [(gen.ring(m, o), [gen.ring(m, x) for x in hs]) for o, hs in reg]
    geo.check_same([want], lambda v: v, geo.region(h), 'transformed_with')
    wellformed.check(h, 'transformed_with')
    det = abs(a * d - b * c)
    if h.area() != det * g.area():
        raise Violation('area after the transformation is %s, exact %s' %
                        (h.area(), det * g.area()))
    # The result must be usable
    k = h - geo.leaf(m, case['polys'][0])[0]
    geo.check_same([want, geo.leaf(m, case['polys'][0])[1]],
                   lambda u, v: u and not v, geo.region(k),
                   'difference after transformed_with') \
        if case['affine'] is None else None
    if a * d - b * c < 0:
        ctx.label('mirrored')
    ctx.nontrivial(geo.n_edges(reg) > 3)


@st.composite
def shapely_case(draw):
    sep = 40
    polys = []
    for i in range(draw(st.integers(0, 3))):
        hull = _ccw_box(i * sep, draw(st.booleans()))
        holes = []
        if draw(st.booleans()):
            holes.append(_shift(draw(gen.convex(5)), i * sep + 1, 1))
        if draw(st.booleans()):
            holes.append(_shift(draw(gen.rect(4)), i * sep + 8, 7))
        polys.append([hull, holes])
    # Pieces of any size: what remains of a buffer may be tiny
    return {'polys': polys, 'rot': draw(st.integers(0, 20)),
            'scale': [draw(st.sampled_from([1, 1, 1, 1e-2, 1e-3, 1e-4]))
                      for _ in polys],
            'flip': draw(st.integers(0, 3)), 'single': draw(st.booleans()),
            'kind': draw(st.sampled_from(['multi', 'collection']))}


def _shift(ring, dx, dy):
    return [[gen.qs(mpq(x) + dx), gen.qs(mpq(y) + dy)] for x, y in ring]


def _ccw_box(x, notch):
    p = [[x, 0], [x + 15, 0], [x + 15, 12], [x, 12]]
    if notch:
        p.insert(3, [x + 7, '25/2'])
    return p


def run_shapely(case, ctx):
    import math
    import shapely.geometry as sg
    ang = case['rot'] * 0.3
    co, si = math.cos(ang), math.sin(ang)

    def fr(ring, flip, x0, s):
        q = [(x0 + (float(mpq(x)) - x0) * s, float(mpq(y)) * s)
             for x, y in ring]
        r = [(x * co - y * si, x * si + y * co) for x, y in q]
        return r[::-1] if flip else r
    sh, want = [], []
    for i, (o, hs) in enumerate(case['polys']):
        s = case['scale'][i]
        if s < 1:
            ctx.label('small piece')
        ro = fr(o, case['flip'] & 1, i * 40, s)
        rh = [fr(h, case['flip'] & 2, i * 40, s) for h in hs]
        # A hull is convex, rounding cannot make it overlap its neighbours
        sh.append(sg.Polygon(ro, rh))
        want.append(([(mpq(x), mpq(y)) for x, y in ro],
                     [[(mpq(x), mpq(y)) for x, y in h] for h in rh]))
    if case['single'] and len(sh) == 1:
        obj = sh[0]
    elif case['kind'] == 'multi':
        obj = sg.MultiPolygon(sh)
    else:
        obj = sg.GeometryCollection(sh)
    g = geo.G2().from_shapely(obj)
    wellformed.check(g, 'from_shapely')
    geo.check_same([want], lambda v: v, geo.region(g), 'from_shapely')
    ctx.label(obj.geom_type)
    if any(h for _, h in want):
        ctx.label('holes')
    ctx.nontrivial(len(want) > 0)


@st.composite
def ctor_case(draw):
    kind = draw(st.sampled_from(['rectangle', 'rectangle', 'polygon',
                                 'polygon', 'wrong way', 'float', 'flat']))
    c = {'kind': kind}
    if kind == 'rectangle':
        c['c'] = [draw(gen.numbers()) for _ in range(4)]
        if mpq(c['c'][0]) == mpq(c['c'][2]):
            c['c'][2] = gen.qs(mpq(c['c'][0]) + 1)
        if mpq(c['c'][1]) == mpq(c['c'][3]):
            c['c'][3] = gen.qs(mpq(c['c'][1]) - 2)
    else:
        c['poly'] = draw(gen.polygon())
        c['affine'] = draw(gen.affine())
        c['rev'] = draw(st.booleans())
        c['roll'] = draw(st.integers(0, 5))
    return c


def run_ctor(case, ctx):
    G = geo.G2()
    kind = case['kind']
    ctx.label(kind)
    if kind == 'rectangle':
        x0, y0, x1, y1 = [mpq(v) for v in case['c']]
        g = G.rectangle(x0, y0, x1, y1)
        reg = geo.rect_region(min(x0, x1), min(y0, y1), max(x0, x1),
                              max(y0, y1))
        ctx.nontrivial(x0 > x1 or y0 > y1)
    else:
        r = gen.ring(case['affine'], case['poly'])
        k = case['roll'] % len(r)
        r = r[k:] + r[:k]
        if case['rev']:
            r = r[::-1]
        cw = ref2d.signed_area(r) < 0
        if kind == 'polygon':
            g = G.polygon(r, reorient=True)
            reg = [(r, [])]
            ctx.nontrivial(not cw)
            if cw:
                h = G.polygon(r)
                geo.check_same([reg], lambda v: v, geo.region(h), 'polygon()')
        else:
            if kind == 'wrong way':
                bad = [r[::-1] if cw else r, False]
            elif kind == 'float':
                bad = [[(float(x) + 0.5, float(y) + 0.25) for x, y in r],
                       True]
                if all(c == int(c) for p in bad[0] for c in p):
                    bad[0][0] = (0.5, bad[0][0][1])
            else:
                bad = [[r[0], r[1], r[0], r[1]] if case['rev'] else
                       [r[0], r[1], ((r[0][0] + r[1][0]) / 2,
                                     (r[0][1] + r[1][1]) / 2)], True]
            ctx.nontrivial()
            try:
                G.polygon(bad[0], reorient=bad[1])
            except Exception:
                return
            raise Violation('polygon(%s, reorient=%s) was accepted' %
                            (bad[0], bad[1]))
    wellformed.rings(g, kind)
    geo.check_same([reg], lambda v: v, geo.region(g), kind)
    check_queries(g, reg, ctx, 0, kind)


either = st.one_of(gen.nested_pools(2), gen.pools(), spread_pools())
SUBS = [
    Sub('locate', either, run_locate, 1500, 16000,
        'result of random operations, probed on vertices, edges, level with '
        'vertices, inside and outside; pieces; non-trivial = more than 3 '
        'edges'),
    Sub('project', proj_case(), run_project, 1500, 16000,
        'projection along a random direction against the slab model; '
        'non-trivial = more than one slab'),
    Sub('transform', transform_case(), run_transform, 900, 10000,
        'random affine map (turns, shears, mirrors) of a result; '
        'non-trivial = more than 3 edges'),
    Sub('from_shapely', shapely_case(), run_shapely, 900, 6000,
        '0-3 polygons with 0-2 holes in either orientation, as Polygon, '
        'MultiPolygon or GeometryCollection; non-trivial = not empty'),
    Sub('constructors', ctor_case(), run_ctor, 1800, 16000,
        'rectangle with any two corners, polygon with any start and '
        'orientation, and input that must be refused; non-trivial = '
        'reoriented or refused'),
]
