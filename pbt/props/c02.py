"""C02: 2D set operations are exact for every expression and operand."""
from hypothesis import strategies as st
from gmpy2 import mpq

import gen
import geo
import ref2d
from harness import Sub, Violation


def classify(ctx, rs, rr, area):
    if area == 0:
        ctx.label('empty result')
    if len(rr) > 1:
        ctx.label('several pieces')
    if any(hs for _, hs in rr):
        ctx.label('result has holes')
    if any(any(hs for _, hs in r) for r in rs):
        ctx.label('operand has holes')
    if len(rs) > 1:
        va = {p for r in rs[:1] for g in ref2d.region_rings(r) for p in g}
        vb = {p for r in rs[1:] for g in ref2d.region_rings(r) for p in g}
        if va & vb:
            ctx.label('operands share vertices')
        if {frozenset(e) for e in ref2d.region_edges(rs[0])} & \
                {frozenset(e) for e in ref2d.region_edges(rs[1])}:
            ctx.label('operands share edges')


def run_pool(case, ctx):
    for p in case['polys']:
        g, r = geo.leaf(case['affine'], p)
        geo.check_same([r], lambda a: a, geo.region(g), 'polygon()')

    def visit(name, gs, rs, res):
        rr = geo.region(res)
        area, n = geo.check_same(rs, geo.model_op(name), rr, name)
        if res.area() != area:
            raise Violation('area() of %s is %s, exact area is %s' %
                            (name, res.area(), area))
        if res.is_empty() != (area == 0):
            raise Violation('is_empty() is %s, exact area is %s' %
                            (res.is_empty(), area))
        for g, r in zip(gs, rs):
            if geo.region(g) != r:
                raise Violation('an operand of %s was modified' % name)
        ctx.label('op ' + name)
        classify(ctx, rs, rr, area)
        ops = [ref2d.slab_xs([r]) for r in rs]
        if n > 2 and all(len(x) > 0 for x in ops):
            ctx.nontrivial()
        return rr
    geo.build_pool(case, visit)


# --- grid model: highly degenerate operands, exact bitset oracle ------------

@st.composite
def grid_case(draw):
    """Sets of grid triangles (each unit square cut by both diagonals)."""
    n = draw(st.integers(2, 4))
    cells = st.integers(0, 4 * n * n - 1)
    full = st.lists(st.integers(0, n * n - 1), max_size=n * n, unique=True)

    def one():
        return st.tuples(full, st.lists(cells, max_size=8, unique=True)).map(
            lambda t: sorted({4 * q + k for q in t[0] for k in range(4)} |
                             set(t[1])))
    return {'n': n, 'sets': draw(st.lists(one(), min_size=2, max_size=3)),
            'affine': draw(gen.affine()),
            'ops': draw(st.lists(st.sampled_from(['or', 'and', 'sub']),
                                 min_size=1, max_size=3))}


def tri_of(n, c):
    q, k = divmod(c, 4)
    x, y = q % n, q // n
    corners = [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]
    mid = (mpq(2 * x + 1, 2), mpq(2 * y + 1, 2))
    return [corners[k], corners[(k + 1) % 4], mid]


def run_grid(case, ctx):
    n, m = case['n'], case['affine']
    G = geo.G2()
    geoms, bits = [], []
    for cells in case['sets']:
        g = G.union([G.polygon(gen.ring(m, tri_of(n, c)), reorient=True)
                     for c in cells])
        geoms.append(g)
        bits.append(set(cells))
    cent = {}
    for c in range(4 * n * n):
        t = tri_of(n, c)
        cent[c] = gen.apply_affine(m, (sum(mpq(p[0]) for p in t) / 3,
                                       sum(mpq(p[1]) for p in t) / 3))
    det = 1
    if m is not None:
        a, b, c_, d = [mpq(v) for v in m[:4]]
        det = abs(a * d - b * c_)

    def verify(g, b, what):
        r = geo.region(g)
        for c, p in cent.items():
            want = c in b
            got = ref2d.region_contains(r, p)
            loc = g.locate(p)
            if want != got or loc != (1 if want else -1):
                raise Violation('%s: grid cell %d should be %s; vertices say '
                                '%s, locate says %s' % (what, c, want, got,
                                                        loc))
        if g.area() != det * len(b) / mpq(4):
            raise Violation('%s: area %s, exact %s' %
                            (what, g.area(), det * len(b) / mpq(4)))
        if len(r) > 1:
            ctx.label('several pieces')
        if any(h for _, h in r):
            ctx.label('holes')
        if any(ref2d.region_contains([(h, [])], q[0][0])
               for o, hs in r for h in hs for q in r):
            ctx.label('island inside a hole')
    for i in range(len(geoms)):
        verify(geoms[i], bits[i], 'union of cells')
    g, b = geoms[0], bits[0]
    for k, op in enumerate(case['ops']):
        o, ob = geoms[(k + 1) % len(geoms)], bits[(k + 1) % len(geoms)]
        g = geo.apply_op(op, [g, o])
        b = {'or': b | ob, 'and': b & ob, 'sub': b - ob}[op]
        verify(g, b, op)
        ctx.label('op ' + op)
    ctx.nontrivial(any(bits) and sum(len(b) for b in bits) > 3)


# --- large unions -----------------------------------------------------------

@st.composite
def many_case(draw):
    return {'n': draw(st.sampled_from([63, 64, 65, 66, 90, 128, 129, 150])),
            'k': draw(st.lists(st.integers(0, 30), min_size=8, max_size=8)),
            'space': draw(st.sampled_from([9, 15, 31]))}


def many_rects(case):
    k, s = case['k'], case['space']
    return [((k[0] + k[1] * i + k[2] * i * i) % s,
             (k[3] + k[4] * i + k[5] * (i // 7)) % s,
             1 + (k[6] + i) % 3, 1 + (k[7] + i // 2) % 2)
            for i in range(case['n'])]


def run_many(case, ctx):
    G = geo.G2()
    cells = set()
    gs = []
    for x, y, w, h in many_rects(case):
        gs.append(G.rectangle(mpq(x), mpq(y), mpq(x + w), mpq(y + h)))
        cells |= {(x + i, y + j) for i in range(w) for j in range(h)}
    g = G.union(gs)
    if g.area() != len(cells):
        raise Violation('union of %d rectangles has area %s, exact %d' %
                        (len(gs), g.area(), len(cells)))
    for x in range(case['space'] + 3):
        for y in range(case['space'] + 2):
            p = (mpq(2 * x + 1, 2), mpq(2 * y + 1, 2))
            if (g.locate(p) > 0) != ((x, y) in cells):
                raise Violation('union of %d rectangles wrong in cell %d,%d'
                                % (len(gs), x, y))
    ctx.label('more than 64 operands' if len(gs) > 64 else '<= 64 operands')
    ctx.nontrivial(len(cells) > 20)


SUBS = [
    Sub('nested', gen.nested_pools(), run_pool, 1000, 15000,
        'concentric polygons subtracted and added in turn, then random '
        'operations: holes, islands in holes, touching pieces; non-trivial '
        'as for histories'),
    Sub('histories', gen.pools(), run_pool, 2400, 40000,
        'pool of 2-4 random simple polygons (rectangles, triangles, convex, '
        'x-monotone, star, comb; optionally under a rational affine map), '
        'then up to 6 operations on pool members; non-trivial = some result '
        'is compared with the exact slab model over more than 2 cells'),
    Sub('grid', grid_case(), run_grid, 600, 8000,
        'operands are unions of grid triangles (shared edges, touching '
        'corners, holes, islands) with a bitset model; non-trivial = more '
        'than 3 triangles'),
    Sub('many', many_case(), run_many, 48, 400,
        'union of 63-150 rectangles against a cell model; non-trivial = '
        'more than 20 cells covered'),
]
