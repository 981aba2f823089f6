"""Hypothesis strategies.  Everything they yield is JSON-able: numbers are ints
or exact fraction strings ("7/3")."""
from hypothesis import strategies as st
from gmpy2 import mpq

import ref2d

# 16 directions in counter-clockwise order
DIRS = [(1, 0), (2, 1), (1, 1), (1, 2), (0, 1), (-1, 2), (-1, 1), (-2, 1),
        (-1, 0), (-2, -1), (-1, -1), (-1, -2), (0, -1), (1, -2), (1, -1),
        (2, -1)]


def qs(v):
    """Exact number to JSON."""
    v = mpq(v)
    return int(v) if v.denominator == 1 else '%d/%d' % (v.numerator,
                                                        v.denominator)


@st.composite
def fractions(draw, lo=-50, hi=50, den=12):
    d = draw(st.integers(1, den))
    return qs(mpq(draw(st.integers(lo * d, hi * d)), d))


@st.composite
def floaty(draw, lo=-100.0, hi=100.0):
    """Exact value of a binary float, as an STL file would give."""
    return qs(mpq(draw(st.floats(lo, hi, allow_nan=False, width=64))))


def numbers(lo=-50, hi=50):
    return st.one_of(st.integers(lo, hi), fractions(lo, hi),
                     floaty(float(lo), float(hi)),
                     st.integers(-10 ** 6, 10 ** 6).map(
                         lambda k: qs(mpq(k, 10 ** 7 + 19))))


def coords(hi=8):
    return st.one_of(st.integers(0, hi), st.integers(0, hi),
                     st.integers(0, 2 * hi).map(lambda k: qs(mpq(k, 2))))


def _fix(pts):
    """Make a point list non-collinear, deterministically."""
    h = ref2d.convex_hull([(mpq(a), mpq(b)) for a, b in pts])
    if len(h) < 3:
        x, y = mpq(pts[0][0]), mpq(pts[0][1])
        h = ref2d.convex_hull(h + [(x, y), (x + 2, y), (x, y + 1),
                                   (x + 1, y + 2)])
    return h


def _out(pts):
    return [[qs(x), qs(y)] for x, y in pts]


@st.composite
def rect(draw, hi=8):
    x = draw(st.integers(0, hi - 1))
    y = draw(st.integers(0, hi - 1))
    w = draw(st.integers(1, hi - x))
    h = draw(st.integers(1, hi - y))
    return _out([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])


@st.composite
def triangle(draw, hi=8):
    pts = draw(st.lists(st.tuples(coords(hi), coords(hi)), min_size=3,
                        max_size=3))
    pts = _fix(pts)[:3]
    return _out(pts)


@st.composite
def convex(draw, hi=8):
    pts = draw(st.lists(st.tuples(coords(hi), coords(hi)), min_size=3,
                        max_size=8))
    return _out(_fix(pts))


@st.composite
def monotone(draw, hi=8, nmax=5):
    """x-monotone simple polygon: reflex vertices, verticals, collinear
    vertices."""
    xs = sorted(draw(st.lists(st.integers(0, hi), min_size=2, max_size=nmax,
                              unique=True)))
    lo, up = [], []
    for x in xs:
        a = draw(st.integers(0, hi - 1))
        b = draw(st.integers(1, hi - a))
        lo.append((mpq(x), mpq(a)))
        up.append((mpq(x), mpq(a + b)))
    if len(xs) > 2 and draw(st.booleans()):
        up = up[1:]                 # pointed left end
    if len(xs) > 2 and draw(st.booleans()):
        up = up[:-1]                # pointed right end
    pts = lo + up[::-1]
    return _out(pts)


@st.composite
def star(draw, cx=4, cy=4):
    """Star-shaped around a centre: sharp spikes and deep notches."""
    idx = sorted(draw(st.sets(st.integers(0, 15), min_size=3, max_size=8)))
    pts = []
    n = len(idx)
    gap = None
    for k, i in enumerate(idx):
        r = mpq(draw(st.integers(1, 4)), 2)
        d = DIRS[i]
        pts.append((cx + r * d[0], cy + r * d[1]))
        nxt = idx[(k + 1) % n] + (16 if k == n - 1 else 0)
        if nxt - i >= 8:
            gap = k
    if gap is not None:
        pts.insert(gap + 1, (mpq(cx), mpq(cy)))
    if len(ref2d.convex_hull(pts)) < 3 or ref2d.signed_area(pts) == 0:
        pts = [(mpq(cx), mpq(cy)), (mpq(cx + 2), mpq(cy)),
               (mpq(cx), mpq(cy + 1))]
    return _out(pts)


@st.composite
def comb(draw):
    """Rectilinear comb / finger edge."""
    n = draw(st.integers(1, 4))
    base = draw(st.integers(1, 3))
    pts = [(0, 0)]
    top = []
    x = 0
    for _ in range(n):
        w = draw(st.integers(1, 2))
        h = draw(st.integers(1, 4))
        top += [(x, base + h), (x + w, base + h)]
        x += w
        g = draw(st.integers(1, 2))
        top += [(x, base), (x + g, base)]
        x += g
    pts = [(0, 0), (x, 0)] + top[::-1]
    # drop consecutive duplicates
    out = []
    for p in pts:
        if not out or out[-1] != p:
            out.append(p)
    return _out([(mpq(a), mpq(b)) for a, b in out])


def polygon(hi=8):
    return st.one_of(rect(hi), triangle(hi), convex(hi), monotone(hi),
                     monotone(hi), star(), comb())


@st.composite
def affine(draw):
    """Invertible rational affine map, often the identity; includes shears,
    rotations by rational angles, reflections, large offsets, tiny scale."""
    kind = draw(st.sampled_from(['id', 'id', 'rot', 'shear', 'mirror', 'any',
                                 'far', 'small', 'float']))
    if kind == 'id':
        return None
    if kind == 'rot':
        a, b, c = draw(st.sampled_from([(3, 4, 5), (5, 12, 13), (8, 15, 17),
                                        (20, 21, 29)]))
        return [qs(mpq(a, c)), qs(mpq(-b, c)), qs(mpq(b, c)), qs(mpq(a, c)),
                draw(fractions()), draw(fractions())]
    if kind == 'shear':
        return [1, draw(fractions(-3, 3)), 0, 1, 0, 0]
    if kind == 'mirror':
        return draw(st.sampled_from([[-1, 0, 0, 1, 3, 0], [0, 1, 1, 0, 0, 0],
                                     [1, 0, 0, -1, 0, '1/3']]))
    if kind == 'far':
        return [1, 0, 0, 1, draw(st.integers(-10 ** 5, 10 ** 5)),
                draw(floaty(-1e4, 1e4))]
    if kind == 'small':
        return ['1/1000', 0, 0, '1/997', 0, 0]
    if kind == 'float':
        m = [draw(floaty(-2.0, 2.0)) for _ in range(4)]
    else:
        m = [draw(fractions(-4, 4)) for _ in range(4)]
    if mpq(m[0]) * mpq(m[3]) - mpq(m[1]) * mpq(m[2]) == 0:
        m = [1, draw(fractions(-4, 4)), 0, 1]
    return m + [draw(fractions()), draw(fractions())]


def apply_affine(m, p):
    x, y = mpq(p[0]), mpq(p[1])
    if m is None:
        return (x, y)
    a, b, c, d, e, f = [mpq(v) for v in m]
    return (a * x + b * y + e, c * x + d * y + f)


def ring(m, pts):
    return [apply_affine(m, p) for p in pts]


@st.composite
def inset(draw, box, depth):
    """Nested shapes inside box (x0, y0, x1, y1), outermost first; each one
    may touch the one around it in points or along sides."""
    x0, y0, x1, y1 = box
    pts = draw(st.lists(st.tuples(st.integers(x0, x1), st.integers(y0, y1)),
                        min_size=3, max_size=6))
    if draw(st.booleans()):
        pts += [(x0, y0), (x1, y1), (x0, y1), (x1, y0)]
    out = [_out(_fix(pts))]
    if depth > 1 and x1 - x0 > 2 and y1 - y0 > 2:
        dx = draw(st.integers(0, (x1 - x0 - 1) // 2))
        dy = draw(st.integers(0, (y1 - y0 - 1) // 2))
        out += draw(inset((x0 + dx, y0 + dy, x1 - dx, y1 - dy), depth - 1))
    return out


@st.composite
def nested_pools(draw, opmax=4):
    """Concentric shapes, subtracted and added in turn: holes, islands in
    holes, holes in islands, pieces touching in points."""
    polys = [_out([(0, 0), (12, 0), (12, 12), (0, 12)])]
    polys += draw(inset((1, 1, 11, 11), 4))
    n = len(polys)
    ops = []
    cur = 0
    for i in range(1, n):
        ops.append([draw(st.sampled_from(['sub', 'sub', 'sub', 'or']))
                    if i % 2 else 'or', cur, i, 0])
        cur = n + i - 1
    if draw(st.booleans()):
        polys.append(draw(polygon(12)))
        # Indices move by one: the results come after the new leaf
        ops = [[o, a if a < n else a + 1, b, c] for o, a, b, c in ops]
        cur += 1
        ops.append([draw(st.sampled_from(['sub', 'and', 'or'])), cur, n, 0])
    ops += draw(st.lists(
        st.tuples(st.sampled_from(['or', 'and', 'sub', 'union']),
                  st.integers(0, 9), st.integers(0, 9),
                  st.integers(0, 9)).map(list), max_size=opmax))
    return {'affine': draw(affine()), 'polys': polys, 'ops': ops}


@st.composite
def pools(draw, nmin=2, nmax=4, opmax=6, hi=8, poly=None, ops=None):
    """A pool of leaf polygons and a history of set operations on it."""
    polys = draw(st.lists(poly or polygon(hi), min_size=nmin, max_size=nmax))
    names = ops or ['or', 'and', 'sub', 'sub', 'union']
    hist = draw(st.lists(
        st.tuples(st.sampled_from(names), st.integers(0, 9),
                  st.integers(0, 9), st.integers(0, 9)).map(list),
        min_size=1, max_size=opmax))
    return {'affine': draw(affine()), 'polys': polys, 'ops': hist}
