"""Exact reference model for planar polygonal sets, independent of plycutter.

A region is a list of pieces; a piece is (outer ring, [hole rings]); a ring is
a list of (x, y) exact rationals.  Membership is even-odd per ring, "in outer
and in no hole" per piece, "in some piece" per region.

The deciding routine is `slab_compare`: it cuts the plane into vertical slabs
at every vertex and at every pairwise edge crossing of all the regions that are
involved.  Inside a slab no two edges cross, so two regions agree on the slab
(up to measure zero) iff they agree on the slab's middle line, and there it is
enough to look between consecutive crossings.  The comparison is therefore
exact and complete, not sampled.
"""
from bisect import bisect_left
from gmpy2 import mpq


def Q(v):
    if isinstance(v, str):
        return mpq(v)
    return mpq(v)


def ring_q(ring):
    return [(mpq(p[0]), mpq(p[1])) for p in ring]


def region_q(region):
    return [(ring_q(o), [ring_q(h) for h in hs]) for o, hs in region]


def signed_area(ring):
    """Counter-clockwise positive, exact."""
    s = mpq(0)
    n = len(ring)
    for i in range(n):
        x0, y0 = ring[i]
        x1, y1 = ring[(i + 1) % n]
        s += x0 * y1 - x1 * y0
    return s / 2


def ring_edges(ring):
    n = len(ring)
    for i in range(n):
        yield ring[i], ring[(i + 1) % n]


def region_edges(region):
    for o, hs in region:
        yield from ring_edges(o)
        for h in hs:
            yield from ring_edges(h)


def region_rings(region):
    for o, hs in region:
        yield o
        yield from hs


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on_segment(p, a, b):
    if cross(a, b, p) != 0:
        return False
    return (min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and
            min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def ring_locate(ring, p):
    """1 inside, 0 on the boundary, -1 outside (even-odd, exact)."""
    inside = False
    px, py = p
    for a, b in ring_edges(ring):
        if on_segment(p, a, b):
            return 0
        if (a[1] > py) != (b[1] > py):
            x = a[0] + (py - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if x > px:
                inside = not inside
    return 1 if inside else -1


def piece_locate(piece, p):
    o, hs = piece
    w = ring_locate(o, p)
    if w <= 0:
        return w
    for h in hs:
        w = ring_locate(h, p)
        if w == 0:
            return 0
        if w > 0:
            return -1
    return 1


def region_on_boundary(region, p):
    return any(on_segment(p, a, b) for a, b in region_edges(region))


def region_contains(region, p):
    """Open membership away from edges (caller makes sure p is on no edge)."""
    return any(piece_locate(pc, p) > 0 for pc in region)


def seg_cross_xs(e, f):
    """x coordinates where slab borders are needed because of edges e, f
    (proper or touching crossings; collinear overlaps only have endpoints)."""
    a, b = e
    c, d = f
    if max(a[0], b[0]) <= min(c[0], d[0]) or \
            max(c[0], d[0]) <= min(a[0], b[0]):
        return None
    if max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
        return None
    rx, ry = b[0] - a[0], b[1] - a[1]
    sx, sy = d[0] - c[0], d[1] - c[1]
    den = rx * sy - ry * sx
    if den == 0:
        return None
    t = ((c[0] - a[0]) * sy - (c[1] - a[1]) * sx) / den
    u = ((c[0] - a[0]) * ry - (c[1] - a[1]) * rx) / den
    if 0 <= t <= 1 and 0 <= u <= 1:
        return a[0] + t * rx
    return None


def slab_xs(regions):
    xs = set()
    edges = set()
    for r in regions:
        for a, b in region_edges(r):
            xs.add(a[0])
            if a[0] != b[0]:
                edges.add((a, b) if a < b else (b, a))
    edges = sorted(edges)
    n = len(edges)
    for i in range(n):
        e = edges[i]
        for j in range(i + 1, n):
            f = edges[j]
            if f[0][0] >= e[1][0]:
                break
            x = seg_cross_xs(e, f)
            if x is not None:
                xs.add(x)
    return sorted(xs)


class _Line:
    """A region restricted to a vertical line that avoids all vertices."""

    def __init__(self, region, x):
        self.pieces = []
        self.ys = set()
        for o, hs in region:
            ro = self._ring(o, x)
            if ro:
                self.pieces.append((ro, [r for r in
                                         (self._ring(h, x) for h in hs) if r]))

    def _ring(self, ring, x):
        out = []
        for a, b in ring_edges(ring):
            if (a[0] < x) != (b[0] < x):
                out.append(a[1] + (x - a[0]) * (b[1] - a[1]) / (b[0] - a[0]))
        out.sort()
        self.ys.update(out)
        return out

    def has(self, y):
        for o, hs in self.pieces:
            if bisect_left(o, y) % 2 == 1 and \
                    not any(bisect_left(h, y) % 2 == 1 for h in hs):
                return True
        return False


def slab_points(regions):
    """Yield (point, slab width, y height, [membership per region]) for every
    trapezoid of the common decomposition."""
    xs = slab_xs(regions)
    for x0, x1 in zip(xs, xs[1:]):
        x = (x0 + x1) / 2
        lines = [_Line(r, x) for r in regions]
        ys = sorted(set().union(*[ln.ys for ln in lines]))
        for y0, y1 in zip(ys, ys[1:]):
            y = (y0 + y1) / 2
            yield (x, y), x1 - x0, y1 - y0, [ln.has(y) for ln in lines]


def slab_compare(inputs, op, result):
    """Exact test `result == op(inputs)` up to measure zero.

    Returns (witness or None, exact area of op(inputs), number of cells)."""
    area = mpq(0)
    n = 0
    for pt, w, h, mem in slab_points(list(inputs) + [result]):
        n += 1
        want = bool(op(*mem[:-1]))
        if want:
            area += w * h
        if want != mem[-1]:
            return (pt, want, mem[-1], mem[:-1]), None, n
    return None, area, n


def region_area(region):
    a = mpq(0)
    for pt, w, h, mem in slab_points([region]):
        if mem[0]:
            a += w * h
    return a


# ---------------------------------------------------------------- convex help

def convex_hull(points):
    """Strictly convex hull, counter-clockwise, exact."""
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and cross(out[-2], out[-1], p) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    return half(pts) + half(reversed(pts))


def segment_meets_open_convex(a, b, hull):
    """Does the closed segment ab meet the interior of the ccw convex hull?"""
    t0, t1 = mpq(0), mpq(1)
    dx, dy = b[0] - a[0], b[1] - a[1]
    for p, q in ring_edges(hull):
        # inside: cross(p, q, x) > 0
        ex, ey = q[0] - p[0], q[1] - p[1]
        c0 = ex * (a[1] - p[1]) - ey * (a[0] - p[0])
        cd = ex * dy - ey * dx
        # c0 + t * cd > 0
        if cd == 0:
            if c0 <= 0:
                return False
        elif cd > 0:
            t0 = max(t0, -c0 / cd)
        else:
            t1 = min(t1, -c0 / cd)
        if t0 > t1:
            return False
    if t0 == t1:
        # a single parameter survives the closed constraints; strictness:
        m = t0
        pt = (a[0] + m * dx, a[1] + m * dy)
        return all(cross(p, q, pt) > 0 for p, q in ring_edges(hull))
    m = (t0 + t1) / 2
    pt = (a[0] + m * dx, a[1] + m * dy)
    return all(cross(p, q, pt) > 0 for p, q in ring_edges(hull))


def open_convex_meets_region(hull, region):
    """Does the interior of the convex hull meet the interior of the region?"""
    for a, b in region_edges(region):
        if segment_meets_open_convex(a, b, hull):
            # An edge runs through the open hull, so the hull has points on
            # both sides of it.  For regularised regions one side is inside.
            return True
    n = len(hull)
    c = (sum(p[0] for p in hull) / n, sum(p[1] for p in hull) / n)
    return region_contains(region, c)


def open_convex_inside_region(hull, region):
    """Is the interior of the convex hull within the region?"""
    for a, b in region_edges(region):
        if segment_meets_open_convex(a, b, hull):
            return False
    n = len(hull)
    c = (sum(p[0] for p in hull) / n, sum(p[1] for p in hull) / n)
    return region_contains(region, c)


def dist2_point_segment(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    L = dx * dx + dy * dy
    if L == 0:
        t = mpq(0)
    else:
        t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / L
        t = min(max(t, mpq(0)), mpq(1))
    qx, qy = a[0] + t * dx - p[0], a[1] + t * dy - p[1]
    return qx * qx + qy * qy


def dist2_point_region_boundary(p, region):
    return min(dist2_point_segment(p, a, b) for a, b in region_edges(region))
