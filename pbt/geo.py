"""Bridges between plycutter's Geom2D and the reference model (public API
only)."""
from gmpy2 import mpq

import gen
import ref2d
from harness import Violation

OPS = {
    'or': lambda a, b: a or b,
    'and': lambda a, b: a and b,
    'sub': lambda a, b: a and not b,
}


def G2():
    from plycutter.geometry.geom2d import Geom2D
    return Geom2D


def G1():
    from plycutter.geometry.geom1d import Geom1D
    return Geom1D


def region(g):
    """The point set a Geom2D stands for, read through its public API."""
    if not isinstance(g, G2()):
        raise Violation('expected a Geom2D, got %r' % type(g))
    return ref2d.region_q([(list(p.exterior()), list(p.holes()))
                           for p in g.polygons()])


def n_edges(reg):
    return sum(1 for _ in ref2d.region_edges(reg))


def rect_region(x0, y0, x1, y1):
    return [([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], [])]


def leaf(m, pts):
    """Leaf polygon: Geom2D and its region from the raw vertex list."""
    r = gen.ring(m, pts)
    return G2().polygon(r, reorient=True), [(r, [])]


def apply_op(name, gs):
    if name == 'or':
        return gs[0] | gs[1]
    if name == 'and':
        return gs[0] & gs[1]
    if name == 'sub':
        return gs[0] - gs[1]
    if name == 'union':
        return G2().union(gs)
    raise AssertionError(name)


def model_op(name):
    if name == 'union':
        return lambda *m: any(m)
    return OPS[name]


def pt_s(p):
    return '(%s, %s)' % (gen.qs(p[0]), gen.qs(p[1]))


def check_same(inputs, op, result, what):
    """inputs, result are regions.  Raise unless result == op(inputs)."""
    w, area, n = ref2d.slab_compare(inputs, op, result)
    if w is not None:
        raise Violation('%s is wrong at %s: expected %s, got %s; operands '
                        'there: %s' % (what, pt_s(w[0]), w[1], w[2], w[3]))
    return area, n


def build_pool(case, visit, max_edges=70):
    """Run a pool history; call visit(name, operand geoms, operand regions,
    result) after each operation."""
    pool = []
    for p in case['polys']:
        g, r = leaf(case['affine'], p)
        pool.append((g, region(g)))
    for name, i, j, k in case['ops']:
        idx = [i % len(pool), j % len(pool)]
        if name == 'union':
            idx.append(k % len(pool))
        gs = [pool[q][0] for q in idx]
        rs = [pool[q][1] for q in idx]
        res = apply_op(name, gs)
        rr = visit(name, gs, rs, res)
        if n_edges(rr) <= max_edges:
            pool.append((res, rr))
    return pool
