"""Is a Geom2D result in canonical form?  Everything is exact."""
from bisect import bisect_left

from gmpy2 import mpq

import geo
import ref2d
from harness import Violation

FR = type(mpq(1))


def swap(region):
    return [([(y, x) for x, y in o], [[(y, x) for x, y in h] for h in hs])
            for o, hs in region]


def rings(g, what):
    """Raw rings of every piece, checked one by one."""
    for p in g.polygons():
        if not isinstance(p, geo.G2()):
            raise Violation('%s: a piece is not a Geom2D' % what)
        for kind, r in [('outer', list(p.exterior()))] + \
                [('hole', list(h)) for h in p.holes()]:
            if len(r) < 3:
                raise Violation('%s: %s ring with %d vertices' %
                                (what, kind, len(r)))
            for v in r:
                if len(v) != 2 or any(type(c) is not FR for c in v):
                    raise Violation('%s: vertex %r is not a pair of exact '
                                    'rationals' % (what, v))
            q = ref2d.ring_q(r)
            for a, b in ref2d.ring_edges(q):
                if a == b:
                    raise Violation('%s: %s ring repeats vertex %s' %
                                    (what, kind, geo.pt_s(a)))
            if ref2d.signed_area(q) >= 0:
                raise Violation('%s: %s ring is not clockwise (signed area '
                                '%s)' % (what, kind, ref2d.signed_area(q)))


def separation(region, what):
    """Every edge separates inside from outside; pieces are disjoint; holes
    lie in their outer ring and apart from each other; pieces are connected.
    (Edges that are vertical need the second call with swapped axes.)"""
    xs = ref2d.slab_xs([region])
    comp = {}                 # piece index -> list of trapezoids

    def crossings(ring, x, x0, x1):
        out = []
        for a, b in ref2d.ring_edges(ring):
            if (a[0] < x) != (b[0] < x):
                s = (b[1] - a[1]) / (b[0] - a[0])
                out.append((a[1] + (x - a[0]) * s, a[1] + (x0 - a[0]) * s,
                            a[1] + (x1 - a[0]) * s))
        out.sort()
        return out
    for si, (x0, x1) in enumerate(zip(xs, xs[1:])):
        x = (x0 + x1) / 2
        lines = [(crossings(o, x, x0, x1),
                  [crossings(h, x, x0, x1) for h in hs]) for o, hs in region]
        allc = sorted(c for o, hs in lines for r in [o] + hs for c in r)
        for c, d in zip(allc, allc[1:]):
            if c[0] == d[0]:
                raise Violation('%s: two edges run on top of each other '
                                'through (%s, %s)' % (what, x, c[0]))
        if not allc:
            continue
        prev = False
        for k in range(len(allc) - 1):
            y = (allc[k][0] + allc[k + 1][0]) / 2
            owner = []
            for i, (o, hs) in enumerate(lines):
                io = bisect_left(o, (y,)) % 2 == 1
                ih = [bisect_left(h, (y,)) % 2 == 1 for h in hs]
                if sum(ih) > 1:
                    raise Violation('%s: holes overlap at (%s, %s)' %
                                    (what, x, y))
                if any(ih) and not io:
                    raise Violation('%s: a hole leaves its outer ring at '
                                    '(%s, %s)' % (what, x, y))
                if io and not any(ih):
                    owner.append(i)
            if len(owner) > 1:
                raise Violation('%s: pieces overlap at (%s, %s)' %
                                (what, x, y))
            if bool(owner) == prev:
                raise Violation('%s: the edge through (%s, %s) has the same '
                                'side above and below' %
                                (what, x, allc[k][0]))
            prev = bool(owner)
            if owner:
                comp.setdefault(owner[0], []).append(
                    (si, allc[k], allc[k + 1]))
        if not prev:
            raise Violation('%s: the edge through (%s, %s) has no inside' %
                            (what, x, allc[-1][0]))
    for i, traps in comp.items():
        by = {}
        for j, t in enumerate(traps):
            by.setdefault(t[0], []).append(j)
        par = list(range(len(traps)))

        def find(a):
            while par[a] != a:
                par[a] = par[par[a]]
                a = par[a]
            return a
        for j, (s, lo, hi) in enumerate(traps):
            for k in by.get(s + 1, ()):
                _, lo2, hi2 = traps[k]
                if max(lo[2], lo2[1]) < min(hi[2], hi2[1]):
                    par[find(j)] = find(k)
        if len({find(j) for j in range(len(traps))}) > 1:
            raise Violation('%s: one piece is not connected' % what)
    return len(comp)


def check(g, what):
    rings(g, what)
    reg = geo.region(g)
    if reg:
        separation(reg, what)
        separation(swap(reg), what + ' (x and y swapped)')
    segs = [tuple(tuple(mpq(c) for c in p) for p in s)
            for s in g.all_segments()]
    edges = list(ref2d.region_edges(reg))
    if sorted(segs) != sorted(edges):
        raise Violation('%s: all_segments() are not the ring edges' % what)
    return reg
