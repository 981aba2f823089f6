"""Runs of the whole pipeline on generated models, and where the parts lie in
space."""
import math

import numpy as np
from gmpy2 import mpq
from hypothesis import strategies as st

import models
from harness import Reject, Violation


@st.composite
def runs(draw, kinds=None, lo=4, hi=6, mesh=0.35, strip=0.0, far=200,
         rotate=True, angles=None, bends=(1, 1, 2), radius=True):
    m = draw(models.models(kinds, strip=strip, lo=lo, hi=hi, far=far,
                           rotate=rotate, angles=angles, bends=bends))
    p = draw(models.pipeline_params(m['t']))
    if not radius:
        p['support_radius'] = models.gen.qs(2 * mpq(m['t']))
    return {'m': m, 'p': p,
            'mesh': models.is_prism(m) or models.chance(draw, mesh)}


def check_model(m):
    if not models.is_prism(m):
        b = models.kit_boxes(m)
        if not b.manifold() or not (m['kind'] in ('block', 'pair') or b.connected()):
            raise Reject


def extract(case):
    """The sheetplex: from the mesh, or the exact one of a box kit."""
    from plycutter.create_sheetplex import create_sheetplex
    m = case['m']
    p = models.real_params(case['p'])
    if case['mesh']:
        mesh = models.build(m)
        if mesh is None:
            raise Reject
        return create_sheetplex(mesh, p), p
    return models.plex(models.box_sheets(m)), p


def run(case):
    from plycutter.canned import canned_1
    check_model(case['m'])
    sp, p = extract(case)
    if len(sp.sheets) != case['m']['n']:
        raise Reject                    # C10 looks at that
    return sp, p, canned_1(sp, p)


# --- cross sections of parts --------------------------------------------------

class Part:
    """A finished part: its outline in 2D, and where it is in space."""

    def __init__(self, sheet, geom, t):
        self.R = np.array(sheet.slice_rotation[:3, :3], float)
        self.n = np.array(sheet.sides[0, :3], float)
        self.off = float(sheet.sides[0, 3])
        self.t = t
        self.shape = models.to_shapely(geom) if not geom.is_empty() else None
        e = []
        for p in geom.polygons():
            for ring in [list(p.exterior())] + [list(h) for h in p.holes()]:
                r = [(float(x), float(y)) for x, y in ring]
                e += list(zip(r, r[1:] + r[:1]))
        self.edges = np.array(e, float).reshape(-1, 2, 2)

    def frame(self, D):
        d2 = self.R[:, :2].T @ D
        n2 = np.array([-d2[1], d2[0]])
        return d2, n2, self.R[:, :2] @ n2

    def lines(self, D):
        """Edges in coordinates (along D, across)."""
        d2, n2, N = self.frame(D)
        return self.edges @ np.stack([d2, n2], 1), N


def cut(edges, x):
    """Intervals of a shape on the line at x."""
    a, b = edges[:, 0], edges[:, 1]
    k = (a[:, 0] < x) != (b[:, 0] < x)
    a, b = a[k], b[k]
    q = np.sort(a[:, 1] + (x - a[:, 0]) * (b[:, 1] - a[:, 1]) /
                (b[:, 0] - a[:, 0]))
    return [(q[i], q[i + 1]) for i in range(0, len(q) - 1, 2)]


def overlap(P, Q):
    """Volume in both parts (in non-parallel sheets), and the length of the
    joint in which there is any."""
    from shapely.geometry import Polygon
    D = np.cross(P.n, Q.n)
    s = np.linalg.norm(D)
    if s < 1e-4 or not len(P.edges) or not len(Q.edges):
        return 0.0, 0.0
    D = D / s
    eP, NP_ = P.lines(D)
    eQ, NQ = Q.lines(D)
    lo = max(eP[:, :, 0].min(), eQ[:, :, 0].min())
    hi = min(eP[:, :, 0].max(), eQ[:, :, 0].max())
    if lo >= hi:
        return 0.0, 0.0
    # Basis across the joint
    e1, e2 = NP_, P.n

    def band(A, NA, B):
        """Range of the across coordinate on A inside the slab of B."""
        al, be = B.n @ A.n, B.n @ NA
        q = [(k - al * h) / be for k in (B.off - B.t, B.off)
             for h in (A.off - A.t, A.off)]
        return min(q), max(q)
    bP, bQ = band(P, NP_, Q), band(Q, NQ, P)

    def rect(A, NA, iv):
        pts = []
        for q, h in ((iv[0], A.off - A.t), (iv[1], A.off - A.t),
                     (iv[1], A.off), (iv[0], A.off)):
            v = q * NA + h * A.n
            pts.append((v @ e1, v @ e2))
        return Polygon(pts)

    def near(e, b):
        """Edges that pass the band."""
        k = (e[:, :, 1].max(1) >= b[0] - 1e-9) & \
            (e[:, :, 1].min(1) <= b[1] + 1e-9)
        return e[k]
    xs = np.concatenate([near(eP, bP)[:, :, 0].ravel(),
                         near(eQ, bQ)[:, :, 0].ravel(), [lo, hi]])
    xs = np.unique(xs[(xs >= lo) & (xs <= hi)])
    vol = length = 0.0
    for x0, x1 in zip(xs, xs[1:]):
        if x1 - x0 < 1e-9:
            continue
        x = (x0 + x1) / 2

        def clip(iv, b):
            return [(max(u, b[0]), min(v, b[1])) for u, v in iv
                    if max(u, b[0]) < min(v, b[1])]
        ip, iq = clip(cut(eP, x), bP), clip(cut(eQ, x), bQ)
        a = sum(models.s_and(rect(P, NP_, u), rect(Q, NQ, v), 1e-8).area
                for u in ip for v in iq)
        if a > 1e-7:
            vol += a * (x1 - x0)
            length += x1 - x0
    return vol, length


def parts_of(sp, cuts, t):
    return {k: Part(sp.sheets[k], cuts[k], t) for k in sp.sheets}


def rects_in_sheet(sheet, pl, ax, rects, h):
    """Rectangles of a box section, as a shapely shape in the coordinates of
    the sheet."""
    from shapely.geometry import Polygon
    a1, a2 = (ax + 1) % 3, (ax + 2) % 3
    out = []
    for u0, v0, u1, v1 in rects:
        q = []
        for u, v in ((u0, v0), (u1, v0), (u1, v1), (u0, v1)):
            p = [0, 0, 0]
            p[ax], p[a1], p[a2] = h, u, v
            q.append(p)
        out.append(Polygon(models.model_to_sheet(sheet, pl, q)))
    return models.s_union(out)


HOME = {'q': [1, 0, 0, 0], 'd': [0, 0, 0]}


def outside_model(case, sp, parts):
    """Largest area by which a part leaves the model at some depth (box
    kits)."""
    m = case['m']
    b = models.kit_boxes(m)
    pl = m['place'] if case['mesh'] else HOME
    rot = models.rot_matrix(pl['q'])
    worst = (0.0, None)
    for k, P in parts.items():
        if P.shape is None:
            continue
        nm = rot.T @ P.n                # in the coordinates of the kit
        ax = int(np.argmax(np.abs(nm)))
        if abs(abs(nm[ax]) - 1) > 1e-6:
            return None
        s = 1 if nm[ax] > 0 else -1
        top = P.off - np.array(pl['d'], float) @ P.n
        lo = s * top - P.t if s > 0 else s * top
        levels = [float(c) for c in b.cs[ax]
                  if lo - 1e-6 < float(c) < lo + P.t + 1e-6]
        levels = sorted({round(c, 6) for c in levels} |
                        {round(lo, 6), round(lo + P.t, 6)})
        for h0, h1 in zip(levels, levels[1:]):
            if h1 - h0 < 1e-3:
                continue
            h = mpq((h0 + h1) / 2)
            sec = rects_in_sheet(sp.sheets[k], pl, ax, b.section(ax, h), h)
            a = models.s_sub(P.shape, sec.buffer(1e-6), 1e-7).area
            if a > worst[0]:
                worst = (a, '%s at depth %.4f' % (k, h1))
    return worst
