"""Generated models: meshes of plates together with the solid they stand for.

Box models are unions of axis-parallel plates minus boxes; prisms are a simple
2D profile (bent strips, branches at any angle) times an interval.  A model is
JSON-able; `Placed` puts it somewhere in space.
"""
import math

import numpy as np
from gmpy2 import mpq
from hypothesis import strategies as st

import gen

PARAMS = dict(thickness=6, min_finger_width=3, max_finger_width=5,
              support_radius=12, random_seed=42, only_sheets=None)


def params(**kw):
    p = dict(PARAMS)
    for k, v in kw.items():
        p[k] = mpq(v) if isinstance(v, str) and k != 'only_sheets' else v
    return p


# --- solids made of boxes ---------------------------------------------------

class Boxes:
    """Union of `add` minus `cut`; boxes are (x0, y0, z0, x1, y1, z1)."""

    def __init__(self, add, cut=()):
        self.add = [[mpq(v) for v in b] for b in add]
        self.cut = [[mpq(v) for v in b] for b in cut]
        allb = self.add + self.cut
        self.cs = [sorted({b[i] for b in allb} | {b[i + 3] for b in allb})
                   for i in range(3)]
        n = [len(c) - 1 for c in self.cs]
        # One empty layer all around
        self.occ = np.zeros([k + 2 for k in n], bool)
        for val, bs in ((True, self.add), (False, self.cut)):
            for b in bs:
                ix = [slice(self.cs[i].index(b[i]) + 1,
                            self.cs[i].index(b[i + 3]) + 1)
                      for i in range(3)]
                self.occ[tuple(ix)] = val

    def manifold(self):
        """No two cells that touch only in an edge or a vertex."""
        o = self.occ
        for a, b in ((0, 1), (0, 2), (1, 2)):
            def sh(x, y):
                s = [slice(None)] * 3
                s[a] = slice(1, None) if x else slice(None, -1)
                s[b] = slice(1, None) if y else slice(None, -1)
                return o[tuple(s)]
            p, q, r, s = sh(0, 0), sh(1, 1), sh(0, 1), sh(1, 0)
            if np.any((p & q & ~r & ~s) | (~p & ~q & r & s)):
                return False
        # Vertices: filled and empty cells around each are face-connected
        n = [k - 1 for k in o.shape]
        idx = [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]
        for i in range(n[0]):
            for j in range(n[1]):
                for k in range(n[2]):
                    cell = o[i:i + 2, j:j + 2, k:k + 2]
                    c = int(cell.sum())
                    if c in (0, 8):
                        continue
                    for val in (True, False):
                        s = [p for p in idx if bool(cell[p]) == val]
                        seen = {s[0]}
                        todo = [s[0]]
                        while todo:
                            p = todo.pop()
                            for q in s:
                                if q not in seen and sum(
                                        x != y for x, y in zip(p, q)) == 1:
                                    seen.add(q)
                                    todo.append(q)
                        if len(seen) != len(s):
                            return False
        return True

    def connected(self):
        o = self.occ
        cells = {tuple(c) for c in np.argwhere(o)}
        if not cells:
            return False
        s = next(iter(cells))
        seen = {s}
        todo = [s]
        while todo:
            c = todo.pop()
            for a in range(3):
                for d in (-1, 1):
                    q = list(c)
                    q[a] += d
                    q = tuple(q)
                    if q in cells and q not in seen:
                        seen.add(q)
                        todo.append(q)
        return len(seen) == len(cells)

    def volume(self):
        w = [[mpq(0)] + [b - a for a, b in zip(c, c[1:])] + [mpq(0)]
             for c in self.cs]
        return sum((w[0][i] * w[1][j] * w[2][k]
                    for i, j, k in np.argwhere(self.occ)), mpq(0))

    def mesh_arrays(self):
        o, cs = self.occ, self.cs
        vid, verts, faces = {}, [], []

        def V(p):
            if p not in vid:
                vid[p] = len(verts)
                verts.append([float(cs[i][p[i]]) for i in range(3)])
            return vid[p]
        for i, j, k in np.argwhere(o):
            for ax in range(3):
                for s in (-1, 1):
                    d = [i, j, k]
                    d[ax] += s
                    if o[tuple(d)]:
                        continue
                    a, b = (ax + 1) % 3, (ax + 2) % 3
                    base = [i - 1, j - 1, k - 1]
                    if s > 0:
                        base[ax] += 1
                    q = []
                    for u, v in ((0, 0), (1, 0), (1, 1), (0, 1)):
                        p = list(base)
                        p[a] += u
                        p[b] += v
                        q.append(V(tuple(p)))
                    if s < 0:
                        q.reverse()
                    faces.append((q[0], q[1], q[2]))
                    faces.append((q[0], q[2], q[3]))
        return np.array(verts, float), np.array(faces, np.int64)

    # 2D cross sections as lists of rectangles (a0, b0, a1, b1) in the two
    # other axes, in the order ((ax+1)%3, (ax+2)%3)
    def _layer(self, ax, mask):
        a, b = (ax + 1) % 3, (ax + 2) % 3
        out = []
        for p in np.argwhere(mask):
            # mask has axes in original order without ax
            o = [i for i in range(3) if i != ax]
            ia, ib = p[o.index(a)] - 1, p[o.index(b)] - 1
            out.append((self.cs[a][ia], self.cs[b][ib],
                        self.cs[a][ia + 1], self.cs[b][ib + 1]))
        return out

    def section(self, ax, h):
        c = self.cs[ax]
        for i in range(len(c) - 1):
            if c[i] < h < c[i + 1]:
                return self._layer(ax, np.take(self.occ, i + 1, axis=ax))
        return []

    def faces(self, ax, c, sign):
        """Faces with outward normal sign * e_ax in the plane x_ax = c."""
        if c not in self.cs[ax]:
            return []
        i = self.cs[ax].index(c)
        below = np.take(self.occ, i, axis=ax)
        above = np.take(self.occ, i + 1, axis=ax)
        return self._layer(ax, (below & ~above) if sign > 0
                           else (above & ~below))

    def slabs(self, t):
        """(ax, lo) of every slab with faces on both sides."""
        t = mpq(t)
        return [(ax, c) for ax in range(3) for c in self.cs[ax]
                if self.faces(ax, c, -1) and self.faces(ax, c + t, 1)]


# --- placement --------------------------------------------------------------

def rot_matrix(q):
    w, x, y, z = np.array(q, float) / np.linalg.norm(np.array(q, float))
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


@st.composite
def placements(draw, far=200, rotate=True):
    kind = draw(st.sampled_from(['none', 'move', 'turn', 'rot', 'rot']
                                if rotate else ['none', 'move']))
    if kind == 'none':
        return {'q': [1, 0, 0, 0], 'd': [0, 0, 0]}
    # Plain integers would mostly be small ones
    d = [(draw(st.integers(-far, far)) if draw(st.booleans()) else
          draw(st.sampled_from([far, -far, far * 3 // 5])) -
          draw(st.integers(0, 99))) / 4 for _ in range(3)]
    q = [1, 0, 0, 0]
    if kind == 'turn':
        q = draw(st.sampled_from([[1, 1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1],
                                  [0, 1, 0, 0], [1, 1, 1, 1], [0, 0, 1, 0],
                                  [1, -1, 1, -1], [1, 0, -1, 0]]))
    if kind == 'rot':
        q = [draw(st.integers(-7, 7)) for _ in range(4)]
        if not any(q):
            q = [3, 1, 2, 0]
    return {'q': q, 'd': d}


def place(verts, pl):
    return verts @ rot_matrix(pl['q']).T + np.array(pl['d'], float)


def to_mesh(verts, faces, order=None):
    import trimesh
    if order is not None:
        rng = np.random.RandomState(order)
        faces = faces[rng.permutation(len(faces))]
        roll = rng.randint(0, 3, len(faces))
        faces = np.array([np.roll(f, r) for f, r in zip(faces, roll)])
        perm = rng.permutation(len(verts))
        inv = np.argsort(perm)
        verts, faces = verts[perm], inv[faces]
    return trimesh.Trimesh(verts, faces, process=False)


# --- kits of plates ---------------------------------------------------------

THICK = ['6', '3', '4', '9/2', '25/4', '5']


def wall(name, W, D, H, t):
    return {'bottom': [0, 0, 0, W, D, t], 'top': [0, 0, H - t, W, D, H],
            'left': [0, 0, 0, t, D, H], 'right': [W - t, 0, 0, W, D, H],
            'front': [0, 0, 0, W, t, H], 'back': [0, D - t, 0, W, D, H]}[name]


KINDS = ['L', 'U', 'T', 'X', 'corner', 'partial', 'window', 'overhang']
MORE = ['tray', 'shelf', 'cross', 'tee3', 'notch', 'box', 'tube', 'room',
        'pair']


@st.composite
def kits(draw, kinds=None, lo=5, hi=10):
    """A kit of orthogonal plates: {'t', 'add', 'cut', 'kind', 'n'}."""
    kind = draw(st.sampled_from(kinds or KINDS))
    ts = draw(st.sampled_from(THICK))
    t = mpq(ts)

    def size(a=lo, b=hi):
        return t * draw(st.integers(a, b)) + \
            mpq(draw(st.integers(0, 7)), 4)
    W, D, H = size(), size(), size()
    cut = []
    if kind == 'L':
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
    elif kind == 'U':
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t),
               wall('right', W, D, H, t)]
    elif kind == 'T':
        x = draw(st.integers(2 * 4, int((W - 3 * t) / t * 4))) * t / 4 \
            if W > 5 * t else 2 * t
        add = [wall('bottom', W, D, H, t), [x, 0, 0, x + t, D, H]]
    elif kind == 'X':
        x = 2 * t + mpq(draw(st.integers(0, 8)), 4)
        dn = size(2, 5)
        add = [wall('bottom', W, D, H, t), [x, 0, -dn, x + t, D, H]]
    elif kind == 'corner':
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t),
               wall('front', W, D, H, t)]
    elif kind == 'partial':
        # The wall is shorter than the plate it stands on
        y0 = draw(st.integers(0, 8)) * t / 8
        y1 = D - draw(st.integers(0, 8)) * t / 8
        if D - y0 - (D - y1) < 3 * t:
            y0, y1 = mpq(0), D - t
        add = [wall('bottom', W, D, H, t), [0, y0, 0, t, y1, H]]
    elif kind == 'window':
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
        x0 = 2 * t + mpq(draw(st.integers(0, 4)), 4)
        y0 = draw(st.sampled_from([mpq(0), t * 5 / 4, t * 7 / 4]))
        x1 = x0 + (W - x0 - 5 * t / 4) * mpq(draw(st.integers(2, 4)), 4)
        y1 = y0 + (D - y0 - 5 * t / 4) * mpq(draw(st.integers(2, 4)), 4)
        cut = [[x0, y0, 0, x1, y1, t]]
    elif kind == 'tray':
        add = [wall(w, W, D, H, t) for w in
               ('bottom', 'left', 'front', 'right', 'back')]
    elif kind == 'box':
        # Closed on all sides
        add = [wall(w, W, D, H, t) for w in
               ('bottom', 'left', 'front', 'right', 'back', 'top')]
    elif kind == 'tube':
        add = [wall(w, W, D, H, t) for w in
               ('bottom', 'left', 'right', 'top')]
    elif kind == 'pair':
        # Two joints that do not touch; their plates may share planes
        dx, dz = draw(st.sampled_from([
            (0, 0), (0, 0), (0, H / 2), (W / 2, 0), (W / 2, H / 2)]))
        if dx and draw(st.booleans()):
            dx = t
        D2, y = size(lo, hi), D + draw(st.integers(2, 12)) * t / 4
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
        for b in (wall('bottom', W, D2, H, t), wall('left', W, D2, H, t)):
            add.append([b[0] + dx, b[1] + y, b[2] + dz,
                        b[3] + dx, b[4] + y, b[5] + dz])
        if draw(st.booleans()):
            add.append(wall('front', W, D, H, t))
        n = len(add) - (not dx) - (not dz)
    elif kind == 'rack':
        # More than ten sheets
        k = draw(st.integers(9, 11))
        g = t * mpq(draw(st.integers(5, 8)), 4)
        add = [wall('left', W, D, (k + 1) * (g + t), t),
               wall('right', W, D, (k + 1) * (g + t), t)]
        for i in range(1, k + 1):
            add.append([0, 0, i * (g + t) - t, W, D, i * (g + t)])
    elif kind == 'room':
        # A partition between two walls, all on a plate
        x = (W - t) / 2
        add = [wall('bottom', W, D, H, t), wall('front', W, D, H, t),
               wall('back', W, D, H, t), [x, 0, 0, x + t, D, H]]
    elif kind == 'notch':
        # A piece of the edge is missing
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
        y0 = D * mpq(draw(st.integers(1, 4)), 8)
        y1 = y0 + D * mpq(draw(st.integers(1, 2)), 8)
        a, b = draw(st.sampled_from([
            (t * 3 / 2, t * 3 / 2), (t, t * 3 / 2), (t * 5 / 2, t),
            (t * 5 / 2, t * 3 / 2)]))
        cut = [[0, y0, 0, a, y1, b]]
    elif kind == 'shelf':
        # A plate between two walls
        z = H / 2
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t),
               wall('right', W, D, H, t), [0, 0, z, W, D, z + t]]
    elif kind == 'cross':
        # Two walls that cross on a plate
        x, y = (W - t) / 2, (D - t) / 2
        add = [wall('bottom', W, D, H, t), [x, 0, 0, x + t, D, H],
               [0, y, 0, W, y + t, H]]
    elif kind == 'tee3':
        # A wall that meets another wall, both on a plate
        x = (W - t) / 2
        add = [wall('bottom', W, D, H, t), wall('front', W, D, H, t),
               [x, 0, 0, x + t, D, H]]
    elif kind == 'pocket':
        # A recess that does not go through
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
        x0 = 2 * t
        x1 = x0 + (W - x0 - t) / 2
        z = t * mpq(draw(st.sampled_from(['1/4', '3/8', '5/8', '3/4'])))
        cut = [[x0, t, z, x1, D - t, t]]
    elif kind in ('tongue', 'channel'):
        # A rim or a hollow that is only half way down
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
        y0 = t * mpq(draw(st.integers(2, 6)), 4)
        y1 = D - t * mpq(draw(st.integers(2, 6)), 4)
        w = t * mpq(draw(st.integers(2, 5)), 4)
        if kind == 'tongue':
            add.append([W - t, y0, t / 4, W + w, y1, t * 3 / 4])
        else:
            cut = [[W - w, y0, t / 4, W, y1, t * 3 / 4]]
    elif kind == 'block':
        # A thick block beside the plate, on the same ground
        add = [wall('bottom', W, D, H, t), wall('left', W, D, H, t)]
        g = t * mpq(draw(st.integers(4, 8)), 8)
        y0 = t * mpq(draw(st.integers(-4, 6)), 4)
        h = t * mpq(draw(st.sampled_from(['3/2', '7/4', '5/2', '7/2'])))
        z0 = draw(st.sampled_from([mpq(0), mpq(0), t - h, -t / 2]))
        add.append([W + g, y0, z0, W + g + t * 3 / 2 +
                    t * mpq(draw(st.integers(0, 6)), 4),
                    y0 + t * mpq(draw(st.integers(6, 16)), 4), z0 + h])
    elif kind == 'scatter':
        # Plates that do not touch, in any of the three directions
        add = []
        x = mpq(0)
        for _ in range(draw(st.integers(2, 5))):
            ax = draw(st.sampled_from([2, 2, 2, 1, 0]))
            lo3 = [x] + [draw(st.sampled_from(
                [mpq(0), -t, mpq(13, 20), mpq(13, 10), t * 5 / 4, -t * 2]))
                for _ in range(2)]
            d3 = [t * mpq(draw(st.integers(8, 24)), 4) for _ in range(3)]
            d3[ax] = t
            hi3 = [a + b for a, b in zip(lo3, d3)]
            add.append(lo3 + hi3)
            x = hi3[0] + draw(st.integers(1, 5)) * t / 4
    else:                               # overhang
        a = draw(st.integers(0, 12)) * t / 4
        b = draw(st.integers(0, 12)) * t / 4
        x = t * 5 / 2 if a + b else mpq(0)
        add = [[0, 0, 0, W, D, t], [x, -a, 0, x + t, D + b, H]]
    perm = draw(st.sampled_from([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2),
                                 (0, 2, 1), (2, 1, 0)]))
    flip = [draw(st.booleans()) for _ in range(3)]

    def tr(b):
        lo3, hi3 = list(b[:3]), list(b[3:])
        for i in range(3):
            if flip[i]:
                lo3[i], hi3[i] = -hi3[i], -lo3[i]
        return [gen.qs(lo3[p]) for p in perm] + [gen.qs(hi3[p])
                                                 for p in perm]
    return {'kind': kind, 't': ts, 'add': [tr(b) for b in add],
            'cut': [tr(b) for b in cut],
            'n': 2 if kind in ('tongue', 'block') else
            n if kind == 'pair' else len(add)}


def kit_boxes(kit):
    return Boxes(kit['add'], kit['cut'])


# --- prisms -----------------------------------------------------------------

def ear_clip(P):
    """Triangulate a simple ccw polygon (floats)."""
    P = np.array(P, float)
    idx = list(range(len(P)))
    out = []

    def cr(a, b, c):
        return ((P[b][0] - P[a][0]) * (P[c][1] - P[a][1]) -
                (P[b][1] - P[a][1]) * (P[c][0] - P[a][0]))
    while len(idx) > 3:
        best = None
        n = len(idx)
        for k in range(n):
            a, b, c = idx[k - 1], idx[k], idx[(k + 1) % n]
            if cr(a, b, c) <= 1e-9:
                continue
            if any(cr(a, b, q) > -1e-9 and cr(b, c, q) > -1e-9 and
                   cr(c, a, q) > -1e-9
                   for q in idx if q not in (a, b, c)):
                continue
            # Prefer fat ears
            s = cr(a, b, c)
            if best is None or s > best[0]:
                best = (s, k)
        if best is None:
            return None
        k = best[1]
        out.append((idx[k - 1], idx[k], idx[(k + 1) % n]))
        del idx[k]
    out.append(tuple(idx))
    return out


def prism_arrays(profile, L):
    """Simple ccw profile extruded from z = 0 to L; None if it cannot be
    triangulated."""
    tri = ear_clip(profile)
    if tri is None:
        return None
    n = len(profile)
    V = [[x, y, 0.] for x, y in profile] + [[x, y, L] for x, y in profile]
    F = [(c, b, a) for a, b, c in tri] + \
        [(a + n, b + n, c + n) for a, b, c in tri]
    for i in range(n):
        j = (i + 1) % n
        F += [(i, j, j + n), (i, j + n, i + n)]
    return np.array(V, float), np.array(F, np.int64)


# --- tiles: convex plates side by side, in parallel planes -------------------

SHAPES = {
    'tri': [(0, 0), (4, 0), (1, 3)], 'tri2': [(0, 0), (3, 1), (0, 4)],
    'sliver': [(0, 0), (6, 0), (5, 1)], 'box': [(0, 0), (3, 0), (3, 2),
                                                (0, 2)],
    'kite': [(0, 1), (3, 0), (5, 2), (2, 4)],
    'hex': [(1, 0), (4, 0), (5, 3), (4, 5), (1, 4), (0, 2)]}


@st.composite
def tiles(draw):
    ts = draw(st.sampled_from(THICK))
    t = float(mpq(ts))
    out = []
    x = 0.0
    for _ in range(draw(st.integers(2, 6))):
        s = t * draw(st.sampled_from([1, 2, 1, 4, 8]))
        a = math.radians(draw(st.sampled_from([0, 0, 20, 45, 90, 131, 250])))
        P = np.array(SHAPES[draw(st.sampled_from(sorted(SHAPES)))]) * s
        P = P @ np.array([[math.cos(a), math.sin(a)],
                          [-math.sin(a), math.cos(a)]])
        P[:, 0] += x - P[:, 0].min()
        P[:, 1] += draw(st.integers(-4, 4)) * t
        x = P[:, 0].max() + t * draw(st.sampled_from([.5, 1, 3]))
        z = draw(st.sampled_from([0, 0, -t, .65, 1.3, -1.3, 1.75 * t]))
        out.append({'p': P.round(9).tolist(), 'z': z})
    return {'kind': 'tiles', 't': ts, 'tiles': out,
            'n': len({q['z'] for q in out})}


def tile_arrays(m):
    V, F, n = [], [], 0
    for q in m['tiles']:
        v, f = prism_arrays(q['p'], float(mpq(m['t'])))
        V.append(v + [0, 0, q['z']])
        F.append(f + n)
        n += len(v)
    return np.concatenate(V), np.concatenate(F)


@st.composite
def apart(draw, far=(200, 400000)):
    """Models of plates that do not touch."""
    m = dict(draw(tiles() if draw(st.booleans()) else kits(['scatter'])))
    m['place'] = draw(placements(draw(st.sampled_from(far))))
    if draw(st.booleans()):
        m['place']['d'] = [0, 0, 0]     # some planes through the origin
    m['order'] = draw(st.sampled_from([None, None, 1, 2, 3]))
    return m


def distinct_planes(mesh, t, tol=0.3):
    """No two planes are near each other, or nearly t apart, without being
    exactly that."""
    n = mesh.face_normals
    o = np.einsum('ij,ij->i', mesh.triangles[:, 0], n)
    dot = n @ n.T
    for sign, dist in ((1, o[:, None] - o[None]),
                       (-1, o[:, None] + o[None] - t)):
        k = sign * dot > 1 - 1e-4
        d = np.abs(dist[k])
        if np.any((d > 1e-4) & (d < tol)):
            return False
    return True


def strip_profile(lengths, turns, t, ang0):
    """Outline (ccw) of a mitred strip of thickness t."""
    pts = [np.zeros(2)]
    a = math.radians(ang0)
    for i, l in enumerate(lengths):
        if i:
            a += math.radians(turns[i - 1])
        pts.append(pts[-1] + l * np.array([math.cos(a), math.sin(a)]))
    P = np.array(pts)
    d = P[1:] - P[:-1]
    d /= np.linalg.norm(d, axis=1)[:, None]
    nr = np.stack([-d[:, 1], d[:, 0]], 1)
    Q = [P[0] + t * nr[0]]
    for i in range(1, len(P) - 1):
        b = nr[i - 1] + nr[i]
        Q.append(P[i] + b * (t / (1 + nr[i - 1] @ nr[i])))
    Q.append(P[-1] + t * nr[-1])
    return [tuple(p) for p in P] + [tuple(q) for q in reversed(Q)]


@st.composite
def strips(draw, bends=(1, 1, 2), angles=(90, 60, 75, 100, 45, 120, 30)):
    ts = draw(st.sampled_from(['6', '3', '4']))
    t = float(mpq(ts))
    k = draw(st.sampled_from(bends))
    turns = [draw(st.sampled_from(angles)) * draw(st.sampled_from([-1, 1]))
             for _ in range(k)]
    if k == 2 and turns[0] * turns[1] > 0 and abs(sum(turns)) >= 200:
        turns[1] = -turns[1]            # would run into itself
    lengths = [t * draw(st.integers(32, 48)) / 4 for _ in range(k + 1)]
    return {'kind': 'strip', 't': ts, 'turns': turns, 'lengths': lengths,
            'ang0': draw(st.integers(0, 359)),
            'L': t * draw(st.integers(16, 40)) / 4, 'n': k + 1}


@st.composite
def branches(draw, angles=(90, 60, 75, 100, 45, 120)):
    """A plate with another one standing on it at an angle."""
    ts = draw(st.sampled_from(['6', '3', '4']))
    t = float(mpq(ts))
    return {'kind': 'branch', 't': ts, 'turns': [draw(
        st.sampled_from(angles))], 'ang0': draw(st.integers(0, 359)),
        'W': t * draw(st.integers(36, 48)) / 4,
        'x0': t * draw(st.integers(8, 14)) / 4,
        'l': t * draw(st.integers(20, 40)) / 4,
        'L': t * draw(st.integers(16, 40)) / 4, 'n': 2}


def branch_profile(W, x0, l, ang, t, ang0):
    a = math.radians(ang)
    u = np.array([math.cos(a), math.sin(a)])
    n = np.array([-math.sin(a), math.cos(a)])
    lp = np.array([x0, t])
    el = lp + l * u
    er = el - t * n
    pts = [(0., 0.), (W, 0.), (W, t), (x0 + t / math.sin(a), t), tuple(er),
           tuple(el), (x0, t), (0., t)]
    b = math.radians(ang0)
    return [(x * math.cos(b) - y * math.sin(b),
             x * math.sin(b) + y * math.cos(b)) for x, y in pts]


def profile_of(m):
    """Outline of a prism; the right-hand sides of its edges are outside."""
    t = float(mpq(m['t']))
    if m['kind'] == 'branch':
        return branch_profile(m['W'], m['x0'], m['l'], m['turns'][0], t,
                              m['ang0'])
    return strip_profile(m['lengths'], m['turns'], t, m['ang0'])


def is_prism(m):
    return m['kind'] in ('strip', 'branch')


def chance(draw, q):
    """True with probability q (False is the simple case)."""
    n = round(20 * q)
    return draw(st.sampled_from([False] * (20 - n) + [True] * n))


@st.composite
def models(draw, kit_kinds=None, strip=0.2, far=200, rotate=True, angles=None,
           bends=(1, 1, 2), lo=5, hi=10):
    """A placed model with everything needed to build the mesh."""
    if not chance(draw, strip):
        m = draw(kits(kit_kinds, lo, hi))
    elif draw(st.integers(0, 2)):
        m = draw(strips(bends, angles or (90, 60, 75, 100, 45, 120, 30)))
    else:
        m = draw(branches(angles or (90, 60, 75, 100, 45, 120)))
    m = dict(m)
    m['place'] = draw(placements(far, rotate))
    m['order'] = draw(st.sampled_from([None, None, 1, 2, 3]))
    return m


def build(m, place_=None, order='model'):
    """trimesh of a model."""
    if is_prism(m):
        arr = prism_arrays(profile_of(m), m['L'])
        if arr is None:
            return None
        v, f = arr
    elif m['kind'] == 'tiles':
        v, f = tile_arrays(m)
    else:
        v, f = kit_boxes(m).mesh_arrays()
    v = place(v, place_ or m['place'])
    return to_mesh(v, f, m['order'] if order == 'model' else order)


def volume(m):
    if is_prism(m):
        prof = profile_of(m)
        a = sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in
                zip(prof, prof[1:] + prof[:1])) / 2
        return a * m['L']
    return float(kit_boxes(m).volume())


@st.composite
def pipeline_params(draw, t):
    t = mpq(t)
    mn = draw(st.sampled_from(['3', '2', '9/2', '5/2']))
    mx = draw(st.sampled_from(['5', '7', '9']))
    return {'thickness': gen.qs(t), 'min_finger_width': mn,
            'max_finger_width': mx,
            'support_radius': draw(st.sampled_from(
                ['12', gen.qs(2 * t), '15'])),
            'random_seed': draw(st.integers(0, 1000))}


def real_params(p):
    q = dict(PARAMS)
    for k, v in p.items():
        q[k] = mpq(v) if k != 'random_seed' else v
    return q


# --- shapely as an oracle ----------------------------------------------------
# Its operations can be plainly wrong where edges nearly coincide, unless they
# round to a grid.

def areal(g):
    """Without the lines and points of a mixed result."""
    import shapely
    if g.geom_type in ('Polygon', 'MultiPolygon'):
        return g
    return shapely.MultiPolygon([
        q for p in getattr(g, 'geoms', [g])
        for q in getattr(p, 'geoms', [p]) if q.geom_type == 'Polygon'])


def s_op(name, a, b, grid=1e-6):
    import shapely
    return areal(getattr(shapely, name)(a, b, grid_size=grid))


def s_and(a, b, grid=1e-6):
    return s_op('intersection', a, b, grid)


def s_sub(a, b, grid=1e-6):
    return s_op('difference', a, b, grid)


def s_xor(a, b, grid=1e-6):
    return s_op('symmetric_difference', a, b, grid)


def s_union(gs, grid=1e-6):
    import shapely
    return areal(shapely.union_all(list(gs), grid_size=grid))


# --- Geom2D <-> shapely, 2D <-> 3D ------------------------------------------

def to_shapely(g):
    """Rounded to doubles, rings may touch themselves: these are repaired."""
    import shapely
    from shapely.geometry import Polygon
    out = []
    for p in g.polygons():
        q = Polygon([(float(x), float(y)) for x, y in p.exterior()],
                    [[(float(x), float(y)) for x, y in h]
                     for h in p.holes()])
        if not q.is_valid:
            q = areal(shapely.make_valid(q, method='structure',
                                         keep_collapsed=False))
        out.append(q)
    s = s_union(out)

    def shoelace(r):
        return abs(sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in
                       zip(r, r[1:] + r[:1]))) / 2
    area = float(sum(shoelace(list(p.exterior())) -
                     sum(shoelace(list(h)) for h in p.holes())
                     for p in g.polygons()))
    if abs(s.area - area) > 1e-4 * (1 + area):
        s = s_union([areal(q.buffer(0)) for q in out])
        if abs(s.area - area) > 1e-4 * (1 + area):
            raise RuntimeError('oracle: area %s became %s' % (area, s.area))
    return s


def rects_to_shapely(rects):
    from shapely.geometry import box
    return s_union([box(*[float(v) for v in r]) for r in rects])


def sheet_to_3d(sheet, pts, h):
    """2D sheet coordinates at offset h along the normal to 3D."""
    pts = np.array([[float(x), float(y), float(h)] for x, y in pts])
    return pts @ np.array(sheet.slice_rotation[:3, :3], float).T


def model_to_sheet(sheet, pl, pts3):
    """Model coordinates (before placement) to 2D sheet coordinates."""
    p = place(np.array([[float(c) for c in q] for q in pts3]), pl)
    return (p @ np.array(sheet.slice_rotation[:3, :3], float))[:, :2]


# --- sheets without a mesh --------------------------------------------------

def plane_sheet(sid, n, offset, t, spin=0.0, **fields):
    """A Sheet with the given unit normal and offset; its 2D axes are turned
    by `spin` about the normal."""
    from plycutter.sheetplex import Sheet
    n = np.array(n, float)
    n = n / np.linalg.norm(n)
    k = int(np.argmin(np.abs(n)))
    a = np.zeros(3)
    a[k] = 1.0
    a = a - n * (a @ n)
    a /= np.linalg.norm(a)
    b = np.cross(n, a)
    c, s = math.cos(spin), math.sin(spin)
    if spin == 0:
        c, s = 1.0, 0.0
    R = np.eye(4)
    R[:3, 0] = c * a + s * b
    R[:3, 1] = -s * a + c * b
    R[:3, 2] = n
    sides = np.array([list(n) + [offset],
                      list(-n) + [-(offset - float(t))]], np.float64)
    return Sheet(id=sid, sides=sides, slice_rotation=R,
                 inverse_slice_rotation=R.T, **fields)


def plex(sheets):
    import pyrsistent as pyr
    from plycutter.create_sheetplex import create_intersections
    from plycutter.sheetplex import SheetPlex
    return create_intersections(SheetPlex(
        sheets=pyr.pmap({s.id: s for s in sheets}), intersections=pyr.m()))


def box_sheets(kit):
    """The sheets of a box kit, with exact outlines, without a mesh.  A sheet
    has material everywhere in its plates, so faces, sections and supported
    areas are those of the solid."""
    import functools
    import operator
    from plycutter.geometry.geom2d import Geom2D
    b = kit_boxes(kit)
    t = mpq(kit['t'])
    out = []
    for i, (ax, lo) in enumerate(b.slabs(t)):
        n = [0, 0, 0]
        n[ax] = 1
        sh = plane_sheet('s%d' % i, n, float(lo + t), t)
        R = np.array(sh.slice_rotation[:3, :3]).round().astype(int)
        a1, a2 = (ax + 1) % 3, (ax + 2) % 3

        def geom(rects):
            gs = []
            for u0, v0, u1, v1 in rects:
                q = []
                for u, v in ((u0, v0), (u1, v0), (u1, v1), (u0, v1)):
                    p = [mpq(0)] * 3
                    p[a1], p[a2] = u, v
                    q.append((sum(int(R[j, 0]) * p[j] for j in range(3)),
                              sum(int(R[j, 1]) * p[j] for j in range(3))))
                gs.append(Geom2D.polygon(q, reorient=True))
            return Geom2D.union(gs) if gs else Geom2D.empty()
        faces = [geom(b.faces(ax, lo + t, 1)), geom(b.faces(ax, lo, -1))]
        e = mpq(1, 10)
        slices = [geom(b.section(ax, h)) for h in
                  (lo + e, lo + t / 2, lo + t - e)]
        out.append(sh.update(dict(
            faces=faces, both_faces=faces[0] & faces[1],
            outside_slices=[geom(b.section(ax, lo + t + e)),
                            geom(b.section(ax, lo - e))],
            slices_max=functools.reduce(operator.or_, slices),
            slices_min=functools.reduce(operator.and_, slices))))
    return out
