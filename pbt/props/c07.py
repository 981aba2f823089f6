"""C07: the planar arrangement is the true subdivision, in any merge order."""
import collections
import functools
import random

from gmpy2 import mpq
from hypothesis import strategies as st

import gen
import geo
import ref2d
import wellformed
from harness import Reject, Sub, Violation
from props.c06 import brute


def ccw_key(d):
    """Exact angular order of directions, counter-clockwise from +x."""
    def half(v):
        return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1

    def cmp(a, b):
        ha, hb = half(a), half(b)
        if ha != hb:
            return ha - hb
        c = a[0] * b[1] - a[1] * b[0]
        return -1 if c > 0 else (1 if c < 0 else 0)
    return functools.cmp_to_key(cmp)(d)


class Model:
    """Brute-force planar subdivision of a set of segments."""

    def __init__(self, rings):
        self.segs = []                  # directed input segments
        for r in rings:
            self.segs += list(ref2d.ring_edges(r))
        und = sorted({(a, b) if a < b else (b, a) for a, b in self.segs})
        on = collections.defaultdict(set)
        for s in und:
            on[s].update(s)
        for p, ss in brute(und).items():
            for s in ss:
                on[s].add(p)
        self.vertices = {p for ps in on.values() for p in ps}
        self.sub = {}
        self.edges = set()
        for s, ps in on.items():
            ps = sorted(ps)
            self.sub[s] = list(zip(ps, ps[1:]))
            self.edges |= set(self.sub[s])
        out = collections.defaultdict(list)
        for a, b in self.edges:
            out[a].append(b)
            out[b].append(a)
        self.next = {}
        for v, ws in out.items():
            ws.sort(key=lambda w: ccw_key((w[0] - v[0], w[1] - v[1])))
            n = len(ws)
            for i, w in enumerate(ws):
                # The face on the right of (w, v) goes on with the first edge
                # counter-clockwise from (v, w)
                self.next[w, v] = (v, ws[(i + 1) % n])
        comp = {}
        for v in out:
            if v in comp:
                continue
            todo = [v]
            comp[v] = v
            while todo:
                x = todo.pop()
                for y in out[x]:
                    if y not in comp:
                        comp[y] = v
                        todo.append(y)
        self.comp = comp
        self.cells = {}                 # half-edge -> frozenset of half-edges
        for he in self.next:
            if he in self.cells:
                continue
            cyc = [he]
            cur = self.next[he]
            while cur != he:
                cyc.append(cur)
                cur = self.next[cur]
            f = frozenset(cyc)
            for h in cyc:
                self.cells[h] = f
        self.area = {f: sum(a[0] * b[1] - b[0] * a[1] for a, b in f) / mpq(2)
                     for f in set(self.cells.values())}
        self.negative = {f for f, a in self.area.items() if a > 0}
        self._face = {}

    def above(self, p, skip_comp=None):
        """Half-edge whose right side is what lies directly above p - that is,
        the first edge met by a ray upwards from p - or None."""
        best = None
        for a, b in self.edges:
            if a[0] <= p[0] < b[0]:
                if skip_comp is not None and self.comp[a] == skip_comp:
                    continue
                s = (b[1] - a[1]) / (b[0] - a[0])
                y = a[1] + (p[0] - a[0]) * s
                if y > p[1] and (best is None or (y, s) < best[0]):
                    best = ((y, s), (a, b))
        # An edge directed to +x has what lies below it on its right
        return None if best is None else best[1]

    def face(self, cell):
        """The face (a positive cell, or None for the outside) in which a cell
        lies: itself when positive."""
        if cell not in self.negative:
            return cell
        if cell not in self._face:
            v = next(iter(cell))[0]
            c = self.comp[v]
            p = max((h[0] for h in cell), key=lambda q: (q[1], q[0]))
            he = self.above(p, skip_comp=c)
            self._face[cell] = None if he is None else \
                self.face(self.cells[he])
        return self._face[cell]

    def face_of_point(self, p):
        he = self.above(p)
        return None if he is None else self.face(self.cells[he])

    def on_edge(self, p):
        return any(ref2d.on_segment(p, a, b) for a, b in self.edges)

    def depth(self, cell):
        """Nesting depth: 0 for an outer outline that lies in nothing."""
        if cell in self.negative:
            f = self.face(cell)
            return 0 if f is None else self.depth(f) + 1
        v = next(iter(cell))[0]
        for n in self.negative:
            if self.comp[next(iter(n))[0]] == self.comp[v]:
                return self.depth(n) + 1
        raise AssertionError

    def outline(self, cell):
        v = next(iter(cell))[0]
        for n in self.negative:
            if self.comp[next(iter(n))[0]] == self.comp[v]:
                return n
        raise AssertionError


def half_edges(cell):
    return list(ref2d.ring_edges([(mpq(p[0]), mpq(p[1])) for p in cell]))


def build(case):
    from plycutter.geometry.impl2d.arrangement2d import SegmentArrangement
    rings = []
    for p in case['polys']:
        r = gen.ring(case['affine'], p)
        if len(r) < 3 or ref2d.signed_area(r) == 0:
            raise Reject
        rings.append(r if case.get('cw') else r[::-1])
    segs = {}
    n = 0
    for r in rings:
        for e in ref2d.ring_edges(r):
            segs['s%d' % n] = e
            n += 1
    return SegmentArrangement(segs), Model(rings), segs


def check_structure(arr, m, segs, ctx):
    if set(arr.vertices) != m.vertices:
        d = set(arr.vertices) ^ m.vertices
        raise Violation('vertices differ from the true ones: %s' %
                        [geo.pt_s(p) for p in sorted(d)][:4])
    want = m.edges | {(b, a) for a, b in m.edges}
    if set(arr.half_edges) != want:
        d = set(arr.half_edges) ^ want
        raise Violation('half-edges differ from the true ones: %s' %
                        sorted(d)[:4])
    seen = collections.Counter()
    by_cell = {}
    for key, c in arr.cells.items():
        if tuple(key) != tuple(c.vertices):
            raise Violation('cell stored under other vertices')
        hes = half_edges(key)
        seen.update(hes)
        f = frozenset(hes)
        by_cell[key] = f
        if len(f) != len(hes):
            raise Violation('a cell uses a half-edge twice')
        for h in hes:
            if h not in m.cells or m.cells[h] != f:
                raise Violation('cell %s is not the cell right of half-edge '
                                '%s' % ([geo.pt_s(p) for p in key], h))
        if bool(c.negative) != (f in m.negative):
            raise Violation('cell %s: negative is %s, signed area %s' %
                            ([geo.pt_s(p) for p in key], c.negative,
                             m.area[f]))
    if set(seen) != want or any(k != 1 for k in seen.values()):
        raise Violation('half-edges are not each in exactly one cell')
    for h, he in arr.half_edges.items():
        if by_cell.get(he.cell) != m.cells[h]:
            raise Violation('half-edge %s names the wrong cell' % (h,))
    ncomp = len(set(m.comp.values()))
    if len(m.negative) != ncomp:
        raise Violation('%d outer outlines, %d components' %
                        (len(m.negative), ncomp))
    V, E, F = len(m.vertices), len(m.edges), \
        1 + sum(1 for c in arr.cells.values() if not c.negative)
    if V - E + F != 1 + ncomp:
        raise Violation("Euler's formula fails: V %d E %d F %d C %d" %
                        (V, E, F, ncomp))
    pts = arr.cell_points()
    if set(pts) != set(arr.cells):
        raise Violation('cell_points() has other cells')
    for key, p in pts.items():
        f = by_cell[key]
        if m.on_edge(p):
            raise Violation('the point of a cell lies on an edge: %s' %
                            geo.pt_s(p))
        if m.face_of_point(p) != m.face(f):
            raise Violation('point %s is not in the face of its cell %s' %
                            (geo.pt_s(p), [geo.pt_s(q) for q in key]))
    for key, c in arr.cells.items():
        f = by_cell[key]
        wc = m.face(f) if f in m.negative else m.outline(f)
        gc = None if c.container is None else by_cell[tuple(c.container)]
        if gc != wc:
            raise Violation('wrong container of cell %s: %s' %
                            ([geo.pt_s(q) for q in key], c.container))
        if c.count_from_outside != m.depth(f):
            raise Violation('nesting depth of %s is %s, true %s' %
                            ([geo.pt_s(q) for q in key],
                             c.count_from_outside, m.depth(f)))
        if m.depth(f) >= 2:
            ctx.label('nested component')
        if m.depth(f) >= 4:
            ctx.label('component nested twice')
    ctx.nontrivial(F > 3 or ncomp > 1)
    if F > 8:
        ctx.label('more than 8 faces')
    if ncomp > 1:
        ctx.label('several components')
    return by_cell


def faces_of(arr, m, by_cell):
    """positive face -> list of the cells that make it up (its own outline and
    the outer outlines of components in it)."""
    res = collections.defaultdict(list)
    for key in sorted(arr.cells):
        f = m.face(by_cell[key])
        if f is not None:
            res[f].append(key)
    return sorted(res.items(), key=lambda it: sorted(it[1]))


def run(case, ctx):
    from plycutter.geometry.impl2d.cell_merger import CellMergerSlow
    arr, m, segs = build(case)
    by_cell = check_structure(arr, m, segs, ctx)
    faces = faces_of(arr, m, by_cell)
    point = {f: arr.cell_points()[[k for k in ks if by_cell[k] == f][0]]
             for f, ks in faces}
    for k, choice in enumerate(case['choices']):
        if choice['all']:
            chosen = [f for i, f in enumerate(faces)
                      if i not in choice['idx']]
        else:
            chosen = [f for i, f in enumerate(faces) if i in choice['idx']]
        cells = [c for f, ks in chosen for c in ks]
        rnd = random.Random(choice['order'])
        rnd.shuffle(cells)
        polys = arr.poly_cells(cells)
        reg = ref2d.region_q([(list(p.outer), [list(h) for h in p.holes])
                              for p in polys])
        what = 'outline of %d of %d faces' % (len(chosen), len(faces))
        inside = {f for f, _ in chosen}
        for f, p in point.items():
            if ref2d.region_contains(reg, p) != (f in inside):
                raise Violation('%s: the face at %s is %s' %
                                (what, geo.pt_s(p), 'missing'
                                 if f in inside else 'included'))
        edges = sorted(ref2d.region_edges(reg))
        want = sorted(h for f in inside for h in m_edges(f, faces, by_cell)
                      if m.face(m.cells[h[1], h[0]]) not in inside)
        if sorted(map(und, edges)) != sorted(map(und, want)):
            raise Violation('%s: edges are not those between chosen and '
                            'other faces' % what)
        for r in ref2d.region_rings(reg):
            if ref2d.signed_area(r) >= 0:
                raise Violation('%s: a ring is not clockwise' % what)
        if reg:
            wellformed.separation(reg, what)
        if any(h for _, h in reg):
            ctx.label('outline with holes')
        if len(reg) > 1:
            ctx.label('several outlines')
        # The merger by itself
        mg = CellMergerSlow()
        for c in cells:
            mg.add_cell(c)
        left = collections.Counter()
        for c in cells:
            left.update(half_edges(c))
        left = {h for h in left if (h[1], h[0]) not in left}
        got = collections.Counter()
        for c in mg.get_cells():
            got.update(half_edges(c))
        if set(got) != left or any(v != 1 for v in got.values()):
            raise Violation('merged cells do not have the unmatched '
                            'half-edges of the cells that were added')
        src = {h: c for c in cells for h in half_edges(c)}
        for mc, origs in mg.get_cells_originals().items():
            for h in half_edges(mc):
                if src[h] not in origs:
                    raise Violation('a merged cell has an edge of a cell that '
                                    'is not among its originals')
            if not set(origs) <= set(cells):
                raise Violation('unknown original cell')


def und(e):
    return (e[0], e[1]) if e[0] < e[1] else (e[1], e[0])


def m_edges(f, faces, by_cell):
    for g, ks in faces:
        if g == f:
            for k in ks:
                yield from by_cell[k]


choices = st.lists(st.fixed_dictionaries({
    'all': st.booleans(),
    'idx': st.lists(st.integers(0, 15), max_size=6, unique=True),
    'order': st.integers(0, 10 ** 6)}), min_size=2, max_size=4)


@st.composite
def random_case(draw):
    return {'affine': draw(gen.affine()), 'cw': draw(st.booleans()),
            'polys': draw(st.lists(gen.polygon(), min_size=1, max_size=4)),
            'choices': draw(choices)}


@st.composite
def nested_case(draw):
    polys = [gen._out([(0, 0), (16, 0), (16, 16), (0, 16)])] \
        if draw(st.booleans()) else []
    polys += draw(gen.inset((1, 1, 15, 15), 5))
    if draw(st.booleans()):
        polys.append([[x + 18, y] for x, y in draw(gen.rect(6))])
    if draw(st.booleans()):
        polys.append(draw(gen.rect(16)))
    return {'affine': draw(gen.affine()), 'cw': draw(st.booleans()),
            'polys': polys, 'choices': draw(choices)}


@st.composite
def islands_case(draw):
    """A frame with several islands that may touch, in rows."""
    n = draw(st.integers(1, 5))
    polys = [gen._out([(-1, -1), (13, -1), (13, 9), (-1, 9)])] \
        if draw(st.booleans()) else []
    for i in range(n):
        x, y = draw(st.integers(0, 9)), draw(st.integers(0, 5))
        w, h = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        shape = draw(st.sampled_from(['r', 'd', 'f']))
        if shape == 'r':
            polys.append(gen._out([(x, y), (x + w, y), (x + w, y + h),
                                   (x, y + h)]))
        elif shape == 'd':
            polys.append(gen._out([(x + 1, y), (x + 2, y + 1), (x + 1, y + 2),
                                   (x, y + 1)]))
        else:
            polys.append(gen._out([(x, y), (x + 3, y), (x + 3, y + 3),
                                   (x, y + 3)]))
            polys.append(gen._out([(x + 1, y + 1), (x + 2, y + 1),
                                   (x + 2, y + 2), (x + 1, y + 2)]))
    return {'affine': draw(gen.affine()), 'cw': draw(st.booleans()),
            'polys': polys, 'choices': draw(choices)}


@st.composite
def grid_case(draw):
    n = draw(st.integers(2, 4))
    return {'n': n, 'k': draw(st.integers(0, 2)),
            'affine': draw(gen.affine()), 'cw': draw(st.booleans()),
            'choices': draw(st.lists(st.fixed_dictionaries({
                'all': st.booleans(),
                'idx': st.lists(st.integers(0, 63), max_size=20,
                                unique=True),
                'order': st.integers(0, 10 ** 6)}), min_size=3,
                max_size=6))}


def run_grid(case, ctx):
    n, k = case['n'], case['k']
    polys = []
    for i in range(n):
        for j in range(n):
            sq = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            mid = (mpq(2 * i + 1, 2), mpq(2 * j + 1, 2))
            if k == 0:
                polys.append(sq)
            elif k == 1:
                for q in range(4):
                    polys.append([sq[q], sq[(q + 1) % 4], mid])
            else:
                polys.append([(x - (x - mid[0]) / 3, y - (y - mid[1]) / 3)
                              for x, y in sq])
                polys.append(sq)
    run({'polys': [gen._out(p) for p in polys], 'affine': case['affine'],
         'cw': case['cw'], 'choices': case['choices']}, ctx)


SUBS = [
    Sub('random', random_case(), run, 2400, 12000,
        '1-4 overlapping random polygons; full comparison with a brute-force '
        'subdivision, then 2-4 random subsets of faces merged in random '
        'order; non-trivial = more than 2 bounded faces or several '
        'components'),
    Sub('nested', nested_case(), run, 1800, 9000,
        'polygons nested up to five deep, plus stray ones; non-trivial as '
        'above'),
    Sub('islands', islands_case(), run, 1800, 9000,
        'islands in a frame, with holes, that may touch or overlap; '
        'non-trivial as above'),
    Sub('grid', grid_case(), run_grid, 300, 2000,
        'regular subdivisions of up to 64 cells, subsets of cells merged in '
        'random order; non-trivial as above'),
]
