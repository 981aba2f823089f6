"""C16: the DXF file, read back."""
import contextlib
import io
import os
import tempfile

from hypothesis import strategies as st
from gmpy2 import mpq

import gen
import geo
import ref2d
from harness import Sub, Violation

MARGIN = 3


@st.composite
def sheet_cases(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return None
    p = draw(st.one_of(gen.pools(1, 3, 3), gen.nested_pools(1)))
    return {'pool': p, 'pick': draw(st.integers(0, 3)),
            'scale': draw(st.sampled_from([1, 1, 10, 25, '1/7', 400]))}


@st.composite
def cases(draw):
    return {'sheets': draw(st.lists(sheet_cases(), min_size=0, max_size=6)),
            'names': draw(st.sampled_from(['s', 'odd'])),
            'old': draw(st.booleans())}


ODD = ['s10', 's2', 'Ünï', 'a b', '0', '*/']


def geometry(s):
    G = geo.G2()
    if s is None:
        return G.empty()
    p = s['pool']
    m = p['affine'] or [1, 0, 0, 1, 0, 0]
    k = mpq(s['scale'])
    m = [gen.qs(mpq(v) * k) for v in m]
    pool = geo.build_pool(dict(p, affine=m),
                          lambda n, gs, rs, res: geo.region(res))
    return pool[-1 - s['pick'] % len(pool)][0]


def read_back(path):
    import ezdxf
    doc = ezdxf.readfile(path)
    out = []
    for e in doc.modelspace():
        if e.dxftype() not in ('LWPOLYLINE', 'POLYLINE'):
            raise Violation('the drawing contains a %s' % e.dxftype())
        if e.dxftype() == 'LWPOLYLINE':
            pts = list(e.get_points('xyseb'))
            if any(p[2] or p[3] or p[4] for p in pts):
                raise Violation('a polyline has arcs or a width')
            pts = [(p[0], p[1]) for p in pts]
            if tuple(e.dxf.extrusion) != (0, 0, 1):
                raise Violation('a polyline is not drawn in the xy plane')
        else:
            pts = [(v.dxf.location[0], v.dxf.location[1])
                   for v in e.vertices]
        closed = bool(e.is_closed)
        if len(pts) > 1 and pts[0] == pts[-1]:
            pts = pts[:-1]
            closed = True
        if not closed:
            raise Violation('a polyline is not closed: %s' % pts[:8])
        out.append(pts)
    for lay in doc.layouts:
        if lay.name != 'Model' and any(e.dxftype() != 'VIEWPORT'
                                       for e in lay):
            raise Violation('layout %s is not empty' % lay.name)
    return out


def same_ring(pts, ring, dx, dy, tol):
    """Same cyclic sequence, in either direction, anywhere it starts."""
    n = len(ring)
    if len(pts) != n:
        return False
    r = [(x + dx, y + dy) for x, y in ring]
    for rr in (r, r[::-1]):
        for k in range(n):
            if abs(rr[k][0] - pts[0][0]) <= tol and \
                    abs(rr[k][1] - pts[0][1]) <= tol and \
                    all(abs(rr[(k + i) % n][0] - pts[i][0]) <= tol and
                        abs(rr[(k + i) % n][1] - pts[i][1]) <= tol
                        for i in range(n)):
                return True
    return False


def compare(lines, sheets, margin=MARGIN):
    """lines: polylines read; sheets: [(name, rings as floats)]."""
    left = list(lines)
    base = None
    end = None
    for name, rings in sheets:
        if not rings:
            continue
        xs = [x for r in rings for x, _ in r]
        ys = [y for r in rings for _, y in r]
        w = max(xs) - min(xs)
        if not left:
            raise Violation('sheet %s is not in the drawing' % name)
        x0 = min(x for ln in left for x, _ in ln)
        tol = 1e-11 * (1 + max(map(abs, xs + ys)) +
                      max(abs(x) for ln in left for x, _ in ln))
        mine = [ln for ln in left if max(x for x, _ in ln) <= x0 + w + tol]
        rest = [ln for ln in left if max(x for x, _ in ln) > x0 + w + tol]
        if any(min(x for x, _ in ln) < x0 + w - tol for ln in rest):
            raise Violation('sheet %s, %.6f wide, overlaps another one or is '
                            'too wide' % (name, w))
        y0 = min((y for ln in mine for _, y in ln), default=0.0)
        if base is None:
            base = y0
        if abs(y0 - base) > tol:
            raise Violation('sheet %s starts at y = %.6f, others at %.6f' %
                            (name, y0, base))
        if end is not None and abs(x0 - end - margin) > 10 * tol:
            raise Violation('sheet %s starts %.6f after the end of the one '
                            'before, not %s' % (name, x0 - end, margin))
        dx, dy = x0 - min(xs), y0 - min(ys)
        if len(mine) != len(rings):
            raise Violation('sheet %s has %d outlines, the drawing %d' %
                            (name, len(rings), len(mine)))
        for r in rings:
            for i, ln in enumerate(mine):
                if same_ring(ln, r, dx, dy, tol):
                    del mine[i]
                    break
            else:
                raise Violation('sheet %s: no polyline is the outline %s '
                                'moved by (%.6f, %.6f)' %
                                (name, r[:6], dx, dy))
        left = rest
        end = x0 + w
    if left:
        raise Violation('%d polylines belong to no sheet' % len(left))


def rings_of(g):
    return [[(float(x), float(y)) for x, y in r]
            for r in ref2d.region_rings(geo.region(g))]


def run(case, ctx):
    from plycutter.writer import write_dxf
    geoms = {}
    for i, s in enumerate(case['sheets']):
        geoms['s%d' % i if case['names'] == 's' else ODD[i]] = geometry(s)
    before = {k: geo.region(g) for k, g in geoms.items()}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'out.dxf')
        if case['old']:
            with open(path, 'w') as f:
                f.write('old content\n' * 10000)
        with contextlib.redirect_stdout(io.StringIO()):
            write_dxf(path, geoms)
        if os.listdir(d) != ['out.dxf']:
            raise Violation('files written: %s' % sorted(os.listdir(d)))
        lines = read_back(path)
    compare(lines, [(k, rings_of(g)) for k, g in geoms.items()])
    if list(before) != list(geoms) or \
            any(geo.region(g) != before[k] for k, g in geoms.items()):
        raise Violation('writing changed the geometries')
    full = [k for k in geoms if before[k]]
    ctx.nontrivial(len(full) >= 2)
    if len(full) < len(geoms):
        ctx.label('empty sheet')
        if full and not before[list(geoms)[0]]:
            ctx.label('first sheet empty')
    if any(len(before[k]) > 1 for k in full):
        ctx.label('several pieces')
    if any(h for k in full for _, h in before[k]):
        ctx.label('holes')


SUBS = [
    Sub('files', cases(), run, 1200, 15000,
        '0-6 sheets with pieces, holes, islands, any scale and position, some '
        'empty; the file is read back with ezdxf; non-trivial = at least two '
        'non-empty sheets'),
]
