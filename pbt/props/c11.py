"""C11: both sheets of a joint share one joint coordinate."""
import numpy as np
from gmpy2 import mpq
from hypothesis import strategies as st

import geo
import models
import ref2d
from harness import Reject, Sub, Violation

unit = st.lists(st.integers(-6, 6), min_size=3, max_size=3)
AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]


@st.composite
def planes_case(draw):
    far = draw(st.sampled_from([0, 30, 1000, 20000]))
    sheets = []
    for _ in range(draw(st.integers(2, 4))):
        n = draw(st.sampled_from(AXES)) if draw(st.booleans()) else draw(unit)
        if not any(n):
            n = [1, 2, 2]
        sheets.append({'n': n, 'o': draw(st.integers(-4 * far, 4 * far)) / 4,
                       'spin': draw(st.sampled_from([0, 0, 0.5, 1.25, 3]))})
    cuts = sorted(draw(st.sets(st.integers(-4 * far - 80, 4 * far + 80),
                               min_size=2, max_size=8)))
    return {'sheets': sheets, 't': draw(st.sampled_from([6, 3, 4.5])),
            'cuts': cuts[:len(cuts) // 2 * 2],
            'fract': sorted(draw(st.sets(st.integers(0, 10), min_size=2,
                                         max_size=2)))}


def to3(sheet, pts):
    return models.sheet_to_3d(sheet, pts, 0)


def ext(a):
    return float(np.min(a)), float(np.max(a))


def check_pair(sp, inter, t, ivs, fract, ctx):
    G1 = geo.G1()
    sides = list(inter.sides)
    if len(sides) != 2:
        raise Violation('a joint with %d sides' % len(sides))
    sh = [sp.sheets[s.sheet] for s in sides]
    nrm = [np.array(s.sides[0, :3], float) for s in sh]
    off = [float(s.sides[0, 3]) for s in sh]
    D = np.array(inter.direction, float)
    scale = 1 + max(abs(o) for o in off) + max(abs(float(v)) for iv in ivs
                                                 for v in iv)
    tol = 1e-9 * scale / max(1e-3, np.linalg.norm(np.cross(*nrm))) ** 2
    if abs(np.linalg.norm(D) - 1) > 1e-9 or \
            max(abs(D @ n) for n in nrm) > 1e-9:
        raise Violation('joint %s runs along %s' % (inter.id, D.tolist()))
    got = []
    where = G1([tuple(iv) for iv in ivs])
    for k in range(2):
        s, o = sides[k], 1 - k
        R = np.array(sh[k].slice_rotation[:3, :3], float)
        d2 = np.array([float(x) for x in s.direction])
        n2 = np.array([float(x) for x in s.normal])
        N = R[:, :2] @ n2
        if np.abs(R[:, :2] @ d2 - D).max() > 1e-9:
            raise Violation('%s: the direction on sheet %s is not that of '
                            'the joint' % (inter.id, s.sheet))
        if abs(np.linalg.norm(N) - 1) > 1e-9 or abs(N @ D) > 1e-9:
            raise Violation('%s: the normal on sheet %s is not normal to the '
                            'joint' % (inter.id, s.sheet))
        # The slab of the other sheet, seen across the joint on this one
        al, be = nrm[o] @ nrm[k], nrm[o] @ N
        qs = [(kk - al * h) / be for kk in (off[o] - t, off[o])
              for h in (off[k] - t, off[k])]
        q0, q1 = min(qs), max(qs)
        f = s.make_fingers(where)
        ext_by_iv = []
        reg = geo.region(f)
        if len(reg) != len(ivs) or any(hs for _, hs in reg):
            raise Violation('%s: fingers on %s for %d intervals have %d '
                            'pieces' % (inter.id, s.sheet, len(ivs),
                                        len(reg)))
        for ring, _ in reg:
            p3 = to3(sh[k], ring)
            ext_by_iv.append(ext(p3 @ D))
            a, b = ext(p3 @ N)
            if abs(a - q0) > tol or abs(b - q1) > tol:
                raise Violation('%s: fingers on %s span %.6f..%.6f across the '
                                'joint, the other sheet is at %.6f..%.6f' %
                                (inter.id, s.sheet, a, b, q0, q1))
        ext_by_iv.sort()
        got.append(ext_by_iv)
        area = float(f.area())
        want = sum(float(b - a) for a, b in ivs) * (q1 - q0)
        if abs(area - want) > tol * (1 + want):
            raise Violation('%s: fingers on %s have area %.6f, should have '
                            '%.6f' % (inter.id, s.sheet, area, want))
        back = s.project_to_1d(f)
        diff = (back ^ where).measure1d()
        if abs(float(diff)) > tol * 8:
            raise Violation('%s: fingers for %s on %s project back to %s' %
                            (inter.id, ivs, s.sheet,
                             [(float(a), float(b))
                              for a, b in back.get_intervals()]))
        # One finger at a time
        parts = [geo.region(s.make_fingers(G1([tuple(iv)]))) for iv in ivs]
        geo.check_same(parts, lambda *a: any(a), reg,
                       'fingers of a union on ' + s.sheet)
        f0, f1 = [mpq(x, 10) for x in fract]
        part = s.make_fingers(where, f0, f1)
        for ring, _ in geo.region(part):
            a, b = ext(to3(sh[k], ring) @ N)
            lo = float(s.min_normal_offset)
            hi = float(s.max_normal_offset)
            w0, w1 = lo + float(f0) * (hi - lo), lo + float(f1) * (hi - lo)
            if abs(a - w0) > tol or abs(b - w1) > tol:
                raise Violation('%s: fingers from %s to %s of the width span '
                                '%.6f..%.6f, should span %.6f..%.6f' %
                                (inter.id, f0, f1, a, b, w0, w1))
        if not s.make_fingers(G1.empty()).is_empty():
            raise Violation('fingers for no interval are not empty')
        opp = s.opposite(sp)
        if opp.id != sides[o].id:
            raise Violation('%s: wrong opposite side' % inter.id)
    for (a, b), (c, d), iv in zip(got[0], got[1], ivs):
        if abs(a - c) > tol or abs(b - d) > tol:
            raise Violation('%s: the fingers for %s lie at %.6f..%.6f along '
                            'the joint on one sheet and at %.6f..%.6f on the '
                            'other' % (inter.id, iv, a, b, c, d))
        if abs((b - a) - float(iv[1] - iv[0])) > tol:
            raise Violation('%s: fingers for %s are %.6f long' %
                            (inter.id, iv, b - a))
    if abs(nrm[0] @ nrm[1]) > 1e-6:
        ctx.label('oblique')
    else:
        ctx.label('right angle')


def check_plex(sp, t, ivs, fract, ctx):
    ids = sorted(sp.sheets)
    want = set()
    for i, a in enumerate(ids):
        for b in ids[i + 1:]:
            c = np.linalg.norm(np.cross(
                np.array(sp.sheets[a].sides[0, :3], float),
                np.array(sp.sheets[b].sides[0, :3], float)))
            if c > 1e-3:
                want.add(frozenset((a, b)))
            elif c > 1e-6:
                raise Reject
    got = [frozenset(s.sheet for s in i.sides)
           for i in sp.intersections.values()]
    if len(got) != len(set(got)) or set(got) != want:
        raise Violation('joints are between %s, should be between %s' %
                        (sorted(map(sorted, got)),
                         sorted(map(sorted, want))))
    for i in sp.intersections.values():
        check_pair(sp, i, t, ivs, fract, ctx)
    ctx.nontrivial(len(want) > 0)
    if len(want) < len(ids) * (len(ids) - 1) // 2:
        ctx.label('parallel sheets')


def intervals(cuts):
    return [(mpq(a, 4), mpq(b, 4)) for a, b in zip(cuts[::2], cuts[1::2])]


def run_planes(case, ctx):
    t = case['t']
    sheets = [models.plane_sheet('s%d' % i, s['n'], s['o'], t, s['spin'])
              for i, s in enumerate(case['sheets'])]
    check_plex(models.plex(sheets), t, intervals(case['cuts']),
               case['fract'], ctx)


@st.composite
def mesh_case(draw):
    cuts = sorted(draw(st.sets(st.integers(-300, 300), min_size=2,
                               max_size=6)))
    return {'m': draw(models.models(strip=0.5, far=400)),
            'cuts': cuts[:len(cuts) // 2 * 2],
            'fract': sorted(draw(st.sets(st.integers(0, 10), min_size=2,
                                         max_size=2)))}


def run_mesh(case, ctx):
    from plycutter.create_sheetplex import create_sheetplex
    m = case['m']
    mesh = models.build(m)
    if mesh is None:
        raise Reject
    sp = create_sheetplex(mesh, models.params(thickness=m['t']))
    check_plex(sp, float(mpq(m['t'])), intervals(case['cuts']),
               case['fract'], ctx)
    ctx.label(m['kind'])


SUBS = [
    Sub('planes', planes_case(), run_planes, 1000, 25000,
        '2-4 sheets in random planes (axis-parallel or not, near or far from '
        'the origin, 2D axes turned), random interval sets; compared in 3D; '
        'non-trivial = at least one joint'),
    Sub('meshes', mesh_case(), run_mesh, 60, 2000,
        'sheets extracted from generated models; non-trivial = at least one '
        'joint'),
]
