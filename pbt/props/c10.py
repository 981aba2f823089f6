"""C10: the sheets found in a model are the plates it consists of."""
import math

import numpy as np
from gmpy2 import mpq
from hypothesis import strategies as st

import models
from harness import Reject, Sub, Violation


def expected_boxes(m):
    """[(normal, offset, {name: shapely in model coords 2D}, lift)]"""
    b = models.kit_boxes(m)
    t = mpq(m['t'])
    out = []
    for ax, lo in b.slabs(t):
        a1, a2 = (ax + 1) % 3, (ax + 2) % 3

        def lift(rects, ax=ax, a1=a1, a2=a2, lo=lo):
            res = []
            for u0, v0, u1, v1 in rects:
                q = []
                for u, v in ((u0, v0), (u1, v0), (u1, v1), (u0, v1)):
                    p = [0, 0, 0]
                    p[ax], p[a1], p[a2] = lo, u, v
                    q.append(p)
                res.append(q)
            return res
        n = np.zeros(3)
        n[ax] = 1
        e = mpq(1, 10)
        out.append({
            'normal': n, 'top': float(lo + t), 'base': float(lo),
            'face+': lift(b.faces(ax, lo + t, 1)),
            'face-': lift(b.faces(ax, lo, -1)),
            'sections': lambda hs, b=b, ax=ax, lift=lift: [
                lift(b.section(ax, h)) for h in hs],
            'lo': lo})
    return out


def expected_prism(m):
    prof = np.array(models.profile_of(m))
    t = float(mpq(m['t']))
    n = len(prof)
    L = m['L']
    edges = [(prof[i], prof[(i + 1) % n]) for i in range(n)]
    out = []

    def outn(e):
        d = e[1] - e[0]
        d = d / np.linalg.norm(d)
        return np.array([d[1], -d[0]])
    used = set()
    for i, e in enumerate(edges):
        if i in used:
            continue
        ni = outn(e)
        oi = ni @ e[0]
        same = [j for j, f in enumerate(edges) if
                np.linalg.norm(outn(f) - ni) < 1e-6 and
                abs(ni @ f[0] - oi) < 1e-6]
        opp = [j for j, f in enumerate(edges) if
               np.linalg.norm(outn(f) + ni) < 1e-6 and
               abs(ni @ f[0] - (oi - t)) < 1e-6]
        if not opp:
            continue
        used |= set(same) | set(opp)

        def rects(pairs):
            return [[[a[0], a[1], 0], [b[0], b[1], 0], [b[0], b[1], L],
                     [a[0], a[1], L]] for a, b in pairs]

        def sections(hs, ni=ni, oi=oi):
            # hs are heights above the lower face, as for boxes
            res = []
            for h in hs:
                off = oi - t + float(h)
                d = np.array([-ni[1], ni[0]])
                cuts = []
                for a, b in edges:
                    fa, fb = ni @ a - off, ni @ b - off
                    if (fa < 0) != (fb < 0):
                        p = a + (b - a) * (fa / (fa - fb))
                        cuts.append((d @ p, p))
                cuts.sort(key=lambda c: c[0])
                res.append(rects([(cuts[k][1], cuts[k + 1][1])
                                  for k in range(0, len(cuts) - 1, 2)]))
            return res
        out.append({'normal': np.array([ni[0], ni[1], 0.]), 'top': oi,
                    'base': oi - t, 'face+': rects([edges[j] for j in same]),
                    'face-': rects([edges[j] for j in opp]),
                    'sections': sections, 'lo': 0})
    return out


def expected_tiles(m):
    t = float(mpq(m['t']))

    def at(h, side=None):
        return [[[x, y, h] for x, y in q['p']] for q in m['tiles']
                if (q['z'] == h if side else q['z'] < h < q['z'] + t)]
    return [{'normal': np.array([0., 0., 1.]), 'top': z + t, 'base': z,
             'face+': at(z, True), 'face-': at(z, True),
             'sections': lambda hs: [at(float(h)) for h in hs],
             'lo': mpq(z)} for z in sorted({q['z'] for q in m['tiles']})]


def quads_to_shapely(sheet, pl, quads):
    from shapely.geometry import Polygon
    return models.s_union([Polygon(models.model_to_sheet(sheet, pl, q))
                        .buffer(0) for q in quads])


def same_area(a, b, what, tol=2e-3):
    d = models.s_xor(a, b).area
    if d > tol * (1 + a.length + b.length) / 10:
        raise Violation('%s: area %.4f, should be %.4f; they differ by %.4f'
                        % (what, a.area, b.area, d))


def check_sheet(sid, sh, e, pl, t, thickness):
    """sh has normal and offset near those of e (maybe reversed)."""
    R0 = models.rot_matrix(pl['q'])
    d0 = np.array(pl['d'], float)
    N = R0 @ e['normal']
    n = np.array(sh.sides[0][:3], float)
    flip = n @ N < 0
    M = np.array(sh.slice_rotation, float)
    if M.shape != (4, 4) or \
            np.abs(M[:3, :3] @ M[:3, :3].T - np.eye(3)).max() > 1e-9 or \
            abs(np.linalg.det(M[:3, :3]) - 1) > 1e-9:
        raise Violation('%s: slice_rotation is not a rotation' % sid)
    if np.abs(M[:3, 3]).max() > 0 or np.abs(M[3] - [0, 0, 0, 1]).max() > 0:
        raise Violation('%s: slice_rotation moves the origin' % sid)
    if np.abs(np.array(sh.inverse_slice_rotation, float) @ M -
              np.eye(4)).max() > 1e-9:
        raise Violation('%s: inverse_slice_rotation is not the inverse' % sid)
    if np.abs(M[:3, 2] - n).max() > 1e-6:
        raise Violation('%s: the rotation does not turn z into the normal'
                        % sid)
    names = ['face-', 'face+'] if flip else ['face+', 'face-']
    got = [models.to_shapely(f) for f in sh.faces]
    want = [quads_to_shapely(sh, pl, e[k]) for k in names]
    for i in range(2):
        same_area(got[i], want[i], '%s: face %d' % (sid, i))
    same_area(models.to_shapely(sh.both_faces),
              models.s_and(*want), '%s: both_faces' % sid)
    th = mpq(thickness)
    # Heights above the side that is lower in the model's own coordinates
    if flip:
        # offset is -base, the other side is at -(base + thickness)
        hs = [e['lo'] + th - mpq(1, 10), e['lo'] + th / 2,
              e['lo'] + mpq(1, 10)]
        outs = [e['lo'] - mpq(1, 10), e['lo'] + th + mpq(1, 10)]
    else:
        T = e['lo'] + mpq(t)
        hs = [T - th + mpq(1, 10), T - th / 2, T - mpq(1, 10)]
        outs = [T + mpq(1, 10), T - th - mpq(1, 10)]
    for i, q in enumerate(e['sections'](outs)):
        same_area(models.to_shapely(sh.outside_slices[i]),
                  quads_to_shapely(sh, pl, q),
                  '%s: outside slice %d' % (sid, i))
    secs = [quads_to_shapely(sh, pl, q) for q in e['sections'](hs)]
    mx = models.s_union(secs)
    mn = models.s_and(models.s_and(secs[0], secs[1]), secs[2])
    same_area(models.to_shapely(sh.slices_max), mx, '%s: slices_max' % sid)
    same_area(models.to_shapely(sh.slices_min), mn, '%s: slices_min' % sid)
    return mx.area - mn.area > 1, models.s_xor(*want).area > 1


def expected(m):
    if m['kind'] == 'tiles':
        return expected_tiles(m)
    return expected_prism(m) if models.is_prism(m) else expected_boxes(m)


def match(sheets, exp, pl, tol=0.02):
    """Pair sheets with expected slabs; raise when they do not correspond."""
    R0 = models.rot_matrix(pl['q'])
    d0 = np.array(pl['d'], float)
    left = list(range(len(exp)))
    pairs = []
    for sid in sorted(sheets):
        sh = sheets[sid]
        if sh.id != sid:
            raise Violation('sheet %s is listed as %s' % (sh.id, sid))
        s = np.array(sh.sides, float)
        if s.shape != (2, 4) or abs(np.linalg.norm(s[0, :3]) - 1) > 1e-9 or \
                np.abs(s[0, :3] + s[1, :3]).max() > 1e-9:
            raise Violation('%s: sides are %s' % (sid, s.tolist()))
        hit = None
        for k in left:
            N = R0 @ exp[k]['normal']
            if np.abs(s[0, :3] - N).max() < 1e-3:
                o = exp[k]['top'] + N @ d0
            elif np.abs(s[0, :3] + N).max() < 1e-3:
                o = -(exp[k]['base'] + N @ d0)
            else:
                continue
            if abs(s[0, 3] - o) < tol:
                hit = k
        if hit is None:
            raise Violation('sheet %s with normal %s at %.3f is no plate of '
                            'the model' % (sid, s[0, :3].round(4).tolist(),
                                           s[0, 3]))
        left.remove(hit)
        pairs.append((sid, exp[hit]))
    if left:
        raise Violation('%d of %d plates were not found' %
                        (len(left), len(exp)))
    return pairs


def ambiguous(m, exp):
    """A cross section is asked for where another plate begins or ends."""
    t = float(mpq(m['t']))
    if m['kind'] == 'tiles':
        ends = [{z for q in m['tiles'] for z in (q['z'], q['z'] + t)}] * 3
    else:
        b = models.kit_boxes(m)
        ends = [set(map(float, c)) for c in b.cs]
        # Edges of a plate in the plane of another one's face belong to the
        # plate that is found first
        for e in exp:
            ax = int(np.argmax(e['normal']))
            for q in b.add:
                if q[ax + 3] - q[ax] != mpq(m['t']) and \
                        (q[ax] == e['lo'] or
                         q[ax + 3] == e['lo'] + mpq(m['t'])):
                    return True
    for e in exp:
        ax = int(np.argmax(np.abs(e['normal'])))
        for h in (-.1, .1, t / 2, t - .1, t + .1):
            if any(abs(float(e['lo']) + h - z) < .06 for z in ends[ax]):
                return True
    return False


@st.composite
def case_s(draw):
    return {'m': draw(models.models(
        models.KINDS + ['pocket', 'notch', 'tongue', 'channel', 'block'] +
        models.MORE + ['rack'], strip=0.3, far=4000)),
            'dt': draw(st.sampled_from([0, 0, 0, '1/20', '-1/20'])),
            'only': draw(st.one_of(st.integers(0, 7),
                                   st.integers(0, 8191)))}


def run(case, ctx):
    from plycutter.create_sheetplex import create_sheetplex
    m = case['m']
    mesh = models.build(m)
    if mesh is None:
        raise Reject
    exp = expected(m)
    loose = m['kind'] in ('tiles', 'scatter')
    if len(exp) != m['n'] and m['kind'] != 'scatter':
        raise Reject                    # a strip that is a plate by accident
    if not (loose or models.is_prism(m)) and \
            not models.kit_boxes(m).manifold():
        raise Reject
    if (loose or m['kind'] == 'block') and \
            not models.distinct_planes(mesh, float(mpq(m['t']))):
        raise Reject
    if loose and ambiguous(m, exp):
        raise Reject
    th = mpq(m['t']) + mpq(case['dt'])
    p = dict(models.PARAMS, thickness=th)
    before = (mesh.vertices.copy(), mesh.faces.copy())
    sp = create_sheetplex(mesh, p)
    if not (np.array_equal(before[0], mesh.vertices) and
            np.array_equal(before[1], mesh.faces)):
        raise Violation('the mesh was modified')
    pairs = match(sp.sheets, exp, m['place'])
    for sid, e in pairs:
        sh = sp.sheets[sid]
        s = np.array(sh.sides, float)
        if abs(s[0, 3] + s[1, 3] - float(th)) > 1e-6:
            raise Violation('%s: the sides are %.4f apart, thickness is %s' %
                            (sid, s[0, 3] + s[1, 3], th))
        var, asym = check_sheet(sid, sh, e, m['place'], m['t'], th)
        if var:
            ctx.label('cross section varies')
        if asym:
            ctx.label('faces differ')
    ids = sorted(sp.sheets)
    only = [s for i, s in enumerate(ids) if case['only'] >> i & 1]
    sub = create_sheetplex(mesh, dict(p, only_sheets=only))
    if sorted(sub.sheets) != only:
        raise Violation('asked for sheets %s, got %s' %
                        (only, sorted(sub.sheets)))
    for s in only:
        if np.abs(np.array(sub.sheets[s].sides, float) -
                  np.array(sp.sheets[s].sides, float)).max() > 0:
            raise Violation('sheet %s is another one when selected' % s)
        a, b = (models.to_shapely(x.sheets[s].slices_max)
                for x in (sub, sp))
        same_area(a, b, 'selected sheet ' + s)
    for i in sub.intersections.values():
        if any(s.sheet not in only for s in i.sides):
            raise Violation('a joint with a sheet that was not selected')
    ctx.label(m['kind'])
    if case['dt']:
        ctx.label('thickness off by a twentieth')
    ctx.nontrivial(len(exp) > 1)


@st.composite
def apart_case(draw):
    return {'m': draw(models.apart()), 'dt': 0,
            'only': draw(st.integers(0, 7))}


# --- no plates at that thickness --------------------------------------------

@st.composite
def none_case(draw):
    return {'m': draw(models.models(strip=0.3, far=100)),
            'f': draw(st.sampled_from(['3/5', '3/4', '5/4', '3/2', '7/4']))}


def run_none(case, ctx):
    from plycutter.create_sheetplex import create_sheetplex
    m = case['m']
    mesh = models.build(m)
    if mesh is None:
        raise Reject
    th = mpq(m['t']) * mpq(case['f'])
    # Any two opposite facets at that distance?
    n = mesh.face_normals
    o = np.einsum('ij,ij->i', mesh.triangles[:, 0], n)
    for i in range(len(n)):
        opp = np.linalg.norm(n + n[i], axis=1) < 0.01
        if np.any(np.abs(-o[opp] - o[i] + float(th)) < 0.2):
            raise Reject
    try:
        sp = create_sheetplex(mesh, dict(models.PARAMS, thickness=th))
    except AssertionError:
        ctx.label('refused')
        return
    if len(sp.sheets):
        raise Violation('%d sheets of thickness %s found in a model of '
                        'thickness %s' % (len(sp.sheets), th, m['t']))
    ctx.label('none found')
    ctx.nontrivial()


SUBS = [
    Sub('plates', case_s(), run, 160, 6000,
        'models of 2-3 plates: box kits (corner, T, cross, overhang, '
        'windows) and bent or branched prisms at several angles, rotated and '
        'moved; thickness exact or off by 1/20; compared with the solid; '
        'non-trivial = at least two plates'),
    Sub('apart', apart_case(), run, 100, 4000,
        'plates that do not touch: convex tiles (also triangles) of very '
        'different sizes in parallel planes, boxes in all three directions; '
        'planes shared, or less than 1 apart, some through the origin, '
        'others 100000 away; non-trivial = at least two plates'),
    Sub('none', none_case(), run_none, 64, 1500,
        'the same models searched at a wrong thickness; non-trivial = no '
        'sheet is found without an error'),
]
