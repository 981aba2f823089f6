"""C18: one model at two places, turned and listed in another order."""
import numpy as np
from gmpy2 import mpq
from hypothesis import strategies as st

import models
import pipe
from harness import Reject, Sub, Violation

KINDS = ['L', 'T', 'X', 'U', 'corner', 'partial', 'window', 'overhang',
         'notch', 'tee3', 'cross', 'shelf', 'pocket']


@st.composite
def cases(draw, strip=0.25, kinds=KINDS, lo=3):
    m = draw(models.models(kinds, strip=strip, lo=lo, hi=6))
    far = draw(st.sampled_from([200, 4000, 20000, 400000]))
    base = draw(models.placements(draw(st.sampled_from([200, 4000])))) \
        if draw(st.booleans()) else pipe.HOME
    return {'m': dict(m, place=base, order=draw(
        st.sampled_from([None, None, 1, 2]))),
        'p': draw(models.pipeline_params(m['t'])),
        'place': draw(models.placements(far)),
        'order': draw(st.sampled_from([None, 3, 4, 5]))}


class At:
    """The model at one place."""

    def __init__(self, m, place, order, p):
        from plycutter.create_sheetplex import create_sheetplex
        self.rot = models.rot_matrix(place['q'])
        self.d = np.array(place['d'], float)
        mesh = models.build(m, place, order)
        if mesh is None:
            raise Reject
        self.sp = create_sheetplex(mesh, p)

    def plane(self, sheet):
        """Normal and offset in the model's own coordinates."""
        n = self.rot.T @ np.array(sheet.sides[0, :3], float)
        return n, float(sheet.sides[0, 3]) - self.d @ np.array(
            sheet.sides[0, :3], float)

    def home(self, sheet, shape, other, osheet):
        """A shape on a sheet, in the coordinates of the same sheet at the
        other place."""
        import shapely
        R = np.array(sheet.slice_rotation[:3, :3], float)
        Ro = np.array(osheet.slice_rotation[:3, :3], float)
        h = float(sheet.sides[0, 3])

        def tr(xy):
            p = np.concatenate([xy, np.full((len(xy), 1), h)], 1) @ R.T
            p = (p - self.d) @ self.rot
            p = p @ other.rot.T + other.d
            return (p @ Ro)[:, :2]
        return shapely.transform(shape, tr)


def pair_up(A, B, t):
    """{sheet of A: (sheet of B, turned over)}"""
    left = dict(B.sp.sheets)
    out = {}
    for k, s in sorted(A.sp.sheets.items()):
        n, o = A.plane(s)
        for j, r in sorted(left.items()):
            n2, o2 = B.plane(r)
            if np.abs(n - n2).max() < 1e-3 and abs(o - o2) < 0.02:
                out[k] = (j, False)
            elif np.abs(n + n2).max() < 1e-3 and abs(o + o2 - t) < 0.02:
                out[k] = (j, True)
            else:
                continue
            del left[j]
            break
        else:
            raise Violation('sheet %s (normal %s, offset %.4f in the model) '
                            'is not found at the other place' % (
                                k, n.round(4).tolist(), o))
    if left:
        raise Violation('%d sheets are found only at the other place' %
                        len(left))
    return out


def compare(A, a, ga, B, b, gb, what, tol=2e-3):
    sa, sb = models.to_shapely(ga), models.to_shapely(gb)
    sb = B.home(b, sb, A, a)
    import shapely
    if not sb.is_valid:
        sb = models.areal(shapely.make_valid(sb, method='structure',
                                             keep_collapsed=False))
    v = models.s_xor(sa, sb).area
    if v > tol * (1 + sa.length + sb.length) / 10:
        raise Violation('%s: area %.4f, at the other place %.4f; they differ '
                        'by %.4f' % (what, sa.area, sb.area, v))


def compare_sheets(A, B, pairs):
    for k, (j, flip) in pairs.items():
        a, b = A.sp.sheets[k], B.sp.sheets[j]
        for f in ('both_faces', 'slices_max', 'slices_min'):
            compare(A, a, getattr(a, f), B, b, getattr(b, f),
                    '%s of %s' % (f, k))
        for f in ('faces', 'outside_slices'):
            for i in range(2):
                compare(A, a, getattr(a, f)[i], B, b,
                        getattr(b, f)[1 - i if flip else i],
                        '%s[%d] of %s' % (f, i, k))


def joints(sp):
    return {frozenset(s.sheet for s in i.sides): i
            for i in sp.intersections.values()}


def compare_joints(A, B, pairs, p):
    from plycutter.sheetbuild import create_sheetbuild
    ja, jb = joints(A.sp), joints(B.sp)
    want = {frozenset(pairs[k][0] for k in key) for key in ja}
    if want != set(jb) or len(ja) != len(A.sp.intersections) or \
            len(jb) != len(B.sp.intersections):
        raise Violation('joints %s, but %s at the other place' % (
            sorted(map(sorted, want)), sorted(map(sorted, jb))))
    x, y = create_sheetbuild(A.sp, p), create_sheetbuild(B.sp, p)
    some = False
    r = float(mpq(p['support_radius']))
    # The polygon that supports are buffered with does not turn with the model
    whole = {k for k, (j, _) in pairs.items() if all(
        (X.sp.sheets[i].slices_max - sb.sheet_ok[i]).area() < 1e-6
        for X, sb, i in ((A, x, k), (B, y, j)))}
    for k, (j, flip) in pairs.items():
        for f in ('sheet_ok', 'sheet_chosen'):
            ga, gb = getattr(x, f)[k], getattr(y, f)[j]
            la = float(ga.area())
            lb = float(gb.area())
            per = models.to_shapely(A.sp.sheets[k].slices_max).length
            if abs(la - lb) > (0.1 if k in whole and f == 'sheet_ok'
                               else 0.1 * r * per):
                raise Violation('%s of %s has area %.4f, at the other place '
                                '%.4f' % (f, k, la, lb))
    for key, ia in ja.items():
        ib = jb[frozenset(pairs[k][0] for k in key)]
        strict = all(k in whole for k in key)
        for s in ia.sides:
            q = [q for q in ib.sides if q.sheet == pairs[s.sheet][0]]
            if len(q) != 1:
                raise Violation('sides of joint %s: %s' % (
                    ib.id, [q.id for q in ib.sides]))
            q = q[0]
            ma = float(x.interside_ok[s.id].measure1d())
            mb = float(y.interside_ok[q.id].measure1d())
            what = 'possible for %s' % (s.id,)
            if abs(ma - mb) > (1e-3 if strict else 0.25 * r):
                raise Violation('%s: %.5f, at the other place %.5f' %
                                (what, ma, mb))
            some |= ma > 0
            if not strict:
                continue
            a, b = A.sp.sheets[s.sheet], B.sp.sheets[q.sheet]
            compare(A, a, s.make_fingers(x.interside_ok[s.id]), B, b,
                    q.make_fingers(y.interside_ok[q.id]),
                    'fingers ' + what)
    return some


def both(case):
    m = case['m']
    pipe.check_model(m)
    p = models.real_params(case['p'])
    A = At(m, m['place'], m['order'], p)
    B = At(m, case['place'], case['order'], p)
    pairs = pair_up(A, B, float(mpq(m['t'])))
    return p, A, B, pairs


def labels(case, ctx):
    ctx.label(case['m']['kind'])
    if max(map(abs, case['place']['d'])) > 1000:
        ctx.label('far')
    if case['place']['q'] != case['m']['place']['q']:
        ctx.label('turned')
    if case['order'] != case['m']['order']:
        ctx.label('reordered')


def run(case, ctx):
    p, A, B, pairs = both(case)
    compare_sheets(A, B, pairs)
    some = compare_joints(A, B, pairs, p)
    labels(case, ctx)
    ctx.nontrivial(some and (case['place'] != case['m']['place'] or
                             case['order'] != case['m']['order']))


@st.composite
def apart_cases(draw):
    return {'m': dict(draw(models.apart((200,))), order=None),
            'place': draw(models.placements(draw(st.sampled_from(
                [200, 20000, 400000, 400000])))),
            'order': draw(st.sampled_from([None, 3, 4, 5]))}


def run_apart(case, ctx):
    from props import c10
    m = case['m']
    if not models.distinct_planes(models.build(m), float(mpq(m['t']))) or \
            c10.ambiguous(m, c10.expected(m)):
        raise Reject
    p = dict(models.PARAMS, thickness=mpq(m['t']))
    A = At(m, m['place'], m['order'], p)
    B = At(m, case['place'], case['order'], p)
    compare_sheets(A, B, pair_up(A, B, float(mpq(m['t']))))
    labels(case, ctx)
    ctx.nontrivial(len(A.sp.sheets) > 1 and case['place'] != m['place'])


def run_parts(case, ctx):
    from plycutter.canned import canned_1
    m = case['m']
    p, A, B, pairs = both(case)
    t = float(mpq(m['t']))
    vol = []
    for X in (A, B):
        res = canned_1(X.sp, p)
        parts = pipe.parts_of(X.sp, res.sheet_cuts, t)
        ks = sorted(parts)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                v, l = pipe.overlap(parts[a], parts[b])
                if v > 1e-3:
                    raise Violation('parts %s and %s overlap: volume %.5f' %
                                    (a, b, v))
        vol.append(sum(P.shape.area * t for P in parts.values()
                       if P.shape is not None))
    if abs(vol[0] - vol[1]) > 0.1 * t * t:
        raise Violation('the parts have volume %.4f, at the other place %.4f'
                        % tuple(vol))
    labels(case, ctx)
    ctx.nontrivial(len(A.sp.intersections) > 0)


SUBS = [
    Sub('sheets and joints', cases(), run, 80, 4000,
        'box kits, strips and branches at two placements (up to 100000 '
        'away, turned) and in two triangle orders: sheets and possible '
        'places of joints carried over to one place and compared; '
        'non-trivial = joints, and something changed'),
    Sub('apart', apart_cases(), run_apart, 64, 3000,
        'plates that do not touch, in planes less than 1 apart: sheets at '
        'both places compared; non-trivial = at least two sheets, and '
        'moved'),
    Sub('parts', cases(strip=0.0, kinds=['L', 'T', 'U', 'corner', 'X', 'tray', 'tube']),
        run_parts, 16, 800,
        'finished parts of right-angled kits at both places: same volume, '
        'no overlap; non-trivial = some joint'),
]
