"""C22: each step of joint making decides what it is there for, nothing else."""
import numpy as np
from gmpy2 import mpq
from hypothesis import strategies as st

import geo
import models
import pipe
import ref1d
from harness import Ctx, Sub, Violation
from props.c12 import (FIELDS, and1, cut_range, g1, or1, read1, sub1)

S = models.to_shapely
STEPS = ['choose_obviously_irrelevant', 'remove_loose',
         'update_intersection_ok', 'update_sheet_ok',
         'update_intersection_ok', 'remove_loose', 'update_intersection_ok',
         'heuristic_multi_inter_single_decisions', 'update_intersection_ok',
         'choose_the_ok_side', 'single_fingers_random',
         'clean_up_thin_ok_parts']


# --- places along a joint -----------------------------------------------------

class Side:
    """One side of a joint in coordinates (along, across)."""

    def __init__(self, i):
        self.id, self.sheet = i.id, i.sheet
        self.d = np.array([float(x) for x in i.direction])
        self.n = np.array([float(x) for x in i.normal])
        self.o = float(i.origin_offset)
        self.lo = float(i.min_normal_offset)
        self.hi = float(i.max_normal_offset)

    def edges(self, geom):
        e = []
        for p in geom.polygons():
            for ring in [list(p.exterior())] + [list(h) for h in p.holes()]:
                r = [(float(x), float(y)) for x, y in ring]
                e += list(zip(r, r[1:] + r[:1]))
        e = np.array(e, float).reshape(-1, 2, 2)
        q = e @ np.stack([self.d, self.n], 1)
        q[:, :, 0] -= self.o
        return q

    def breaks(self, e, bands):
        """Places where what lies in the bands may begin or end."""
        out = set(np.unique(e[:, :, 0]))
        for y in {v for b in bands for v in b}:
            a, b = e[:, 0], e[:, 1]
            k = (a[:, 1] < y) != (b[:, 1] < y)
            a, b = a[k], b[k]
            out |= set(a[:, 0] + (y - a[:, 1]) * (b[:, 0] - a[:, 0]) /
                       (b[:, 1] - a[:, 1]))
        return sorted(out)

    def rect(self, a, b):
        from shapely.geometry import Polygon
        return Polygon([(x + self.o) * self.d + y * self.n for x, y in (
            (a, self.lo), (b, self.lo), (b, self.hi), (a, self.hi))])

    def band(self, m):
        """Shapely area of the places m."""
        return models.s_union([self.rect(float(a), float(b)) for a, b in
                               ref1d.m_intervals(m)], 1e-7)


def length_in(e, x, bands):
    return sum(max(0.0, min(v, b1) - max(u, b0))
               for u, v in pipe.cut(e, x) for b0, b1 in bands)


def has(m, x):
    return any(a < x < b for a, b in ref1d.m_intervals(m))


def m_ends(m):
    return [float(v) for iv in ref1d.m_intervals(m) for v in iv]


def probes(points, lo, hi, gap=0.006):
    """Middles between the points, where they are not too close."""
    p = sorted({x for x in points if lo - 1 < x < hi + 1})
    return [(a + b) / 2 for a, b in zip(p, p[1:]) if b - a > gap]


def open_(s, i):
    return sub1(s['interside_ok'][i], s['interside_chosen'][i])


def measure(m):
    return float(ref1d.measure(m))


# --- what each step does ------------------------------------------------------

class Step:
    def __init__(self, sp, a, b, ctx, p):
        self.sp, self.a, self.b, self.ctx, self.p = sp, a, b, ctx, p
        self.A, self.B = ({f: {k: read1(v) for k, v in getattr(x, f).items()}
                           for f in FIELDS[2:]} for x in (a, b))
        self.sides = {i.id: Side(i) for i in sp.intersides()}
        self.opp = {i.id: i.opposite(sp).id for i in sp.intersides()}

    def same1(self, fields=FIELDS[2:], what=''):
        for f in fields:
            for k in self.sides:
                if self.A[f][k] != self.B[f][k]:
                    raise Violation('%s changed %s of %s from %s to %s' % (
                        what, f, k, ref1d.m_intervals(self.A[f][k]),
                        ref1d.m_intervals(self.B[f][k])))

    def same2(self, fields, what, tol=1e-3):
        for f in fields:
            for k in self.sp.sheets:
                u, v = getattr(self.a, f)[k], getattr(self.b, f)[k]
                if u is not v and models.s_xor(S(u), S(v)).area > tol:
                    raise Violation('%s changed %s of %s' % (what, f, k))

    def choose_obviously_irrelevant(self):
        what = 'choose_obviously_irrelevant'
        self.same1(['interside_chosen'], what)
        self.same2(FIELDS[:2], what)
        for k, s in self.sides.items():
            ok, ok2 = (X['interside_ok'][k] for X in (self.A, self.B))
            other = self.A['interside_ok'][self.opp[k]]
            e = s.edges(self.sp.sheets[s.sheet].slices_max)
            near = [(s.lo - .0091, s.lo - .0011), (s.hi + .0011,
                                                   s.hi + .0091)]
            wide = [(s.lo - .0105, s.lo - .0009), (s.hi + .0009,
                                                   s.hi + .0105)]
            pts = s.breaks(e, near + wide) + m_ends(ok) + m_ends(ok2) + \
                m_ends(other)
            for x in probes(pts, -1e9, 1e9, .05):
                if not has(ok, x):
                    if has(ok2, x):
                        raise Violation('%s allows %s at %.4f' % (what, k, x))
                    continue
                n, w = length_in(e, x, near), length_in(e, x, wide)
                if (n > 1e-6) != (w > 1e-6):
                    continue
                want = n > 1e-6 or not has(other, x)
                if want != has(ok2, x):
                    raise Violation(
                        '%s: %s at %.4f has %s beside the joint, but is %s '
                        'after it' % (what, k, x, 'something' if n > 1e-6
                                      else 'nothing', 'possible' if
                                      has(ok2, x) else 'ruled out'))
                self.ctx.label('beside' if n > 1e-6 else 'nothing beside')
                if n <= 1e-6:
                    self.ctx.nontrivial()

    def remove_loose(self):
        what = 'remove_loose'
        self.same1(what=what)
        self.same2(FIELDS[:1], what)
        for k, sh in self.sp.sheets.items():
            ok, ok2, ch = (S(g) for g in (self.a.sheet_ok[k],
                                          self.b.sheet_ok[k],
                                          self.a.sheet_chosen[k]))
            need = models.s_and(*[S(f) for f in sh.faces])
            if models.s_sub(ok2, ok).area > 1e-3:
                raise Violation('%s allowed more of %s' % (what, k))
            gone = models.s_sub(ok, ok2)
            both = models.s_union([ok, ch])
            # Pieces that only touch may count as one or as two
            fused, apart = both.buffer(1e-4), both.buffer(-1e-4)
            for q in getattr(apart, 'geoms', [apart]):
                if q.is_empty or q.area < 1e-3:
                    continue
                sup = models.s_and(q, need).area
                g = models.s_and(q, gone).area
                if sup > 1e-2 and g > 1e-2:
                    raise Violation('%s ruled out area %.4f of a piece of %s '
                                    'that is supported' % (what, g, k))
            for q in getattr(fused, 'geoms', [fused]):
                if q.is_empty or models.s_and(q, need).area > 1e-6:
                    continue
                rest = models.s_and(q, ok2).area
                if rest > 1e-2:
                    raise Violation('%s left area %.4f of %s that hangs on '
                                    'nothing' % (what, rest, k))
                if models.s_and(q, ok).area > 1e-2:
                    self.ctx.label('loose piece')
                    self.ctx.nontrivial()

    def update_intersection_ok(self):
        what = 'update_intersection_ok'
        self.same1(['interside_chosen'], what)
        self.same2(FIELDS[:2], what)
        for k, s in self.sides.items():
            ok, ok2 = (X['interside_ok'][k] for X in (self.A, self.B))
            e = s.edges(self.a.sheet_ok[s.sheet])
            band = [(s.lo, s.hi)]
            pts = s.breaks(e, band) + m_ends(ok) + m_ends(ok2)
            for x in probes(pts, -1e9, 1e9):
                if not has(ok, x):
                    if has(ok2, x):
                        raise Violation('%s allows %s at %.4f' % (what, k, x))
                    continue
                n = length_in(e, x, band)
                if 0 < n < 1e-6:
                    continue
                if (n > 0) != has(ok2, x):
                    raise Violation(
                        '%s: %s of the sheet is possible across %s at %.4f, '
                        'which is %s after it' % (
                            what, 'some' if n else 'nothing', k, x,
                            'possible' if has(ok2, x) else 'ruled out'))
                if not n:
                    self.ctx.label('nothing there')
                    self.ctx.nontrivial()

    def update_sheet_ok(self):
        what = 'update_sheet_ok'
        self.same1(what=what)
        self.same2(FIELDS[:1], what)
        for k in self.sp.sheets:
            ok, ok2, ch = (S(g) for g in (self.a.sheet_ok[k],
                                          self.b.sheet_ok[k],
                                          self.a.sheet_chosen[k]))
            sides = [s for s in self.sides.values() if s.sheet == k]
            mine = models.s_union([s.band(self.A['interside_ok'][s.id])
                                   for s in sides])
            some = models.s_union([s.band(or1(
                self.A['interside_ok'][s.id],
                self.A['interside_ok'][self.opp[s.id]])) for s in sides])
            bad = models.s_sub(some, mine)
            left = models.s_sub(models.s_and(ok2, bad.buffer(-1e-4)), ch)
            if left.area > 1e-3:
                raise Violation('%s: area %.4f of %s lies in joints that do '
                                'not allow it, but is still possible' % (
                                    what, left.area, k))
            lost = models.s_sub(models.s_sub(ok, ok2),
                                bad.buffer(.0023, join_style='mitre'))
            # Seams that are lost in rounding here get the slack of .002, too
            lost = lost.buffer(-.003)
            if lost.area > 1e-3:
                raise Violation('%s: area %.4f of %s is ruled out without a '
                                'reason' % (what, lost.area, k))
            if models.s_sub(ok2, ok).area > 1e-3:
                raise Violation('%s allowed more of %s' % (what, k))
            if models.s_and(bad, ok).area > .1:
                self.ctx.label('ruled out in a joint')
                self.ctx.nontrivial()

    def choose_the_ok_side(self):
        what = 'choose_the_ok_side'
        A, B = self.A, self.B
        for k, o in self.opp.items():
            only = open_(A, k)
            for m in (A['interside_ok'][o], A['interside_chosen'][o]):
                only = sub1(only, m)
            big = ref1d.m_from([iv for iv in ref1d.m_intervals(only)
                                if iv[1] - iv[0] > mpq(1, 50)])[0]
            tiny = sub1(only, big)
            for f, want in (('interside_chosen',
                             or1(A['interside_chosen'][k], big)),
                            ('interside_ok',
                             sub1(A['interside_ok'][k], tiny))):
                got = B[f][k]
                d = measure(or1(sub1(got, want), sub1(want, got)))
                if d > 1e-9:
                    raise Violation('%s: %s of %s is %s, should be %s' % (
                        what, f, k, ref1d.m_intervals(got),
                        ref1d.m_intervals(want)))
            if big[1]:
                s = self.sides[k]
                v = models.s_sub(
                    models.s_and(s.band(big), S(self.b.sheet_ok[s.sheet])),
                    S(self.b.sheet_chosen[s.sheet])).area
                if v > 1e-3:
                    raise Violation('%s: area %.4f of %s is not chosen' %
                                    (what, v, s.sheet))
                self.ctx.nontrivial()
        for k, o in self.opp.items():
            if measure(sub1(open_(B, k), open_(B, o))) > 1e-8:
                raise Violation('%s: %s is open where %s is not' %
                                (what, k, o))

    def heuristic_multi_inter_single_decisions(self):
        what = 'heuristic_multi_inter_single_decisions'
        A, B, sp = self.A, self.B, self.sp
        # Groups of places of joints that overlap on some sheet
        groups = []
        loose = []
        near = {}
        for k in sp.sheets:
            ids = [i for i, s in self.sides.items() if s.sheet == k]
            for u, i in enumerate(ids):
                for j in ids[u + 1:]:
                    a, b = (self.sides[q].band(A['interside_ok'][q])
                            for q in (i, j))
                    d = models.s_and(a.buffer(1e-3), b)
                    w = {}
                    for q in getattr(d, 'geoms', [d]):
                        # They may meet in next to nothing
                        if q.geom_type == 'Polygon' and not q.is_empty:
                            for e in (i, j):
                                w.setdefault(e[0], []).extend(
                                    self.reach(e, q))
                    for c, iv in w.items():
                        near.setdefault(c, []).extend(iv)
                    loose.append(w)
                    d = models.s_and(a, b, 1e-7)
                    for q in getattr(d, 'geoms', [d]):
                        if q.is_empty or q.area < 1e-4:
                            continue
                        groups.append({
                            i[0]: self.reach(i, q), j[0]: self.reach(j, q)})
        merged = self.merge(groups, 1e-3)
        loose = self.merge(loose, -2e-3)
        for g in merged:
            owners = set()
            for c, ivs in g.items():
                for iv in ivs:
                    m = ref1d.m_from([(mpq(iv[0] + 1e-3),
                                       mpq(iv[1] - 1e-3))])[0]
                    for s in sp.intersections[c].sides:
                        if measure(and1(m, open_(B, s.id))) > 1e-6:
                            raise Violation(
                                '%s: %s at %.3f..%.3f lies in several '
                                'joints, but is undecided' % (
                                    what, s.id, *iv))
                        new = sub1(B['interside_chosen'][s.id],
                                   A['interside_chosen'][s.id])
                        if measure(and1(m, new)) > 1e-6:
                            owners.add(s.sheet)
                    near.setdefault(c, []).append(iv)
            if len(owners) > 1:
                raise Violation('%s: places that depend on each other are '
                                'given to %s' % (what, sorted(owners)))
            whole = [h for h in loose if self.meet(g, h, 0)]
            if any(h is not g and (self.meet(g, h, -4) or any(
                    self.meet(w, h, 0) for w in whole)) for h in merged) or \
                    any(set(w) != set(g) for w in whole):
                # What the others got may matter
                continue
            areas = {}
            for c, ivs in g.items():
                m = ref1d.m_from([(mpq(x), mpq(y)) for x, y in ivs])[0]
                for s in sp.intersections[c].sides:
                    areas.setdefault(s.sheet, []).append(
                        self.sides[s.id].band(and1(m, A['interside_ok'][
                            s.id])))
            shapes = {k: models.s_union(v) for k, v in areas.items()}
            areas = {k: v.area for k, v in shapes.items()}
            if not owners:
                if max(areas.values()) > .5:
                    raise Violation('%s: area %.3f at %s is given to no '
                                    'sheet' % (what, max(areas.values()), g))
                continue
            self.hold(g, min(owners), shapes[min(owners)], what)
            owner = areas.pop(min(owners))
            if areas and max(areas.values()) > owner * 1.05 + .5:
                raise Violation('%s: %s gets a corner where it can have area '
                                '%.3f, another could have %.3f' % (
                                    what, min(owners), owner,
                                    max(areas.values())))
            if areas and min(areas.values()) < owner * .9 - .5:
                self.ctx.label('corner of unequal shares')
        # All else is left alone, but for a finger next to them
        for k in self.sides:
            for f in FIELDS[2:]:
                d = or1(sub1(A[f][k], B[f][k]), sub1(B[f][k], A[f][k]))
                for iv in near.get(k[0], []):
                    d = sub1(d, ref1d.m_from([(mpq(iv[0] - 3.25),
                                               mpq(iv[1] + 3.25))])[0])
                if measure(d) > 1e-6:
                    raise Violation('%s changed %s of %s at %s, which '
                                    'no other joint meets' % (
                                        what, f, k, ref1d.m_intervals(d)))
        if merged:
            self.ctx.label('%d groups' % len(merged))
            self.ctx.nontrivial()

    def hold(self, g, sheet, shape, what):
        """A corner that hardly touches the rest of its sheet gets a finger
        beside it."""
        hold = models.s_and(shape.buffer(.2),
                            S(self.a.sheet_chosen[sheet])).area
        if hold > .55:
            return
        self.ctx.label('corner by itself')
        best = 0
        for c, ivs in g.items():
            for s in self.sp.intersections[c].sides:
                if s.sheet != sheet:
                    continue
                m = ref1d.m_from([(mpq(x), mpq(y)) for x, y in ivs])[0]
                # Only what goes on from the corner
                new = and1(self.B['interside_chosen'][s.id], ref1d.m_from([
                    (mpq(x - 3.25), mpq(y + 3.25)) for x, y in ivs])[0])
                for a, b in ref1d.m_intervals(new):
                    iv = ref1d.m_from([(a, b)])[0]
                    best = max(best, measure(sub1(iv, m)))
        if best < 1.45:
            raise Violation('%s: %s gets the corner %s, which it holds by '
                            'area %.3f within .2, and a finger of %.3f '
                            'beside it' % (what, sheet, g, hold, best))

    def merge(self, groups, gap):
        merged = []
        for g in groups:
            hit = [h for h in merged if self.meet(g, h, gap)]
            for h in hit:
                merged.remove(h)
            n = {}
            for h in hit + [g]:
                for c, iv in h.items():
                    n.setdefault(c, []).extend(iv)
            merged.append(n)
        return merged

    def meet(self, g, h, gap):
        return any(min(y, v) - max(x, u) > gap for c in g if c in h
                   for x, y in g[c] for u, v in h[c])

    def reach(self, side, shape):
        s = self.sides[side]
        x = np.array(shape.exterior.coords) @ s.d - s.o
        return [(x.min(), x.max())]

    def single_fingers_random(self):
        for k, o in self.opp.items():
            if measure(open_(self.B, k)) > 1e-6:
                raise Violation('single_fingers_random leaves %s open' % (k,))
            d = sub1(self.B['interside_chosen'][k],
                     self.A['interside_chosen'][k])
            if measure(sub1(d, open_(self.A, k))) > 1e-6 or \
                    measure(sub1(d, open_(self.A, o))) > 1e-6:
                raise Violation('single_fingers_random decides places of %s '
                                'that were decided' % (k,))
            if d[1]:
                self.ctx.nontrivial()

    def clean_up_thin_ok_parts(self):
        what = 'clean_up_thin_ok_parts'
        self.same1(what=what)
        self.same2(FIELDS[:1], what)
        for k in self.sp.sheets:
            ok, ok2, ch = (S(g) for g in (self.a.sheet_ok[k],
                                          self.b.sheet_ok[k],
                                          self.a.sheet_chosen[k]))
            v = models.s_sub(ch, ok2).area
            if v > 1e-3:
                raise Violation('%s takes chosen area %.4f from %s' %
                                (what, v, k))
            v = models.s_sub(ok2, models.s_union([ok, ch])).area
            if v > 1e-2:
                raise Violation('%s allowed area %.4f of %s' % (what, v, k))
            v = models.s_sub(ok.buffer(-.51), ok2).area
            if v > 1e-2:
                raise Violation('%s takes area %.4f from %s that is not thin'
                                % (what, v, k))
            thin = models.s_sub(models.s_sub(ok2, ch),
                                ok.buffer(-.45).buffer(.56)).area
            if thin > 1e-2:
                raise Violation('%s leaves thin area %.4f of %s' %
                                (what, thin, k))
            if models.s_sub(ok, ok2).area > .1:
                self.ctx.nontrivial()


# --- histories ----------------------------------------------------------------

change = st.tuples(
    st.integers(0, 9), st.sampled_from(['choose', 'unchoose', 'unchoose',
                                        'area', 'area', 'area', 'near',
                                        'near']),
    st.integers(0, 11), st.one_of(
        st.lists(st.integers(-1, 17), min_size=2, max_size=4, unique=True),
        st.sampled_from([[0, 16], [0, 3], [13, 16], [4, 12]])),
    st.lists(st.integers(0, 16), min_size=2, max_size=2,
             unique=True)).map(list)


at_corner = st.tuples(
    st.sampled_from([7, 7, 7, 3]),
    st.sampled_from(['corner', 'corner', 'split', 'lonely']),
    st.integers(0, 11), st.sampled_from([[0, 16], [0, 8], [8, 16], [4, 12]]),
    st.just([0, 16])).map(list)
change = st.one_of(change, change, at_corner, st.tuples(
    st.sampled_from([0, 0, 0, 9]), st.just('near'), st.integers(0, 11),
    st.sampled_from([[0, 16], [0, 8], [4, 12]]),
    st.just([0, 16])).map(list), st.tuples(
        st.just(9), st.just('sliver'), st.integers(0, 11), st.lists(
            st.sampled_from([2, 9, 15, 19, 21, 25, 35, 60, 500]),
            min_size=2, max_size=2), st.lists(
                st.integers(0, 17), min_size=2, max_size=2,
                unique=True)).map(list))


def some_changes(n):
    some = st.lists(change, min_size=1, max_size=n)
    return st.one_of(st.just([]), some, some, some)


@st.composite
def cases(draw, kinds=None, strip=0.0, mesh=0.1):
    c = draw(pipe.runs(kinds, 3, 6, mesh=mesh, strip=strip))
    c['changes'] = draw(some_changes(3))
    return c


def without(sb, side, m):
    m = sub1(and1(m, read1(sb.interside_ok[side])),
             read1(sb.interside_chosen[side]))
    return sb.unchoose_interside(side, g1(m))


def meeting(sb, sp):
    """Where two joints meet on a sheet: [(side, range)]."""
    out = []
    for k in sorted(sp.sheets):
        ss = [Side(i) for i in sp.intersides(k)]
        for u, s in enumerate(ss):
            for t in ss[u + 1:]:
                a, b = (q.band(read1(sb.interside_ok[q.id])) for q in (s, t))
                d = models.s_and(a, b, 1e-7)
                for q in getattr(d, 'geoms', [d]):
                    if not q.is_empty and q.area > .1:
                        for e in (s, t):
                            x = np.array(q.exterior.coords) @ e.d - e.o
                            out.append((e, float(x.min()), float(x.max())))
    return out


@st.composite
def corner_cases(draw):
    c = draw(cases(['corner', 'corner', 'corner', 'tray', 'tee3', 'shelf', 'box',
                    'room'],
                   mesh=0.0))
    c['changes'] = draw(st.lists(at_corner, min_size=1, max_size=2))
    return c


def disturb(sb, sp, ch, step):
    """One more decision, where it is allowed."""
    _, kind, n, cuts, box = ch
    sides = list(sp.intersides())
    if kind in ('corner', 'split', 'lonely'):
        c = meeting(sb, sp)
        if not c:
            return sb
        if kind == 'lonely':
            # Nothing can be had beside the corners
            w = mpq(sorted(cuts)[-1], 4)
            for s, lo, hi in c:
                sb = without(sb, s.id, ref1d.m_from([
                    (mpq(lo) - w, mpq(lo)), (mpq(hi), mpq(hi) + w)])[0])
            return sb
        s, lo, hi = c[n % len(c)]
        u, v = [mpq(lo + (hi - lo) * min(16, max(0, x)) / 16)
                for x in sorted(cuts)[:2]]
        if kind == 'split':
            o = sp.interside(s.id).opposite(sp).id
            sb = without(sb, s.id, ref1d.m_from([(mpq(lo - 1e-3), v)])[0])
            return without(sb, o, ref1d.m_from([(v, mpq(hi + 1e-3))])[0])
        return without(sb, s.id, ref1d.m_from([(u, v)])[0])
    if kind == 'sliver':
        # A stretch, perhaps a tiny one, that only one side can have
        if not sides:
            return sb
        s = sides[n % len(sides)]
        m = and1(*[sub1(read1(sb.interside_ok[q]),
                        read1(sb.interside_chosen[q]))
                   for q in (s.id, s.opposite(sp).id)])
        if not m[1]:
            return sb
        for b, w in zip(box, cuts):
            lo, hi = ref1d.m_intervals(m)[b % len(ref1d.m_intervals(m))]
            at = lo + (hi - lo) * b / 18
            sb = without(sb, s.id, and1(m, ref1d.m_from([(
                at, at + mpq(w, 1000))])[0]))
        return sb
    if kind == 'near':
        # In the other side of the joint, where the step is going to decide
        new = step(sb)
        c = []
        for s in sides:
            for f in FIELDS[2:]:
                a, b = (read1(getattr(x, f)[s.id]) for x in (sb, new))
                d = or1(sub1(a, b), sub1(b, a))
                if measure(d) > .1:
                    c.append((s, d))
        if not c:
            return sb
        s, d = c[n % len(c)]
        return without(sb, s.opposite(sp).id, and1(cut_range(d, cuts), d))
    if kind == 'area':
        k = sorted(sp.sheets)[n % len(sp.sheets)]
        ok = sb.sheet_ok[k]
        if ok.is_empty():
            return sb
        pts = [q for p in ok.polygons() for q in p.exterior()]
        lo = [min(q[a] for q in pts) for a in (0, 1)]
        hi = [max(q[a] for q in pts) for a in (0, 1)]
        c = sorted(cuts)[:2]
        b = sorted(box)

        def at(a, v):
            return lo[a] + (hi[a] - lo[a]) * mpq(v, 16)
        G2 = type(ok)
        r = G2.rectangle(at(0, c[0]), at(1, b[0]), at(0, c[1]), at(1, b[1]))
        return sb.unchoose_sheet_area(k, r - sb.sheet_chosen[k])
    if not sides:
        return sb
    s = sides[n % len(sides)]
    m = read1(sb.interside_ok[s.id])
    if not m[1]:
        return sb
    v = and1(cut_range(m, cuts), m)
    if kind == 'unchoose':
        return sb.unchoose_interside(
            s.id, g1(sub1(v, read1(sb.interside_chosen[s.id]))))
    return sb.choose_interside(s.id, g1(v))


@st.composite
def plane_cases(draw, n=st.sampled_from([3, 3, 4, 4, 5])):
    ts = draw(st.sampled_from(['6', '3', '4']))
    t = int(ts)
    out = []
    for i in range(draw(n)):
        nrm = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [1, 1, 0], [3, 4, 0],
                                    [-1, 2, 0], [1, 0, 1], [2, -1, 2]])
                   if i else st.just([0, 0, 1]))
        a, b = (draw(st.integers(-10, -2)) * t for _ in range(2))
        out.append({'n': nrm, 'o': draw(st.integers(-6, 6)) * t / 2 if i else 0,
                    'r': [a, b, a + draw(st.integers(4, 20)) * t,
                          b + draw(st.integers(4, 20)) * t]})
    return {'m': {'kind': 'planes', 't': ts, 'planes': out},
            'p': draw(models.pipeline_params(ts)),
            'changes': draw(some_changes(2))}


def run_planes(case, ctx):
    from props.c12 import make_plex
    run_steps(make_plex(case['m']), models.real_params(case['p']), case, ctx,
              True)


def run(case, ctx):
    pipe.check_model(case['m'])
    sp, p = pipe.extract(case)
    # Blocks, and cuts that happen to make another plate, need not be possible
    run_steps(sp, p, case, ctx, case['m']['kind'] == 'block' or
              len(sp.sheets) != case['m']['n'])


def run_steps(sp, p, case, ctx, changed):
    import plycutter.heuristics as heu
    from plycutter.sheetbuild import create_sheetbuild
    sb = create_sheetbuild(sp, p)
    check_start(sp, sb, p, Ctx(ctx.tier))
    for n, name in enumerate(STEPS):
        for ch in case['changes']:
            if ch[0] == n:
                try:
                    new = disturb(sb, sp, ch,
                                  lambda b: getattr(heu, name)(b, p))
                    new._check()
                except Exception:
                    ctx.label('change not possible')
                    continue
                if new is not sb:
                    ctx.label('change: ' + ch[1])
                    sb, changed = new, True
        try:
            new = getattr(heu, name)(sb, p)
        except Exception:
            if not changed:
                raise
            # The decisions made here may leave no way out
            ctx.label('no way on')
            return
        for k in sp.sheets:
            if new.sheetplex.sheets[k] is not sp.sheets[k]:
                raise Violation(name + ' changed the model')
        getattr(Step(sp, sb, new, ctx, p), name)()
        sb = new
    ctx.label(case['m']['kind'])
    if changed:
        ctx.label('with other decisions between')


# --- the start ----------------------------------------------------------------

def check_start(sp, sb, p, ctx):
    r = float(mpq(p['support_radius']))
    sides = {i.id: Side(i) for i in sp.intersides()}
    opp = {i.id: i.opposite(sp).id for i in sp.intersides()}
    edges = {k: s.edges(sb.sheet_ok[s.sheet]) for k, s in sides.items()}
    ok = {k: read1(sb.interside_ok[k]) for k in sides}
    for k, s in sides.items():
        if read1(sb.interside_chosen[k])[1]:
            raise Violation('start: places of %s are chosen' % (k,))
        o = sides[opp[k]]
        pts = m_ends(ok[k])
        for q in (s, o):
            pts += s.breaks(edges[q.id], [(q.lo, q.hi)])
        for x in probes(pts, -1e9, 1e9):
            n = [length_in(edges[q.id], x, [(q.lo, q.hi)]) for q in (s, o)]
            if 0 < min(n) < 1e-6:
                continue
            if (min(n) > 0) != has(ok[k], x):
                raise Violation(
                    'start: across the joint at %.4f there is %.4f of %s and '
                    '%.4f of %s, but it is %s' % (
                        x, n[0], k, n[1], o.id, 'possible' if has(ok[k], x)
                        else 'not possible'))
            if min(n) == 0 < max(n):
                ctx.label('only one sheet there')
                ctx.nontrivial()
    for k, sh in sp.sheets.items():
        mx, (f, g) = S(sh.slices_max), [S(v) for v in sh.faces]
        both = models.s_and(f, g)
        joints = models.s_union([s.band(ok[s.id]) for s in sides.values()
                                 if s.sheet == k])
        for what, got, lo, hi in (
            ('possible', S(sb.sheet_ok[k]),
             models.s_and(f.buffer(r * .92), g.buffer(r * .92)),
             models.s_and(*[v.buffer(r * 1.003, quad_segs=64)
                            for v in (f, g)])),
            ('chosen', S(sb.sheet_chosen[k]), models.s_sub(
                both.buffer(.92), joints.buffer(1e-4)), models.s_sub(
                    both.buffer(1.003, quad_segs=64),
                    joints.buffer(-1e-4)))):
            v = models.s_sub(models.s_and(lo, mx), got).area
            w = models.s_sub(got, models.s_and(hi, mx.buffer(1e-4))).area
            if max(v, w) > 1e-2:
                raise Violation('start: area %.5f of %s should be %s, and '
                                '%.5f should not' % (v, k, what, w))
        if both.area < .99 * mx.area:
            ctx.label('partly supported')
            ctx.nontrivial()


def run_start(case, ctx):
    from plycutter.geometry.geom2d import Geom2D
    from plycutter.sheetbuild import create_sheetbuild
    m = case['m']
    sheets = []
    for i, q in enumerate(m['planes']):
        a, b, c, d = q['r']

        def some(cells):
            # Of 8 x 8 cells
            return Geom2D.union([Geom2D.rectangle(
                *[mpq(v) for v in (
                    a + mpq(x * (c - a), 8), b + mpq(y * (d - b), 8),
                    a + mpq((x + w) * (c - a), 8),
                    b + mpq((y + h) * (d - b), 8))])
                for x, y, w, h in cells])
        mx = some(q['max'])
        f = [some(v) & mx for v in q['faces']]
        sheets.append(models.plane_sheet(
            's%d' % i, q['n'], float(q['o']), float(mpq(m['t'])), faces=f,
            slices_max=mx, slices_min=f[0] & f[1], both_faces=f[0] & f[1]))
    sp = models.plex(sheets)
    p = models.real_params(case['p'])
    check_start(sp, create_sheetbuild(sp, p), p, ctx)


cell = st.tuples(st.integers(0, 6), st.integers(0, 6), st.integers(1, 8),
                 st.integers(1, 8)).map(
    lambda c: [c[0], c[1], min(c[2], 8 - c[0]), min(c[3], 8 - c[1])])


@st.composite
def start_cases(draw):
    c = draw(plane_cases(st.sampled_from([2, 3])))
    for q in c['m']['planes']:
        q['max'] = draw(st.one_of(
            st.just([[0, 0, 8, 8]]),
            st.lists(cell, min_size=1, max_size=3)))
        q['faces'] = [draw(st.one_of(
            st.just([[0, 0, 8, 8]]),
            st.lists(cell, min_size=1, max_size=3))) for _ in 'ab']
    del c['changes']
    return c


SUBS = [
    Sub('boxes', cases(['L', 'T', 'X', 'U', 'corner', 'corner', 'partial',
                        'window', 'overhang', 'notch', 'tee3', 'shelf',
                        'cross', 'block', 'tube', 'room',
                        'pair']), run, 48, 2500,
        'kits of right-angled plates; every step is compared with what it is '
        'for, from the state that the earlier ones and up to three other '
        'decisions lead to; non-trivial = some step had something to decide '
        'that is not the rule'),
    Sub('start', start_cases(), run_start, 120, 5000,
        '2-3 sheets that cross at any angle, with any faces and cross '
        'sections; what is possible and chosen at the start; non-trivial = '
        'partly supported, or places that only one of the sheets has'),
    Sub('corners', corner_cases(), run, 24, 1500,
        'kits with places where three sheets meet, where some of them are '
        'ruled out for one sheet, split between two, or cut off from the '
        'rest; non-trivial as for boxes'),
    Sub('planes', plane_cases(), run_planes, 48, 2000,
        'the same with 3-5 rectangular sheets that cross at any angle, as '
        'far as the steps go'),
    Sub('prisms', cases(['L'], strip=1.0), run, 16, 1000,
        'the same with bent strips and branches'),
]
