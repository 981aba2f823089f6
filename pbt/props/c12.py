"""C12: histories of choosing and unchoosing joint ranges and sheet areas."""
import pyrsistent as pyr
from gmpy2 import mpq
from hypothesis import strategies as st

import gen
import geo
import models
import ref1d
import ref2d
from harness import Reject, Sub, Violation

TOL1, TOL2, TOLC = mpq(1, 10 ** 7), mpq(1, 10 ** 7), mpq(1, 1000)


# --- models -----------------------------------------------------------------

@st.composite
def plane_models(draw):
    """Sheets in random planes with rectangular material."""
    out = []
    n = draw(st.integers(2, 3))
    for i in range(n):
        nrm = draw(st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1],
                                    [1, 1, 0], [0, 3, 4], [1, 2, 2],
                                    [-2, 0, 1]]))
        a, b = draw(st.integers(-20, 0)), draw(st.integers(-20, 0))
        out.append({'n': nrm, 'o': draw(st.integers(-8, 8)),
                    'r': [a, b, a + draw(st.integers(10, 40)),
                          b + draw(st.integers(10, 40))]})
    return {'t': draw(st.sampled_from(['6', '3', '9/2'])), 'planes': out}


def rect_geom(r):
    from plycutter.geometry.geom2d import Geom2D
    return Geom2D.rectangle(*[mpq(v) for v in r])


def make_plex(m):
    if 'planes' in m:
        t = float(mpq(m['t']))
        sheets = []
        for i, p in enumerate(m['planes']):
            g = rect_geom(p['r'])
            sheets.append(models.plane_sheet(
                's%d' % i, p['n'], float(p['o']), t, faces=[g, g],
                slices_max=g, slices_min=g, both_faces=g))
        return models.plex(sheets)
    return models.plex(models.box_sheets(m))


def simple_start(sp):
    """A free state without the buffering of create_sheetbuild."""
    from plycutter.geometry.geom1d import Geom1D
    from plycutter.sheetbuild import SheetBuild
    ok2, ch2, ok1, ch1 = {}, {}, {}, {}
    for s in sp.sheets.values():
        ok2[s.id] = s.slices_max
        ch2[s.id] = s.both_faces & s.slices_max
    for i in sp.intersides():
        far = Geom1D([(mpq(-1000), mpq(1000))])
        ok1[i.id] = i.project_to_1d(ok2[i.sheet] & i.make_fingers(far))
        ch1[i.id] = Geom1D.empty()
    both = {i.id: ok1[i.id] & ok1[i.opposite(sp).id] for i in sp.intersides()}
    for i in sp.intersides():
        ch2[i.sheet] = ch2[i.sheet] - i.make_fingers(both[i.id])
    return SheetBuild(sheetplex=sp, sheet_chosen=pyr.pmap(ch2),
                      sheet_ok=pyr.pmap(ok2), interside_chosen=pyr.pmap(ch1),
                      interside_ok=pyr.pmap(both))


# --- reading states ---------------------------------------------------------

def read1(g):
    return ref1d.m_from([tuple(iv) for iv in g.get_intervals()])[0]


FIELDS = ('sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')


def read(sb):
    return {f: {k: (geo.region(v) if f.startswith('sheet') else read1(v))
                for k, v in getattr(sb, f).items()} for f in FIELDS}


def sub1(a, b):
    return ref1d.m_op(lambda x, y: x and not y, a, b)


def and1(a, b):
    return ref1d.m_op(lambda x, y: x and y, a, b)


def or1(a, b):
    return ref1d.m_op(lambda x, y: x or y, a, b)


def area(regions, op):
    return sum((w * h for _, w, h, mem in ref2d.slab_points(regions)
                if op(*mem)), mpq(0))


def a_and(a, b):
    return area([a, b], lambda x, y: x and y)


def a_sub(a, b):
    return area([a, b], lambda x, y: x and not y)


def g1(m):
    return geo.G1()(ref1d.m_intervals(m))


def fingers(side, m):
    return geo.region(side.make_fingers(g1(m)))


def verdict(vals):
    """vals: (value, tolerance).  True consistent, False not, None open."""
    bad = None
    for v, tol in vals:
        if v > 2 * tol:
            return False
        if v > tol / 2:
            bad = True
    return None if bad else True


def consistent(sp, s):
    vals = []
    for k in sp.sheets:
        vals.append((a_sub(s['sheet_chosen'][k], s['sheet_ok'][k]), TOL2))
    for i in sp.intersides():
        o = i.opposite(sp)
        vals.append((ref1d.measure(sub1(s['interside_chosen'][i.id],
                                        s['interside_ok'][i.id])), TOL1))
        vals.append((ref1d.measure(and1(s['interside_chosen'][i.id],
                                        s['interside_ok'][o.id])),
                     mpq(1, 10 ** 12)))
        if s['interside_ok'][o.id][1]:
            vals.append((a_and(s['sheet_chosen'][i.sheet],
                               fingers(i, s['interside_ok'][o.id])), TOLC))
    return verdict(vals)


# --- operations -------------------------------------------------------------

op = st.tuples(
    st.sampled_from(['choose', 'choose', 'choose', 'tentative', 'unchoose',
                     'unchoose', 'many', 'unmany', 'area',
                     'sweep']),
    st.integers(0, 11),
    st.one_of(st.lists(st.integers(-1, 17), min_size=2, max_size=6,
                       unique=True),
              st.sampled_from([[0, 16], [0, 3], [13, 16], [0, 8], [8, 16],
                               [2, 14]])),
    st.sampled_from(['fit', 'fit', 'fit', 'ok', 'raw'])).map(list)


@st.composite
def cases(draw, full=False):
    if full:
        m = draw(models.kits(['L', 'T', 'partial'], 4, 7))
    elif draw(st.integers(0, 3)) == 0:
        m = draw(plane_models())
    else:
        m = draw(models.kits(models.KINDS + ['corner', 'corner', 'U'], 4, 8))
    return {'m': m, 'ops': draw(st.lists(op, min_size=2,
                                         max_size=5 if full else 9)),
            'spoil': draw(st.tuples(
                st.sampled_from(['chosen', 'chosen1', 'both1', 'both2',
                                 'ok', 'none', 'tiny']),
                st.integers(0, 11), st.integers(0, 12),
                st.integers(1, 4)).map(list))}


def span(m):
    return m[1][0], m[1][-1]


def cut_range(whole, cuts):
    a, b = span(whole)
    c = sorted(cuts)
    c = c[:len(c) // 2 * 2]
    pts = [a + (b - a) * mpq(x, 16) for x in c]
    return ref1d.m_from(list(zip(pts[::2], pts[1::2])))[0]


class Run:
    def __init__(self, sp, sb, ctx):
        self.sp, self.sb, self.ctx = sp, sb, ctx
        self.sides = list(sp.intersides())
        self.state = read(sb)
        self.whole = {i.id: self.state['interside_ok'][i.id]
                      for i in self.sides}
        self.trail = [(sb, self.state)]
        self.n_ok = 0

    def expect_refusal(self, f, why):
        try:
            f()
        except Exception:
            self.ctx.label('refused: ' + why)
        else:
            raise Violation('not refused: ' + why)
        self.same(self.sb, self.state, 'the state before a refused decision')

    def same(self, sb, want, what):
        for f in FIELDS:
            got = getattr(sb, f)
            if set(got.keys()) != set(want[f]):
                raise Violation('%s: %s lists %s, not %s' %
                                (what, f, sorted(got), sorted(want[f])))
            for k, w in want[f].items():
                if f.startswith('sheet'):
                    r = geo.region(got[k])
                    if r != w:
                        geo.check_same([w], lambda a: a, r,
                                       '%s: %s of %s' % (what, f, k))
                elif read1(got[k]) != w:
                    raise Violation('%s: %s of %s is %s, should be %s' % (
                        what, f, k, got[k], ref1d.m_intervals(w)))

    def step(self, f, updates, what):
        new = f()
        for k in self.sp.sheets:
            if new.sheetplex.sheets[k] is not self.sp.sheets[k]:
                raise Violation(what + ' changed the model')
        want = {f_: dict(self.state[f_]) for f_ in FIELDS}
        for fld, key, regs, fn in updates:
            if fld.startswith('sheet'):
                # Exact comparison with the operands, then continue with the
                # result
                r = geo.region(getattr(new, fld)[key])
                geo.check_same([want[fld][key]] + regs, fn, r,
                               '%s: %s of %s' % (what, fld, key))
                want[fld][key] = r
            else:
                want[fld][key] = ref1d.m_op(fn, want[fld][key], *regs)
        self.same(new, want, what)
        self.sb, self.state = new, want
        self.trail.append((new, want))
        self.n_ok += 1
        # In every state reached
        for i in self.sides:
            o = i.opposite(self.sp)
            ch = want['interside_chosen']
            if and1(ch[i.id], ch[o.id])[1]:
                raise Violation('%s: both sides of %s have chosen %s' % (
                    what, i.intersection, and1(ch[i.id], ch[o.id])))
            if sub1(ch[i.id], want['interside_ok'][i.id])[1] and \
                    ref1d.measure(sub1(ch[i.id], want['interside_ok'][i.id])
                                  ) > mpq(1, 10 ** 5):
                raise Violation('%s: %s has chosen what is impossible' %
                                (what, i.id))

    def choose_verdict(self, side, v):
        """Legal, illegal or too close to the tolerances."""
        opp = side.opposite(self.sp)
        return verdict([
            (ref1d.measure(sub1(v, self.state['interside_ok'][side.id])),
             mpq(1, 10 ** 6)),
            (a_and(fingers(opp, v), self.state['sheet_chosen'][opp.sheet])
             if v[1] else mpq(0), mpq(1, 10 ** 6))])

    def choose_updates(self, side, v, tentative):
        opp = side.opposite(self.sp)
        out = []
        if not tentative:
            out.append(('sheet_chosen', side.sheet,
                        [fingers(side, v), self.state['sheet_ok'][side.sheet]],
                        lambda c, f, o: c or (f and o)))
        out.append(('sheet_ok', opp.sheet, [fingers(opp, v)],
                    lambda o, f: o and not f))
        out.append(('interside_chosen', side.id, [v], lambda a, b: a or b))
        out.append(('interside_ok', opp.id, [v], lambda a, b: a and not b))
        return out

    def fit(self, side, v):
        """Cut a range down to what may be chosen."""
        st_ = self.state
        v = and1(v, st_['interside_ok'][side.id])
        opp = side.opposite(self.sp)
        both = side.opposite(self.sp).make_fingers(g1(v)) & \
            self.sb.sheet_chosen[opp.sheet]
        if not both.is_empty():
            v = sub1(v, read1(opp.project_to_1d(both)))
        return v

    def range_for(self, side, cuts, mode):
        if not self.whole[side.id][1]:
            return ref1d.EMPTY
        v = cut_range(self.whole[side.id], cuts)
        if mode == 'ok':
            return and1(v, self.state['interside_ok'][side.id])
        return self.fit(side, v) if mode == 'fit' else v

    def run(self, kind, i, cuts, mode):
        sb = self.sb
        if not self.sides:
            raise Reject
        side = self.sides[i % len(self.sides)]
        if kind == 'sweep':
            n = len(self.sides)
            for k in range(n):
                self.run('choose', i + (n - k if cuts[0] % 2 else k), cuts,
                         'ok')
            return
        if kind in ('choose', 'tentative'):
            v = self.range_for(side, cuts, mode)
            ten = kind == 'tentative'
            ok = self.choose_verdict(side, v)
            if ok is None:
                self.ctx.label('close call')
                return

            def f():
                return sb.choose_interside(side.id, g1(v), tentative=ten)
            if ok is False:
                self.expect_refusal(f, 'choosing %s' % (
                    'what is not possible' if ref1d.measure(
                        sub1(v, self.state['interside_ok'][side.id]))
                    else "what the other sheet has chosen"))
                return
            self.step(f, self.choose_updates(side, v, ten),
                      '%s on %s' % (kind, side.id))
            if v[1]:
                self.ctx.label(kind)
        elif kind == 'unchoose':
            if not self.whole[side.id][1]:
                return
            v = cut_range(self.whole[side.id], cuts)
            if mode != 'raw':
                v = sub1(v, self.state['interside_chosen'][side.id])

            def f():
                return sb.unchoose_interside(side.id, g1(v))
            if and1(v, self.state['interside_chosen'][side.id])[1]:
                self.expect_refusal(f, 'unchoosing a chosen range')
                return
            self.step(f, [('interside_ok', side.id, [v],
                           lambda a, b: a and not b)],
                      'unchoose on %s' % (side.id,))
            self.ctx.label(kind)
        elif kind == 'area':
            sid = sorted(self.sp.sheets)[i % len(self.sp.sheets)]
            ok = self.state['sheet_ok'][sid]
            pts = [p for r in ref2d.region_rings(ok) for p in r]
            if not pts:
                return
            x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
            y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
            c = (list(cuts) * 2)[:4]
            xs = sorted([c[0], c[1]])
            ys = sorted([c[2], c[3]])
            r = [x0 + (x1 - x0) * mpq(xs[0], 16),
                 y0 + (y1 - y0) * mpq(ys[0], 16),
                 x0 + (x1 - x0) * mpq(xs[1], 16),
                 y0 + (y1 - y0) * mpq(ys[1], 16)]
            if r[0] >= r[2] or r[1] >= r[3]:
                return
            g = rect_geom(r)
            if mode != 'raw':
                g = g - sb.sheet_chosen[sid]
            reg = geo.region(g)
            lost = a_and(reg, self.state['sheet_chosen'][sid])
            ok = verdict([(lost, mpq(1, 10 ** 5))])

            def f():
                return sb.unchoose_sheet_area(sid, g)
            if ok is None:
                return
            if ok is False:
                self.expect_refusal(f, 'unchoosing a chosen area')
                return
            self.step(f, [('sheet_ok', sid, [reg],
                           lambda a, b: a and not b)],
                      'unchoose area of ' + sid)
            self.ctx.label(kind)
        elif kind == 'many':
            # Several at once are the same as one after the other
            todo, up, probe = {}, [], Run(self.sp, sb, self.ctx)
            probe.whole = self.whole
            for d in range(2):
                sd = self.sides[(i + d) % len(self.sides)]
                v = probe.range_for(sd, [c + d for c in cuts], mode)
                todo[sd.id] = g1(v)
                ok = probe.choose_verdict(sd, v)
                if ok is None:
                    return
                if ok is False:
                    self.expect_refusal(lambda: sb.choose_intersides(todo),
                                        'choosing several, one not possible')
                    return
                probe.step(lambda: probe.sb.choose_interside(sd.id, g1(v)),
                           probe.choose_updates(sd, v, False), 'choose')
            new = sb.choose_intersides(todo)
            self.same(new, probe.state, 'choosing several at once')
            self.sb, self.state = new, probe.state
            self.trail.append((new, self.state))
            self.ctx.label(kind)
        elif kind == 'unmany':
            todo, up, bad = {}, [], False
            for d in range(2):
                sd = self.sides[(i + d) % len(self.sides)]
                if not self.whole[sd.id][1] or sd.id in todo:
                    continue
                v = cut_range(self.whole[sd.id], [c + d for c in cuts])
                if mode != 'raw':
                    v = sub1(v, self.state['interside_chosen'][sd.id])
                if and1(v, self.state['interside_chosen'][sd.id])[1]:
                    bad = True
                todo[sd.id] = g1(v)
                up.append(('interside_ok', sd.id, [v],
                           lambda a, b: a and not b))

            def f():
                return sb.unchoose_intersides(todo)
            if bad:
                self.expect_refusal(f, 'unchoosing several, one chosen')
                return
            self.step(f, up, 'unchoosing several at once')
            self.ctx.label(kind)

    def self_check(self, sb, state, what):
        ok = consistent(self.sp, state)
        if ok is None:
            self.ctx.label('close call')
            return
        try:
            sb.check(force=True)
            got = True
        except Exception:
            got = False
        if got != ok:
            raise Violation('%s: the self-check %s a state that is %s' % (
                what, 'accepts' if got else 'refuses',
                'consistent' if ok else 'not consistent'))
        self.ctx.label('self-check %s' % ('accepts' if ok else 'refuses'))
        return ok

    def spoil(self, kind, i, a, w):
        """Make the last state inconsistent (or not), by hand."""
        sb = self.sb
        side = self.sides[i % len(self.sides)]
        opp = side.opposite(self.sp)
        if not self.whole[side.id][1]:
            return
        lo, hi = span(self.whole[side.id])
        v = ref1d.m_from([(lo + (hi - lo) * mpq(a, 16),
                           lo + (hi - lo) * mpq(a + w, 16))])[0]
        G = g1(v)

        def add(fld, key, g, minus=False):
            m = getattr(sb, fld)
            return sb.set(fld, m.set(key, (m[key] - g) if minus
                                     else (m[key] | g)))
        if kind == 'chosen':
            sb = add('sheet_chosen', side.sheet, side.make_fingers(G))
        elif kind == 'chosen1':
            sb = add('interside_chosen', side.id, G)
        elif kind == 'both1':
            sb = add('interside_chosen', side.id, G)
            sb = add('interside_ok', side.id, G)
        elif kind == 'both2':
            sb = add('sheet_chosen', side.sheet, side.make_fingers(G))
            sb = add('sheet_ok', side.sheet, side.make_fingers(G))
        elif kind == 'ok':
            sb = add('interside_ok', opp.id, G)
        elif kind == 'tiny':
            # Within the tolerance
            e = mpq(1, 10 ** 9)
            sb = add('sheet_ok', side.sheet, rect_geom([lo, 0, lo + e, 1]),
                     True)
        ok = self.self_check(sb, read(sb), 'after changing the state by hand '
                             '(%s on %s)' % (kind, side.id))
        if ok is False:
            # The infrequent check must come, too
            from plycutter import sheetbuild
            n = getattr(sheetbuild, 'check_interval', 150)
            for _ in range(2 * n + 2):
                try:
                    sb.check()
                except Exception:
                    break
            else:
                raise Violation('%d calls of check() accept a state that is '
                                'not consistent' % (2 * n + 2))


def run_history(case, ctx, start=simple_start):
    m = case['m']
    if 'planes' not in m:
        b = models.kit_boxes(m)
        if not b.manifold() or not b.connected():
            raise Reject
    sp = make_plex(m)
    if not sp.intersections:
        raise Reject
    r = Run(sp, start(sp), ctx)
    r.self_check(r.sb, r.state, 'at the start')
    for o in case['ops']:
        r.run(*o)
    r.self_check(r.sb, r.state, 'in the end')
    r.spoil(*case['spoil'])
    # What was chosen stays chosen, and earlier states are as they were
    for sb, state in r.trail:
        r.same(sb, state, 'an earlier state')
    first = r.trail[0][1]
    for k in sp.sheets:
        if a_sub(first['sheet_chosen'][k], r.state['sheet_chosen'][k]):
            raise Violation('chosen area of %s is no longer chosen' % k)
    ctx.nontrivial(r.n_ok >= 2)
    if len(sp.intersections) > 1:
        ctx.label('several joints')


def run_full(case, ctx):
    from plycutter.sheetbuild import create_sheetbuild
    run_history(case, ctx, lambda sp: create_sheetbuild(
        sp, models.params(thickness=case['m']['t'])))
    ctx.label('start of the pipeline')


SUBS = [
    Sub('history', cases(), run_history, 200, 12000,
        'random sequences of decisions, legal and not, on 2-3 sheets, each '
        'new state compared exactly with the operation\'s meaning; '
        'non-trivial = at least two decisions were accepted'),
    Sub('created', cases(full=True), run_full, 24, 800,
        'the same from the state that joint making starts with'),
]
