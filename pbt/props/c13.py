"""C13: what the steps of joint making do to the state, on whole runs."""
from gmpy2 import mpq

import geo
import models
import pipe
from harness import Sub, Violation
from props.c19 import snapshot

S = models.to_shapely
FIELDS2, FIELDS1 = ('sheet_chosen', 'sheet_ok'), ('interside_chosen',
                                                  'interside_ok')


def m1(g):
    return g.measure1d()


def lost1(a, b):
    """Measure of what is in a and not in b."""
    return float(m1(a - b))


class State:
    """A state with shapely outlines (made when needed)."""
    cache = {}

    def __init__(self, sb):
        self.sb = sb

    def shape(self, f, k):
        g = getattr(self.sb, f)[k]
        key = id(g)
        if key not in State.cache:
            State.cache[key] = (g, S(g))
        return State.cache[key][1]

    def same(self, other, f, k):
        return getattr(self.sb, f)[k] is getattr(other.sb, f)[k]


def lost2(a, f, b, g, k):
    if getattr(a.sb, f)[k] is getattr(b.sb, g)[k]:
        return 0.0
    return models.s_sub(a.shape(f, k), b.shape(g, k)).area


def name(sb):
    d = sb.get('dbg')
    return getattr(d, '__name__', None) or str(d)


def check_state(st, sp, what):
    sb = st.sb
    for k in sp.sheets:
        v = lost2(st, 'sheet_chosen', st, 'sheet_ok', k)
        if v > 1e-3:
            raise Violation('%s: area %.5f of %s is chosen, but not possible'
                            % (what, v, k))
    for i in sp.intersides():
        o = i.opposite(sp).id
        if lost1(sb.interside_chosen[i.id], sb.interside_ok[i.id]) > 1e-6:
            raise Violation('%s: %s is chosen where it is not possible' %
                            (what, i.id))
        both = float(m1(sb.interside_chosen[i.id] & sb.interside_ok[o]))
        if both > 1e-9:
            raise Violation('%s: %.6f of the joint is chosen by %s, but '
                            'still possible for %s' % (what, both, i.id, o))


def check_step(a, b, sp, what):
    """Nothing chosen is taken back, nothing forbidden is allowed again."""
    for k in sp.sheets:
        v = lost2(a, 'sheet_chosen', b, 'sheet_chosen', k)
        if v > 1e-3:                    # outlines are rounded to 1e-6
            raise Violation('%s took back area %.6f of %s' % (what, v, k))
        v = lost2(b, 'sheet_ok', a, 'sheet_ok', k)
        if v > 1e-2:
            raise Violation('%s allowed area %.6f of %s that was forbidden' %
                            (what, v, k))
    for i in sp.intersides():
        v = lost1(a.sb.interside_chosen[i.id], b.sb.interside_chosen[i.id])
        if v > 1e-9:
            raise Violation('%s took back %.6f of %s' % (what, v, i.id))
        v = lost1(b.sb.interside_ok[i.id], a.sb.interside_ok[i.id])
        if v > 1e-9:
            raise Violation('%s allowed %.6f of %s that was forbidden' %
                            (what, v, i.id))


def joint_area(side, material, g1):
    """All places of the joint on the sheet of a side."""
    return S(side.make_fingers(g1))


def check_start(st, sp, p, what):
    """The state before the first step: free, but for the supports."""
    G1 = geo.G1()
    sb = st.sb
    far = G1([(mpq(-10 ** 6), mpq(10 ** 6))])
    along = {}
    for i in sp.intersides():
        if m1(sb.interside_chosen[i.id]) != 0:
            raise Violation('%s: places of %s are chosen' % (what, i.id))
        sh = sp.sheets[i.sheet]
        along[i.id] = i.project_to_1d(
            sb.sheet_ok[i.sheet] & sh.slices_max & i.make_fingers(far))
    for i in sp.intersides():
        want = along[i.id] & along[i.opposite(sp).id]
        if lost1(want, sb.interside_ok[i.id]) > 1e-4 or \
                lost1(sb.interside_ok[i.id], want) > 1e-4:
            raise Violation('%s: possible along %s: %s, but both sheets have '
                            'material along %s' % (
                                what, i.id, sb.interside_ok[i.id], want))
    r = float(mpq(p['support_radius']))
    for k, sh in sp.sheets.items():
        ok, ch = st.shape('sheet_ok', k), st.shape('sheet_chosen', k)
        mx, faces = S(sh.slices_max), [S(f) for f in sh.faces]
        lo = models.s_and(models.s_and(*[f.buffer(r * .92) for f in faces]),
                          mx)
        hi = models.s_and(models.s_and(*[f.buffer(
            r * 1.003, quad_segs=64) for f in faces]), mx.buffer(1e-3))
        v = models.s_sub(lo, ok).area
        if v > 1e-2:
            raise Violation('%s: area %.5f of %s is within the support '
                            'radius, but not possible' % (what, v, k))
        v = models.s_sub(ok, hi).area
        if v > 1e-2:
            raise Violation('%s: area %.5f of %s is possible, but beyond the '
                            'supported area' % (what, v, k))
        need = models.s_and(*faces)
        for i in sp.intersides(k):
            need = models.s_sub(need, S(i.make_fingers(
                sb.interside_ok[i.id])))
        v = models.s_sub(models.s_and(need, mx), ch).area
        if v > 1e-2:
            raise Violation('%s: area %.5f of %s between both faces and '
                            'outside of the joints is not chosen' %
                            (what, v, k))


def check_end(st, first, sp, p, res, what):
    sb = st.sb
    for i in sp.intersides():
        v = lost1(sb.interside_ok[i.id], sb.interside_chosen[i.id])
        if v > 1e-6:
            raise Violation('%s: %.6f of %s is still open' % (what, v, i.id))
        o = i.opposite(sp)
        if float(m1(sb.interside_chosen[i.id] &
                    sb.interside_chosen[o.id])) > 1e-9:
            raise Violation('%s: both %s and %s are chosen' % (what, i.id,
                                                               o.id))
        # What the sides have decided is what the sheets look like
        mine = S(i.make_fingers(sb.interside_chosen[i.id]))
        theirs = S(i.make_fingers(sb.interside_chosen[o.id]))
        part = st.shape('sheet_chosen', i.sheet)
        v = models.s_sub(models.s_and(mine, st.shape('sheet_ok', i.sheet)),
                         part).area
        if v > 1e-2:
            raise Violation('%s: %s is chosen, but area %.5f is not in the '
                            'sheet' % (what, i.id, v))
        v = models.s_and(part, theirs).area
        if v > 1e-2:
            raise Violation('%s: %s is chosen, but %s takes area %.5f of it' %
                            (what, o.id, i.sheet, v))
    r = float(mpq(p['support_radius']))
    for k, sh in sp.sheets.items():
        part = st.shape('sheet_chosen', k)
        if k not in res.sheet_cuts or \
                models.s_xor(S(res.sheet_cuts[k]), part).area > 1e-6:
            raise Violation('%s: the outline of %s is not what was chosen' %
                            (what, k))
        faces = [S(f) for f in sh.faces]
        both = models.s_and(*faces)
        need = both
        for i in sp.intersides(k):
            need = models.s_sub(need, S(i.make_fingers(
                first.sb.interside_ok[i.id])))
        v = models.s_sub(need, part).area
        if v > 1e-2:
            raise Violation('%s: %s lacks area %.5f between both faces and '
                            'outside of the joints' % (what, k, v))
        for n, f in enumerate(faces):
            v = models.s_sub(part, f.buffer(r * 1.003 + 1e-3,
                                            quad_segs=64)).area
            if v > 1e-2:
                raise Violation('%s: area %.5f of %s is beyond the reach of '
                                'face %d' % (what, v, k, n))
        # No piece that hangs on nothing
        for q in getattr(part.buffer(-0.01), 'geoms', [part.buffer(-0.01)]):
            if q.area > 1e-3 and models.s_and(q, both).area < 1e-6:
                raise Violation('%s: %s has a loose piece of area %.4f' %
                                (what, k, q.area))


def run(case, ctx):
    from plycutter.canned import canned_1
    State.cache.clear()
    pipe.check_model(case['m'])
    sp, p = pipe.extract(case)
    before = snapshot(sp)
    res = canned_1(sp, p)
    if res.ok is not True:
        raise Violation('the run is not marked ok')
    if snapshot(sp) != before or snapshot(res.sheetbuild.sheetplex) != before:
        raise Violation('the sheets or joints were modified')
    states = [State(sb) for sb in res.history]
    if res.sheetbuild is not states[-1].sb:
        states.append(State(res.sheetbuild))
    for a in states:
        check_state(a, sp, 'before ' + name(a.sb))
    for a, b in zip(states, states[1:]):
        check_step(a, b, sp, name(a.sb))
    check_start(states[0], sp, p, 'start')
    check_end(states[-1], states[0], sp, p, res, 'end')
    ctx.label(case['m']['kind'])
    if case['mesh']:
        ctx.label('mesh')
    n = sum(len(g.get_intervals()) for g in
            res.sheetbuild.interside_chosen.values())
    ctx.nontrivial(n > 1)
    if n > 5:
        ctx.label('many fingers')


SUBS = [
    Sub('boxes', pipe.runs(['L', 'T', 'X', 'U', 'corner', 'corner', 'partial',
                            'window', 'overhang', 'notch', 'tee3', 'shelf',
                            'cross', 'pocket', 'block', 'block', 'box', 'tube',
                            'room', 'pair'], 3, 6, mesh=0.2),
        run, 48, 2000,
        'kits of right-angled plates through all steps; every state of the '
        'history, every transition, start and end are checked; non-trivial = '
        'at least two decided ranges'),
    Sub('prisms', pipe.runs(['L'], 3, 6, strip=1.0), run, 16, 1000,
        'bent strips and branches at 30 to 120 degrees; non-trivial = at '
        'least two decided ranges'),
]
