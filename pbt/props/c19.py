"""C19: looking up and restricting the sheets and joints of a model."""
from hypothesis import strategies as st
import numpy as np

import geo
import models
from harness import Reject, Sub, Violation

NRM = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, 0, -1], [1, 1, 0],
       [0, 3, 4], [1, 2, 2], [1, -1, 0], [2, 0, 1]]
subsets = st.lists(st.tuples(st.integers(0, 255),
                             st.sampled_from(['list', 'tuple', 'set', 'iter',
                                              'dict', 'twice'])).map(list),
                   min_size=1, max_size=4)


@st.composite
def plane_cases(draw):
    n = draw(st.integers(1, 8))
    ids = draw(st.lists(st.sampled_from(
        ['s%d' % i for i in range(14)] + ['left', 'a', 'b', 'Top', 's', 'ab']),
        min_size=n, max_size=n, unique=True))
    return {'sheets': [{'id': i, 'n': draw(st.sampled_from(NRM)),
                        'o': draw(st.integers(-50, 50)),
                        'w': draw(st.integers(5, 30))} for i in ids],
            'limits': draw(subsets)}


@st.composite
def mesh_cases(draw):
    return {'m': draw(models.models(['U', 'corner', 'X', 'L'], strip=0.3)),
            'limits': draw(subsets)}


def val(v):
    """Plain value of a field, for comparison."""
    if isinstance(v, np.ndarray):
        return ('array', v.tolist())
    if isinstance(v, (list, tuple)):
        return [val(x) for x in v]
    if isinstance(v, geo.G2()):
        return geo.region(v)
    return v


def rec(r):
    return {k: val(v) for k, v in dict(r).items()}


def joint(i):
    d = dict(i)
    d.pop('sides')
    return ({k: val(v) for k, v in d.items()}, [rec(s) for s in i.sides])


def snapshot(sp):
    return ({k: rec(s) for k, s in sp.sheets.items()},
            {k: joint(i) for k, i in sp.intersections.items()})


def refused(f, what):
    try:
        f()
    except Exception:
        return
    raise Violation('not refused: ' + what)


def lookups(sp, ctx):
    all_sides = list(sp.intersides())
    want = [s for i in sp.intersections.values() for s in i.sides]
    key = sorted(s.id for s in want)
    if len(set(key)) != len(key):
        raise Violation('identifiers of sides are not unique: %s' % key)
    if sorted(s.id for s in all_sides) != key:
        raise Violation('intersides() lists %s, the joints have %s' %
                        (sorted(s.id for s in all_sides), key))
    if [s.id for s in sp.intersides()] != [s.id for s in all_sides]:
        raise Violation('intersides() changes its order')
    for k, i in sp.intersections.items():
        if i.id != k:
            raise Violation('joint %s is filed under %s' % (i.id, k))
        if len(i.sides) != 2:
            raise Violation('joint %s has %d sides' % (k, len(i.sides)))
        names = [s.sheet for s in i.sides]
        if list(i.sheets()) != names:
            raise Violation('joint %s: sheets() is %s, not %s' %
                            (k, i.sheets(), names))
        if names[0] == names[1] or not set(names) <= set(sp.sheets):
            raise Violation('joint %s is between %s' % (k, names))
        for n in sp.sheets:
            s = i.side_by_sheet(n)
            if n in names:
                if s is None or rec(s) != rec(i.sides[names.index(n)]):
                    raise Violation('joint %s: wrong side for sheet %s' %
                                    (k, n))
            elif s is not None:
                raise Violation('joint %s has a side for the foreign sheet %s'
                                % (k, n))
        for j, s in enumerate(i.sides):
            if s.intersection != k or s.idx != j:
                raise Violation('side %s does not know its joint %s' %
                                (s.id, k))
            if rec(sp.interside(s.id)) != rec(s):
                raise Violation('interside(%s) is another side' % (s.id,))
            o = s.opposite(sp)
            if rec(o) != rec(i.sides[1 - j]):
                raise Violation('opposite of %s is %s' % (s.id, o.id))
            if rec(o.opposite(sp)) != rec(s):
                raise Violation('opposite of the opposite of %s' % (s.id,))
        foreign = sorted(set(sp.sheets) - set(names))
        if foreign:
            refused(lambda: sp.interside((k, foreign[0])),
                    'side of %s for sheet %s' % (k, foreign[0]))
    for n in sp.sheets:
        got = sorted(s.id for s in sp.intersides(n))
        w = sorted(s.id for s in want if s.sheet == n)
        if got != w:
            raise Violation('intersides(%s) lists %s, should list %s' %
                            (n, got, w))
    if list(sp.intersides('no such sheet')):
        raise Violation('an unknown sheet has joints')


def shape(ids, kind):
    if kind == 'tuple':
        return tuple(ids)
    if kind == 'set':
        return set(ids)
    if kind == 'iter':
        return iter(ids)
    if kind == 'dict':
        return {k: 1 for k in ids}
    if kind == 'twice':
        return list(ids) * 2
    return list(ids)


def check(sp, limits, ctx):
    lookups(sp, ctx)
    cur = sp
    snap = snapshot(sp)
    trail = [(sp, snap)]
    for mask, kind in limits:
        ids = sorted(cur.sheets)
        # Any subset of the sheets, also none and all
        keep = [k for j, k in enumerate(ids) if mask >> j & 1]
        new = cur.limit(shape(keep, kind))
        sh, it = trail[-1][1]
        want = ({k: v for k, v in sh.items() if k in keep},
                {k: v for k, v in it.items()
                 if all(s['sheet'] in keep for s in v[1])})
        got = snapshot(new)
        if set(got[0]) != set(want[0]):
            raise Violation('limited to %s: sheets %s' %
                            (keep, sorted(got[0])))
        if set(got[1]) != set(want[1]):
            raise Violation('limited to %s: joints %s, should be %s' %
                            (keep, sorted(got[1]), sorted(want[1])))
        if got != want:
            raise Violation('limited to %s: the sheets or joints have changed'
                            % (keep,))
        lookups(new, ctx)
        again = snapshot(sp.limit(keep))
        if again != want:
            raise Violation('limiting at once to %s gives something else than '
                            'limiting step by step' % (keep,))
        if 0 < len(want[1]) < len(it):
            ctx.nontrivial()
            ctx.label('some joints left')
        if not want[1] and it:
            ctx.label('no joint left')
        trail.append((new, want))
        cur = new
    for p, s in trail:
        if snapshot(p) != s:
            raise Violation('limiting changed the original')


def run_planes(case, ctx):
    sheets = []
    for s in case['sheets']:
        g = geo.G2().rectangle(0, 0, s['w'], s['w'])
        sheets.append(models.plane_sheet(s['id'], s['n'], s['o'], 6,
                                         faces=[g, g], slices_max=g))
    sp = models.plex(sheets)
    check(sp, case['limits'], ctx)
    if len(sheets) > 3:
        ctx.label('more than three sheets')


def run_mesh(case, ctx):
    from plycutter.create_sheetplex import create_sheetplex
    m = case['m']
    mesh = models.build(m)
    if mesh is None:
        raise Reject
    check(create_sheetplex(mesh, models.params(thickness=m['t'])),
          case['limits'], ctx)
    ctx.label(m['kind'])


SUBS = [
    Sub('planes', plane_cases(), run_planes, 1200, 8000,
        '1-8 sheets with arbitrary names, some parallel, restricted up to '
        'four times in a row; non-trivial = some but not all joints are left'),
    Sub('meshes', mesh_cases(), run_mesh, 90, 500,
        'the same on sheets extracted from generated models'),
]
