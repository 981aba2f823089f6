"""C14: the finished parts, put where they belong in space."""
from gmpy2 import mpq

import models
import pipe
from harness import Sub, Violation

RIGHT = ['L', 'T', 'X', 'U', 'corner', 'corner', 'partial', 'window',
         'overhang', 'notch', 'tee3', 'shelf', 'cross', 'tray', 'box', 'box', 'tube',
         'room', 'pair', 'pair']


def square(m):
    return not models.is_prism(m) or all(abs(a) == 90 for a in m['turns'])


def run(case, ctx):
    m = case['m']
    sp, p, res = pipe.run(case)
    t = float(mpq(m['t']))
    parts = pipe.parts_of(sp, res.sheet_cuts, t)
    if set(res.sheet_cuts) != set(sp.sheets):
        raise Violation('parts for %s, sheets are %s' % (
            sorted(res.sheet_cuts), sorted(sp.sheets)))
    ks = sorted(parts)
    for k in ks:
        if parts[k].shape is None:
            raise Violation('%s: there is no part' % k)
    joints = 0
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            v, l = pipe.overlap(parts[a], parts[b])
            if v > 1e-3:
                raise Violation('parts %s and %s overlap: volume %.5f along '
                                '%.3f of the joint' % (a, b, v, l))
    fingers = 0
    for inter in sp.intersections.values():
        n = [len(res.sheetbuild.interside_chosen[s.id].get_intervals())
             for s in inter.sides]
        joints += any(n)
        fingers = max(fingers, sum(n))
    for k, P in parts.items():
        out = models.s_sub(P.shape, models.to_shapely(
            sp.sheets[k].slices_max).buffer(1e-5)).area
        if out > 1e-3:
            raise Violation('part %s reaches out of its plate: area %.5f' %
                            (k, out))
    if not models.is_prism(m):
        out = pipe.outside_model(case, sp, parts)
        if out[0] > 5e-3:
            raise Violation('part %s: area %.5f is not in the model' %
                            (out[1], out[0]))
    gap = models.volume(m) - sum(P.shape.area for P in parts.values()) * t
    if square(m):
        # The slack: slots a hundredth wide (rounded up to a fifth of the
        # thickness in all)
        tol = 0.1 * t * t
        if not -0.01 * t < gap < tol:
            raise Violation('volume %.4f of the model is in no part '
                            '(allowed: %.4f)' % (gap, tol))
    ctx.nontrivial(joints > 0)
    ctx.label(m['kind'])
    if case['mesh']:
        ctx.label('mesh')
    if fingers > 3:
        ctx.label('several fingers')
    if not square(m):
        ctx.label('oblique')


SUBS = [
    Sub('boxes', pipe.runs(RIGHT, 3, 6, mesh=0.2), run, 112, 3000,
        'kits of right-angled plates, from a mesh in any position or as '
        'exact sheets; all pairs of parts intersected in space, parts '
        'compared with the model at every depth, volumes added up; '
        'non-trivial = a joint with decided places'),
    Sub('prisms', pipe.runs(['L'], 3, 6, strip=1.0), run, 16, 1500,
        'bent strips and plates standing on others, angles of 30 to 120 '
        'degrees; non-trivial = a joint with decided places'),
]
