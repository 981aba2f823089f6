"""C03: every 2D result is in canonical form."""
from hypothesis import strategies as st
from gmpy2 import mpq

import gen
import geo
import ref2d
import wellformed
from harness import Sub


def run_pool(case, ctx):
    for p in case['polys']:
        g, _ = geo.leaf(case['affine'], p)
        wellformed.check(g, 'polygon()')

    def visit(name, gs, rs, res):
        rr = wellformed.check(res, name)
        wellformed.check(geo.G2().union([res] + list(gs)), 'union') \
            if case.get('deep') else None
        ctx.label('op ' + name)
        if len(rr) > 1:
            ctx.label('several pieces')
            vs = [v for p in rr for v in set(
                x for g in ref2d.region_rings([p]) for x in g)]
            if len(vs) != len(set(vs)):
                ctx.label('pieces touch in a point')
        if any(hs for _, hs in rr):
            ctx.label('holes')
        if any(len(r) != len(set(r)) for r in ref2d.region_rings(rr)):
            ctx.label('a ring touches itself')
        ctx.nontrivial(len(rr) > 1 or any(hs for _, hs in rr) or
                       geo.n_edges(rr) > 4)
        return rr
    geo.build_pool(case, visit)


@st.composite
def cells_case(draw):
    """Sets of unit squares and half squares: many contacts in points."""
    n = draw(st.integers(2, 5))
    bits = draw(st.lists(st.sampled_from([1, 1, 1, 1, 0, 2, 3, 4]),
                         min_size=n * n, max_size=n * n))
    return {'n': n, 'bits': bits, 'affine': draw(gen.affine()),
            'order': draw(st.integers(0, 5)),
            'minus': draw(st.lists(st.integers(0, n * n - 1), max_size=4))}


def cell_poly(n, q, kind):
    x, y = q % n, q // n
    c = [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]
    if kind == 1:
        return c
    if kind == 2:
        return [c[0], c[1], c[2]]
    if kind == 3:
        return [c[1], c[2], c[3]]
    # A bar along the lower side
    h = mpq(1, 3)
    return [c[0], c[1], (x + 1, y + h), (x, y + h)]


def run_cells(case, ctx):
    G = geo.G2()
    n, m = case['n'], case['affine']
    polys = [G.polygon(gen.ring(m, cell_poly(n, q, k)), reorient=True)
             for q, k in enumerate(case['bits']) if k]
    o = case['order']
    if o % 2:
        polys = polys[::-1]
    if o >= 4:
        g = G.empty()
        for p in polys:
            g = g | p
            wellformed.check(g, 'or')
    else:
        g = G.union(polys)
    reg = wellformed.check(g, 'union')
    for q in case['minus']:
        g = g - G.polygon(gen.ring(m, cell_poly(n, q, 1)), reorient=True)
        reg = wellformed.check(g, 'sub')
    if len(reg) > 1:
        ctx.label('several pieces')
    if any(hs for _, hs in reg):
        ctx.label('holes')
    if any(len(r) != len(set(r)) for r in ref2d.region_rings(reg)):
        ctx.label('a ring touches itself')
    ctx.nontrivial(len(polys) > 2)


def run_buffer(case, ctx):
    polys = [geo.leaf(case['affine'], p)[0] for p in case['polys']]
    g = polys[0]
    for o, p in zip(case['ops'], polys[1:]):
        g = geo.apply_op(o, [g, p])
    for a in case['amounts']:
        if geo.n_edges(geo.region(g)) > 40:
            break
        g = g.buffer(mpq(a))
        reg = wellformed.check(g, 'buffer(%s)' % a)
        if any(hs for _, hs in reg):
            ctx.label('holes')
        if len(reg) > 1:
            ctx.label('several pieces')
        if not reg:
            ctx.label('empty')
        ctx.nontrivial(bool(reg))


buffer_case = st.fixed_dictionaries({
    'affine': st.none(),
    'polys': st.lists(gen.polygon(), min_size=1, max_size=3),
    'ops': st.lists(st.sampled_from(['or', 'sub']), min_size=2, max_size=2),
    'amounts': st.lists(st.sampled_from(
        [1, '1/2', '1/10', '-1/2', '-1/10', -1, '-1/3', '2/7']), min_size=1,
        max_size=2)})

SUBS = [
    Sub('nested', gen.nested_pools(), run_pool, 800, 12000,
        'concentric polygons subtracted and added in turn, then random '
        'operations; non-trivial = a result with several pieces, holes or '
        'more than 4 edges'),
    Sub('histories', gen.pools(), run_pool, 1400, 20000,
        'random polygons and operations; non-trivial as for nested'),
    Sub('cells', cells_case(), run_cells, 800, 12000,
        'unions of squares, half squares and bars on a grid, joined at once '
        'or one by one, then squares removed; non-trivial = more than 2 '
        'cells'),
    Sub('buffer', buffer_case, run_buffer, 240, 4000,
        'one or two buffers of a combination of 1-3 polygons; non-trivial = '
        'a result that is not empty'),
]
