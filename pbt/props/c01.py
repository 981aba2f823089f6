"""C01: one-dimensional interval sets form an exact Boolean algebra."""
from hypothesis import strategies as st
from gmpy2 import mpq

import gen
import geo
from harness import Sub, Violation
from ref1d import (INF, m_at, m_bits, m_buffer, m_from, m_intervals,  # noqa
                   m_op, num)


ends = st.one_of(st.integers(-6, 6), st.integers(-6, 6),
                 st.integers(-20, 20).map(lambda k: gen.qs(mpq(k, 3))),
                 gen.numbers())


@st.composite
def interval(draw):
    k = draw(st.sampled_from([4] * 30 + [5] * 6 + [0, 1, 2, 3]))
    a = draw(ends)
    b = draw(ends) if k == 5 else \
        gen.qs(mpq(a) + draw(st.integers(1, 9)) / mpq(3))
    if mpq(a) > mpq(b):
        a, b = b, a
    if k == 0:
        a = '-inf'
    if k == 1:
        b = 'inf'
    if k == 2:
        a, b = '-inf', 'inf'
    if k == 3:
        b = a
    return [a, b]


op = st.tuples(
    st.sampled_from(['and', 'sub', 'or', 'xor', 'and', 'sub', 'or', 'xor',
                     'not', 'buffer', 'buffer', 'filter', 'pieces']),
    st.integers(0, 9), st.integers(0, 9),
    st.one_of(st.integers(-4, 4), gen.fractions(-3, 3))).map(list)

case = st.fixed_dictionaries({
    'leaves': st.lists(st.lists(interval(), min_size=1, max_size=6), min_size=2,
                       max_size=3),
    'seq': st.sampled_from(['list', 'tuple']),
    'probe': ends,
    'ops': st.lists(op, min_size=2, max_size=8)})


def agree(g, m, what, probe):
    G = geo.G1()
    want = m_intervals(m)
    got = list(g.get_intervals())
    if len(got) != len(want) or any(
            tuple(x) != tuple(y) for x, y in zip(got, want)):
        raise Violation('%s: intervals are %s, exact answer %s' %
                        (what, got, want))
    for iv in got:
        for v in iv:
            if abs(v) != INF and type(v) is not type(mpq(1)):
                raise Violation('%s: endpoint %r is not an exact rational' %
                                (what, v))
    if g.is_empty() != (not want):
        raise Violation('%s: is_empty() is %s' % (what, g.is_empty()))
    total = sum([b - a for a, b in want], mpq(0))
    if g.measure1d() != total:
        raise Violation('%s: measure1d() is %s, exact %s' %
                        (what, g.measure1d(), total))
    if bool(g.is_bounded()) != (total != INF):
        raise Violation('%s: is_bounded() is %s' % (what, g.is_bounded()))
    pts = {probe}
    for a, b in want:
        fa, fb = abs(a) != INF, abs(b) != INF
        if fa and fb:
            pts |= {a, b, (a + b) / 2, a - mpq(1, 10 ** 9)}
        elif fa:
            pts |= {a, a + 7, a - 1}
        elif fb:
            pts |= {b, b - 7, b + 1}
        else:
            pts |= {mpq(0)}
    for p in pts:
        w = 0 if p in m[1] else (1 if m_at(m, p) else -1)
        if g.locate(p) != w:
            raise Violation('%s: locate(%s) is %s, exact answer %s' %
                            (what, p, g.locate(p), w))
    ps = g.disjoint_pieces()
    if len(ps) != len(want) or any(
            list(map(tuple, p.get_intervals())) != [tuple(w)]
            for p, w in zip(ps, want)):
        raise Violation('%s: disjoint_pieces() are not the intervals' % what)
    if not isinstance(g, G):
        raise Violation('%s: not a Geom1D' % what)


def run(case, ctx):
    G = geo.G1()
    mk = list if case['seq'] == 'list' else tuple
    probe = num(case['probe'])
    pool = [(G.empty(), (False, ())), (G.full(), (True, ()))]
    leaves = []
    for lv in case['leaves']:
        ivs = [(num(a), num(b)) for a, b in lv]
        g = G([mk(iv) for iv in ivs])
        m = m_from(ivs)[0]
        agree(g, m, 'Geom1D(%s)' % ivs, probe)
        if m[1]:
            leaves.append(m)
        pool.insert(0, (g, m))
    nt = False
    for o in case['ops']:
        n = len(pool)
        g, m = pool[o[1] % n]
        name = o[0]
        before = list(g.get_intervals())
        if name in ('or', 'and', 'sub', 'xor'):
            h, k = pool[o[2] % n]
            hb = list(h.get_intervals())
            f = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b,
                 'sub': lambda a, b: a - b, 'xor': lambda a, b: a ^ b}[name]
            b = {'or': lambda a, b: a or b, 'and': lambda a, b: a and b,
                 'sub': lambda a, b: a and not b,
                 'xor': lambda a, b: a != b}[name]
            r, rm = f(g, h), m_op(b, m, k)
            if list(h.get_intervals()) != hb:
                raise Violation('%s modified its second operand' % name)
            if m[1] and k[1] and m != k:
                nt = True
                if set(m[1]) & set(k[1]):
                    ctx.label('operands share endpoints')
        elif name == 'not':
            r, rm = ~g, m_op(lambda a: not a, m)
            nt = nt or bool(m[1])
        elif name == 'buffer':
            a = mpq(o[3])
            r, rm = g.buffer(a), m_buffer(m, a)
            if len(rm[1]) < len(m[1]):
                ctx.label('buffer removes or merges intervals')
                nt = True
        elif name == 'filter':
            ivs = m_intervals(m)
            keep = {iv for i, iv in enumerate(ivs) if i % 2 == o[2] % 2}
            r = g.filter(lambda a, b: (a, b) in keep)
            rm = m_from([iv for iv in ivs if iv in keep])[0]
        else:
            ps = g.disjoint_pieces()
            r = G.empty()
            for p in ps:
                r = p | r
            rm = m
        if list(g.get_intervals()) != before:
            raise Violation('%s modified its operand' % name)
        agree(r, rm, '%s -> result' % name, probe)
        ctx.label('op ' + name)
        if rm[0] or len(rm[1]) % 2:
            ctx.label('unbounded result')
        if len(m_intervals(rm)) > 1:
            ctx.label('several intervals')
        pool.append((r, rm))
    ctx.nontrivial(nt)


bad_case = st.fixed_dictionaries({
    'good': st.lists(interval(), max_size=3),
    'kind': st.sampled_from(['reversed', 'float', 'string', 'short']),
    'at': st.integers(0, 3), 'a': ends})


def run_bad(case, ctx):
    G = geo.G1()
    ivs = [[num(a), num(b)] for a, b in case['good']]
    a = num(case['a'])
    bad = {'reversed': [a + 1, a], 'float': [float(a), float(a) + 0.5],
           'string': ['1', '2'], 'short': [a]}[case['kind']]
    ivs.insert(case['at'] % (len(ivs) + 1), bad)
    ctx.label(case['kind'])
    ctx.nontrivial(len(ivs) > 1)
    try:
        g = G(ivs)
    except Exception:
        return
    raise Violation('Geom1D(%s) was accepted as %s' % (ivs, g.get_intervals()))


SUBS = [
    Sub('histories', case, run, 20000, 200000,
        '1-3 leaf sets of 0-5 intervals (shared, touching, zero-length, '
        'unbounded, rational or float-valued endpoints), then 1-8 operations '
        'on pool members, each compared with a toggle-list model; '
        'non-trivial = a binary operation on two different sets with finite '
        'endpoints, a complement of one, or a buffer that removes or merges '
        'intervals'),
    Sub('refuses', bad_case, run_bad, 2000, 8000,
        'one malformed interval (reversed, float ends, strings, one end) '
        'among valid ones must be refused; non-trivial = with valid ones '
        'beside it'),
]
