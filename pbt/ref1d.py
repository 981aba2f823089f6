"""Exact model of sets of intervals: (is -infinity inside, sorted toggle
points)."""
import math
from bisect import bisect_right

from gmpy2 import mpq

INF = math.inf


def num(v):
    if v == 'inf':
        return INF
    if v == '-inf':
        return -INF
    return mpq(v)


def m_from(intervals):
    pts = sorted({v for iv in intervals for v in iv if abs(v) != INF})
    marks = [None] + pts
    bits = []
    for i in range(len(pts) + 1):
        if not pts:
            x = mpq(0)
        elif i == 0:
            x = pts[0] - 1
        elif i == len(pts):
            x = pts[-1] + 1
        else:
            x = (pts[i - 1] + pts[i]) / 2
        bits.append(any(a < x < b for a, b in intervals))
    return m_bits(pts, bits), marks


def m_bits(pts, bits):
    tog = [p for i, p in enumerate(pts) if bits[i] != bits[i + 1]]
    return (bits[0], tuple(tog))


def m_at(m, x):
    """Membership just away from toggles (x is no toggle)."""
    return m[0] ^ (bisect_right(m[1], x) % 2 == 1)


def m_op(f, *ms):
    pts = sorted(set().union(*[set(m[1]) for m in ms]))
    bits = []
    for i in range(len(pts) + 1):
        if not pts:
            x = mpq(0)
        elif i == 0:
            x = pts[0] - 1
        elif i == len(pts):
            x = pts[-1] + 1
        else:
            x = (pts[i - 1] + pts[i]) / 2
        bits.append(f(*[m_at(m, x) for m in ms]))
    return m_bits(pts, bits)


def m_intervals(m):
    pts = ([-INF] if m[0] else []) + list(m[1])
    if len(pts) % 2:
        pts.append(INF)
    return list(zip(pts[0::2], pts[1::2]))


def m_buffer(m, a):
    ivs = [(x - a if x != -INF else x, y + a if y != INF else y)
           for x, y in m_intervals(m)]
    return m_from([(x, y) for x, y in ivs if x < y])[0]


EMPTY = (False, ())


def measure(m):
    return sum((b - a for a, b in m_intervals(m)), mpq(0)) \
        if not m[0] and len(m[1]) % 2 == 0 else INF
