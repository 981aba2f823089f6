"""A process of its own for C21: runs jobs given on stdin and prints what came
out of them, in a form that is the same for the same point sets."""
import hashlib
import json
import sys

from gmpy2 import mpq


def boundary(region):
    """Maximal boundary segments: the same for equal point sets."""
    import ref2d
    lines = {}
    for (x0, y0), (x1, y1) in ref2d.region_edges(region):
        if x0 == x1:
            key, a, b = ('v', x0), y0, y1
        else:
            m = (y1 - y0) / (x1 - x0)
            key, a, b = (m, y0 - m * x0), x0, x1
        lines.setdefault(key, []).append((min(a, b), max(a, b)))
    out = []
    for key in lines:
        cur = None
        for a, b in sorted(lines[key]):
            if cur and a <= cur[1]:
                cur[1] = max(cur[1], b)
            else:
                if cur:
                    out.append((str(key), str(cur[0]), str(cur[1])))
                cur = [a, b]
        out.append((str(key), str(cur[0]), str(cur[1])))
    return sorted(out)


def digest(g):
    import geo
    b = boundary(geo.region(g))
    return '%d:%s' % (len(b), hashlib.sha1(
        json.dumps(b).encode()).hexdigest()[:16])


def disturb(k):
    """Other geometry and other objects before the run."""
    import geo
    import random
    rng = random.Random(k)
    keep = [[object() for _ in range(rng.randint(1, 50))]
            for _ in range(rng.randint(100, 3000))]
    G = geo.G2()
    g = G.empty()
    for _ in range(rng.randint(1, 5)):
        x, y = rng.randint(0, 9), rng.randint(0, 9)
        g = g | G.rectangle(x, y, x + 3, y + 2)
        g = g - G.rectangle(x + 1, y + 1, x + 2, y + 3)
    g.buffer(mpq(1, 3))
    import numpy as np
    np.random.seed(k)
    random.seed(k)
    return keep


def run_job(job):
    import models
    from plycutter import canned, create_sheetplex
    m = job['m']
    p = models.params(**dict(job['p'], thickness=m['t']))
    if job['mesh']:
        sp = create_sheetplex.create_sheetplex(models.build(m), p)
    else:
        sp = models.plex(models.box_sheets(m))
    try:
        res = canned.canned_1(sp, p)
    except Exception as e:
        # Refused: just as deterministic
        return {'error': type(e).__name__}
    sb = res.sheetbuild
    return {'cuts': {k: digest(v) for k, v in sorted(res.sheet_cuts.items())},
            'joints': {repr(k): hashlib.sha1(repr(
                [(str(a), str(b)) for a, b in v.get_intervals()]
            ).encode()).hexdigest()[:16]
                for k, v in sorted(sb.interside_chosen.items())}}


def main():
    import harness
    harness.import_repo()
    job = json.load(sys.stdin)
    keep = disturb(job['disturb']) if job['disturb'] is not None else None
    out = [None] * len(job['jobs'])
    for i in job['order']:
        r = run_job(job['jobs'][i])
        if out[i] is not None and out[i] != r:
            print(json.dumps({'twice': [i, out[i], r]}))
            return
        out[i] = r
    del keep
    print(json.dumps({'out': out}))
