"""Interval stabbing queries of OneDimensionalSegmentTree."""
from .common import *   # noqa
from fractions import Fraction

ID = 'P18'
RULE = 'distinct (segments, query point set) pairs'


INF = float('inf')
POOLS = [
    [1e17, 2e17, 2e17 + 32, -1e17, 0.0, 1e300, 2 ** 53, 2 ** 60],
    [INF, -INF, 0, 1, 2.5],
    [10 ** 40, 10 ** 40 + 1, 5, -10 ** 30],
    [Fraction(1, 3), Fraction(2, 3), Fraction(1, 2), 1, 0.25],
    [1e17, 1e17 + 16],
    [1e-300, 5e-324, 0.0, -5e-324, 1e-17],
    [True, False, 2],
]


def sc_interval(mon, rng, params):
    from pydatastructs import OneDimensionalSegmentTree
    n = rng.choice([1, 1, 2, 3, 5, 8, rng.randint(1, 25)])
    span = rng.choice([2, 6, 30, 1000])
    div = rng.choice([1, 1, 4.0])
    segs = []
    pool = rng.choice(POOLS) if rng.random() < 0.3 else None
    if rng.random() < 0.02:
        n = 0
    for _ in range(n):
        if pool:
            a, b = rng.choice(pool), rng.choice(pool)
            segs.append((a, b))
            continue
        a = rng.randint(-span, span)
        b = a if rng.random() < 0.15 else rng.randint(-span, span)
        segs.append((a / div, b / div) if div != 1 else (a, b))
    if n > 1 and rng.random() < 0.3:
        segs[rng.randrange(n)] = segs[rng.randrange(n)]
    given = []
    for a, b in segs:
        f = rng.choice([list, tuple, set])
        given.append(f((a, b)) if f is not set or a != b else (a, b))
    holder = rng.choice([list, tuple, set])
    if holder is set and any(not isinstance(g, tuple) for g in given):
        holder = list
    arg = holder(given)
    before = [sorted(g) if isinstance(g, set) else list(g) for g in given]
    if holder is set:
        segs = [tuple(g) for g in arg]
    t = OneDimensionalSegmentTree(arg)
    if rng.random() < 0.5:
        t.build()
    if holder is not set:
        mon.eq([sorted(g) if isinstance(g, set) else list(g) for g in arg], before, 'the given segments were changed')
    want_all = [tuple(sorted(s)) for s in segs]
    pts = sorted({x for s in want_all for x in s})
    qs = list(pts)
    if pool:
        qs += pool + [0, -1, 3e17, INF, -INF]
        mon.ev('unusual numbers')
    elif pts:
        qs += [(x + y) / 2 for x, y in zip(pts, pts[1:])]
        qs += [pts[0] - 1, pts[0] - 0.5, pts[-1] + 1, pts[-1] + 0.5, pts[0] - 1000, pts[-1] + 1000]
    else:
        qs += [0, 1.5]
        mon.ev('no segments')
    if len(qs) > 50:
        qs = rng.sample(qs, 50)
    rng.shuffle(qs)
    for q in qs:
        mon.op('query', q)
        got = t.query(q)
        for i in got:
            mon.check(i.key[0] is True and i.key[3] is True, 'a reported segment is not closed', segment=i.key)
        got = sorted((i.key[1], i.key[2]) for i in got)
        want = sorted(s for s in want_all if s[0] <= q <= s[1])
        mon.eq(got, want, 'query does not return exactly the segments holding the point', point=q, segments=segs)
        mon.ev('stab hit' if want else 'stab miss')
    str(t)
    if rng.random() < 0.1:
        for bad in ([(1, 2), (3,)], [(1, 2, 3)], [5], [(1, 2), None]):
            mon.raises(ValueError, lambda: OneDimensionalSegmentTree(bad), 'invalid segments')
    mon.case((tuple(segs), len(qs)))
    mon.state(tuple(segs))


SCENARIOS = {'interval': dict(fn=sc_interval, quick=2500, thorough=120000)}
REQUIRED = ['stab hit', 'stab miss', 'rejected', 'unusual numbers', 'no segments']
