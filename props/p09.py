"""Skip list: a sorted dictionary whose express lanes stay consistent."""
from .common import *   # noqa
import bisect
import random as _random

ID = 'P09'
RULE = 'distinct (random seed, operation history) tuples'


def lanes(sl):
    """The levels, top first, each a list of nodes without sentinels."""
    out, head, tail = [], sl.head, sl.tail
    while head is not None:
        row, node = [], head.next
        while node is not None and node is not tail:
            row.append(node)
            node = node.next
        out.append((head, row, tail, node is tail))
        head, tail = head.down, tail.down
    return out, tail


def audit(mon, sl, m):
    rows, leftover = lanes(sl)
    mon.check(leftover is None and all(r[3] for r in rows), 'a lane does not end at its own sentinel')
    mon.eq(len(rows), sl.levels, 'levels differs from the number of lanes')
    mon.check(sl.levels >= 1, 'a skip list without a lane')
    base = rows[-1][1]
    mon.eq([x.key for x in base], [k for k, _ in m], 'the keys differ from the model or are out of order')
    mon.eq([x.data for x in base], [d for _, d in m], 'the data differ from the model')
    mon.check(all(x.down is None for x in base), 'the lowest lane points further down')
    mon.eq(sl.size, len(m), 'size is wrong')
    for (_, up, _, _), (_, low, _, _) in zip(rows, rows[1:]):
        pos = {id(x): i for i, x in enumerate(low)}
        at = -1
        for x in up:
            i = pos.get(id(x.down))
            mon.check(i is not None, 'an express lane node stands on nothing', key=x.key)
            mon.check(i > at, 'an express lane is out of order', key=x.key)
            mon.eq(low[i].key, x.key, 'a tower changes its key')
            at = i
        mon.check(len(up) > 0, 'an empty express lane is kept')
        mon.ev('express lane nodes', len(up))
    for head, _, tail, _ in rows:
        mon.check(head is not None and tail is not None, 'a sentinel was lost')


def sc_skip(mon, rng, params):
    seed = rng.randrange(10**9)
    _random.seed(seed)
    sl = pds.SkipList()
    m, hist = [], []
    span = rng.choice([5, 12, 40])
    dups = rng.random() < 0.2
    steps = longish(rng, [5, 15, 40, 100])
    kind, draw = ordered(rng, span // 2)
    mon.ev('keys: ' + kind)
    audit(mon, sl, m)
    for step in range(steps):
        r = rng.random()
        grow = 0.7 if step < steps / 2 else 0.3
        k = draw()
        if r < 0.25:
            mon.op('search', k)
            mon.eq(sl.search(float(k) if kind == 'int' and rng.random() < 0.5 else k), any(x[0] == k for x in m), 'search is wrong', key=k, keys=[x[0] for x in m])
            continue
        if rng.random() < grow:
            if any(x[0] == k for x in m):
                if not dups:
                    continue
                mon.ev('duplicate key')
            mon.op('insert', k)
            hist.append(('i', k))
            d = None if rng.random() < 0.3 else step
            sl.insert(k, d)
            m.insert(bisect.bisect_left([x[0] for x in m], k), (k, d))
        else:
            if m and rng.random() < 0.8:
                k = rng.choice(m)[0]
            mon.op('extract', k)
            hist.append(('x', k))
            same = [x for x in m if x[0] == k]
            if not same:
                mon.raises(KeyError, lambda: sl.extract(k), 'extracting an absent key', key=k)
            else:
                alike = float(k) if kind == 'int' and rng.random() < 0.3 else k
                got = sl.extract(alike)
                mon.eq(got.key, k, 'another key was extracted')
                mon.check(type(got.key) is type(same[0][0]), 'the extracted node does not carry the key that was inserted',
                          got=got.key, want=same[0][0])
                mon.check((k, got.data) in same, 'extract returned data that was not stored under the key',
                          key=k, data=got.data)
                m.remove((k, got.data))
        audit(mon, sl, m)
        if not dups and m:
            text = str(sl).split('\n')
            mon.eq(text[sl.levels - 1].strip(), ' '.join(str((k, d)) for k, d in m), 'str() shows other nodes')
        mon.state((sl.levels, len(m)))
    for k in [x[0] for x in m] + [draw() for _ in range(20)] + ([INF, -INF] if kind not in ('str', 'tuple') else []):
        mon.eq(sl.search(k), any(x[0] == k for x in m), 'search is wrong', key=k)
    mon.case((seed, hist), len(hist) > 1)


SCENARIOS = {'skip list': {'fn': sc_skip, 'quick': 4000, 'thorough': 80000}}
REQUIRED = ['op:insert', 'op:extract', 'op:search', 'express lane nodes', 'duplicate key', 'rejected', 'keys: str', 'keys: wide', 'keys: huge']
