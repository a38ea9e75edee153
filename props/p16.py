"""Multiset against a counter."""
from .common import *   # noqa
from collections import Counter

ID = 'P16'
RULE = 'distinct operation histories'


def sc_multiset(mon, rng, params):
    from pydatastructs import Multiset
    span = rng.choice([2, 6, 20, 100])
    kind = rng.choice(['int', 'int', 'float', 'str', 'tuple'])
    mk = {'int': lambda: rng.randint(-span, span), 'float': lambda: rng.randint(-span, span) / 2.0,
          'str': lambda: ''.join(rng.choice('abc') for _ in range(rng.randint(0, 3))),
          'tuple': lambda: (rng.randint(0, 2), rng.randint(0, span))}[kind]
    start = [mk() for _ in range(rng.choice([0, 0, 1, 3, 10, 30]))]
    s, m = Multiset(*start), Counter(start)
    hist = []

    def audit():
        mon.eq(len(s), sum(m.values()), 'len() is not the number of elements')
        keys = sorted(k for k in m if m[k] > 0)
        qs = {mk() for _ in range(5)} | set(rng.sample(keys, min(3, len(keys))))
        for q in qs:
            mon.eq(s.count(q), m[q], 'count is wrong', element=q)
            mon.eq(q in s, m[q] > 0, 'membership is wrong', element=q)
            mon.eq(s.lower_bound(q), next((k for k in keys if k >= q), None), 'lower_bound is wrong', element=q)
            mon.eq(s.upper_bound(q), next((k for k in keys if k > q), None), 'upper_bound is wrong', element=q)
            mon.ev('query')
        mon.state(tuple(sorted(((k, m[k]) for k in keys))))
    audit()
    mode, p = rng.choice(['mixed', 'waves', 'drain']), 0.55
    for step in range(longish(rng, [5, 15, 40, 90])):
        if mode == 'waves' and step % 10 == 0:
            p = rng.choice([0.95, 0.1])
        elif mode == 'drain':
            p = 0.15
        if rng.random() < p:
            x = mk()
            mon.op('add', x)
            hist.append(('a', x))
            s.add(x)
            m[x] += 1
        else:
            live = [k for k in m if m[k] > 0]
            x = rng.choice(live) if live and rng.random() < 0.85 else mk()
            mon.op('remove', x)
            hist.append(('r', x))
            s.remove(x)
            if m[x] > 0:
                m[x] -= 1
                if m[x] == 0:
                    mon.ev('last copy removed')
            else:
                mon.ev('absent removed')
        audit()
    mon.case((kind, tuple(start), tuple(hist)))


SCENARIOS = {'multiset': dict(fn=sc_multiset, quick=1500, thorough=60000)}
REQUIRED = ['query', 'last copy removed', 'absent removed']
