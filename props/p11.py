"""Queues and double ended queues against collections.deque."""
from .common import *   # noqa
from collections import deque

ID = 'P11'
RULE = 'distinct (implementation, double ended, start, operation history) tuples'


CONV = {'int': int, 'str': str, 'float': lambda x: x + 0.5, 'thing': Thing, 'tuple': lambda x: (x,)}


def sc_queue(mon, rng, params):
    impl = rng.choice(['array', 'array', 'linked_list'])
    double = rng.random() < 0.5
    kind = rng.choice(['int', 'str', 'float', 'thing', 'tuple'])
    fresh = rng.randint(1, 10**5)
    conv = CONV[kind]
    start = None
    if rng.random() < 0.5:
        start = [conv(fresh + i) for i in range(rng.choice([0, 1, 2, 3, 7, rng.randint(0, 30)]))]
        fresh += 100
    kw = {'implementation': impl}
    if double or rng.random() < 0.5:
        kw['double_ended'] = double
    if start is not None:
        kw['items'] = list(start)
    q = pds.Queue(**kw)
    m = deque(start or [])
    ll = impl == 'linked_list'
    val = (lambda x: x.key) if ll else (lambda x: x)
    hist = []
    mode = rng.choice(['mixed', 'waves', 'rolling', 'hold small'])
    p = 0.55
    for step in range(longish(rng, [6, 20, 60, 150])):
        n = len(m)
        if mode == 'waves' and step % 15 == 0:
            p = rng.choice([0.9, 0.1])
        elif mode == 'rolling':
            p = 0.9 if n < 6 else 0.3
        elif mode == 'hold small':
            p = 1.0 if n < 2 else (0.25 if n > 7 else p)
            if n >= 7:
                p = 0.0
            elif n == 2:
                p = 0.8
        left = rng.random() < 0.4
        if rng.random() < p:
            fresh += 1
            if not m and rng.random() < 0.4 or ll and rng.random() < 0.1:
                # an empty queue takes any type, a linked one always does
                kind = rng.choice(sorted(CONV))
                conv = CONV[kind]
                mon.ev('changes type')
            x = conv(fresh)
            bad = False
            if m and impl == 'array' and kind in ('int', 'float') and rng.random() < 0.12:
                # an array queue holds one type: it converts or refuses
                mon.ev('another type')
                x = fresh + 7 if kind == 'float' else rng.choice([fresh + 0.5, 'x'])
                bad = isinstance(x, str)
            if left and not double:
                mon.raises(NotImplementedError, lambda: q.appendleft(x), 'appendleft on a plain queue')
                continue
            mon.op('appendleft' if left else 'append', x)
            hist.append('L' if left else 'R')
            if bad:
                mon.raises((TypeError, ValueError), lambda: (q.appendleft if left else q.append)(x),
                           'adding an element of another type')
            elif left:
                q.appendleft(x)
                m.appendleft(x if ll or kind in ('thing', 'tuple') else type(conv(1))(x))
            else:
                q.append(x)
                m.append(x if ll or kind in ('thing', 'tuple') else type(conv(1))(x))
        else:
            right = double and rng.random() < 0.45
            name = 'pop' if right else 'popleft'
            if not double and rng.random() < 0.1:
                mon.raises(NotImplementedError, q.pop, 'pop on a plain queue')
            if not m:
                mon.op(name + ' empty')
                hist.append('e')
                mon.raises(IndexError, getattr(q, name), 'taking from an empty queue')
            else:
                mon.op(name)
                hist.append('r' if right else 'l')
                want = m.pop() if right else m.popleft()
                got = val(getattr(q, name)())
                mon.eq(got, want, '%s returned another element' % name)
                mon.eq(type(got), type(want), '%s returned an element of another type' % name)
        mon.eq(len(q), len(m), 'len is wrong')
        mon.eq(bool(q.is_empty), not m, 'is_empty is wrong')
        mon.eq(str(q), str([str((x, None)) for x in m]) if ll else str(list(m)), 'str() shows other elements')
        if m:
            f, r = (q.front.key, q.rear.key) if ll else (q.items[q.front], q.items[q.rear])
            mon.eq((f, r), (m[0], m[-1]), 'front or rear is another element')
        else:
            mon.eq((q.front, q.rear), (None, None) if ll else (-1, -1), 'an empty queue still has a front or rear')
        mon.state((impl, double, len(m)) + (() if ll else (q.front, q.items.size)))
    while m:
        mon.eq(val(q.popleft()), m.popleft(), 'draining the queue yields another order')
    mon.raises(IndexError, q.popleft, 'taking from a drained queue')
    mon.case((impl, double, repr(start), hist), len(hist) > 1)


SCENARIOS = {'queues': {'fn': sc_queue, 'quick': 6000, 'thorough': 120000}}
REQUIRED = ['op:append', 'op:appendleft', 'op:pop', 'op:popleft', 'op:pop empty', 'op:popleft empty', 'rejected', 'another type', 'changes type']
