"""Stacks against a Python list, all implementations and backends."""
from .common import *   # noqa

ID = 'P10'
RULE = 'distinct (implementation, backend, start, operation history) tuples'


def item(rng, kind, fresh):
    return {'int': fresh, 'str': 's%d' % fresh, 'float': fresh + 0.5, 'tuple': (fresh, 'x'),
            'thing': Thing(fresh)}[kind]


def sc_stack(mon, rng, params):
    impl = rng.choice(['array', 'array', 'cpp', 'cpp', 'linked_list'])
    kind = rng.choice(['int', 'str', 'float', 'tuple', 'thing'])
    fresh = rng.randint(1, 10**5)
    start = None
    if rng.random() < 0.4:
        start = [item(rng, kind, fresh + i) for i in range(rng.choice([0, 1, 2, 7, rng.randint(0, 30)]))]
        fresh += 100
    kw = {'implementation': 'linked_list' if impl == 'linked_list' else 'array'}
    if impl == 'cpp':
        kw['backend'] = CPP
    if impl != 'linked_list' and (start is not None or rng.random() < 0.5):
        kw['dtype'] = DTYPES.get(kind, Thing)
    if start is not None:
        given = list(start)
        kw['items'] = start if impl != 'linked_list' or rng.random() < 0.5 else tuple(start)
    s = pds.Stack(**kw)
    m = list(start or [])
    ll = impl == 'linked_list'
    val = (lambda x: x.key) if ll else (lambda x: x)
    hist = []
    steps = longish(rng, [5, 20, 60, 150])
    mode = rng.choice(['mixed', 'waves'])
    p = 0.6
    for step in range(steps):
        if mode == 'waves' and step % 20 == 0:
            p = rng.choice([0.9, 0.1])
        if rng.random() < p:
            if not m and not ll and rng.random() < 0.3:
                kind = rng.choice(['int', 'str', 'float', 'tuple', 'thing'])
            fresh += 1
            x = item(rng, kind, fresh)
            mon.op('push', x)
            hist.append(1)
            s.push(x)
            m.append(x)
        elif m and impl == 'array' and kind in ('int', 'float') and rng.random() < 0.1:
            # an array stack holds one type: it converts or refuses
            x = fresh + 7 if kind == 'float' else rng.choice([fresh + 0.5, 'x', 'y1'])
            mon.op('push another type', x)
            hist.append((3, str(x)))
            if isinstance(x, str):
                mon.raises((TypeError, ValueError), lambda: s.push(x), 'pushing an element of another type')
            else:
                s.push(x)
                m.append(DTYPES[kind](x))
        elif m and impl == 'cpp' and rng.random() < 0.1:
            x = rng.choice([item(rng, k, fresh + 9) for k in ('int', 'str', 'float', 'tuple', 'thing') if k != kind])
            mon.op('push another type', x)
            hist.append(4)
            mon.raises(TypeError, lambda: s.push(x), 'pushing an element of another type onto a compiled stack')
            mon.ev('compiled stack refused')
        elif m:
            mon.op('pop')
            hist.append(0)
            got = val(s.pop())
            mon.check(kind != 'thing' or got is m[-1], 'pop returned a copy of the element', got=got)
            mon.eq(got, m[-1], 'pop returned something else than the last pushed element', depth=len(m))
            m.pop()
        elif not m:
            mon.op('pop empty')
            hist.append(2)
            mon.raises(IndexError, s.pop, 'popping an empty stack')
        mon.eq(len(s), len(m), 'len is wrong')
        mon.eq(bool(s.is_empty), not m, 'is_empty is wrong')
        if m:
            mon.eq(val(s.peek), m[-1], 'peek is not the last pushed element')
            mon.eq(type(val(s.peek)), type(m[-1]), 'the last pushed element changed its type')
            mon.eq(len(s), len(m), 'peek changed the stack')
        if ll:
            mon.eq(str(s), str([str((x, None)) for x in m]), 'str() differs')
        mon.state((impl, len(m)))
    if start is not None:
        mon.eq(start, given, 'the list given as items was changed')
    while m:
        mon.eq(val(s.pop()), m.pop(), 'draining the stack does not reverse the pushes')
    mon.check(s.is_empty, 'a drained stack is not empty')
    mon.raises(IndexError, s.pop, 'popping a drained stack')
    mon.case((impl, kind, repr(start), hist), 1 in hist)


SCENARIOS = {
    'stacks': {'fn': sc_stack, 'quick': 4000, 'thorough': 80000},
    'stacks under asan': {'fn': sc_stack, 'quick': 300, 'thorough': 6000, 'flavour': 'asan'},
}
REQUIRED = ['compiled stack refused', 'op:push', 'op:pop', 'op:pop empty']
