"""D-ary heaps: heap order, conservation and extraction order."""
from .common import *   # noqa

ID = 'P13'
RULE = 'distinct (class, arity, heap property, start, operation history) tuples'


def sc_heap(mon, rng, params):
    from pydatastructs.trees.heaps import DHeap, BinaryHeap, TernaryHeap
    from pydatastructs.utils import TreeNode
    prop = rng.choice(['min', 'max'])
    cls = rng.choice(['binary', 'ternary', 'd', 'd'])
    d = {'binary': 2, 'ternary': 3}.get(cls) or rng.randint(1, 9)
    span = rng.choice([3, 20, 1000])
    mk = {'int': lambda: rng.randint(-span, span), 'float': lambda: rng.randint(-span, span) / 4.0,
          'str': lambda: ''.join(rng.choice('abc') for _ in range(rng.randint(0, 4))),
          'tuple': lambda: (rng.randint(0, 3), rng.randint(0, 3))}[rng.choice(['int', 'int', 'float', 'str', 'tuple'])]
    serial = rng.randrange(10**6)
    start, form = [], rng.choice(['none', 'list', 'tuple', 'array', 'dynamic'])
    if form != 'none':
        for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 40)])):
            serial += 1
            start.append((mk(), serial))
    nodes = [TreeNode(k, x) for k, x in start]
    if form == 'none':
        els = None
    elif form == 'list':
        els = nodes
    elif form == 'tuple':
        els = tuple(nodes)
    elif form == 'array':
        els = ODA(TreeNode, nodes)
    else:
        els = DODA(TreeNode, 0)
        for x in nodes:
            els.append(x)
    args = [] if els is None else [els]
    kw = {} if prop == 'min' and rng.random() < 0.3 else {'heap_property': prop}
    if cls == 'd':
        if d != 4 or rng.random() < 0.5:
            kw['d'] = d
        h = DHeap(*args, **kw)
    else:
        h = (BinaryHeap if cls == 'binary' else TernaryHeap)(*args, **kw)
    ok = (lambda p, c: p <= c) if prop == 'min' else (lambda p, c: p >= c)
    m, hist = sorted(start, key=repr), []

    def audit():
        n = len(m)
        mon.eq(bool(h.is_empty), n == 0, 'is_empty is wrong')
        cells = read(h.heap)
        live = cells[:n]
        mon.check(all(x is not None for x in live) and all(x is None for x in cells[n:]),
                  'the heap array does not hold its elements in front', size=n)
        mon.eq(sorted(((x.key, x.data) for x in live), key=repr), m, 'the stored elements differ from the model')
        for i in range(1, n):
            mon.check(ok(live[(i - 1) // d].key, live[i].key), 'the heap property is broken',
                      parent=live[(i - 1) // d].key, child=live[i].key, d=d, prop=prop)
        want = str([(x.key, x.data, list(range(d * i + 1, min(d * i + d, n - 1) + 1))) for i, x in enumerate(live)])
        mon.eq(str(h), want, 'str() shows other nodes or children')
    audit()
    mode = rng.choice(['mixed', 'waves', 'drain'])
    p = 0.6
    for step in range(longish(rng, [4, 15, 40])):
        if mode == 'waves' and step % 8 == 0:
            p = rng.choice([0.9, 0.2])
        elif mode == 'drain':
            p = 0.1
        if rng.random() < p:
            serial += 1
            k = mk()
            data = None if rng.random() < 0.2 else payload(rng, serial)
            mon.op('insert', k)
            hist.append(k)
            h.insert(k, data) if data is not None else h.insert(k)
            m = sorted(m + [(k, data)], key=repr)
        elif not m:
            mon.op('extract empty')
            hist.append('e')
            mon.raises(IndexError, h.extract, 'extracting from an empty heap')
        else:
            mon.op('extract')
            hist.append('x')
            got = h.extract()
            best = (min if prop == 'min' else max)(k for k, _ in m)
            mon.check(got.key == best, 'extract did not return the top key', got=got.key, want=best)
            mon.check((got.key, got.data) in m, 'extract returned an element that was not stored')
            m.remove((got.key, got.data))
        audit()
        mon.state((d, prop, len(m)))
    order = []
    while m:
        got = h.extract()
        mon.check((got.key, got.data) in m, 'draining returned an element that was not stored')
        m.remove((got.key, got.data))
        order.append(got.key)
    mon.eq(order, sorted(order, reverse=prop == 'max'), 'draining is not sorted')
    mon.check(h.is_empty, 'a drained heap is not empty')
    mon.case((cls, d, prop, form, start, hist), len(hist) + len(start) > 2)


def sc_bad(mon, rng, params):
    from pydatastructs.trees.heaps import DHeap
    bad = rng.choice(['', 'Min', 'mid', 'MAX'])
    mon.raises(ValueError, lambda: DHeap(heap_property=bad), 'an unknown heap property')
    mon.raises(ValueError, lambda: DHeap(elements=rng.randint(0, 5)), 'elements that are no container')
    mon.op('misuse')
    mon.case(('bad', bad))


SCENARIOS = {'heaps': {'fn': sc_heap, 'quick': 4000, 'thorough': 80000},
             'misuse': {'fn': sc_bad, 'quick': 20, 'thorough': 50}}
REQUIRED = ['op:insert', 'op:extract', 'op:extract empty']
