"""Priority queues: pop always yields an element of best priority."""
from .common import *   # noqa

ID = 'P12'
RULE = 'distinct (implementation, comparator, operation history) tuples'


def sc_pq(mon, rng, params):
    impl = rng.choice(['linked_list', 'binary_heap', 'binomial_heap'])
    kw = {} if impl == 'binary_heap' and rng.random() < 0.5 else {'implementation': impl}
    better = lambda u, v: u < v
    which = 'default'
    if impl != 'binomial_heap' and rng.random() < 0.5:
        which = rng.choice(['gt', 'abs', 'lt', 'le', 'ge'])
        better = {'gt': lambda u, v: u > v, 'lt': lambda u, v: u < v,
                  'le': lambda u, v: u < v, 'ge': lambda u, v: u > v,
                  'abs': lambda u, v: abs(u) < abs(v)}[which]
        kw['comp'] = {'le': lambda u, v: u <= v, 'ge': lambda u, v: u >= v}.get(which, better)
    q = pds.PriorityQueue(**kw)
    m, hist = [], []
    span = rng.choice([2, 6, 1000])
    serial = 0
    kind, draw = ordered(rng, span)
    if which == 'abs' and kind in ('str', 'tuple'):
        kind, draw = ordered(rng, span, ('half',))
    mon.ev('priorities: ' + kind)
    special = [0, '', False, None, (), 0.5]
    rng.shuffle(special)
    mode = rng.choice(['mixed', 'waves', 'fill and drain'])
    steps = longish(rng, [6, 20, 60])
    p = 0.6
    for step in range(steps):
        if mode == 'waves' and step % 12 == 0:
            p = rng.choice([0.9, 0.15])
        elif mode == 'fill and drain':
            p = 1.0 if step < steps / 2 else 0.0
        if rng.random() < p:
            serial += 1
            pr = draw()
            mon.op('push', pr)
            hist.append(pr)
            x = special.pop() if special and rng.random() < 0.05 else payload(rng, serial) if rng.random() < 0.5 else serial
            if any(x is e[1] for e in m):
                x = serial
            q.push(x, pr)
            m.append((pr, x))
        elif not m:
            mon.op('pop empty')
            hist.append('e')
            mon.raises(IndexError, q.pop, 'popping an empty priority queue')
            mon.raises(IndexError, lambda: q.peek, 'peeking into an empty priority queue')
        else:
            node = q.peek
            top = (node.key, node.data)     # the node may be reused by pop
            mon.check(any(top[0] == e[0] and top[1] is e[1] for e in m), 'peek shows an element that is not queued', got=top, queue=m)
            mon.op('pop')
            hist.append('p')
            got = q.pop()
            entry = [x for x in m if x[1] is got]
            mon.check(len(entry) == 1, 'pop returned a value that is not queued', got=got, queue=m)
            mon.check(got is top[1], 'pop returned another value than peek announced', got=got, peek=top)
            worse = [x for x in m if better(x[0], entry[0][0])]
            mon.check(not worse, 'pop returned an element although a better one is queued', got=entry[0], better=worse[:3])
            mon.check(not [x for x in m if better(x[0], top[0])], 'peek was not a best element', got=top)
            m[:] = [x for x in m if x is not entry[0]]
            mon.ev('pops judged')
        mon.eq(bool(q.is_empty), not m, 'is_empty is wrong')
        mon.state((impl, len(m)))
    while m:
        got = q.pop()
        entry = [x for x in m if x[1] is got]
        mon.check(len(entry) == 1, 'draining returned a value that is not queued', got=got, queue=m)
        mon.check(not any(better(x[0], entry[0][0]) for x in m), 'draining is out of order', got=entry[0], queue=m)
        m[:] = [x for x in m if x is not entry[0]]
    mon.check(q.is_empty, 'a drained priority queue is not empty')
    mon.case((impl, which, kind, hist), any(h != 'e' for h in hist))


SCENARIOS = {'priority queues': {'fn': sc_pq, 'quick': 5000, 'thorough': 100000}}
REQUIRED = ['op:push', 'op:pop', 'op:pop empty', 'pops judged', 'priorities: str', 'priorities: wide', 'priorities: huge']
