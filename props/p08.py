"""The four linked lists against a Python list, plus link integrity."""
from .common import *   # noqa

ID = 'P08'
RULE = 'distinct (list class, operation history) tuples with at least three operations'
CLASSES = ['SinglyLinkedList', 'DoublyLinkedList', 'SinglyCircularLinkedList', 'DoublyCircularLinkedList']


def audit(mon, L, name, m, nodes):
    n = len(m)
    circ, dbl = 'Circular' in name, 'Doubly' in name
    mon.eq((len(L), L.size, L.is_empty), (n, n, n == 0), 'the size is wrong')
    if n == 0:
        mon.check(L.head is None and L.tail is None, 'an empty list keeps a head or a tail')
        mon.eq(str(L), '[]', 'an empty list prints something')
        return
    walk, cur = [], L.head
    for _ in range(n):
        mon.check(cur is not None, 'the next links end early', seen=len(walk), size=n)
        walk.append(cur)
        cur = cur.next
    mon.check(cur is (L.head if circ else None), 'the last node points to the wrong node')
    mon.eq([(x.key, x.data) for x in walk], m, 'the nodes differ from the model')
    mon.check(all(a is b for a, b in zip(walk, nodes)), 'a node was replaced by another object')
    mon.check(L.tail is walk[-1], 'tail is not the last node')
    if dbl:
        mon.check(L.head.prev is (L.tail if circ else None), 'head.prev is wrong')
        back, cur = [], L.tail
        for _ in range(n):
            mon.check(cur is not None, 'the prev links end early', seen=len(back), size=n)
            back.append(cur)
            cur = cur.prev
        mon.check(all(a is b for a, b in zip(back[::-1], walk)), 'the prev links differ from the next links')
    mon.eq(str(L), str([str(x) for x in m]), 'str() differs')


def sc_list(mon, rng, params):
    name = rng.choice(CLASSES)
    L = getattr(pds, name)()
    dbl = 'Doubly' in name
    m, nodes, hist = [], [], []
    fresh = rng.randint(0, 10**6)
    steps = longish(rng, [4, 10, 25, 60])
    audit(mon, L, name, m, nodes)
    bias = rng.choice([0.45, 0.55, 0.75])
    for _ in range(steps):
        n = len(m)
        fresh += 1
        key = fresh if rng.random() < 0.8 else rng.choice([x[0] for x in m] or [fresh])
        if key == fresh and rng.random() < 0.15:
            key = rng.choice([str(fresh), (fresh, 'k'), fresh + 0.5, '', 0, Thing(fresh), [fresh]])
        data = rng.choice([None, fresh * 2, payload(rng, fresh)])
        before = list(m)
        if rng.random() < bias:
            op = rng.choice(['append', 'appendleft', 'insert_at', 'insert_at', 'insert_at', 'insert_after', 'insert_before'])
            if op == 'append':
                at = n
                mon.op(op, key)
                hist.append(op)
                L.append(key, data)
            elif op == 'appendleft':
                at = 0
                mon.op(op, key)
                hist.append(op)
                L.appendleft(key, data)
            elif op == 'insert_at':
                i = rng.randint(-n, n) if n else rng.choice([0, -1])
                at = i if i >= 0 else max(n + i, 0)
                mon.op(op, i, key)
                hist.append((op, i))
                L.insert_at(i, key, data)
            elif op == 'insert_after' or not dbl:
                if not n:
                    continue
                i = rng.choice([0, n - 1, rng.randrange(n)])
                at = i + 1
                mon.op('insert_after', i, key)
                hist.append(('insert_after', i))
                L.insert_after(nodes[i], key, data)
            else:
                if not n:
                    continue
                i = rng.choice([0, n - 1, rng.randrange(n)])
                at = i
                mon.op(op, i, key)
                hist.append((op, i))
                L.insert_before(nodes[i], key, data)
            m.insert(at, (key, data))
            nodes.insert(at, L[at])
        else:
            op = rng.choice(['extract', 'extract', 'popleft', 'popright', 'bad', 'search', 'getitem', 'setkey'])
            if op == 'bad':
                i = rng.choice([n, n + 1, n + 7, -n - 1, -n - 5])
                mon.op('outside', i)
                hist.append((op, i))
                mon.raises(IndexError, lambda: L[i], 'reading outside the list', index=i, size=n)
                mon.raises(ValueError if not n else IndexError, lambda: L.extract(i), 'extracting outside the list', index=i, size=n)
                j = rng.choice([n + 1, n + 7, -max(n, 1) - 1, -max(n, 1) - 5])
                mon.raises(IndexError, lambda: L.insert_at(j, key), 'inserting outside the list', index=j, size=n)
            elif op == 'search':
                k = rng.choice([x[0] for x in m] + [fresh, -1])
                mon.op(op, k)
                hist.append((op, k in [x[0] for x in m]))
                alike = float(k) if type(k) is int and rng.random() < 0.5 else (k + ' ')[:-1] if type(k) is str else \
                    tuple(list(k)) if type(k) is tuple else list(k) if type(k) is list else k
                if alike is not k:
                    mon.ev('searched for an equal key')
                got = L.search(alike)
                first = next((x for x in nodes if x.key == k), None)
                mon.check(got is first, 'search does not return the first node with the key', key=k, model=m)
            elif op == 'getitem' and n:
                i = rng.randint(-n, n - 1)
                mon.op(op, i)
                hist.append((op, i))
                mon.check(L[i] is nodes[i], 'indexing returns another node', index=i)
            elif op == 'setkey' and n:
                i = rng.randint(-n, n - 1)
                mon.op(op, i, key)
                hist.append((op, i))
                L[i].key = key
                m[i] = (key, m[i][1])
            elif op in ('extract', 'popleft', 'popright'):
                hist.append(op)
                if not n:
                    mon.op('extract empty')
                    mon.raises(ValueError, {'extract': lambda: L.extract(rng.choice([0, -1])),
                                            'popleft': L.popleft, 'popright': L.popright}[op], 'extracting from an empty list')
                    continue
                if op == 'extract':
                    i = rng.choice([0, n - 1, -1, -n, rng.randint(-n, n - 1)])
                    mon.op(op, i)
                    hist[-1] = (op, i)
                    got = L.extract(i)
                else:
                    i = 0 if op == 'popleft' else n - 1
                    mon.op(op)
                    got = getattr(L, op)()
                mon.check(got is nodes[i], 'another node was extracted', index=i, before=before)
                mon.eq((got.key, got.data), m[i], 'the extracted node changed')
                del m[i], nodes[i]
        audit(mon, L, name, m, nodes)
        mon.state((name, len(m), hist[-1][0] if hist else None))
    mon.case((name, hist), len(hist) >= 3)


SCENARIOS = {'linked lists': {'fn': sc_list, 'quick': 6000, 'thorough': 150000}}
REQUIRED = ['searched for an equal key', 'op:append', 'op:appendleft', 'op:insert_at', 'op:insert_after', 'op:insert_before', 'op:extract',
            'op:popleft', 'op:popright', 'op:outside', 'op:search', 'op:extract empty']
