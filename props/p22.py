"""Shape guarantees of the balanced trees, splay join and split."""
from .common import *   # noqa
from . import trees as T
import math

ID = 'P22'
RULE = 'distinct (class, comparator, key kind, history) tuples'


def _height(d):
    h = T.heights(d.t.tree, d.t.root_idx)
    return h[d.t.root_idx] + 1 if d.model else 0


def sc_balance(name, backend=None):
    def sc(mon, rng, params):
        comp = rng.choice(['default', 'default', 'reversed', 'last digit'])
        d = T.Driver(mon, rng, name, comp, ostat=rng.random() < 0.2, backend=backend)
        for i in range(longish(rng, [5, 20, 40, 80])):
            d.step(i)
            d.audit()
            n = len(d.model)
            if name == 'AVLTree' and n:
                mon.check(_height(d) <= 1.4405 * math.log2(n + 2), 'an AVL tree is too high', n=n, height=_height(d))
            elif name == 'RedBlackTree' and n:
                mon.check(_height(d) <= 2 * math.log2(n + 1), 'a red black tree is too high', n=n, height=_height(d))
        mon.case((name, comp, d.kind, tuple(d.hist)))
    return sc


def sc_drain(mon, rng, params, backend=None):
    """Build by a hostile order, then delete everything in another one."""
    name = rng.choice(['AVLTree', 'RedBlackTree', 'CartesianTree', 'Treap'])
    d = T.Driver(mon, rng, name, 'default', kind='int', root_ok=False, backend=backend)
    n = rng.choice([2, 3, 4, 5, 6, 7, 9, 14, 20, 31, 40])
    shapes = {'up': lambda: list(range(n)), 'down': lambda: list(range(n))[::-1],
              'random': lambda: rng.sample(range(n), n),
              'zigzag': lambda: [x for p in zip(range(n // 2), range(n - 1, n // 2 - 1, -1)) for x in p],
              'middle out': lambda: sorted(range(n), key=lambda x: abs(x - n // 2)),
              'bits': lambda: sorted(range(n), key=lambda x: int(bin(x + 1)[:1:-1], 2))}
    a, b = rng.choice(sorted(shapes)), rng.choice(sorted(shapes))
    for k in shapes[a]():
        d.insert(k)
        d.audit()
    order = [k for k in dict.fromkeys(shapes[b]()) if k in d.model] if rng.random() < 0.6 else None
    while d.model:
        if order:
            k = order.pop(0)
        else:                    # the root, a leaf or any key
            r = rng.random()
            k = d.t.tree[d.t.root_idx].key if r < 0.5 else rng.choice(list(d.model))
        d.delete(k)
        d.audit()
        if rng.random() < 0.1:
            d.insert(rng.randint(0, n))
            d.audit()
    mon.ev('drained')
    mon.case((name, a, b, n, tuple(d.hist)))


def sc_splay(mon, rng, params, backend=None):
    """Splay to the root, join and split."""
    comp = rng.choice(['default', 'default', 'reversed', 'last digit'])
    lt = T.less(comp)
    d = T.Driver(mon, rng, 'SplayTree', comp, ostat=rng.random() < 0.3, backend=backend)
    parts = [d]
    for i in range(longish(rng, [4, 12, 30])):
        d = rng.choice(parts)
        r = rng.random()
        if r < 0.55 or not d.model:
            k = d.mk()
            if len(parts) > 1 and any(k in p.model for p in parts if p is not d):
                continue
            # parts stay ordered among themselves
            j = parts.index(d)
            lo = [x for p in parts[:j] for x in p.model]
            hi = [x for p in parts[j + 1:] for x in p.model]
            if any(not lt(x, k) for x in lo) or any(not lt(k, x) for x in hi):
                continue
            d.insert(k)
            mon.eq(d.t.tree[d.t.root_idx].key, k, 'an inserted key is not the root')
        elif r < 0.7:
            d.delete()
        elif r < 0.85:
            k = rng.choice(list(d.model))
            mon.op('split', k)
            d.hist.append(('split', k))
            o = d.t.split(k)
            mon.eq(d.t.tree[d.t.root_idx].key, k, 'the split key is not the root')
            nd = T.Driver.__new__(T.Driver)
            nd.__dict__.update(d.__dict__)
            nd.t, nd.hist, nd.prio = o, [('from split', k)], {}
            nd.model = {x: v for x, v in d.model.items() if lt(k, x)}
            d.model = {x: v for x, v in d.model.items() if not lt(k, x)}
            parts.insert(parts.index(d) + 1, nd)
            nd.audit()
            mon.ev('split')
            if not nd.model:
                mon.ev('split off nothing')
            if rng.random() < 0.2:
                absent = d.mk()
                if absent not in d.model:
                    mon.eq(d.t.split(absent), None, 'split by an absent key')
        elif len(parts) > 1:
            j = rng.randrange(len(parts) - 1)
            a, b = parts[j], parts[j + 1]
            if a.model and b.model and rng.random() < 0.3:
                mon.raises(ValueError, lambda: b.t.join(a.t), 'joining trees in the wrong order')
                a.audit()
                b.audit()
            before = str(b.t)
            mon.op('join')
            a.t.join(b.t)
            mon.eq(str(b.t), before, 'join changed the other tree')
            b.audit()
            a.model.update(b.model)
            a.hist.append(('join', tuple(b.hist)))
            del parts[j + 1]
            a.serial = max(a.serial, b.serial)
            a.audit()
            mon.ev('join')
            d = a
        d.audit()
    for p in parts:
        p.audit()
    mon.case((comp, d.kind, tuple(tuple(p.hist) for p in parts)))


def _depth(t, k):
    d, i = 0, t.root_idx
    while t.tree[i].key != k:
        i = t.tree[i].left if k < t.tree[i].key else t.tree[i].right
        d += 1
    return d


def sc_amortized(mon, rng, params, backend=None):
    """What makes a splay tree one: a long sequence of accesses is cheap."""
    n = rng.choice([40, 80, 160, 300])
    kw = {} if backend is None else {'backend': backend}
    t = pds.trees.binary_trees.SplayTree(**kw)
    orders = {'up': lambda: list(range(n)), 'down': lambda: list(range(n))[::-1],
              'random': lambda: rng.sample(range(n), n),
              'ends': lambda: [x for p in zip(range(n // 2), range(n - 1, n // 2 - 1, -1)) for x in p],
              'few': lambda: [rng.choice([0, 1, n // 2, n - 1]) for _ in range(n)]}
    build = rng.choice(['up', 'down', 'random', 'ends'])
    for k in orders[build]():
        t.insert(k, k)
    cost, m, passes = 0, 0, []
    for _ in range(rng.randint(2, 5)):
        how = rng.choice(sorted(orders))
        passes.append(how)
        for k in orders[how]():
            cost += _depth(t, k)
            m += 1
            t.insert(k, -k)
            mon.eq(t.tree[t.root_idx].key, k, 'an accessed key is not the root')
    mon.op('accesses', n, build, passes)
    bound = m * (3 * math.log2(n) + 1) + n * math.log2(n)
    mon.check(cost <= bound, 'accesses of a splay tree are not cheap in the long run', cost=cost, bound=bound,
              n=n, accesses=m, build=build, passes=passes)
    mon.check(all(t.tree[t.search(k)].data == -k for p in passes[-1:] if p != 'few' for k in range(n)), 'data are lost')
    mon.ev('accesses measured', m)
    mon.case((n, build, tuple(passes), rng.getrandbits(30)))


SCENARIOS = {n: dict(fn=sc_balance(n), quick=900, thorough=15000, steps=20000000)
             for n in ('AVLTree', 'RedBlackTree', 'CartesianTree', 'Treap')}
SCENARIOS['drain'] = dict(fn=sc_drain, quick=1500, thorough=30000, steps=20000000)
SCENARIOS['splay'] = dict(fn=sc_splay, quick=2000, thorough=40000, steps=20000000)
SCENARIOS['amortized'] = dict(fn=sc_amortized, quick=16, thorough=800, steps=60000000)
REQUIRED = ['priorities: signed', 'priorities: half', 'accesses measured', 'tree audited', 'avl audited', 'rb audited', 'heap audited', 'drained', 'split', 'join', 'split off nothing', 'rejected']
