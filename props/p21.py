"""Python binary search trees: dictionary semantics and links."""
from .common import *   # noqa
from . import trees as T

ID = 'P21'
RULE = 'distinct (class, comparator, key kind, history) tuples'


def _run(mon, rng, name, steps, **kw):
    comp = rng.choice(['default', 'default', 'explicit', 'reversed', 'last digit'])
    d = T.Driver(mon, rng, name, comp, ostat=rng.random() < 0.2, **kw)
    d.audit(balance=False)
    for i in range(steps):
        op, k = d.step(i)
        d.search(k)
        if op == 'insert' and name == 'SplayTree':
            mon.eq(d.t.tree[d.t.root_idx].key, k, 'an inserted key is not splayed to the root')
        if i % 5 == 0:
            d.search(d.mk())
        d.audit(balance=False)
        if rng.random() < 0.1:
            _str(mon, d)
    for k in list(d.model):
        d.search(k)
    _str(mon, d)
    if rng.random() < 0.5:
        ks = list(d.model)
        rng.shuffle(ks)
        for k in ks:
            d.delete(k)
            d.audit(balance=False)
        d.search(d.mk())
        for i in range(4):
            d.insert()
            d.audit(balance=False)
        mon.ev('emptied and refilled')
    mon.case((name, comp, d.kind, tuple(d.hist)))


def _str(mon, d):
    """str() lists the nodes by index with their links."""
    arr = d.t.tree
    want = []
    for i in range(arr._last_pos_filled + 1):
        n = arr[i]
        if n is None:
            want.append('')
        elif d.name in ('CartesianTree', 'Treap'):
            want.append((n.left, n.key, n.priority, n.data, n.right))
        else:
            want.append((n.left, n.key, n.data, n.right))
    mon.eq(str(d.t), str(want), 'str() of the tree differs from its nodes')


def sc_one(name, backend=None):
    def sc(mon, rng, params):
        _run(mon, rng, name, rng.choice([3, 10, 30, 60]), backend=backend)
    return sc


def sc_large(mon, rng, params, backend=None):
    """Long histories: many growths and compactions of the node array."""
    name = T.FAMILIES[params['i'] % len(T.FAMILIES)] if 'i' in (params or {}) else rng.choice(T.FAMILIES)
    d = T.Driver(mon, rng, name, 'default', kind='int', span=2000, backend=backend)
    for wave in range(4):
        for i in range(rng.randint(40, 160)):
            d.insert()
        d.audit(balance=False)
        n = len(d.model)
        ks = rng.sample(list(d.model), int(n * rng.choice([0.5, 0.8, 0.95, 1.0])))
        for j, k in enumerate(ks):
            d.delete(k)
            if j % 7 == 0:
                d.audit(balance=False)
        d.audit(balance=False)
        for k in list(d.model)[:30]:
            d.search(k)
    mon.case((name, tuple(d.hist)))
    mon.ev('long history')


def sc_tall(mon, rng, params, backend=None):
    """So many nodes that indexes are no small numbers any more, and root
    indexes far from zero: monotone, zigzag or shuffled growth, compactions of
    the node array and refilling."""
    name = rng.choice(T.FAMILIES)
    n = rng.choice([300, 700, 1300])
    if name in T.UNBALANCED or (params or {}).get('short'):
        n = min(n, 700)
    d = T.Driver(mon, rng, name, rng.choice(['default', 'default', 'explicit', 'reversed']), kind='int', root_ok=False,
                 backend=backend)
    shape = rng.choice(['up', 'down', 'zigzag', 'shuffled', 'runs'])
    if name in T.UNBALANCED and shape != 'shuffled':
        shape = rng.choice(['shuffled', 'runs'])
    order = list(range(n))
    if shape == 'down':
        order.reverse()
    elif shape == 'zigzag':
        order = [x for p in zip(range(n // 2), range(n - 1, n // 2 - 1, -1)) for x in p]
    elif shape == 'shuffled':
        rng.shuffle(order)
    elif shape == 'runs':
        order = [x for a in rng.sample(range(0, n, 40), len(range(0, n, 40))) for x in range(a, min(n, a + 40))]
    # a first tree of many nodes is grown and emptied again
    for round_ in range(2):
        for i, k in enumerate(order):
            d.insert(k + round_)
            if i % (n // 4) == 0:
                d.audit()
                for j in rng.sample(order[:i + 1], min(5, i + 1)):
                    d.search(j + round_)
        d.audit()
        gone = list(d.model)
        how = rng.choice(['first', 'last', 'shuffled', 'root', 'every other'])
        if how == 'last':
            gone.reverse()
        elif how == 'shuffled':
            rng.shuffle(gone)
        elif how == 'every other':
            gone = gone[::2] + gone[1::2]
        left = rng.choice([0, 1, n // 3])
        for i, k in enumerate(gone):
            if len(d.model) <= left:
                break
            if how == 'root':
                r = d.t.root_idx
                mon.eq(r, d.t.root_idx, 'two looks at the root differ')
                k = d.t.tree[r].key
            d.delete(k)
            if i % (n // 5) == 0:
                d.audit()
                d.search(k)
        d.audit()
    for k in list(d.model)[:40]:
        d.search(k)
    mon.case((name, shape, n, tuple(d.hist)))
    mon.ev('tall tree')


SCENARIOS = {n: dict(fn=sc_one(n), quick=700, thorough=12000, steps=20000000) for n in T.FAMILIES}
SCENARIOS['large'] = dict(fn=sc_large, quick=48, thorough=2500, steps=30000000)
SCENARIOS['tall'] = dict(fn=sc_tall, quick=24, thorough=1500, steps=100000000)
REQUIRED = ['attributes read', 'tall tree', 'tree audited', 'reinsert', 'deleted', 'delete missing',
            'emptied and refilled', 'long history']
