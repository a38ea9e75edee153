"""Order statistics, bounds and lowest common ancestors of search trees."""
from .common import *   # noqa
from . import trees as T

ID = 'P23'
RULE = 'distinct (class, comparator, key kind, history) tuples'


def _queries(mon, rng, d):
    t, lt = d.t, d.lt
    keys = T.ordered(lt, d.model)
    n = len(keys)
    d.audit(balance=False)
    if d.ostat:
        for i in (range(1, n + 1) if n <= 12 else rng.sample(range(1, n + 1), 8)):
            mon.eq(t.select(i).key, keys[i - 1], 'select does not return the i-th smallest key', i=i)
            mon.eq(t.rank(keys[i - 1]), i, 'rank is not the position of the key', key=keys[i - 1])
            mon.ev('order statistic')
        mon.raises(ValueError, lambda: t.select(0), 'select(0)')
        mon.raises(ValueError, lambda: t.select(n + 1), 'selecting more than the size', n=n)
        absent = d.mk()
        if absent not in d.model:
            mon.eq(t.rank(absent), None, 'rank of an absent key')
    probes = [d.mk() for _ in range(4)] + (rng.sample(keys, min(4, n)))
    for q in probes:
        lo = next((k for k in keys if not lt(k, q)), None)
        up = next((k for k in keys if lt(q, k)), None)
        mon.eq(t.lower_bound(q), lo, 'lower_bound is not the first key that is not smaller', key=q)
        mon.eq(t.upper_bound(q), up, 'upper_bound is not the first greater key', key=q)
        mon.ev('bound')
    if n:
        depth, up = {}, {}
        arr = t.tree
        for i in T._post(arr, t.root_idx)[::-1]:
            up[arr[i].key] = None if arr[i].parent is None else arr[arr[i].parent].key
        for _ in range(4):
            a, b = rng.choice(keys), rng.choice(keys)
            anc, x = [], a
            while x is not None:
                anc.append(x)
                x = up[x]
            x = b
            while x not in anc:
                x = up[x]
            for alg in (1, 2):
                mon.eq(t.lowest_common_ancestor(a, b, alg), x, 'the lowest common ancestor is wrong', a=a, b=b, algorithm=alg)
            mon.eq(t.lowest_common_ancestor(a, b), x, 'the lowest common ancestor is wrong', a=a, b=b)
            mon.ev('lca')
        absent = d.mk()
        if absent not in d.model:
            for alg in (1, 2):
                a, b = rng.choice([(absent, keys[0]), (keys[0], absent), (absent, absent)])
                mon.raises(ValueError, lambda: t.lowest_common_ancestor(a, b, alg), 'the ancestor of an absent key')
    elif d.kind != 'tuple':
        mon.raises(ValueError, lambda: t.lowest_common_ancestor(d.mk(), d.mk(), rng.choice([1, 2])), 'the ancestor in an empty tree')


def sc_one(name, backend=None):
    def sc(mon, rng, params):
        comp = rng.choice(['default', 'default', 'reversed', 'last digit'])
        d = T.Driver(mon, rng, name, comp, ostat=rng.random() < 0.8, kind=rng.choice(['int', 'int', 'nat', 'float', 'str']), backend=backend)
        _queries(mon, rng, d)
        for i in range(longish(rng, [4, 12, 30, 60])):
            d.step(i)
            if rng.random() < 0.4:
                _queries(mon, rng, d)
        _queries(mon, rng, d)
        mon.case((name, comp, d.kind, d.ostat, tuple(d.hist)))
    return sc


def sc_deep(mon, rng, params, backend=None):
    """A degenerate tree deeper than the recursion limit."""
    from pydatastructs import BinarySearchTree
    n = rng.choice([1100, 1300])
    sign = rng.choice([1, -1])
    # built bottom-up in O(n): a chain made by inserting below a moving root
    t = BinarySearchTree(**({} if backend is None else {'backend': backend}))
    keys = [sign * i * 2 for i in range(n)]
    for k in keys:
        t.insert(k, k)
    ks = sorted(keys)
    for q in [ks[0], ks[-1], ks[n // 2], ks[0] - 1, ks[-1] + 1, ks[3] + 1, ks[-4] - 1]:
        mon.eq(t.lower_bound(q), next((k for k in ks if k >= q), None), 'lower_bound on a deep tree is wrong', key=q)
        mon.eq(t.upper_bound(q), next((k for k in ks if k > q), None), 'upper_bound on a deep tree is wrong', key=q)
    for alg in (1, 2):
        mon.eq(t.lowest_common_ancestor(keys[-1], keys[5], alg), keys[5], 'the ancestor in a deep tree is wrong')
    mon.ev('deep tree')
    mon.case(('deep', n, sign, rng.random()))


def sc_many(mon, rng, params, backend=None):
    """Hundreds of nodes: sizes and indexes that are no small numbers."""
    name = rng.choice(T.FAMILIES)
    d = T.Driver(mon, rng, name, rng.choice(['default', 'reversed']), ostat=True, kind='int', span=5000, backend=backend)
    d.run = None
    goal = rng.randint(270, 600)
    while len(d.model) < goal:
        d.insert()
    _queries(mon, rng, d)
    for k in rng.sample(sorted(d.model), rng.choice([20, 100, 250])):
        d.delete(k)
    for _ in range(3):
        _queries(mon, rng, d)
    mon.ev('hundreds of nodes')
    mon.case(('many', name, tuple(d.hist)))


SCENARIOS = {n: dict(fn=sc_one(n), quick=600, thorough=12000, steps=20000000) for n in T.FAMILIES}
SCENARIOS['many'] = dict(fn=sc_many, quick=40, thorough=1500, steps=60000000)
SCENARIOS['deep'] = dict(fn=sc_deep, quick=3, thorough=16, steps=60000000)
REQUIRED = ['hundreds of nodes', 'order statistic', 'bound', 'lca', 'rejected', 'deep tree']
