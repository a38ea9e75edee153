"""Traversals of binary trees."""
from .common import *   # noqa
from . import trees as T

ID = 'P24'
RULE = 'distinct (class, history, start) tuples'


def _orders(arr, root):
    pre, ino, post, bfs = [], [], [], []

    def walk(i):
        if i is None:
            return
        pre.append(i)
        walk(arr[i].left)
        ino.append(i)
        walk(arr[i].right)
        post.append(i)
    walk(root)
    level = [root]
    while level:
        bfs += level
        level = [c for i in level for c in (arr[i].left, arr[i].right) if c is not None]
    return {'pre_order': pre, 'in_order': ino, 'post_order': post, 'out_order': ino[::-1], 'bfs': bfs}


def sc_walk(mon, rng, params, backend=None):
    from pydatastructs import BinaryTreeTraversal
    name = rng.choice(T.FAMILIES)
    d = T.Driver(mon, rng, name, rng.choice(['default', 'reversed']), backend=backend)
    for i in range(longish(rng, [1, 5, 20, 50])):
        d.step(i)
    if name == 'SplayTree' and d.model and rng.random() < 0.3 and d.kind == 'int':
        hi = T.ordered(d.lt, d.model)[-1]
        o = T.make(name, rng, d.comp, False, backend=backend)
        for k in range(rng.randint(1, 8)):
            k = (hi + 1 + k) if d.lt(0, 1) else (hi - 1 - k)
            o.insert(k, k)
            d.model[k] = k
        for k in [k for k in d.model if d.model[k] == k and rng.random() < 0.3 and (d.lt(hi, k))]:
            if len(d.model) > 1:
                o.delete(k)
                del d.model[k]
        d.t.join(o)
    if not d.model:
        d.insert()
    d.audit(balance=False)
    t, arr = d.t, d.t.tree
    before = str(t)
    tr = BinaryTreeTraversal(t, **({} if backend is None else {'backend': backend}))
    starts = [None, t.root_idx] + [i for i, _ in d.audit(balance=False)]
    for start in rng.sample(starts, min(5, len(starts))):
        want = _orders(arr, t.root_idx if start is None else start)
        for order in ('pre_order', 'in_order', 'post_order', 'out_order'):
            got = list(tr.depth_first_search(order=order, node=start) if start is not None
                       else tr.depth_first_search(order=order))
            mon.check(len(got) == len(want[order]) and all(g is arr[i] for g, i in zip(got, want[order])),
                      'a depth first traversal visits other nodes or another order', order=order, start=start,
                      got=[g.key for g in got], want=[arr[i].key for i in want[order]])
            mon.ev('traversal')
        got = tr.breadth_first_search(node=start) if start is not None else tr.breadth_first_search()
        mon.check(len(got) == len(want['bfs']) and all(g is arr[i] for g, i in zip(got, want['bfs'])),
                  'the breadth first traversal visits other nodes or another order', start=start,
                  got=[g.key for g in got], want=[arr[i].key for i in want['bfs']])
    mon.eq([n.key for n in tr.depth_first_search()], T.ordered(d.lt, d.model), 'the default traversal is not the in-order one')
    mon.eq(str(t), before, 'a traversal changed the tree')
    mon.raises(NotImplementedError, lambda: tr.depth_first_search(order='side_order'), 'an unknown order')
    mon.raises(NotImplementedError, lambda: tr.breadth_first_search(strategy='stack'), 'an unknown strategy')
    mon.raises(TypeError, lambda: BinaryTreeTraversal({}, backend=backend or PY), 'traversing something else')
    mon.case((name, tuple(d.hist)))


def sc_far(mon, rng, params, backend=None):
    """A degenerate tree deeper than the recursion limit: a chain, now and then
    with twigs or in zig-zag."""
    from pydatastructs import BinarySearchTree, BinaryTreeTraversal
    kw = {} if backend is None else {'backend': backend}
    n = rng.randint(1050, 1250)
    kind, sign = rng.choice(['chain', 'zigzag', 'twigs']), rng.choice([1, -1])
    if kind == 'zigzag':
        keys = [sign * (i if i % 2 else 4 * n - i) for i in range(n)]
    else:
        keys = [sign * 4 * i for i in range(n)]
    if kind == 'twigs':
        keys += [k - sign for k in rng.sample(keys, 5)]
    t = BinarySearchTree(**kw)
    for k in keys:
        t.insert(k, k)
    arr = t.tree
    pre, ino, post, todo = [], [], [], [(t.root_idx, 0)]
    while todo:
        i, k = todo.pop()
        (pre, ino, post)[k].append(i)
        if k < 2:
            todo.append((i, k + 1))
            c = (arr[i].left, arr[i].right)[k]
            if c is not None:
                todo.append((c, 0))
    level, bfs = [t.root_idx], []
    while level:
        bfs += level
        level = [c for i in level for c in (arr[i].left, arr[i].right) if c is not None]
    mon.eq([arr[i].key for i in ino], sorted(keys), 'a deep tree does not hold its keys in order')
    tr = BinaryTreeTraversal(t, **kw)
    for order, want in (('pre_order', pre), ('in_order', ino), ('post_order', post), ('out_order', ino[::-1])):
        got = list(tr.depth_first_search(order=order))
        mon.check(len(got) == len(want) and all(g is arr[i] for g, i in zip(got, want)),
                  'a depth first traversal of a deep tree visits other nodes or another order', order=order, kind=kind)
    got = list(tr.breadth_first_search())
    mon.check(len(got) == len(bfs) and all(g is arr[i] for g, i in zip(got, bfs)),
              'a breadth first traversal of a deep tree visits other nodes or another order', kind=kind)
    mon.ev('deep tree walked')
    mon.case((kind, sign, n, tuple(keys[-3:])))


SCENARIOS = {'far': dict(fn=sc_far, quick=2, thorough=80, steps=100000000),
             'walk': dict(fn=sc_walk, quick=5000, thorough=60000, steps=20000000)}
REQUIRED = ['deep tree walked', 'traversal', 'rejected']
