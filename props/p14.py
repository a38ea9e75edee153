"""Binomial heaps: structure of every tree, conservation, minimum."""
from fractions import Fraction
from .common import *   # noqa

ID = 'P14'
RULE = 'distinct operation histories (number of heaps, operations) with at least two inserts'


def children(node):
    return [c for c in read(node.children) if c is not None]


def audit(mon, heap, m):
    """Trees of strictly increasing order, binomial shape, heap order."""
    got, nodes, orders = [], [], []
    mon.eq(bool(heap.is_empty), not m, 'is_empty is wrong')

    def visit(node, order):
        kids = children(node)
        mon.eq(len(kids), order, 'a node of a binomial tree has the wrong number of children', key=node.key)
        got.append((node.key, node.data))
        nodes.append(node)
        for k, c in enumerate(kids):
            mon.check(node.key <= c.key, 'heap order is broken', parent=node.key, child=c.key)
            mon.check(c.parent is node, 'a child does not know its parent', key=c.key)
            mon.check(not c.is_root, 'an inner node claims to be a root', key=c.key)
            visit(c, k)
    for tree in heap.root_list:
        mon.check(tree is not None and tree.root is not None, 'an empty tree is listed')
        mon.check(bool(tree.root.is_root), 'a root does not know that it is one', key=tree.root.key)
        orders.append(tree.order)
        visit(tree.root, tree.order)
    mon.check(all(a < b for a, b in zip(orders, orders[1:])), 'the orders of the trees are not increasing', orders=orders)
    mon.eq(sorted(got), sorted(m), 'the elements differ from the model')
    if m:
        low = heap.find_minimum()
        mon.eq(low.key, min(m)[0], 'find_minimum is wrong')
        mon.check((low.key, low.data) in m, 'find_minimum shows an element that is not stored')
    mon.ev('trees audited', len(orders))
    return nodes


INF = float('inf')
KINDS = {
    # a way to make a key and a way to make a smaller one (or None)
    'int': (lambda r, s: r.randint(-s, s), lambda r, k, s: k - r.choice([1, 2, s, 5 * s])),
    'float': (lambda r, s: r.randint(-s, s) / 8.0, lambda r, k, s: k - r.choice([0.125, 1, s])),
    'wide': (lambda r, s: r.choice([-INF, INF, 0.0, r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300)]),
             lambda r, k, s: None if k == -INF else r.choice([-INF, 0.0 if k == INF else k - abs(k) / 2 - 1e-3])),
    'frac': (lambda r, s: Fraction(r.randint(-s, s), r.randint(1, 9)), lambda r, k, s: k - Fraction(1, r.randint(1, 9))),
    'str': (lambda r, s: ''.join(r.choice('abc') for _ in range(r.randint(0, 4))), lambda r, k, s: k[:-1] if k else None),
    'tuple': (lambda r, s: (r.randint(0, 3), r.randint(-s, s)), lambda r, k, s: (k[0] - r.randint(0, 1), k[1] - 1)),
}


def grow(keys, mint, order):
    """a binomial tree with the next 2 ** order keys"""
    from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
    from pydatastructs.utils.misc_util import BinomialTreeNode
    if order == 0:
        return BinomialTree(BinomialTreeNode(*mint(keys)), 0)
    a, b = grow(keys, mint, order - 1), grow(keys, mint, order - 1)
    if b.root.key < a.root.key:
        a, b = b, a
    a.add_sub_tree(b)
    return a


def sc_binomial(mon, rng, params):
    from pydatastructs.trees.heaps import BinomialHeap
    from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
    heaps = [BinomialHeap() for _ in range(rng.choice([1, 1, 2, 3]))]
    models = [[] for _ in heaps]
    serial, hist = 0, []
    span = rng.choice([3, 30, 1000])
    kind = rng.choice(['int', 'int', 'int'] + sorted(KINDS))
    make, smaller = KINDS[kind]
    if rng.random() < 0.15:
        # a heap made of given trees, in any of the documented containers
        def mint(m):
            m.append((make(rng, span), -len(m) - 1))
            return m[-1]
        orders = sorted(rng.sample(range(5), rng.randint(0, 3)))
        trees = [grow(models[0], mint, k) for k in orders]
        form = rng.choice([list, tuple, lambda t: ODA(BinomialTree, t)])(trees)
        heaps[0] = BinomialHeap(form) if rng.random() < 0.5 else BinomialHeap(root_list=form)
        hist.append(('given', tuple(orders), type(form).__name__))
        audit(mon, heaps[0], models[0])
        mon.ev('heap of given trees')
    bias = rng.choice([0.4, 0.6, 0.8])
    for step in range(longish(rng, [5, 20, 50])):
        i = rng.randrange(len(heaps))
        h, m = heaps[i], models[i]
        r = rng.random()
        if r < bias:
            serial += 1
            k = make(rng, span)
            mon.op('insert', i, k)
            hist.append((i, k))
            h.insert(k, serial)
            m.append((k, serial))
        elif r < bias + 0.07 and len(heaps) > 1:
            j = rng.choice([x for x in range(len(heaps)) if x != i])
            mon.op('merge', i, j)
            hist.append((i, 'm', j))
            h.merge(heaps[j])
            m.extend(models[j])
            heaps[j], models[j] = BinomialHeap(), []
        elif not m:
            mon.op('empty')
            hist.append((i, 'e'))
            mon.raises(IndexError, h.find_minimum, 'the minimum of an empty heap')
            mon.raises(IndexError, h.delete_minimum, 'deleting from an empty heap')
        else:
            nodes = audit(mon, h, m)
            op = rng.choice(['delete_minimum', 'delete_minimum', 'decrease_key', 'delete', 'bad'])
            pick = rng.randrange(len(nodes))
            node = nodes[pick]
            entry = (node.key, node.data)
            if op == 'delete_minimum':
                low = h.find_minimum()
                entry = (low.key, low.data)
                mon.op(op, i)
                hist.append((i, op))
                h.delete_minimum()
                m.remove(entry)
            elif op == 'decrease_key':
                new = smaller(rng, node.key, span)
                if new is None:
                    continue
                mon.op(op, i, entry, new)
                hist.append((i, op, pick, new))
                h.decrease_key(node, new)
                m.remove(entry)
                m.append((new, entry[1]))
            elif op == 'delete':
                mon.op(op, i, entry)
                hist.append((i, op, pick))
                h.delete(node)
                m.remove(entry)
            else:
                worse = max(x[0] for x in m if not x[0] < node.key)
                mon.raises(ValueError, lambda: h.decrease_key(node, worse),
                           'a key that is not smaller')
        for hh, mm in zip(heaps, models):
            audit(mon, hh, mm)
        mon.state((kind,) + tuple(sorted(len(x) for x in models)))
    for h, m in zip(heaps, models):
        order = []
        while m:
            low = h.find_minimum()
            order.append(low.key)
            m.remove((low.key, low.data))
            h.delete_minimum()
        mon.eq(order, sorted(order), 'draining is not sorted')
        mon.check(h.is_empty, 'a drained heap is not empty')
    mon.case((kind, len(heaps), hist), len(hist) > 2)


def sc_tree(mon, rng, params):
    """add_sub_tree only joins trees of equal order."""
    from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
    from pydatastructs.utils.misc_util import BinomialTreeNode

    def grow(order, tag):
        t = BinomialTree(BinomialTreeNode(tag, tag), 0)
        for k in range(order):
            t.add_sub_tree(grow(k, tag * 2 + k))
        return t
    a, b = rng.randint(0, 4), rng.randint(0, 4)
    x, y = grow(a, 1), grow(b, 100)
    mon.op('add_sub_tree', a, b)
    if a != b:
        mon.raises(ValueError, lambda: x.add_sub_tree(y), 'trees of different order')
    else:
        ry = y.root
        x.add_sub_tree(y)
        mon.eq(x.order, a + 1, 'the order did not grow')
        mon.check(children(x.root)[-1] is ry and ry.parent is x.root and not ry.is_root, 'the tree was not attached')
    count = [0]

    def visit(n, k):
        count[0] += 1
        kids = children(n)
        mon.eq(len(kids), k, 'the shape is not binomial')
        for j, c in enumerate(kids):
            visit(c, j)
    visit(x.root, x.order)
    mon.eq(count[0], 2 ** x.order, 'the number of nodes is not a power of two')
    mon.raises(TypeError, lambda: x.add_sub_tree(None), 'something that is no tree')
    mon.case(('tree', a, b))


SCENARIOS = {'binomial heaps': {'fn': sc_binomial, 'quick': 3000, 'thorough': 60000},
             'binomial trees': {'fn': sc_tree, 'quick': 60, 'thorough': 300}}
REQUIRED = ['op:insert', 'op:merge', 'op:delete_minimum', 'op:decrease_key', 'op:delete', 'op:empty', 'trees audited', 'heap of given trees']
