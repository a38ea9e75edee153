"""Nodes, m-ary trees and the fold helpers of the Python backend."""
import math
from functools import reduce
from .common import *   # noqa

ID = 'P36'
RULE = 'distinct (class, constructor arguments, edits) tuples'

if LIVE:
    from pydatastructs import utils as U
    from pydatastructs import MAryTree
    from pydatastructs.linear_data_structures.arrays import DynamicOneDimensionalArray


def thing(rng, depth=0):
    r = rng.randrange(12)
    if r < 4:
        return rng.randint(-3, 10**6)
    if r == 4:
        return rng.choice([0, '', (), False, 0.0])
    if r == 5:
        return None
    if r == 6:
        return rng.choice([1.5, -0.25, 1e300])
    if r == 7:
        return ''.join(rng.choice('ab_ \u20acZ') for _ in range(rng.randint(1, 6)))
    if r == 8 and depth < 2:
        return tuple(thing(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    if r == 9:
        return [rng.randint(0, 9)]
    if r == 10:
        return {'k': rng.randint(0, 9)}
    return object()


def same(mon, got, want, what, **kw):
    mon.check(got is want or (type(got) is type(want) and got == want), what, got=got, want=want, **kw)


def sc_plain_nodes(mon, rng, params):
    """Key/data nodes: every attribute as documented, instances independent."""
    kind = rng.choice(['TreeNode', 'CartesianTreeNode', 'RedBlackTreeNode', 'SkipNode', 'Set',
                       'LinkedListNode', 'TrieNode'])
    made = []
    for _ in range(rng.randint(2, 6)):
        k, d, x = thing(rng), thing(rng), thing(rng)
        mon.op('make ' + kind, k, d)
        byname = rng.random() < 0.4
        if kind == 'TreeNode':
            n = U.TreeNode(key=k, data=d) if byname else U.TreeNode(k, d)
            want = dict(key=k, data=d, left=None, right=None, parent=None, height=0, size=1, is_root=False)
            text = str((None, k, d, None))
        elif kind == 'CartesianTreeNode':
            n = U.CartesianTreeNode(key=k, priority=x, data=d) if byname else U.CartesianTreeNode(k, x, d)
            want = dict(key=k, data=d, priority=x, left=None, right=None, parent=None, is_root=False)
            text = str((None, k, x, d, None))
        elif kind == 'RedBlackTreeNode':
            n = U.RedBlackTreeNode(key=k, data=d) if byname else U.RedBlackTreeNode(k, d)
            want = dict(key=k, data=d, color=1, left=None, right=None, parent=None, is_root=False)
            text = str((None, k, d, None))
        elif kind == 'SkipNode':
            a, b = thing(rng), thing(rng)
            n = U.SkipNode(k, d, next=a, down=b) if byname else U.SkipNode(k, d, a, b)
            want = dict(key=k, data=d, next=a, down=b)
            text = str((k, d))
        elif kind == 'Set':
            n = U.Set(key=k, data=d) if byname else U.Set(k, d)
            want = dict(key=k, data=d)
            text = None
        elif kind == 'TrieNode':
            c = rng.choice(['a', 'b', '\u20ac', None])
            n = U.TrieNode(char=c) if byname else U.TrieNode(c)
            want = dict(char=c, is_terminal=False)
            text = None
        else:
            names = rng.choice([None, ['next'], ['next', 'prev'], ['up', 'down', 'side']])
            if names is None:
                n = U.LinkedListNode(k, d)
                want = dict(key=k, data=d, next=None)
            else:
                addrs = [thing(rng) for _ in names]
                g1, g2 = list(names), list(addrs)
                n = U.LinkedListNode(k, d, links=names, addrs=addrs) if byname \
                    else U.LinkedListNode(k, d, names, addrs)
                mon.check(names == g1 and all(p is q for p, q in zip(addrs, g2)) and len(addrs) == len(g2),
                          'the lists of links and addresses were changed')
                want = dict(zip(names, addrs), key=k, data=d)
            text = str((k, d))
        made.append((n, want, text))
        # edits of one node show in that node only
        if made and rng.random() < 0.6:
            m, w, _ = rng.choice(made)
            att = rng.choice([a for a in w if a not in ('is_root', 'char')] or ['is_terminal'])
            v = thing(rng)
            mon.op('set', att, v)
            setattr(m, att, v)
            w[att] = v
            i = [j for j, t in enumerate(made) if t[0] is m][0]
            t = None
            if kind == 'TreeNode' or kind == 'RedBlackTreeNode':
                t = str((w['left'], w['key'], w['data'], w['right']))
            elif kind == 'CartesianTreeNode':
                t = str((w['left'], w['key'], w['priority'], w['data'], w['right']))
            elif kind in ('SkipNode', 'LinkedListNode'):
                t = str((w['key'], w['data']))
            made[i] = (m, w, t)
        for m, w, t in made:
            for att, v in w.items():
                same(mon, getattr(m, att), v, 'a %s does not hold the %s it was given' % (kind, att))
            if t is not None:
                mon.eq(str(m), t, 'str() of a %s does not show its contents' % kind)
    mon.state((kind, len(made)))
    mon.case((kind, repr([w for _, w, _ in made])[:200]))


def sc_trie_nodes(mon, rng, params):
    nodes = [U.TrieNode(c) for c in 'abcab']
    model = [{} for _ in nodes]
    hist = []
    for _ in range(rng.randint(5, 30)):
        i, j = rng.randrange(len(nodes)), rng.randrange(len(nodes))
        c = nodes[j].char
        if rng.random() < 0.6:
            mon.op('add child', i, j)
            hist.append((i, j))
            nodes[i].add_child(nodes[j])
            model[i][c] = nodes[j]
        else:
            mon.op('remove child', i, c)
            hist.append((i, c))
            if c in model[i]:
                nodes[i].remove_child(c)
                del model[i][c]
        for n, m in zip(nodes, model):
            for ch in 'abcd':
                mon.check(n.get_child(ch) is m.get(ch), 'a trie node reports another child', char=ch)
    mon.case(hist)


def sc_child_nodes(mon, rng, params):
    """Binomial and m-ary tree nodes: ordered children, parent links."""
    binomial = rng.random() < 0.5
    nodes, kids, parent = [], [], []
    for _ in range(rng.randint(2, 7)):
        k, d = thing(rng), thing(rng)
        n = U.BinomialTreeNode(k, d) if binomial else U.MAryTreeNode(k, d)
        nodes.append((n, k, d))
        kids.append([])
        parent.append(None)
    hist = []
    for _ in range(rng.randint(1, 12)):
        i = rng.randrange(len(nodes))
        if binomial:
            free = [j for j in range(len(nodes)) if parent[j] is None and j != i]
            c = rng.sample(free, min(len(free), rng.randint(0, 3)))
            args = [nodes[j][0] for j in c]
        else:
            c = args = [rng.randint(0, 40) for _ in range(rng.choice([0, 1, 1, 2, 3, 9]))]
        hist.append((i, tuple(c)))
        mon.op('add children', i, c)
        nodes[i][0].add_children(*args)
        kids[i] += args
        if binomial:
            for j in c:
                parent[j] = i
        for q, (n, k, d) in enumerate(nodes):
            same(mon, n.key, k, 'adding children changed a key')
            same(mon, n.data, d, 'adding children changed data')
            mon.check(n.is_root is False, 'a new node is not a root')
            mon.eq(str(n), str((k, d)), 'str() of the node does not show key and data')
            got = [n.children[x] for x in range(n.children._last_pos_filled + 1)]
            mon.check(len(got) == len(kids[q]) and all(a is b or (not binomial and a == b)
                                                       for a, b in zip(got, kids[q])),
                      'the children are not those added, in that order', got=got, want=kids[q])
            if binomial:
                want = None if parent[q] is None else nodes[parent[q]][0]
                mon.check(n.parent is want, 'the parent link of a child is wrong', got=n.parent, want=want)
        mon.state((binomial, tuple(len(x) for x in kids)))
    mon.case((binomial, hist))


def sc_mary(mon, rng, params):
    """M-ary trees: root, comparator, contents as printed."""
    mon.op('MAryTree')
    mc = rng.randint(2, 5)
    sign = rng.choice([None, 1, -1])
    comp = None if sign is None else (lambda a, b: sign * a < sign * b)
    osf = rng.random() < 0.5
    empty = rng.random() < 0.2
    key, data = rng.randint(-50, 50), rng.choice([0, 'a', 'data', (), 2.5])
    kw = {}
    if comp is not None:
        kw['comp'] = comp
    if osf or rng.random() < 0.5:
        kw['is_order_statistic'] = osf
    explicit = rng.random() < 0.7
    if explicit:
        kw['max_children'] = mc
    if empty:
        # a key without data names no element: the root stays without a key
        t = MAryTree(**kw) if rng.random() < 0.5 else MAryTree(key, **kw)
        want = [(None, None, [])]
    else:
        t = MAryTree(key, data, **kw) if rng.random() < 0.5 else MAryTree(key=key, root_data=data, **kw)
        want = [(key, data, [])]
        mon.raises(ValueError, lambda: MAryTree(root_data=data), 'a root without a key')
    other = MAryTree(rng.randint(0, 9), 'other')
    mon.eq(t.max_children, mc if explicit else 2, 'max_children is not the number given')
    mon.eq(t.is_order_statistic, osf, 'is_order_statistic is not the flag given')
    mon.eq(t.size, 1, 'the size of a new tree')
    mon.check(t.tree[t.root_idx].is_root is True, 'the root is not marked as root')
    for _ in range(5):
        a, b = rng.randint(-9, 9), rng.randint(-9, 9)
        w = (a < b) if sign is None else (sign * a < sign * b)
        got = t.comparator(a, b)
        mon.check(got is w, 'the tree does not compare keys with the comparator it was given', a=a, b=b, got=got)
    # nodes laid out by hand, as the abstract class leaves it to its users
    for _ in range(rng.randint(0, 8)):
        k, d = rng.randint(-50, 50), rng.choice([None, 1, 'x'])
        n = U.MAryTreeNode(k, d)
        t.tree.append(n)
        idx = len(want)
        want.append((k, d, []))
        open_ = [i for i in range(idx) if len(want[i][2]) < mc]
        if open_ and rng.random() < 0.9:
            p = rng.choice(open_)
            t.tree[p].add_children(idx)
            want[p][2].append(idx)
        mon.eq(str(t), str([(k2, d2) + tuple(c) for k2, d2, c in want]),
               'str() does not show the nodes with their children')
    mon.eq(str(t), str([(k2, d2) + tuple(c) for k2, d2, c in want]), 'str() of the tree')
    mon.check(len(other.tree) == 1 and str(other).endswith("'other')]"), 'another tree changed')
    for f in (lambda: t.insert(1, 2), lambda: t.delete(1), lambda: t.search(1), t.to_binary_tree):
        mon.raises(NotImplementedError, f, 'an operation of the abstract tree')
    mon.case((empty, sign, mc, osf, repr(want)))


def fold_case(rng, kind):
    n = rng.choice([1, 1, 2, 2, 3, 5, 9])
    if kind == 'min':
        pool = rng.choice(['int', 'float', 'str', 'tuple'])
        return [None if rng.random() < 0.2 else x for x in values(rng, n, pool)]
    if kind == 'sum':
        pool = rng.choice(['int', 'float', 'bigint', 'str'])
        xs = values(rng, n, pool)
        if pool != 'str' and rng.random() < 0.4:      # values of different size and kind in one sum
            xs = [rng.choice([x, x, rng.randint(-3, 3), 2**60, 0.5, True]) for x in xs]
        return [None if rng.random() < 0.2 else x for x in xs]
    return [None if rng.random() < 0.2 else rng.choice([0, 1, -4, 6, 12, 35, 2**70, 6**40, rng.randint(-99, 99)])
            for _ in range(n)]


def sc_folds(mon, rng, params):
    """minimum, summation, greatest_common_divisor as folding operations that
    ignore None."""
    kind = rng.choice(['min', 'sum', 'gcd'])
    f, two = {'min': (U.minimum, min), 'sum': (U.summation, lambda a, b: a + b),
              'gcd': (U.greatest_common_divisor, math.gcd)}[kind]
    vals = fold_case(rng, kind)
    mon.op(kind, vals)
    got = f((vals[0],))
    mon.check(got is vals[0] or got == vals[0], 'of one value is not that value', got=got)
    acc = vals[0]
    for v in vals[1:]:
        arg = rng.choice([tuple, list])((acc, v))
        keep = list(arg)
        r = f(arg)
        want = v if acc is None else acc if v is None else two(acc, v)
        mon.check(r == want and type(r) is type(want), '%s of two values is wrong' % f.__name__, args=keep, got=r, want=want)
        mon.eq(list(arg), keep, 'the arguments were changed')
        acc = r
    some = [v for v in vals if v is not None]
    if kind != 'gcd' or len(some) > 1:
        mon.eq(acc, reduce(two, some) if some else None, 'folding does not give the fold of the values that are there')
    mon.case((kind, repr(vals)))


SCENARIOS = {
    'key and data nodes': {'fn': sc_plain_nodes, 'quick': 6000, 'thorough': 100000},
    'trie nodes': {'fn': sc_trie_nodes, 'quick': 800, 'thorough': 10000},
    'nodes with children': {'fn': sc_child_nodes, 'quick': 4000, 'thorough': 60000},
    'm-ary trees': {'fn': sc_mary, 'quick': 4000, 'thorough': 60000},
    'fold helpers': {'fn': sc_folds, 'quick': 8000, 'thorough': 100000},
}
REQUIRED = ['op:MAryTree', 'op:add children', 'op:min', 'op:sum', 'op:gcd', 'op:make TreeNode',
            'op:make LinkedListNode']
