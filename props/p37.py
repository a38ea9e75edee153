"""Objects do not share state: an operation on one shows in no other, and
looking at an object changes neither it nor any other."""
from .common import *   # noqa

ID = 'P37'
RULE = 'distinct (population of objects, interleaved operation history) tuples'

if LIVE:
    from pydatastructs import *          # noqa
    from pydatastructs.utils import misc_util as U
    from pydatastructs import strings as S


class Actor(object):
    """make(rng) builds one object; act(rng) performs one valid operation on it
    and returns its name; view() is what a user can see of it."""

    def __init__(self, rng):
        self.m = None
        self.make(rng)


class Oda(Actor):
    def make(self, rng):
        self.be = rng.choice([PY, CPP])
        n = rng.randint(1, 6)
        self.a = OneDimensionalArray(int, [rng.randint(0, 9) for _ in range(n)], backend=self.be)

    def act(self, rng):
        if rng.random() < 0.1:
            self.a.fill(rng.randint(0, 9))
            return 'fill'
        self.a[rng.randrange(len(self.a))] = rng.randint(0, 99)
        return 'set'

    def view(self):
        return [self.a[i] for i in range(len(self.a))], str(self.a)


class Doda(Actor):
    def make(self, rng):
        be = rng.choice([PY, CPP])
        if rng.random() < 0.5:
            self.a = DynamicOneDimensionalArray(int, 0, backend=be)
        else:
            self.a = DynamicOneDimensionalArray(int, [1, 2, 3], backend=be)

    def act(self, rng):
        n = self.a._last_pos_filled + 1
        if n and rng.random() < 0.3:
            self.a.delete(rng.randrange(n))
            return 'delete'
        self.a.append(rng.randint(0, 99))
        return 'append'

    def view(self):
        return str(self.a), self.a.size


class Mda(Actor):
    def make(self, rng):
        self.a = MultiDimensionalArray(int, 2, 3)
        self.a.fill(0)

    def act(self, rng):
        self.a[rng.randrange(2), rng.randrange(3)] = rng.randint(0, 9)
        return 'set'

    def view(self):
        return [self.a[i, j] for i in range(2) for j in range(3)]


class LinkedList(Actor):
    def make(self, rng):
        self.l = rng.choice([SinglyLinkedList, DoublyLinkedList, SinglyCircularLinkedList,
                             DoublyCircularLinkedList])()

    def act(self, rng):
        n = len(self.l)
        k = rng.randrange(4)
        if k == 0 and n:
            self.l.extract(rng.randrange(n))
            return 'extract'
        if k == 1:
            self.l.appendleft(rng.randint(0, 99))
        elif k == 2 and n:
            self.l.insert_at(rng.randrange(n), rng.randint(0, 99), 'd')
        else:
            self.l.append(rng.randint(0, 99))
        return 'insert'

    def view(self):
        return str(self.l), len(self.l), [self.l[i].key for i in range(len(self.l))]


class Skip_(Actor):
    def make(self, rng):
        self.l, self.keys = SkipList(), []

    def act(self, rng):
        if self.keys and rng.random() < 0.3:
            self.l.extract(self.keys.pop(rng.randrange(len(self.keys))))
            return 'extract'
        k = rng.choice([x for x in range(100) if x not in self.keys])
        self.keys.append(k)
        self.l.insert(k, k)
        return 'insert'

    def view(self):
        return str(self.l), self.l.size if hasattr(self.l, 'size') else None


class Stack_(Actor):
    def make(self, rng):
        k = rng.randrange(3)
        self.ll = k == 2
        if k == 2:
            self.s = Stack(implementation='linked_list')
        else:
            self.s = Stack(backend=[PY, CPP][k]) if rng.random() < 0.5 else \
                Stack(items=[1, 2], dtype=int, backend=[PY, CPP][k])

    def act(self, rng):
        if not self.s.is_empty and rng.random() < 0.4:
            self.s.pop()
            return 'pop'
        self.s.push(rng.randint(0, 99))
        return 'push'

    def view(self):
        return str(self.s), len(self.s), None if self.s.is_empty else str(self.s.peek)


class Queue_(Actor):
    def make(self, rng):
        de = rng.random() < 0.5
        self.de = de
        kw = {'double_ended': True} if de else {}
        if rng.random() < 0.5:
            self.q = Queue(implementation='linked_list', **kw)
        else:
            self.q = Queue(**kw) if rng.random() < 0.5 else Queue(items=[1, 2], dtype=int, **kw)

    def act(self, rng):
        if len(self.q) and rng.random() < 0.4:
            (self.q.pop if self.de and rng.random() < 0.5 else self.q.popleft)()
            return 'pop'
        (self.q.appendleft if self.de and rng.random() < 0.5 else self.q.append)(rng.randint(0, 99))
        return 'append'

    def view(self):
        return str(self.q), len(self.q), self.q.is_empty


class Pq(Actor):
    def make(self, rng):
        self.impl = rng.choice(['linked_list', 'binary_heap', 'binomial_heap'])
        self.q = PriorityQueue(implementation=self.impl)
        self.n = 0

    def act(self, rng):
        if self.n and rng.random() < 0.4:
            self.q.pop()
            self.n -= 1
            return 'pop'
        self.q.push(rng.randint(0, 99), rng.randint(0, 99))
        self.n += 1
        return 'push'

    def view(self):
        return self.q.is_empty, None if self.q.is_empty else str(self.q.peek)


class Heap_(Actor):
    def make(self, rng):
        kind = rng.randrange(4)
        self.bino = kind == 3
        self.n = 0
        if kind == 3:
            self.h = BinomialHeap()
        elif kind == 2:
            self.h = DHeap(d=4, heap_property=rng.choice(['min', 'max']))
        else:
            self.h = [BinaryHeap, TernaryHeap][kind](heap_property=rng.choice(['min', 'max']))

    def act(self, rng):
        if self.n and rng.random() < 0.4:
            self.n -= 1
            self.h.delete_minimum() if self.bino else self.h.extract()
            return 'extract'
        self.n += 1
        self.h.insert(rng.randint(0, 99), 'd')
        return 'insert'

    def view(self):
        if self.bino:
            return self.h.is_empty, None if self.h.is_empty else str(self.h.find_minimum())
        return self.h.is_empty, str(self.h)


class Binomial_(Actor):
    def make(self, rng):
        self.nodes = [U.BinomialTreeNode(rng.randint(0, 9), 1)]
        self.t = BinomialTree(self.nodes[0], 0)

    def act(self, rng):
        if self.t.order >= 4:
            return 'none'

        def mk(o):
            if o == 0:
                return BinomialTree(U.BinomialTreeNode(rng.randint(10, 99), 1), 0)
            a, b = mk(o - 1), mk(o - 1)
            a.add_sub_tree(b)
            return a
        self.t.add_sub_tree(mk(self.t.order))
        return 'add_sub_tree'

    def view(self):
        def w(n):
            c = n.children
            return n.key, [w(c[i]) for i in range(c._last_pos_filled + 1)]
        return self.t.order, w(self.t.root)


class Dsf(Actor):
    def make(self, rng):
        self.d, self.keys = DisjointSetForest(), []

    def act(self, rng):
        if len(self.keys) < 2 or rng.random() < 0.5:
            self.keys.append(len(self.keys))
            self.d.make_set(len(self.keys) - 1)
            return 'make_set'
        self.d.union(rng.choice(self.keys), rng.choice(self.keys))
        return 'union'

    def view(self):
        sets = self.d.disjoint_sets()
        out = sorted(sorted(x) for x in sets)
        spoil(sets)
        sets.clear()
        return ([self.d.find_root(k).key for k in self.keys], [self.d.find_size(k) for k in self.keys], len(self.d.tree),
                out)


class Ms(Actor):
    def make(self, rng):
        self.m_ = Multiset() if rng.random() < 0.5 else Multiset(1, 2, 2)

    def act(self, rng):
        if rng.random() < 0.4:
            self.m_.remove(rng.randint(0, 4))
            return 'remove'
        self.m_.add(rng.randint(0, 4))
        return 'add'

    def view(self):
        return [self.m_.count(i) for i in range(5)], len(self.m_)


class Trie_(Actor):
    def make(self, rng):
        self.t, self.w = S.Trie(), set()

    def act(self, rng):
        if self.w and rng.random() < 0.3:
            x = rng.choice(sorted(self.w))
            self.w.discard(x)
            self.t.delete(x)
            return 'delete'
        x = ''.join(rng.choice('ab') for _ in range(rng.randint(1, 4)))
        self.w.add(x)
        self.t.insert(x)
        return 'insert'

    def view(self):
        al = ['a', 'b', 'aa', 'ab', 'ba', 'bb', 'aab', 'bba', 'abab']
        found = [self.t.strings_with_prefix(x) for x in 'ab']
        out = [sorted(x) for x in found]
        spoil(found)
        return [self.t.is_present(x) for x in al], out


class RangeDyn(Actor):
    def make(self, rng):
        self.f = rng.choice([U.minimum, U.summation])
        self.n = rng.randint(2, 6)
        self.r = RangeQueryDynamic(OneDimensionalArray(int, [rng.randint(0, 9) for _ in range(self.n)]),
                                   self.f, data_structure=rng.choice(['segment_tree', 'array']))

    def act(self, rng):
        self.r.update(rng.randrange(self.n), rng.randint(0, 99))
        return 'update'

    def view(self):
        return [self.r.query(i, j) for i in range(self.n) for j in range(i, self.n)]


class RangeStat(Actor):
    def make(self, rng):
        self.f = rng.choice([U.minimum, U.greatest_common_divisor])
        self.n = rng.randint(2, 6)
        self.r = RangeQueryStatic(OneDimensionalArray(int, [rng.randint(0, 9) for _ in range(self.n)]),
                                  self.f, data_structure=rng.choice(['sparse_table', 'array']))

    def act(self, rng):
        self.r.query(0, self.n - 1)
        return 'query'

    def view(self):
        return [self.r.query(i, j) for i in range(self.n) for j in range(i, self.n)]


class Bit(Actor):
    def make(self, rng):
        self.n = rng.randint(2, 6)
        self.b = BinaryIndexedTree([rng.randint(0, 9) for _ in range(self.n)], backend=rng.choice([PY, CPP]))

    def act(self, rng):
        self.b.update(rng.randrange(self.n), rng.randint(0, 99))
        return 'update'

    def view(self):
        return [self.b.get_prefix_sum(i) for i in range(self.n)], [self.b.get_sum(i, j) for i in range(self.n) for j in range(i, self.n)]


class Seg(Actor):
    def make(self, rng):
        self.s = [[1, 3], [2, 5]]
        for _ in range(rng.randint(0, 4)):
            a = rng.randint(0, 9)
            self.s.append([a, a + rng.randint(1, 5)])
        self.t = OneDimensionalSegmentTree(self.s)
        self.t.build()

    def act(self, rng):
        self.t.query(rng.randint(0, 12))
        return 'query'

    def view(self):
        found = [self.t.query(x) for x in range(1, 5)]
        out = [sorted(n.key for n in x) for x in found]
        spoil(found)
        return out, [list(x) for x in self.s]


class Tree(Actor):
    def make(self, rng):
        cls = rng.choice([BinarySearchTree, AVLTree, RedBlackTree, SplayTree, Treap, CartesianTree])
        self.be = rng.choice([PY, CPP])
        self.cart = cls is CartesianTree
        self.t, self.keys = cls(backend=self.be), []

    def act(self, rng):
        if self.keys and rng.random() < 0.35:
            self.t.delete(self.keys.pop(rng.randrange(len(self.keys))))
            return 'delete'
        k = rng.choice([x for x in range(60) if x not in self.keys])
        self.keys.append(k)
        if self.cart:
            self.t.insert(k, rng.random(), 'd%d' % k)
        else:
            self.t.insert(k, 'd%d' % k)
        return 'insert'

    def view(self):
        if not self.keys:
            return self.t.size
        tr = BinaryTreeTraversal(self.t, backend=self.be)
        # (key, data, structure) in order; searching a splay tree is not a look
        found = tr.depth_first_search()
        out = [n.key for n in found]
        spoil([found])
        return str(self.t), out, self.t.size


class TreeKeys(Tree):
    """Without the shape, which a treap draws from a global generator."""
    def view(self):
        return Tree.view(self)[1:] if self.keys else self.t.size


class Graph_(Actor):
    N = 5

    def make(self, rng):
        self.impl = rng.choice(['adjacency_list', 'adjacency_matrix'])
        self.be = rng.choice([PY, CPP])
        cls = U.AdjacencyListGraphNode if self.impl == 'adjacency_list' else U.AdjacencyMatrixGraphNode
        self.nodes = [cls('n%d' % i, i, backend=self.be) if self.impl == 'adjacency_list' or self.be is PY
                      else cls('n%d' % i, i, backend=self.be) for i in range(self.N)]
        self.g = Graph(*self.nodes, implementation=self.impl, backend=self.be)
        self.e = set()

    def act(self, rng):
        if self.e and rng.random() < 0.35:
            a, b = rng.choice(sorted(self.e))
            self.e.discard((a, b))
            self.g.remove_edge(a, b)
            return 'remove_edge'
        a, b = 'n%d' % rng.randrange(self.N), 'n%d' % rng.randrange(self.N)
        self.e.add((a, b))
        self.g.add_edge(a, b, rng.randint(1, 9))
        return 'add_edge'

    def view(self):
        g = self.g
        names = ['n%d' % i for i in range(self.N)]
        adj = [bool(g.is_adjacent(a, b)) for a in names for b in names]
        w = [None if not x else g.get_edge(a, b).value
             for x, (a, b) in zip(adj, [(a, b) for a in names for b in names])]
        found = [g.neighbors(a) for a in names]
        out = [sorted(n.name for n in x) for x in found]
        spoil(found)
        return adj, w, out, g.num_vertices()


class MNode(Actor):
    def make(self, rng):
        self.n, self.c = U.MAryTreeNode(rng.randint(0, 9), 'd'), 0

    def act(self, rng):
        if rng.random() < 0.2:
            self.n.key = rng.randint(10, 99)
            return 'set key'
        k = rng.randint(1, 3)
        self.n.add_children(*[rng.randint(0, 99) for _ in range(k)])
        self.c += k
        return 'add children'

    def view(self):
        return str(self.n), str(self.n.children), self.n.is_root, self.n.children._num == self.c


class BNode(Actor):
    def make(self, rng):
        self.n, self.c = U.BinomialTreeNode(rng.randint(0, 9), 'd'), []

    def act(self, rng):
        x = U.BinomialTreeNode(rng.randint(0, 99))
        self.n.add_children(x)
        self.c.append(x)
        return 'add children'

    def view(self):
        return (str(self.n), [self.n.children[i] is x for i, x in enumerate(self.c)], self.n.children._num,
                [x.parent is self.n for x in self.c], self.n.parent)


class TNode(Actor):
    def make(self, rng):
        self.n, self.c = U.TrieNode('r'), set()

    def act(self, rng):
        x = rng.choice('abcd')
        if x in self.c:
            self.c.discard(x)
            self.n.remove_child(x)
            return 'remove child'
        self.c.add(x)
        self.n.add_child(U.TrieNode(x))
        return 'add child'

    def view(self):
        return [self.n.get_child(x) is not None for x in 'abcd'], self.n.is_terminal, self.n.char


class GNode(Actor):
    """A graph node on its own."""
    def make(self, rng):
        self.be = rng.choice([PY, CPP])
        start = [U.AdjacencyListGraphNode('s%d' % i, i, backend=self.be) for i in range(rng.randint(0, 2))]
        self.c = {x.name for x in start}
        if start or rng.random() < 0.5:
            self.n = U.AdjacencyListGraphNode('me', 0, start, backend=self.be)
            start.append(None)       # the list given stays the caller's
        else:
            self.n = U.AdjacencyListGraphNode('me', 0, backend=self.be)

    def act(self, rng):
        x = rng.choice(['s0', 's1', 'a', 'b', 'c'])
        if x in self.c:
            self.c.discard(x)
            self.n.remove_adjacent_node(x)
            return 'remove adjacent'
        self.c.add(x)
        self.n.add_adjacent_node(x, rng.randint(0, 9))
        return 'add adjacent'

    def view(self):
        return str(self.n), sorted(self.n.adjacent)


class MTree(Actor):
    def make(self, rng):
        self.t = MAryTree(1, 'root', max_children=3)

    def act(self, rng):
        n = U.MAryTreeNode(rng.randint(2, 99), 'x')
        self.t.tree.append(n)
        self.t.tree[0].add_children(self.t.tree._last_pos_filled)
        return 'append'

    def view(self):
        return str(self.t), self.t.tree._num


class Ostat(Actor):
    """An order-statistic tree with a comparator."""
    def make(self, rng):
        kw = {'comp': lambda a, b: a > b} if rng.random() < 0.5 else {}
        self.t = rng.choice([BinarySearchTree, AVLTree, RedBlackTree])(
            is_order_statistic=True, backend=rng.choice([PY, CPP]), **kw)
        self.k = []

    def act(self, rng):
        if self.k and rng.random() < 0.3:
            self.t.delete(self.k.pop(rng.randrange(len(self.k))))
            return 'delete'
        x = rng.choice([x for x in range(80) if x not in self.k])
        self.k.append(x)
        self.t.insert(x, x)
        return 'insert'

    def view(self):
        return [self.t.rank(x) for x in sorted(self.k)], [self.t.select(i).key for i in range(1, len(self.k) + 1)]


def spoil(out):
    """What a call handed out is the caller's: emptying it hurts nobody."""
    for x in out:
        if isinstance(x, list):
            x.clear()


KINDS = ([Oda, Doda, Mda, LinkedList, LinkedList, Skip_, Stack_, Queue_, Pq, Heap_, Binomial_, Dsf, Ms, Trie_,
          RangeDyn, RangeStat, Bit, Seg, Tree, Tree, Tree, Graph_, Graph_,
          MNode, BNode, TNode, GNode, MTree, Ostat] if LIVE else [])


def sc_mixed(mon, rng, params):
    kinds = rng.choice([KINDS, [rng.choice(KINDS)], rng.sample(KINDS, 2)])
    actors = [rng.choice(kinds)(rng) for _ in range(rng.randint(2, 5))]
    hist = [type(a).__name__ for a in actors]
    views = [a.view() for a in actors]
    for step in range(longish(rng, [4, 12, 30], factor=4)):
        if rng.random() < 0.06 and len(actors) < 7:
            mon.op('new object')
            new = rng.choice(kinds)(rng)
            hist.append('+' + type(new).__name__)
            actors.append(new)
            views.append(new.view())
            i = len(actors) - 1
        elif rng.random() < 0.04 and len(actors) > 2:
            mon.op('drop object')
            i = rng.randrange(len(actors))
            hist.append('-%d' % i)
            del actors[i], views[i]
            i = -1
        else:
            i = rng.randrange(len(actors))
            name = actors[i].act(rng)
            kind = type(actors[i]).__name__
            mon.op('%s %s' % (kind, name))
            hist.append((i, name))
            views[i] = actors[i].view()
        for j, a in enumerate(actors):
            now = a.view()
            mon.check(now == views[j], 'an operation on one object shows in another' if j != i else
                      'looking at an object twice shows different things',
                      kind=type(a).__name__, before=views[j], after=now)
    mon.state(tuple(hist[:8]))
    mon.case(hist)


def sc_twins(mon, rng, params):
    """Two objects built and driven alike, one undisturbed and one amid the
    operations of others, end up alike."""
    import random
    kind = rng.choice([k for k in KINDS if k is not Skip_])
    kind = TreeKeys if kind is Tree else kind
    seed = rng.randrange(10**9)
    steps = rng.choice([3, 10, 25])

    def drive(noise):
        r = random.Random(seed)
        others = [rng.choice(KINDS)(rng) for _ in range(3)] if noise else []
        a = kind(r)
        out = [a.view()]
        for _ in range(steps):
            for o in others:
                if rng.random() < 0.7:
                    o.act(rng)
            a.act(r)
            out.append(a.view())
        return out
    mon.op('twins ' + kind.__name__)
    quiet = drive(False)
    loud = drive(True)
    mon.eq(loud, quiet, 'an object behaves differently when others are used in between')
    mon.case((kind.__name__, seed, steps))


SCENARIOS = {
    'mixed population': {'fn': sc_mixed, 'quick': 2500, 'thorough': 40000, 'steps': 20000000},
    'twins': {'fn': sc_twins, 'quick': 1500, 'thorough': 25000, 'steps': 20000000},
    'mixed population under asan': {'fn': sc_mixed, 'quick': 150, 'thorough': 3000, 'flavour': 'asan',
                                    'steps': 20000000},
}
REQUIRED = ['op:new object', 'op:drop object', 'op:Tree insert', 'op:Tree delete', 'op:Graph_ add_edge',
            'op:Doda append', 'op:twins TreeKeys', 'op:MNode add children', 'op:Ostat insert', 'op:GNode add adjacent']
