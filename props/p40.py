"""Nothing that is done to a compiled object can take the interpreter down."""
import gc
import sys
from .common import *   # noqa

ID = 'P40'
RULE = 'distinct (class, call sequence) tuples'

if LIVE:
    from pydatastructs import utils as U
    from pydatastructs import linear_data_structures as L
    from pydatastructs.trees import binary_trees as BT
    from pydatastructs.trees.binary_trees import BinaryTreeTraversal
    from pydatastructs.linear_data_structures import algorithms as LA
    from pydatastructs.linear_data_structures.arrays import ArrayForTrees
    from pydatastructs.utils import GraphEdge, AdjacencyListGraphNode, AdjacencyMatrixGraphNode
    from pydatastructs.graphs import Graph
    from pydatastructs import BinaryIndexedTree


class Boom(Exception):
    pass


class Nasty(object):
    """Fails now and then when it is looked at, and never says the same twice."""

    def __init__(self, rng):
        self.rng = rng

    def _act(self):
        if self.rng.random() < 0.4:
            raise Boom('nasty')

    def __eq__(self, other):
        self._act()
        return self.rng.random() < 0.5

    def __lt__(self, other):
        self._act()
        return self.rng.random() < 0.5

    __le__ = __gt__ = __ge__ = __lt__

    def __hash__(self):
        return 3

    def __str__(self):
        self._act()
        return 'nasty'

    __repr__ = __str__

    def __index__(self):
        self._act()
        return self.rng.randint(-3, 3)

    def __float__(self):
        self._act()
        return 1.5

    def __bool__(self):
        self._act()
        return True

    def __len__(self):
        self._act()
        return 2

    def __getitem__(self, i):
        self._act()
        if i > 2:
            raise IndexError(i)
        return i

    def __add__(self, other):
        self._act()
        return 1

    __radd__ = __sub__ = __rsub__ = __add__


class FakeList(list):
    def __len__(self):
        return 5


class Liar(object):
    """Claims to be an object of the compiled backend."""
    type_tag = 3
    tag = name = 'a'
    adjacent = {}

    def __init__(self, cls):
        self.claims = cls

    @property
    def __class__(self):
        return self.claims


PLAIN = [0, 1, 2, 3, 5, -1, 257, 1007, -2**31, 2**62, 2**63 - 1, 2**63, -2**63, 2**64, -2**70, 10**30,
         1.5, -0.0, INF, float('nan'), '', 'a', 'b', 'c', 'word', 'half \ud800', 'cut\0here', '\u20ac', 'x' * 1000, b'by', None, True,
         False, (), (1,), (1, 2), (1, 2, 3), [], [1], [3, 1, 2], [None, 1], ['a'], {}, {'a': 1}, {'key': 2}, int, float,
         str, object, 1j, range(3), 'pre_order', 'in_order', 'queue', 'iterative', 'adjacency_list']


def arg(rng, world):
    r = rng.random()
    if r < 0.30:
        return rng.randint(-2, 9)
    if r < 0.40:
        return rng.choice('abcde')
    if r < 0.72:
        return rng.choice(PLAIN)
    if r < 0.76:
        return Nasty(rng)
    if r < 0.80:
        return rng.choice([lambda *a: True, lambda *a: False, lambda a, b: a < b, lambda a, b: a > b, lambda: 1, Thing, len])
    if r < 0.83:
        def cb(*a, **k):
            if rng.random() < 0.2:
                raise Boom('callback')
            return rng.random() < 0.6
        return cb
    if r < 0.85:
        return [rng.randint(0, 9) for _ in range(rng.randint(0, 12))]
    if r < 0.86:
        return FakeList([1, 2])
    if r < 0.87 and world:
        return Liar(type(rng.choice(world)))
    if r < 0.88:
        return object.__new__(object)
    if world:
        return rng.choice(world)
    return 4


# Attributes that are the innards of a structure: replacing them from outside is not using it.
INNARDS = ('tree', 'root_idx', 'comparator', 'size', 'left', 'right', 'parent', 'height', 'array', 'flag', 'is_order_statistic',
           'set_tree')
DUNDERS = ('__getitem__', '__setitem__', '__len__', '__str__', '__repr__', '__iter__', '__delitem__', '__contains__',
           '__eq__', '__hash__')
KW = ['parent', 'balancing_info', 'comp', 'start', 'end', 'node', 'order', 'strategy', 'items', 'dtype', 'init', 'load_factor',
      'key', 'data', 'root_data', 'is_order_statistic', 'cost', 'adjacency_list', 'value', 'pivot', 'pick_pivot_element', 'source', 'target']


def broken(log, what, e):
    # CPython raises SystemError for native code that returns a result
    # although it has set an exception, or no result without having set one
    if log is not None:
        log.mon.check(False, '%s breaks the error protocol of the interpreter' % what, error=str(e)[:200])


def poke(rng, obj, world, n, log=None):
    """Calls something of obj with anything."""
    for _ in range(n):
        names = [x for x in dir(obj) if (not x.startswith('_') or x in DUNDERS) and x != 'set_tree']
        name = rng.choice(names)
        try:
            v = getattr(obj, name)
        except Exception:
            continue
        if not callable(v):
            if rng.random() < 0.5 and name not in INNARDS:
                a = arg(rng, world)
                if log is not None:
                    log('set', type(obj).__name__, name, safe(a))
                try:
                    setattr(obj, name, a)
                except SystemError as e:
                    broken(log, 'setting %s of a compiled %s' % (name, type(obj).__name__), e)
                except Exception:
                    pass
            continue
        args = [arg(rng, world) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 4]))]
        kw = {rng.choice(KW): arg(rng, world)} if rng.random() < 0.2 else {}
        if name in DUNDERS and name not in ('__getitem__', '__setitem__', '__delitem__', '__contains__', '__eq__'):
            args, kw = [], {}
        if log is not None:
            log(name, type(obj).__name__, [safe(a) for a in args], {k: safe(a) for k, a in kw.items()})
        try:
            r = v(*args, **kw)
        except SystemError as e:
            broken(log, '%s of a compiled %s' % (name, type(obj).__name__), e)
            continue
        except Exception:
            continue
        if r is not None and rng.random() < 0.2 and len(world) < 14 and type(r).__module__.startswith(('_', 'pydata', 'Graph', 'Tree')):
            world.append(r)


def safe(a):
    t = type(a)
    if t in (int, float, str, bytes, bool, type(None), tuple, list, dict):
        try:
            return repr(a)[:60]
        except Exception:
            pass
    return '<%s>' % t.__name__


def linked(rng, key):
    node = U.TreeNode(key, key, backend=CPP)
    for side in ('left', 'right', 'parent'):
        if rng.random() < 0.3:
            setattr(node, side, rng.choice([0, 1, 2, 3, 3, 7, -1, 10**6]))
    return node


def makers(rng, world):
    A = lambda: arg(rng, world)
    lst = lambda: [rng.randint(0, 9) for _ in range(rng.randint(0, 8))]
    ln = lambda: AdjacencyListGraphNode(rng.choice('abcde'), A(), backend=CPP)
    mn = lambda: AdjacencyMatrixGraphNode(rng.choice('abcde'), A(), backend=CPP)
    out = {
        'array': lambda: ODA(int, lst(), backend=CPP),
        'any array': lambda: ODA(A(), A(), backend=CPP),
        'any array 2': lambda: ODA(A(), A(), A(), backend=CPP),
        'any array 3': lambda: ODA(A(), A(), init=A(), backend=CPP),
        'dynamic': lambda: DODA(int, lst(), backend=CPP),
        'any dynamic': lambda: DODA(A(), A(), load_factor=A(), backend=CPP),
        'array for trees': lambda: ArrayForTrees(type(U.TreeNode(0, 0, backend=CPP)), [linked(rng, i) for i in lst()], backend=CPP),
        'array of nodes': lambda: DODA(type(U.TreeNode(0, 0, backend=CPP)), [linked(rng, i) for i in lst()], backend=CPP),
        'any array for trees': lambda: ArrayForTrees(A(), A(), backend=CPP),
        'stack': lambda: pds.Stack(items=lst(), dtype=int, backend=CPP),
        'any stack': lambda: pds.Stack(items=A(), dtype=A(), backend=CPP),
        'fenwick': lambda: BinaryIndexedTree(lst(), backend=CPP),
        'any fenwick': lambda: BinaryIndexedTree(A(), backend=CPP),
        'node': lambda: U.TreeNode(A(), A(), backend=CPP),
        'list node': ln, 'matrix node': mn,
        'any list node': lambda: AdjacencyListGraphNode(A(), A(), adjacency_list=A(), backend=CPP),
        'edge': lambda: GraphEdge(ln(), ln(), A(), backend=CPP),
        'any edge': lambda: GraphEdge(A(), A(), A(), backend=CPP),
        'list graph': lambda: list_graph(rng, ln),
        'matrix graph': lambda: Graph(*[AdjacencyMatrixGraphNode(c, backend=CPP) for c in 'abcd'],
                                      implementation='adjacency_matrix', backend=CPP),
        'any graph': lambda: Graph(A(), A(), implementation=rng.choice(['adjacency_list', 'adjacency_matrix']), backend=CPP),
        'traversal': lambda: BinaryTreeTraversal(A(), backend=CPP),
    }
    for name in ('BinarySearchTree', 'AVLTree', 'RedBlackTree', 'SplayTree', 'CartesianTree', 'Treap', 'BinaryTree',
                 'SelfBalancingBinaryTree'):
        cls = getattr(BT, name)

        def tree(cls=cls, name=name):
            t = cls(backend=CPP)
            for k in lst():
                t.insert(k, k, k) if name == 'CartesianTree' else t.insert(k, k)
            return t
        out[name] = tree
        out['any ' + name] = lambda cls=cls: cls(A(), A(), comp=A(), is_order_statistic=A(), backend=CPP)
    out['traversal of a tree'] = lambda: BinaryTreeTraversal(out[rng.choice(['BinarySearchTree', 'AVLTree', 'SplayTree'])](), backend=CPP)
    return out


def list_graph(rng, ln):
    g = Graph(*[AdjacencyListGraphNode(c, backend=CPP) for c in 'abcd'], backend=CPP)
    for _ in range(rng.randint(0, 8)):
        g.add_edge(rng.choice('abcd'), rng.choice('abcd'), rng.choice([1, 2.5, None, 'x', 0]))
    return g


def functions(rng, world):
    A = lambda: arg(rng, world)
    out = {}
    for name in ('quick_sort', 'bubble_sort', 'selection_sort', 'insertion_sort', 'is_ordered', 'linear_search',
                 'binary_search', 'jump_search'):
        fn = getattr(LA, name)
        out[name] = lambda fn=fn: fn(*[A() for _ in range(rng.choice([1, 1, 2, 2]))], backend=CPP,
                                     **{k: A() for k in rng.sample(['start', 'end', 'comp', 'pick_pivot_element'], rng.choice([0, 0, 1, 2]))})
    out['bfs'] = lambda: pds.breadth_first_search(A(), rng.choice([A(), 'a']), A(), *[A() for _ in range(rng.randint(0, 2))], backend=CPP)
    out['prim'] = lambda: pds.minimum_spanning_tree(A(), 'prim', backend=CPP)
    out['dijkstra'] = lambda: pds.shortest_paths(A(), 'dijkstra', rng.choice([A(), 'a']), *[A() for _ in range(rng.randint(0, 1))], backend=CPP)
    return out


def sc_fuzz(mon, rng, params):
    world, hist = [], []

    def log(*e):
        mon.op('poke', *e)
        hist.append(e[:2])
    log.mon = mon
    for _ in range(rng.choice([1, 2, 3, 5])):
        M = makers(rng, world)
        what = rng.choice(sorted(M))
        mon.op('make', what)
        try:
            world.append(M[what]())
        except SystemError as e:
            broken(log, 'making ' + what, e)
        except Exception:
            mon.ev('construction refused')
    if not world:
        return
    for step in range(longish(rng, [5, 15, 40], factor=3)):
        if rng.random() < 0.12:
            F = functions(rng, world)
            f = rng.choice(sorted(F))
            log('call', f)
            try:
                F[f]()
                mon.ev('worked')
            except SystemError as e:
                broken(log, f, e)
            except Exception:
                mon.ev('refused')
        else:
            o = rng.choice(world)
            poke(rng, o, world, 1, log)
            mon.ev('poked ' + type(o).__name__)
        if rng.random() < 0.05 and len(world) > 1:
            world.pop(rng.randrange(len(world)))
            mon.ev('dropped')
    world.clear()
    gc.collect()
    mon.check(True, 'survived')
    mon.case(tuple(hist))


HAMMER, DROP = 64, 32
ARRAY_FUNCTIONS = ['quick_sort', 'bubble_sort', 'selection_sort', 'insertion_sort', 'is_ordered', 'linear_search',
                   'binary_search', 'jump_search']


def heap_objects(rng, n, kind=None):
    """n distinct objects which are no immortals and which nothing else holds."""
    kind = kind or rng.choice(['float', 'int', 'str', 'thing'])
    base = rng.randint(1000, 10**6)
    if kind == 'float':
        return [float(base + i) for i in range(n)]
    if kind == 'int':
        return [10**20 + base + i for i in range(n)]
    if kind == 'str':
        return ['key %d' % (base + i) for i in range(n)]
    return [Thing(i) for i in range(n)]


def hammer_world(rng):
    """Returns (receivers, objects to watch, arguments that make sense)."""
    pick = rng.choice(['array', 'dynamic', 'stack', 'array for trees', 'fenwick', 'node', 'tree', 'tree', 'tree', 'tall',
                       'tall', 'traversal', 'list graph', 'list graph', 'matrix graph', 'graph node', 'edge'])
    n = rng.randint(1, 8)
    few = [0, 1, 2, n - 1]
    if pick in ('array', 'dynamic', 'stack'):
        kind = rng.choice(['float', 'int', 'str', 'thing'])
        v = heap_objects(rng, n, kind)
        dtype = {'float': float, 'int': int, 'str': str, 'thing': Thing}[kind]
        rng.shuffle(v)
        if pick == 'stack':
            o = pds.Stack(items=v, dtype=dtype, backend=CPP)
        elif pick == 'array':
            o = ODA(dtype, v, backend=CPP) if rng.random() < 0.7 else ODA(dtype, n, init=v[0], backend=CPP)
        else:
            o = DODA(dtype, v, backend=CPP)
        return pick, [o], v + heap_objects(rng, 2, kind), few
    if pick == 'array for trees':
        v = heap_objects(rng, n)
        nodes = [U.TreeNode(x, x, backend=CPP) for x in v]
        return pick, [ArrayForTrees(type(nodes[0]), nodes, backend=CPP)], v + nodes, few
    if pick == 'fenwick':
        v = heap_objects(rng, n, rng.choice(['int', 'float']))
        return pick, [BinaryIndexedTree(v, backend=CPP)], v, few
    if pick == 'node':
        v = heap_objects(rng, 4)
        return pick, [U.TreeNode(v[0], v[1], backend=CPP)], v, few
    if pick in ('tree', 'tall', 'traversal'):
        name = rng.choice(['BinarySearchTree', 'AVLTree', 'RedBlackTree', 'SplayTree', 'CartesianTree', 'Treap',
                           'SelfBalancingBinaryTree'])
        t = getattr(BT, name)(backend=CPP, is_order_statistic=rng.random() < 0.5 and name in ('BinarySearchTree', 'AVLTree'))
        kind = rng.choice(['float', 'int', 'str'])
        if pick == 'tall':
            n = {'BinarySearchTree': 400, 'SelfBalancingBinaryTree': 400, 'SplayTree': 400, 'CartesianTree': 400, 'Treap': 700}.get(name, 1200)
        v = heap_objects(rng, n, kind)
        order = list(range(n))
        if pick != 'tall':
            rng.shuffle(order)
        elif name in ('BinarySearchTree', 'SelfBalancingBinaryTree'):
            rng.shuffle(order)
        for j, i in enumerate(order):
            if name == 'CartesianTree':
                t.insert(v[i], n - j, v[i])
            else:
                t.insert(v[i], v[i])
        if pick == 'tall' and name in ('BinarySearchTree', 'SelfBalancingBinaryTree'):
            for i in order[:300]:
                t.delete(v[i])
        watch = v if pick != 'tall' else rng.sample(v, 8)
        fresh = heap_objects(rng, 1, kind)
        if pick == 'traversal':
            return pick, [BinaryTreeTraversal(t, backend=CPP), t], watch, [None] + few
        return pick, [t], watch + fresh, few
    if pick == 'edge':
        v = heap_objects(rng, 3, rng.choice(['float', 'str']))
        ns = [AdjacencyListGraphNode(c, x, backend=CPP) for c, x in zip('ab', v)]
        return pick, [GraphEdge(ns[0], ns[1], v[2], backend=CPP)] + ns, v + ns, ['a', 'b']
    names = ['vertex %d' % i for i in range(max(2, n))]
    cls = AdjacencyMatrixGraphNode if pick == 'matrix graph' else AdjacencyListGraphNode
    v = heap_objects(rng, len(names), rng.choice(['float', 'str']))
    ns = [cls(a, x, backend=CPP) for a, x in zip(names, v)]
    if pick == 'graph node':
        for b in ns[1:]:
            ns[0].add_adjacent_node(b.name, b)
        return pick, [ns[0]], v + ns + names, names
    g = Graph(*ns, implementation='adjacency_matrix' if pick == 'matrix graph' else 'adjacency_list', backend=CPP)
    w = heap_objects(rng, 12, 'float' if pick == 'matrix graph' else rng.choice(['str', 'float']))
    for x in w:
        g.add_edge(rng.choice(names), rng.choice(names), x)
    return pick, [g] + ns[:1], v + ns + names + w, names


def watchable(x):
    return sys.getrefcount(x) < 1 << 28


def parts(r):
    """The result of a call and what it is made of."""
    out = [r]
    try:
        if isinstance(r, (list, tuple, set)):
            out += list(r)
        elif isinstance(r, dict):
            out += list(r) + list(r.values())
        elif type(r).__name__ in ('TreeNode', 'GraphEdge'):
            out += [getattr(r, a) for a in ('key', 'data', 'left', 'right', 'parent', 'value', 'source', 'target') if hasattr(r, a)]
    except Exception:
        pass
    return [x for x in out if watchable(x)][:30]


def a_call(rng, o, pick, world, watch, few, shared):
    """Returns (label, call, arguments): something that can be done to o again and again."""
    tname = type(o).__name__

    def anything():
        r = rng.random()
        if shared and r < 0.5:
            return rng.choice(shared)
        if r < 0.6:
            return rng.choice(few)
        if r < 0.9:
            return rng.choice(watch)
        return arg(rng, world)
    fns = {'array': ARRAY_FUNCTIONS, 'dynamic': ARRAY_FUNCTIONS, 'list graph': ['bfs', 'prim', 'dijkstra'],
           'matrix graph': ['bfs', 'prim', 'dijkstra']}.get(pick)
    if fns and rng.random() < 0.3:
        what = rng.choice(fns)
        a = anything()
        kw = {'backend': CPP}
        if what not in ('bfs', 'prim', 'dijkstra'):
            kw.update(rng.choice([{}, {}, {'start': 0}, {'end': 2}, {'comp': lambda x, y: x <= y}, {'start': a}]))
        call = {'bfs': lambda: pds.breadth_first_search(o, few[0], lambda *x: True, backend=CPP),
                'prim': lambda: pds.minimum_spanning_tree(o, 'prim', backend=CPP),
                'dijkstra': lambda: pds.shortest_paths(o, 'dijkstra', few[0], *([] if a is None else [few[-1]]), backend=CPP)}.get(what)
        if call is not None:
            return what, call, []
        fn = getattr(LA, what)
        args = [o] if 'sort' in what or what == 'is_ordered' else [o, a]
        return what, lambda: fn(*args, **kw), args + list(kw.values())
    names = [x for x in dir(o) if (not x.startswith('_') or x in DUNDERS) and x != 'set_tree']
    name = rng.choice(names)
    usual = USUAL.get(pick) or USUAL.get({'tall': 'tree'}.get(pick))
    if usual and rng.random() < 0.4:
        name = rng.choice(usual)
        if not hasattr(o, name):
            name = rng.choice(names)
    label = tname + '.' + name
    if name in INNARDS or not callable(getattr(o, name, None)):
        if name not in INNARDS and rng.random() < 0.4:
            a = anything()
            return 'set ' + label, lambda: setattr(o, name, a), [a]
        return label, lambda: getattr(o, name), []
    args = [anything() for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))]
    if name in ('add_edge', 'remove_edge', 'get_edge', 'is_adjacent', 'remove_vertex', 'neighbors') and rng.random() < 0.7:
        pair = [x for x in shared if isinstance(x, str)] or few
        args = [pair[0], pair[-1]][:1 if name in ('remove_vertex', 'neighbors') else 2] + ([rng.choice(watch)] if name == 'add_edge' else [])
    kw = {rng.choice(KW): anything()} if rng.random() < 0.15 else {}
    if name in DUNDERS and name not in ('__getitem__', '__setitem__', '__delitem__', '__contains__', '__eq__'):
        args, kw = [], {}
    return label, lambda: getattr(o, name)(*args, **kw), args + list(kw.values())


USUAL = {
    'list graph': ['add_edge', 'remove_edge', 'get_edge', 'neighbors', 'is_adjacent', 'remove_vertex', 'add_vertex'],
    'matrix graph': ['add_edge', 'remove_edge', 'get_edge', 'neighbors', 'is_adjacent'],
    'graph node': ['add_adjacent_node', 'remove_adjacent_node', 'adjacent'],
    'tree': ['insert', 'delete', 'search', 'lower_bound', 'upper_bound', 'root_idx', 'lowest_common_ancestor', 'select', 'rank'],
    'stack': ['push', 'pop', 'peek'], 'dynamic': ['append', 'delete', 'fill', '__getitem__', '__setitem__'],
    'array': ['fill', '__getitem__', '__setitem__'], 'fenwick': ['update', 'get_sum', 'get_prefix_sum'],
}


def sc_hammer(mon, rng, params):
    """The same calls again and again: nothing may lose references it is not given."""
    pick, world, watch, few = hammer_world(rng)
    o = rng.choice(world)
    calls, labels, keep_args = [], [], []
    shared = [rng.choice(few), rng.choice(watch), rng.choice(few)]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        label, call, args = a_call(rng, o, pick, world, watch, few, shared if rng.random() < 0.8 else [])
        calls.append(call)
        labels.append(label)
        keep_args += args
    if pick in ('dynamic', 'array for trees') and any('.fill' in x for x in labels) and any('.append' in x for x in labels):
        # every round would double the array
        keep = ['.fill' not in x for x in labels]
        calls, labels = [[x for x, k in zip(xs, keep) if k] for xs in (calls, labels)]
    mon.op('hammer', pick, labels, [safe(x) for x in keep_args])
    gc.collect()
    gc.disable()
    try:
        objs = {id(x): x for x in list(watch) + world + keep_args if watchable(x)}
        outcomes = []
        for label, call in zip(labels, calls):
            try:
                for x in parts(call()):
                    objs.setdefault(id(x), x)
                outcomes.append('returned')
            except SystemError as e:
                mon.check(False, label + ' breaks the error protocol of the interpreter', error=str(e)[:200])
            except Exception:
                outcomes.append('raised')
        objs = list(objs.values())
        ballast = [x for x in objs for _ in range(HAMMER * 4)]
        before = [sys.getrefcount(x) for x in objs]
        for _ in range(HAMMER):
            for call in calls:
                try:
                    call()
                except Exception:
                    pass
        after = [sys.getrefcount(x) for x in objs]
        for x, b, a in zip(objs, before, after):
            mon.checks += 1
            if b - a >= DROP:
                mon.check(False, 'references to an object are lost by calling %s' % ' and '.join(labels), kind=type(x).__name__,
                          lost=b - a, times=HAMMER)
        del ballast
    finally:
        gc.enable()
    for x in outcomes:
        mon.ev('hammered: ' + x)
    mon.ev('references counted', len(objs))
    mon.case(('hammer', pick, tuple(labels), tuple(outcomes)))
    mon.state((tuple(labels), tuple(outcomes)))


SCENARIOS = {
    'fuzz': dict(fn=sc_fuzz, quick=1500, thorough=100000, steps=20000000),
    'hammer': dict(fn=sc_hammer, quick=6000, thorough=200000),
    'fuzz under asan': dict(fn=sc_fuzz, quick=600, thorough=50000, flavour='asan', steps=20000000),
}
REQUIRED = ['construction refused', 'dropped', 'hammered: returned', 'hammered: raised']
