"""What the package does not support is refused, whatever comes with it, and
naming the default backend changes nothing."""
from .common import *   # noqa

ID = 'P38'
RULE = 'distinct (request, arguments) tuples'

if LIVE:
    from pydatastructs import *          # noqa
    from pydatastructs.linear_data_structures import algorithms as LA
    from pydatastructs.utils import misc_util as U
    from pydatastructs.utils.misc_util import minimum, summation
    from pydatastructs.miscellaneous_data_structures import BinomialTree
    from pydatastructs.trees import binary_trees as BT


def arr(rng, dyn=False):
    vals = [rng.randint(0, 50) for _ in range(rng.randint(1, 9))]
    return (DODA if dyn else ODA)(int, vals)


def graph(rng, impl='adjacency_list', backend=None, dag=False):
    be = {} if backend is None else {'backend': backend}
    cls = AdjacencyListGraphNode if impl == 'adjacency_list' else AdjacencyMatrixGraphNode
    n = rng.randint(2, 6)
    g = Graph(*[cls('v%d' % i, **be) for i in range(n)], implementation=impl, **be)
    for i in range(n):
        for j in range(n):
            if i < j and (rng.random() < 0.4 or j == i + 1):
                g.add_edge('v%d' % i, 'v%d' % j, rng.randint(1, 9))
                if not dag:
                    g.add_edge('v%d' % j, 'v%d' % i, rng.randint(1, 9))
    return g


def seen(x, depth=0):
    """What can be seen of a result or an argument, comparable."""
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    if isinstance(x, dict):
        return {seen(k): seen(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [seen(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if hasattr(x, 'vertices'):
        vs = sorted(x.vertices)
        return [vs] + [[sorted(n.name for n in x.neighbors(v)) for v in vs]] + \
            [sorted((k, e.value) for k, e in x.edge_weights.items())]
    name = type(x).__name__
    if name in ('OneDimensionalArray', 'DynamicOneDimensionalArray'):
        return [name] + [seen(x[i]) for i in range(len(x))]
    if hasattr(x, 'key') and hasattr(x, 'data'):
        return [name, seen(x.key), seen(x.data)]
    if name.endswith('Graph'):
        return name
    return [name, str(x) if type(x).__str__ is not object.__str__ else None]


def op_true(node, other):
    return True


# ---------------------------------------------------------------------------
# requests with a Python implementation: name -> fn(rng) -> (args, kwargs, callable)

def _sort(name, *more):
    return lambda rng: (getattr(LA, name), (arr(rng, rng.random() < 0.3),) + more, {})


def _node(cls, *args, **kw):
    return lambda rng: (cls, tuple(rng.randint(0, 9) if a is int else a for a in args), kw)


def _tree_for(rng):
    t = BT.BinarySearchTree()
    for k in rng.sample(range(40), rng.randint(1, 8)):
        t.insert(k, k)
    return t


def requests():
    R = {
        'merge_sort_parallel': _sort('merge_sort_parallel', 2), 'brick_sort': _sort('brick_sort'),
        'brick_sort_parallel': _sort('brick_sort_parallel', 2), 'heapsort': _sort('heapsort'),
        'counting_sort': _sort('counting_sort'), 'bucket_sort': _sort('bucket_sort'),
        'cocktail_shaker_sort': _sort('cocktail_shaker_sort'), 'intro_sort': _sort('intro_sort'),
        'longest_increasing_subsequence': lambda rng: (LA.longest_increasing_subsequence, (arr(rng),), {}),
        'longest_common_subsequence': lambda rng: (LA.longest_common_subsequence, (arr(rng), arr(rng)), {}),
        'upper_bound': lambda rng: (LA.upper_bound, (ODA(int, [1, 2, 5]), rng.randint(0, 6)), {}),
        'lower_bound': lambda rng: (LA.lower_bound, (ODA(int, [1, 2, 5]), rng.randint(0, 6)), {}),
        'next_permutation': lambda rng: (LA.next_permutation, (arr(rng),), {}),
        'prev_permutation': lambda rng: (LA.prev_permutation, (arr(rng),), {}),
        'MultiDimensionalArray': lambda rng: (MultiDimensionalArray, (int, rng.randint(1, 3), 2), {}),
        'SinglyLinkedList': lambda rng: (SinglyLinkedList, (), {}),
        'DoublyLinkedList': lambda rng: (DoublyLinkedList, (), {}),
        'SinglyCircularLinkedList': lambda rng: (SinglyCircularLinkedList, (), {}),
        'DoublyCircularLinkedList': lambda rng: (DoublyCircularLinkedList, (), {}),
        'SkipList': lambda rng: (SkipList, (), {}),
        'Trie': lambda rng: (Trie, (), {}),
        'find': lambda rng: (find, ('abcabc', 'bc', rng.choice(['kmp', 'rabin_karp', 'boyer_moore', 'z_function'])), {}),
        'DHeap': lambda rng: (DHeap, ([TreeNode(k, k) for k in range(rng.randint(0, 5))],), {}),
        'BinaryHeap': lambda rng: (BinaryHeap, ([TreeNode(k, k) for k in range(rng.randint(0, 5))],), {}),
        'TernaryHeap': lambda rng: (TernaryHeap, ([TreeNode(k, k) for k in range(rng.randint(0, 5))],), {}),
        'BinomialHeap': lambda rng: (BinomialHeap, (), {}),
        'BinomialTree': lambda rng: (BinomialTree, (), {}),
        'DisjointSetForest': lambda rng: (DisjointSetForest, (), {}),
        'OneDimensionalSegmentTree': lambda rng: (OneDimensionalSegmentTree, ([(1, 3), (2, rng.randint(4, 9))],), {}),
        'MAryTree': lambda rng: (__import__('pydatastructs.trees.m_ary_trees', fromlist=['MAryTree']).MAryTree,
                                 (rng.randint(0, 9), 1), {}),
        'Queue array': lambda rng: (Queue, (), {'items': [1, rng.randint(0, 9)]}),
        'Queue linked list': lambda rng: (Queue, ('linked_list',), {'items': [1, rng.randint(0, 9)]}),
        'PriorityQueue': lambda rng: (PriorityQueue, (rng.choice(['linked_list', 'binary_heap', 'binomial_heap']),), {}),
        'Stack linked list': lambda rng: (Stack, ('linked_list',), {'items': [rng.randint(0, 9)]}),
        'RangeQueryStatic': lambda rng: (RangeQueryStatic, (arr(rng), minimum, rng.choice(['array', 'sparse_table'])), {}),
        'RangeQueryDynamic': lambda rng: (RangeQueryDynamic, (arr(rng), minimum, rng.choice(['array', 'segment_tree'])), {}),
        'SparseTable': lambda rng: (SparseTable, (arr(rng), minimum), {}),
        'ArraySegmentTree': lambda rng: (ArraySegmentTree, (arr(rng), minimum), {}),
        'breadth_first_search_parallel': lambda rng: (breadth_first_search_parallel, (graph(rng), 'v0', 2, op_true), {}),
        'depth_first_search': lambda rng: (depth_first_search, (graph(rng), 'v0', op_true), {}),
        'minimum_spanning_tree_parallel': lambda rng: (
            minimum_spanning_tree_parallel, (graph(rng), rng.choice(['kruskal', 'prim']), 2), {}),
        'strongly_connected_components': lambda rng: (
            strongly_connected_components, (graph(rng), rng.choice(['kosaraju', 'tarjan'])), {}),
        'all_pair_shortest_paths': lambda rng: (
            all_pair_shortest_paths, (graph(rng), rng.choice(['floyd_warshall', 'johnson'])), {}),
        'topological_sort': lambda rng: (topological_sort, (graph(rng, dag=True), 'kahn'), {}),
        'topological_sort_parallel': lambda rng: (topological_sort_parallel, (graph(rng, dag=True), 'kahn', 2), {}),
        'max_flow': lambda rng: (max_flow, (graph(rng, dag=True), 'v0', 'v1', rng.choice(['edmonds_karp', 'dinic'])), {}),
        'MAryTreeNode': _node(U.MAryTreeNode, int, 5), 'LinkedListNode': _node(U.LinkedListNode, int, 5),
        'SkipNode': _node(U.SkipNode, int), 'BinomialTreeNode': _node(U.BinomialTreeNode, int, 5),
        'CartesianTreeNode': _node(U.CartesianTreeNode, int, 3, 5),
        'RedBlackTreeNode': _node(U.RedBlackTreeNode, int, 5), 'TrieNode': _node(U.TrieNode, 'c'),
        'Set': _node(U.Set, int),
    }
    # ... and those with a second backend
    B = {
        'quick_sort': _sort('quick_sort'), 'bubble_sort': _sort('bubble_sort'), 'selection_sort': _sort('selection_sort'),
        'insertion_sort': _sort('insertion_sort'), 'shell_sort': _sort('shell_sort'), 'radix_sort': _sort('radix_sort'),
        'linear_search': lambda rng: (LA.linear_search, (arr(rng), rng.randint(0, 50)), {}),
        'binary_search': lambda rng: (LA.binary_search, (ODA(int, [1, 3, 5]), rng.randint(0, 6)), {}),
        'jump_search': lambda rng: (LA.jump_search, (ODA(int, [1, 3, 5]), rng.randint(0, 6)), {}),
        'is_ordered': lambda rng: (LA.is_ordered, (arr(rng),), {}),
        'OneDimensionalArray': lambda rng: (ODA, (int, [1, rng.randint(0, 9)]), {}),
        'DynamicOneDimensionalArray': lambda rng: (DODA, (int, [1, rng.randint(0, 9)]), {}),
        'Stack': lambda rng: (Stack, (), {'items': ODA(int, [1, rng.randint(0, 9)])} if 0 else {}),
        'breadth_first_search': lambda rng: (breadth_first_search, (graph(rng), 'v0', op_true), {}),
        'minimum_spanning_tree': lambda rng: (minimum_spanning_tree, (graph(rng), rng.choice(['kruskal', 'prim'])), {}),
        'shortest_paths': lambda rng: (shortest_paths, (graph(rng), rng.choice(['dijkstra', 'bellman_ford']), 'v0'), {}),
        'BinaryTreeTraversal': lambda rng: (BinaryTreeTraversal, (_tree_for(rng),), {}),
        'BinarySearchTree': lambda rng: (BT.BinarySearchTree, (rng.randint(0, 9), 1), {}),
        'AVLTree': lambda rng: (BT.AVLTree, (rng.randint(0, 9), 1), {}),
        'RedBlackTree': lambda rng: (BT.RedBlackTree, (), {}),
        'SplayTree': lambda rng: (BT.SplayTree, (rng.randint(0, 9), 1), {}),
        'BinaryIndexedTree': lambda rng: (BinaryIndexedTree, ([1, rng.randint(0, 9)],), {}),
        'TreeNode': _node(U.TreeNode, int, 5),
        'AdjacencyListGraphNode': _node(U.AdjacencyListGraphNode, 'n', 5),
        'AdjacencyMatrixGraphNode': _node(U.AdjacencyMatrixGraphNode, 'n', 5),
        'GraphEdge': lambda rng: (U.GraphEdge, (U.AdjacencyListGraphNode('a'), U.AdjacencyListGraphNode('b'), 3), {}),
    }
    return R, B


def sc_backend(mon, rng, params):
    """A backend that has no implementation is refused, untouched arguments."""
    R, _ = requests()
    for name in rng.sample(sorted(R), 8):
        fn, args, kw = R[name](rng)
        before = seen(args)
        be = rng.choice([CPP, CPP, LLVM])
        mon.op('backend', name, str(be))
        mon.raises(ValueError, lambda: fn(*args, backend=be, **kw),
                   '%s claims to work with the %s backend' % (name, be), args=before)
        mon.eq(seen(args), before, 'a refused %s changed its arguments' % name)
        mon.ev('backend refused')
        mon.case(('backend', name, str(be), before))


def sc_default(mon, rng, params):
    """Naming the Python backend is the same as naming none."""
    import random
    R, B = requests()
    R.update(B)
    for name in rng.sample(sorted(R), 8):
        seed = rng.getrandbits(32)
        fn, args, kw = R[name](random.Random(seed))
        fn2, args2, kw2 = R[name](random.Random(seed))
        mon.op('default', name, seed)
        a = fn(*args, **kw)
        b = fn2(*args2, backend=PY, **kw2)
        mon.eq(seen(b), seen(a), '%s answers differently when the default backend is named' % name, args=seen(args))
        mon.eq(seen(args2), seen(args), '%s treats its arguments differently when the default backend is named' % name)
        mon.check(type(a) is type(b), '%s returns another type when the default backend is named' % name)
        mon.ev('default named')
        mon.case(('default', name, seed))


def sc_compiled(mon, rng, params):
    """Naming the C++ backend where there is one gives a compiled object."""
    k, vals = rng.randint(0, 9), [rng.randint(0, 9) for _ in range(rng.randint(1, 5))]
    be = {'backend': CPP}
    tree = BT.BinarySearchTree(**be)
    tree.insert(k, k)
    nodes = {'adjacency_list': U.AdjacencyListGraphNode, 'adjacency_matrix': U.AdjacencyMatrixGraphNode}
    impl = rng.choice(sorted(nodes))
    made = {
        'OneDimensionalArray': lambda: ODA(int, list(vals), **be),
        'DynamicOneDimensionalArray': lambda: DODA(int, list(vals), **be),
        'Stack': lambda: Stack(**be),
        'BinaryIndexedTree': lambda: BinaryIndexedTree(list(vals), **be),
        'BinaryTreeTraversal': lambda: BinaryTreeTraversal(tree, **be),
        'TreeNode': lambda: U.TreeNode(k, 5, **be),
        'AdjacencyListGraphNode': lambda: U.AdjacencyListGraphNode('n', k, **be),
        'AdjacencyMatrixGraphNode': lambda: U.AdjacencyMatrixGraphNode('n', k, **be),
        'GraphEdge': lambda: U.GraphEdge(nodes[impl]('a', **be), nodes[impl]('b', **be), k, **be),
        'Graph ' + impl: lambda: Graph(*[nodes[impl]('n%d' % i, **be) for i in range(rng.randint(1, 3))],
                                       implementation=impl, **be),
    }
    for name in ('BinarySearchTree', 'AVLTree', 'RedBlackTree', 'SplayTree', 'Treap', 'CartesianTree'):
        made[name] = lambda name=name: getattr(BT, name)(**be)
    for name in rng.sample(sorted(made), 6):
        mon.op('compiled', name)
        x = made[name]()
        mon.check(not type(x).__flags__ & (1 << 9), '%s is no compiled object though the C++ backend was named' % name,
                  got=type(x).__module__ + '.' + type(x).__qualname__)
        mon.ev('compiled backend named')
        mon.case(('compiled', name, k, tuple(vals), impl))


# names of algorithms, and things that are not
ALGS = ['kruskal', 'prim', 'kosaraju', 'tarjan', 'dijkstra', 'bellman_ford', 'floyd_warshall', 'johnson', 'kahn',
        'edmonds_karp', 'dinic', 'kmp', 'rabin_karp', 'boyer_moore', 'z_function', 'visit', 'assign', 'find_min',
        'build_kmp_table', 'do_match', 'hash_str', 'p_pow', 'z_vector', 'sort_edges', 'generate_mst_object', 'residual_edges']


def other_name(rng, known):
    r = rng.random()
    while True:
        if r < 0.5:
            n = rng.choice(ALGS)
        elif r < 0.7:
            n = rng.choice(known)
            i = rng.randrange(len(n))
            n = rng.choice([n.upper(), n[:i] + n[i + 1:], n + ' ', n.replace('_', '-'), n + 's', n.title()])
        else:
            n = ''.join(rng.choice('abckmp_') for _ in range(rng.randint(0, 8)))
        if n not in known:
            return n
        r = rng.random()


def sc_algorithm(mon, rng, params):
    impl = rng.choice(['adjacency_list', 'adjacency_list', 'adjacency_matrix'])
    be = rng.choice([PY, PY, CPP])
    g = graph(rng, impl, be, dag=rng.random() < 0.5)
    kw = {} if be is PY and rng.random() < 0.5 else {'backend': be}
    before = seen(g)
    threads = rng.randint(1, 3)
    T = {
        'minimum_spanning_tree': (['kruskal', 'prim'], lambda n: minimum_spanning_tree(g, n, **kw)),
        'shortest_paths': (['dijkstra', 'bellman_ford'], lambda n: shortest_paths(g, n, 'v0', **kw)),
    }
    if be is PY:
        T.update({
            'minimum_spanning_tree_parallel': (['kruskal', 'prim'], lambda n: minimum_spanning_tree_parallel(g, n, threads, **kw)),
            'strongly_connected_components': (['kosaraju', 'tarjan'], lambda n: strongly_connected_components(g, n, **kw)),
            'all_pair_shortest_paths': (['floyd_warshall', 'johnson'], lambda n: all_pair_shortest_paths(g, n, **kw)),
            'topological_sort': (['kahn'], lambda n: topological_sort(g, n, **kw)),
            'topological_sort_parallel': (['kahn'], lambda n: topological_sort_parallel(g, n, threads, **kw)),
            'max_flow': (['edmonds_karp', 'dinic'], lambda n: max_flow(g, 'v0', 'v1', n, **kw)),
            'find': (['kmp', 'knuth_morris_pratt', 'rabin_karp', 'boyer_moore', 'z_function'],
                     lambda n: find('abab', 'ab', n, **kw)),
        })
    for name in sorted(T):
        known, fn = T[name]
        for _ in range(2):
            n = other_name(rng, known)
            mon.op('algorithm', name, n, impl, str(be))
            mon.raises(NotImplementedError, lambda: fn(n), '%s answers for algorithm %r' % (name, n), impl=impl, backend=str(be))
            mon.ev('algorithm refused')
            mon.case(('algorithm', name, n, impl, str(be)))
    # algorithms that exist, but not for this backend or implementation
    missing = []
    if be is CPP:
        missing += [('minimum_spanning_tree', 'kruskal'), ('shortest_paths', 'bellman_ford')]
        if impl == 'adjacency_matrix':
            missing += [('minimum_spanning_tree', 'prim'), ('shortest_paths', 'dijkstra')]
    elif impl == 'adjacency_matrix':
        missing += [('minimum_spanning_tree', 'prim'), ('minimum_spanning_tree_parallel', 'prim'),
                    ('all_pair_shortest_paths', 'johnson'), ('topological_sort', 'kahn'),
                    ('topological_sort_parallel', 'kahn')]
    for name, n in missing:
        fn = T[name][1]
        try:
            r = fn(n)
        except NotImplementedError:
            mon.ev('combination refused')
        else:
            mon.check(r is not None, '%s silently answers nothing for %s' % (name, n), impl=impl, backend=str(be))
    mon.eq(seen(g), before, 'a refused request changed the graph')


ABSTRACT = [
    ('trees.m_ary_trees', 'MAryTree', [('insert', 2), ('delete', 1), ('search', 1), ('to_binary_tree', 0)]),
    ('linear_data_structures.linked_lists', 'LinkedList',
     [('insert_after', 2), ('insert_at', 2), ('extract', 1)]),
    ('graphs.graph', 'Graph',
     [('is_adjacent', 2), ('neighbors', 1), ('add_vertex', 1), ('remove_vertex', 1), ('add_edge', 2), ('get_edge', 2),
      ('remove_edge', 2), ('num_vertices', 0), ('num_edges', 0)]),
    ('miscellaneous_data_structures.queue', 'Queue', [('append', 1), ('appendleft', 1), ('pop', 0), ('popleft', 0)]),
    ('miscellaneous_data_structures.queue', 'PriorityQueue', [('push', 2), ('pop', 0)]),
    ('miscellaneous_data_structures.stack', 'Stack', [('push', 1), ('pop', 0)]),
    ('miscellaneous_data_structures.algorithms', 'RangeQueryStatic', [('query', 1)]),
    ('miscellaneous_data_structures.algorithms', 'RangeQueryDynamic', [('query', 1), ('update', 2)]),
]


def abstract_call(rng):
    import importlib
    module, cls, methods = rng.choice(ABSTRACT)
    cls = getattr(importlib.import_module('pydatastructs.' + module), cls)
    name, n = rng.choice(methods)
    return getattr(object.__new__(cls), name)(*[rng.choice([0, 1, 'v0', None]) for _ in range(n)])


def sc_arguments(mon, rng, params):
    """Constructors refuse what they cannot work with."""
    k = rng.randint(2, 9)
    junk = rng.choice(['text', 3.5, {1: 2}, object()])
    word = ''.join(rng.choice('abcxyz_') for _ in range(rng.randint(1, 9)))
    nodes = [TreeNode(i, i) for i in range(k)]
    a = arr(rng)
    be = rng.choice([PY, CPP])
    tree = rng.choice(['BinarySearchTree', 'AVLTree', 'SplayTree', 'RedBlackTree', 'CartesianTree', 'Treap', 'BinaryTree'])
    tcls = getattr(BT, tree)
    BTree = BinomialTree
    t = _tree_for(rng)
    lst = [rng.randint(0, 9) for _ in range(k)]
    gm = graph(rng, 'adjacency_matrix')
    gl = graph(rng, 'adjacency_list')
    q1 = Queue(rng.choice(['array', 'linked_list']), items=list(lst))
    dtree1, dtree2 = BTree(U.BinomialTreeNode(1, 1), 0), BTree(U.BinomialTreeNode(2, 2), 1)
    T = [
        ('array without a type', ValueError, lambda: ODA()),
        ('array without a size', ValueError, lambda: ODA(int)),
        ('array of too many arguments', ValueError, lambda: ODA(int, k, lst, 1)),
        ('array of a wrong size', ValueError, lambda: ODA(int, k + rng.choice([-1, 1, 2]), lst, backend=be)),
        ('array of junk', TypeError, lambda: ODA(int, junk)),
        ('array of a size and junk', TypeError, lambda: ODA(int, k, junk)),
        ('dynamic array without a type', ValueError, lambda: DODA()),
        ('dynamic array of a wrong size', ValueError, lambda: DODA(int, k + 1, lst)),
        ('multi dimensional array without a type', ValueError, lambda: MultiDimensionalArray()),
        ('multi dimensional array without a shape', ValueError, lambda: MultiDimensionalArray(int)),
        ('multi dimensional array with a dimension below one', ValueError,
         lambda: MultiDimensionalArray(int, *rng.choice([(0,), (k, 0), (0, k), (k, -1, 2), (2, k, 0)]))),
        ('stack implementation', NotImplementedError, lambda: Stack(word + '!', backend=be)),
        ('stack items', TypeError, lambda: Stack('linked_list', items=junk)),
        ('queue implementation', NotImplementedError, lambda: Queue(word + '!')),
        ('queue items', TypeError, lambda: Queue('linked_list', items=junk)),
        ('priority queue implementation', NotImplementedError, lambda: PriorityQueue(word + '!')),
        ('appendleft of a plain queue', NotImplementedError, lambda: q1.appendleft(1)),
        ('pop of a plain queue', NotImplementedError, lambda: q1.pop()),
        ('graph implementation', NotImplementedError, lambda: Graph(implementation=word + '!')),
        ('edge from an unknown vertex', ValueError, lambda: rng.choice([gm, gl]).add_edge('nowhere', 'v0')),
        ('edge to an unknown vertex', ValueError, lambda: rng.choice([gm, gl]).add_edge('v0', 'nowhere')),
        ('vertex for a matrix', NotImplementedError, lambda: gm.add_vertex(AdjacencyMatrixGraphNode('new'))),
        ('removal from a matrix', NotImplementedError, lambda: gm.remove_vertex('v0')),
        ('range query structure', NotImplementedError, lambda: RangeQueryStatic(a, minimum, word + '!')),
        ('dynamic range query structure', NotImplementedError, lambda: RangeQueryDynamic(a, minimum, word + '!')),
        ('range query of nothing', ValueError,
         lambda: RangeQueryStatic(ODA(int, []), minimum, rng.choice(['array', 'sparse_table']))),
        ('dynamic range query of nothing', ValueError,
         lambda: RangeQueryDynamic(ODA(int, []), minimum, rng.choice(['array', 'segment_tree']))),
        ('sparse table of nothing', ValueError, lambda: SparseTable(ODA(int, []), minimum)),
        ('segment tree dimensions', NotImplementedError,
         lambda: ArraySegmentTree(a, minimum, dimensions=rng.choice([0, 2, 3]))),
        ('intervals', ValueError, lambda: OneDimensionalSegmentTree(
            [(0, 1)] * rng.randint(0, 3) + [rng.choice([(1,), (1, 2, 3), 5, 'ab', ()])] + [(2, 3)] * rng.randint(0, 3))),
        ('heap property', ValueError, lambda: rng.choice([DHeap, BinaryHeap, TernaryHeap])(heap_property=word + '!')),
        ('heap of junk', ValueError, lambda: DHeap(rng.choice(['text', 3, {1: 2}, object()]))),
        ('heap of other elements', TypeError, lambda: DHeap(ODA(int, lst))),
        ('binomial heap of junk', TypeError, lambda: BinomialHeap(root_list=[dtree1, junk])),
        ('binomial tree root', TypeError, lambda: BTree(rng.choice(nodes), 0)),
        ('binomial tree order', TypeError, lambda: BTree(U.BinomialTreeNode(1, 1), rng.choice(['0', 1.5]))),
        ('binomial tree of another order', ValueError, lambda: dtree1.add_sub_tree(dtree2)),
        ('binomial tree joined with junk', TypeError, lambda: dtree1.add_sub_tree(junk)),
        ('binomial heap joined with junk', TypeError, lambda: BinomialHeap().merge(junk)),
        ('root data without a key', ValueError, lambda: tcls(None, rng.choice([5, 'x', 0.5, 0, '', False, 0.0]), backend=be)),
        ('root data without a key in an m-ary tree', ValueError,
         lambda: requests()[0]['MAryTree'](rng)[0](None, rng.choice([5, 0, '']))),
        ('traversal of something else', TypeError, lambda: BinaryTreeTraversal(junk)),
        ('traversal order', NotImplementedError, lambda: BinaryTreeTraversal(t).depth_first_search(order=word + '!')),
        ('traversal strategy', NotImplementedError, lambda: BinaryTreeTraversal(t).breadth_first_search(strategy=word + '!')),
        ('abstract insert', NotImplementedError, lambda: BT.BinaryTree(1, 1).insert(2, 2)),
        ('abstract delete', NotImplementedError, lambda: BT.BinaryTree(1, 1).delete(1)),
        ('abstract search', NotImplementedError, lambda: BT.BinaryTree(1, 1).search(1)),
        ('abstract method', NotImplementedError, lambda: abstract_call(rng)),
        ('binomial trees joined with junk', TypeError, lambda: BinomialHeap().merge_tree(dtree1, junk)),
        ('matrices that do not fit', ValueError, lambda: LA.matrix_multiply_parallel([[1] * k], [[1]] * (k + 1), 2)),
    ]
    view = lambda: [seen(x) for x in (a, gm, gl, str(t), str(q1), lst, len(dtree1.root.children), dtree1.order)]
    before = view()
    for what, exc, fn in rng.sample(T, 12):
        mon.op('arguments', what)
        mon.raises(exc, fn, what)
        mon.ev('arguments refused')
        mon.case((what, k, word, repr(lst), str(be), tree, type(junk).__name__))
    mon.eq(view(), before, 'a refused request changed something')


SCENARIOS = {
    'backends': dict(fn=sc_backend, quick=900, thorough=20000),
    'default backend': dict(fn=sc_default, quick=1200, thorough=30000),
    'compiled backend': dict(fn=sc_compiled, quick=300, thorough=4000),
    'algorithms': dict(fn=sc_algorithm, quick=1500, thorough=30000),
    'arguments': dict(fn=sc_arguments, quick=1500, thorough=30000),
}
REQUIRED = ['compiled backend named', 'backend refused', 'default named', 'algorithm refused', 'combination refused', 'arguments refused']
