"""Costs: the number of steps (loop iterations and calls of the package's own
Python code, counted by the interpreter) stays within the growth class that
makes each structure or algorithm what it is."""
import math
from .common import *   # noqa

ID = 'P39'
RULE = 'distinct (operation, size, shape of the input, seed) tuples'

if LIVE:
    from pydatastructs import *          # noqa
    from pydatastructs.linear_data_structures import algorithms as LA
    from pydatastructs.utils import misc_util as U
    from pydatastructs.utils.misc_util import minimum, summation
    from pydatastructs.trees import binary_trees as BT


def lg(n):
    return math.log2(n + 2)


SHAPES = ['random', 'up', 'down', 'equal', 'two', 'pipe', 'saw', 'nearly']


def shaped(rng, n, shape):
    if shape == 'up':
        return list(range(n))
    if shape == 'down':
        return list(range(n))[::-1]
    if shape == 'equal':
        return [7] * n
    if shape == 'two':
        return [rng.randint(0, 1) for _ in range(n)]
    if shape == 'pipe':
        return list(range((n + 1) // 2)) + list(range(n // 2))[::-1]
    if shape == 'saw':
        return [i % 7 for i in range(n)]
    if shape == 'nearly':
        v = list(range(n))
        for _ in range(3):
            i, j = rng.randrange(n), rng.randrange(n)
            v[i], v[j] = v[j], v[i]
        return v
    return rng.sample(range(4 * n), n)


# ---- operations: name -> fn(rng, n) yielding (label, thunk, units) ----------
# units is the cost in the growth class; the limit is C[name] * units

def _sorts(name, unit, *more):
    def gen(rng, n):
        shape = rng.choice(SHAPES)
        vals = shaped(rng, n, shape)
        a = rng.choice([ODA, DODA])(int, vals)
        yield shape, (lambda: getattr(LA, name)(a, *more)), unit(n, vals)
    return gen


def nlogn(n, vals):
    return n * lg(n) + 20


def square(n, vals):
    return n * n + 20


def op_counting(rng, n):
    k = rng.choice([10, n, 5 * n])
    a = ODA(int, [rng.randint(0, k) for _ in range(n)])
    yield k, (lambda: LA.counting_sort(a)), n + k + 20


def op_radix(rng, n):
    k = rng.choice([9, 999, 10 ** 6])
    vals = [rng.randint(0, k) for _ in range(n)]
    a = ODA(int, vals)
    yield k, (lambda: LA.radix_sort(a)), (n + 20) * len(str(k))


def op_searches(rng, n):
    vals = sorted(shaped(rng, n, rng.choice(SHAPES)))
    a = rng.choice([ODA, DODA])(int, vals)
    for k in [rng.choice(vals), vals[0], vals[-1], -1, 10 ** 6]:
        yield 'binary', (lambda: LA.binary_search(a, k)), lg(n)
        yield 'lower', (lambda: LA.lower_bound(a, k)), lg(n)
        yield 'upper', (lambda: LA.upper_bound(a, k)), lg(n)


def op_jump(rng, n):
    vals = sorted(shaped(rng, n, rng.choice(SHAPES)))
    a = ODA(int, vals)
    for k in [rng.choice(vals), vals[0], vals[-1], -1, 10 ** 6]:
        yield 'jump', (lambda: LA.jump_search(a, k)), math.sqrt(n) + 5


def op_linear(rng, n):
    shape = rng.choice(SHAPES)
    a = ODA(int, shaped(rng, n, shape))
    yield 'search', (lambda: LA.linear_search(a, -5)), n + 5
    yield 'ordered', (lambda: LA.is_ordered(a)), n + 5
    yield 'next', (lambda: LA.next_permutation(a)), n + 5
    yield 'prev', (lambda: LA.prev_permutation(a)), n + 5


def op_lis(rng, n):
    a = ODA(int, shaped(rng, n, rng.choice(SHAPES)))
    yield 'lis', (lambda: LA.longest_increasing_subsequence(a)), n * n / 8.0 + n * lg(n)


def op_lcs(rng, n):
    n = min(n, 120)
    m = rng.choice([5, n])
    a, b = ODA(int, shaped(rng, n, rng.choice(SHAPES))), ODA(int, shaped(rng, m, rng.choice(SHAPES)))
    yield 'lcs', (lambda: LA.longest_common_subsequence(a, b)), n * m + n + m


def op_dynamic(rng, n):
    a = DODA(int, rng.choice([0, 0, 4]))
    yield 'appends', (lambda: [a.append(i) for i in range(n)]), n
    order = rng.sample(range(n), n)
    if rng.random() < 0.5:
        order = list(range(n))[::rng.choice([1, -1])]
    yield 'deletes', (lambda: [a.delete(i) for i in order]), n
    yield 'mixed', (lambda: [(a.append(i), a.delete(a._last_pos_filled if i % 3 else 0)) for i in range(n)]), n


def op_ends(rng, n):
    """Stacks, queues and the ends of linked lists."""
    for name, s in (('array', Stack()), ('linked', Stack('linked_list'))):
        yield 'push ' + name, (lambda: [s.push(i) for i in range(n)]), n
        yield 'pop ' + name, (lambda: [s.pop() for i in range(n)]), n
    for name, q in (('array', Queue()), ('linked', Queue('linked_list'))):
        yield 'append ' + name, (lambda: [q.append(i) for i in range(n)]), n
        yield 'popleft ' + name, (lambda: [q.popleft() for i in range(n)]), n
        yield 'rotate ' + name, (lambda: [(q.append(i), q.append(i), q.popleft()) for i in range(n)]), n
    for cls in (SinglyLinkedList, DoublyLinkedList, SinglyCircularLinkedList, DoublyCircularLinkedList):
        l = cls()
        slow = n / 30.0 + 1 if 'Circular' in cls.__name__ else 1
        yield 'append ' + cls.__name__, (lambda: [l.append(i) for i in range(n)]), n * slow
        yield 'appendleft ' + cls.__name__, (lambda: [l.appendleft(i) for i in range(n)]), n
        yield 'popleft ' + cls.__name__, (lambda: [l.popleft() for i in range(n)]), n


def op_skip(rng, n):
    l = SkipList()
    keys = shaped(rng, n, rng.choice(['random', 'up', 'down']))
    yield 'insert', (lambda: [l.insert(k, k) for k in keys]), n * lg(n)
    yield 'search', (lambda: [l.search(k) for k in keys]), n * lg(n)
    yield 'extract', (lambda: [l.extract(k) for k in keys]), n * lg(n)


def _tree(name, ops):
    def gen(rng, n):
        ostat = rng.random() < 0.3 and name == 'AVLTree'
        t = getattr(BT, name)(is_order_statistic=ostat)
        keys = shaped(rng, n, rng.choice(['random', 'up', 'down', 'pipe']))
        keys = list(dict.fromkeys(keys))
        n = len(keys)
        order = rng.choice([keys, keys[::-1], rng.sample(keys, n)])
        if name == 'CartesianTree':
            yield 'insert', (lambda: [t.insert(k, rng.random(), k) for k in keys]), n * lg(n)
        else:
            yield 'insert', (lambda: [t.insert(k, k) for k in keys]), n * lg(n)
        if name != 'SplayTree':
            yield 'search', (lambda: [t.search(k) for k in order]), n * lg(n)
            yield 'search absent', (lambda: [t.search(k + 0.5) for k in order]), n * lg(n)
        if 'bound' in ops:
            yield 'lower', (lambda: [t.lower_bound(k) for k in order]), n * lg(n)
            yield 'upper', (lambda: [t.upper_bound(k) for k in order]), n * lg(n)
            yield 'lca', (lambda: [t.lowest_common_ancestor(order[0], k) for k in order[:20]]), 20 * (n + 20)
        if ostat:
            yield 'select', (lambda: [t.select(i + 1) for i in range(n)]), n * lg(n)
            yield 'rank', (lambda: [t.rank(k) for k in order]), n * lg(n)
        tr = BinaryTreeTraversal(t)
        for o in ('in_order', 'pre_order', 'post_order', 'out_order'):
            yield o, (lambda: tr.depth_first_search(order=o)), n
        yield 'breadth', (lambda: tr.breadth_first_search()), n
        yield 'delete', (lambda: [t.delete(k) for k in order]), n * lg(n)
    return gen


def op_sort_small(rng, n):
    n = min(n, 120)
    for name in ('bubble_sort', 'selection_sort', 'insertion_sort', 'quick_sort', 'shell_sort', 'cocktail_shaker_sort',
                 'brick_sort', 'bucket_sort'):
        a = ODA(int, shaped(rng, n, rng.choice(SHAPES)))
        yield name, (lambda: getattr(LA, name)(a)), square(n, a)


def op_lists(rng, n):
    for cls in (SinglyLinkedList, DoublyLinkedList, SinglyCircularLinkedList, DoublyCircularLinkedList):
        l = cls()
        for i in range(n):
            l.appendleft(i)
        at = [rng.randrange(n) for _ in range(10)]
        yield 'read ' + cls.__name__, (lambda: [l[i] for i in at]), 10 * n
        yield 'search ' + cls.__name__, (lambda: l.search(-1)), n
        yield 'insert ' + cls.__name__, (lambda: [l.insert_at(i, 0) for i in at]), 10 * n
        yield 'extract ' + cls.__name__, (lambda: [l.extract(i) for i in at]), 10 * n
        node = l.head
        yield 'after ' + cls.__name__, (lambda: [l.insert_after(node, 1) for i in range(n)]), n
        if 'Doubly' in cls.__name__:
            node = l.head.next
            yield 'before ' + cls.__name__, (lambda: [l.insert_before(node, 1) for i in range(n)]), n
        yield 'show ' + cls.__name__, (lambda: str(l)), 2 * n


def _cpp_tree(name):
    """Calls of the comparator are what can be counted in the C++ backend."""
    def gen(rng, n):
        calls = [0]

        def comp(a, b):
            calls[0] += 1
            return a < b
        t = getattr(BT, name)(comp=comp, backend=CPP)
        keys = list(dict.fromkeys(shaped(rng, n, rng.choice(['random', 'up', 'down', 'pipe']))))
        n = len(keys)
        order = rng.choice([keys, keys[::-1], rng.sample(keys, n)])

        def counted(fn):
            def run():
                before = calls[0]
                fn()
                return calls[0] - before
            return run
        if name == 'CartesianTree':
            yield 'insert', counted(lambda: [t.insert(k, rng.random(), k) for k in keys]), n * lg(n), True
        else:
            yield 'insert', counted(lambda: [t.insert(k, k) for k in keys]), n * lg(n), True
        if name != 'SplayTree':
            yield 'search', counted(lambda: [t.search(k) for k in order]), n * lg(n), True
            yield 'lower', counted(lambda: [t.lower_bound(k) for k in order]), n * lg(n), True
            yield 'upper', counted(lambda: [t.upper_bound(k) for k in order]), n * lg(n), True
        yield 'delete', counted(lambda: [t.delete(k) for k in order]), n * lg(n), True
    return gen


def op_bit(rng, n):
    t = BinaryIndexedTree(shaped(rng, n, rng.choice(SHAPES)))
    at = [rng.randrange(n) for _ in range(20)] + [0, n - 1]
    yield 'update', (lambda: [t.update(i, 5) for i in at]), len(at) * lg(n)
    yield 'prefix', (lambda: [t.get_prefix_sum(i) for i in at]), len(at) * lg(n)
    yield 'sum', (lambda: [t.get_sum(i // 2, i) for i in at]), len(at) * lg(n)


def op_heap(rng, n):
    d = rng.choice([2, 3, 4, 8])
    keys = shaped(rng, n, rng.choice(SHAPES))
    cls = {2: BinaryHeap, 3: TernaryHeap}.get(d, lambda *a, **k: DHeap(*a, d=d, **k))
    prop = rng.choice(['min', 'max'])
    h = cls(heap_property=prop)
    yield 'insert', (lambda: [h.insert(k, k) for k in keys]), n * lg(n)
    yield 'extract', (lambda: [h.extract() for k in keys]), n * lg(n) * d
    nodes = [TreeNode(k, k) for k in keys]
    yield 'build', (lambda: cls(nodes, heap_property=prop)), n * d


def op_binomial(rng, n):
    keys = shaped(rng, n, rng.choice(SHAPES))
    h = BinomialHeap()
    yield 'insert', (lambda: [h.insert(k, k) for k in keys]), n * lg(n)
    yield 'minimum', (lambda: [h.find_minimum() for k in range(20)]), 20 * lg(n)
    g = BinomialHeap()
    for k in keys:
        g.insert(k, k)
    yield 'merge', (lambda: h.merge(g)), lg(n)
    yield 'delete minimum', (lambda: [h.delete_minimum() for k in keys]), n * lg(n)


def op_priority(rng, n):
    keys = shaped(rng, n, rng.choice(SHAPES))
    for impl in ('binary_heap', 'binomial_heap'):
        q = PriorityQueue(impl)
        yield 'push ' + impl, (lambda: [q.push(k, k) for k in keys]), n * lg(n)
        yield 'pop ' + impl, (lambda: [q.pop() for k in keys]), n * lg(n)


def op_disjoint(rng, n):
    f = DisjointSetForest()
    yield 'make', (lambda: [f.make_set(i) for i in range(n)]), n
    how = rng.choice(['chain', 'back chain', 'random', 'pairs'])
    if how == 'chain':
        us = [(i, i + 1) for i in range(n - 1)]
    elif how == 'back chain':
        us = [(i + 1, i) for i in range(n - 1)][::-1]
    elif how == 'random':
        us = [(rng.randrange(n), rng.randrange(n)) for _ in range(2 * n)]
    else:
        us, w = [], 1
        while w < n:
            us += [(i, i + w) for i in range(0, n - w, 2 * w)]
            w *= 2
    yield 'union', (lambda: [f.union(a, b) for a, b in us]), n * lg(lg(n))
    for _ in range(2):
        at = [rng.randrange(n) for _ in range(n)]
        yield 'find', (lambda: [f.find_root(i) for i in at]), n * lg(lg(n))


def op_range(rng, n):
    vals = shaped(rng, n, rng.choice(SHAPES))
    a = ODA(int, vals)
    qs = []
    for _ in range(20):
        x, y = sorted((rng.randrange(n), rng.randrange(n)))
        qs.append((x, y))
    qs += [(0, n - 1), (0, 0), (n - 1, n - 1)]
    yield 'sparse build', (lambda: SparseTable(a, minimum)), n * lg(n)
    s = SparseTable(a, minimum)
    yield 'sparse query', (lambda: [s.query(*q) for q in qs]), len(qs) * lg(n)
    t = ArraySegmentTree(a, summation)
    yield 'segment build', (lambda: t.build()), n
    yield 'segment query', (lambda: [t.query(*q) for q in qs]), len(qs) * lg(n)
    yield 'segment update', (lambda: [t.update(x, 3) for x, _ in qs]), len(qs) * lg(n)
    r = RangeQueryStatic(a, minimum)
    yield 'static query', (lambda: [r.query(*q) for q in qs]), len(qs) * lg(n)
    d = RangeQueryDynamic(a, minimum)
    d.query(0, 0)
    yield 'dynamic query', (lambda: [d.query(*q) for q in qs]), len(qs) * lg(n)
    yield 'dynamic update', (lambda: [d.update(x, 3) for x, _ in qs]), len(qs) * lg(n)


def op_intervals(rng, n):
    segs = []
    for i in range(n):
        x = rng.randint(0, 4 * n)
        segs.append((x, x + rng.randint(1, rng.choice([3, n]))))
    t = OneDimensionalSegmentTree(segs)
    yield 'build', (lambda: t.build()), n * lg(n)
    for _ in range(5):
        q = rng.uniform(0, 5 * n)
        k = sum(1 for x, y in segs if x <= q <= y)
        yield 'query', (lambda: t.query(q)), lg(n) + k


def op_trie(rng, n):
    t = Trie()
    words = [''.join(rng.choice('ab') for _ in range(rng.randint(1, 12))) for _ in range(n)]
    total = sum(map(len, words)) + n
    yield 'insert', (lambda: [t.insert(w) for w in words]), total
    yield 'member', (lambda: [t.is_inserted(w) for w in words]), total
    yield 'prefix', (lambda: [t.is_present(w) for w in words]), total
    yield 'strings', (lambda: [t.strings_with_prefix(w) for w in words[:3]]), total
    yield 'delete', (lambda: [t.delete(w) for w in words]), total


def op_strings(rng, n):
    how = rng.randrange(5)
    text = {0: 'a' * n, 1: 'ab' * (n // 2), 2: ''.join(rng.choice('ab') for _ in range(n)),
            3: ('a' * 9 + 'b') * (n // 10 + 1), 4: ''.join(rng.choice('abcdefgh') for _ in range(n))}[how]
    m = rng.choice([1, 3, 10, n // 4 + 1, n // 2 + 1])
    i = rng.randint(0, len(text) - min(m, len(text)))
    query = text[i:i + m]
    if rng.random() < 0.4:
        query = query[:-1] + 'b'
    if rng.random() < 0.2:
        query = 'b' + 'a' * (m - 1)
    for a in ('kmp', 'z_function'):
        yield a, (lambda: find(text, query, a)), len(text) + len(query) + 20
    found = sum(text.startswith(query, i) for i in range(len(text)))
    yield 'rabin_karp', (lambda: find(text, query, 'rabin_karp')), len(text) + len(query) * (found + 1) + 20


def _graph(rng, n, m, weights=False, undirected=False, dag=False, impl='adjacency_list', backend=None):
    kw = {} if backend is None else {'backend': backend}
    cls = AdjacencyListGraphNode if impl == 'adjacency_list' else AdjacencyMatrixGraphNode
    g = Graph(*[cls('v%d' % i, **kw) for i in range(n)], implementation=impl, **kw)
    shape = rng.choice(['random', 'path', 'star', 'grid', 'layers'])
    pairs = set()
    if shape == 'path':
        pairs |= {(i, i + 1) for i in range(n - 1)}
    elif shape == 'star':
        pairs |= {(0, i) for i in range(1, n)}
    elif shape == 'grid':
        w = max(1, int(math.sqrt(n)))
        pairs |= {(i, i + 1) for i in range(n - 1) if (i + 1) % w} | {(i, i + w) for i in range(n - w)}
    elif shape == 'layers':
        w = 6
        pairs |= {(i, j) for i in range(n) for j in range((i // w + 1) * w, min(n, (i // w + 2) * w))}
    while len(pairs) < m and n > 2:
        a, b = rng.randrange(n), rng.randrange(n)
        if a < b or (a != b and not dag and not undirected):
            pairs.add((a, b))
    if undirected:
        pairs |= {(i, i + 1) for i in range(n - 1)}
    pairs = sorted(pairs)
    rng.shuffle(pairs)
    for a, b in pairs:
        w = rng.randint(1, 50)
        g.add_edge('v%d' % a, 'v%d' % b, w)
        if undirected:
            g.add_edge('v%d' % b, 'v%d' % a, w)
    return g, n, len(pairs) * (2 if undirected else 1), shape


def op_walks(rng, n):
    n = min(n, 900)
    g, n, m, shape = _graph(rng, n, rng.choice([n, 2 * n, 4 * n]))
    op = lambda u, v: True
    yield 'bfs ' + shape, (lambda: breadth_first_search(g, 'v0', op)), n + m
    yield 'dfs ' + shape, (lambda: depth_first_search(g, 'v0', op)), n + m
    yield 'pbfs ' + shape, (lambda: breadth_first_search_parallel(g, 'v0', 2, op)), n + m
    yield 'kosaraju ' + shape, (lambda: strongly_connected_components(g, 'kosaraju')), n + m
    if n <= 300:
        yield 'tarjan ' + shape, (lambda: strongly_connected_components(g, 'tarjan')), n + m
        yield 'bridges ' + shape, (lambda: find_bridges(g)), n + m
    yield 'dijkstra ' + shape, (lambda: shortest_paths(g, 'dijkstra', 'v0')), n * n + m * lg(n)


def op_kahn(rng, n):
    n = min(n, 900)
    g, n, m, shape = _graph(rng, n, rng.choice([n, 2 * n, 4 * n]), dag=True)
    yield 'kahn ' + shape, (lambda: topological_sort(g, 'kahn')), n + m
    yield 'parallel kahn ' + shape, (lambda: topological_sort_parallel(g, 'kahn', 2)), n * n / 4.0 + m


def op_mst(rng, n):
    n = min(n, 400)
    g, n, m, shape = _graph(rng, n, rng.choice([n, 2 * n, 4 * n]), undirected=True)
    yield 'kruskal', (lambda: minimum_spanning_tree(g, 'kruskal')), (n + m) * lg(n)
    yield 'prim', (lambda: minimum_spanning_tree(g, 'prim')), (n + m) * lg(n)
    yield 'parallel kruskal', (lambda: minimum_spanning_tree_parallel(g, 'kruskal', 2)), (n + m) * lg(n)


def op_paths(rng, n):
    n = min(n, 60)
    g, n, m, shape = _graph(rng, n, rng.choice([n, 2 * n]))
    yield 'bellman_ford', (lambda: shortest_paths(g, 'bellman_ford', 'v0')), n * m + n
    yield 'floyd_warshall', (lambda: all_pair_shortest_paths(g, 'floyd_warshall')), n ** 3
    yield 'johnson', (lambda: all_pair_shortest_paths(g, 'johnson')), n * (n + m) * lg(n) + n * m


def op_flow(rng, n):
    n = min(n, 60)
    g, n, m, shape = _graph(rng, n, rng.choice([n, 2 * n]), dag=True)
    s, t = 'v0', 'v%d' % (n - 1)
    yield 'edmonds_karp', (lambda: max_flow(g, s, t, 'edmonds_karp')), n * m * (m + n)
    yield 'dinic', (lambda: max_flow(g, s, t, 'dinic')), n * n * m


OPS = {
    'merge_sort_parallel': _sorts('merge_sort_parallel', nlogn, 2), 'heapsort': _sorts('heapsort', nlogn),
    'intro_sort': _sorts('intro_sort', nlogn),
    'counting_sort': op_counting, 'radix_sort': op_radix, 'searches': op_searches, 'jump_search': op_jump,
    'linear scans': op_linear, 'increasing subsequence': op_lis, 'common subsequence': op_lcs,
    'dynamic array': op_dynamic, 'ends': op_ends, 'skip list': op_skip,
    'AVLTree': _tree('AVLTree', ['bound']), 'RedBlackTree': _tree('RedBlackTree', ['bound']),
    'Treap': _tree('Treap', ['bound']), 'SplayTree': _tree('SplayTree', []), 'CartesianTree': _tree('CartesianTree', []),
    'binary indexed tree': op_bit, 'heap': op_heap, 'binomial heap': op_binomial, 'priority queue': op_priority,
    'disjoint sets': op_disjoint, 'range queries': op_range, 'intervals': op_intervals, 'trie': op_trie,
    'string matching': op_strings, 'graph walks': op_walks, 'topological order': op_kahn, 'spanning trees': op_mst,
    'shortest paths': op_paths, 'flows': op_flow, 'quadratic sorts': op_sort_small, 'linked lists': op_lists,
}
OPS.update({'C++ ' + n: _cpp_tree(n) for n in ('AVLTree', 'RedBlackTree', 'Treap', 'SplayTree', 'CartesianTree')})

# ---- compiled code: basic blocks executed, counted by the instrumented build -

STEPS = [None]


def _blocks(fn):
    def run():
        before = STEPS[0].blocks
        fn()
        return STEPS[0].blocks - before
    return run


def cc_sorts(rng, n):
    n = min(n, 240)
    for name in ('bubble_sort', 'selection_sort', 'insertion_sort', 'quick_sort'):
        a = rng.choice([ODA, DODA])(int, shaped(rng, n, rng.choice(SHAPES)), backend=CPP)
        yield name, _blocks(lambda: getattr(LA, name)(a, backend=CPP)), square(n, a), True


def cc_searches(rng, n):
    n *= 4
    vals = sorted(shaped(rng, n, rng.choice(SHAPES)))
    a = rng.choice([ODA, DODA])(int, vals, backend=CPP)
    for k in [rng.choice(vals), vals[0], vals[-1], -1, vals[n // 2], 10 ** 6]:
        yield 'binary', _blocks(lambda: LA.binary_search(a, k, backend=CPP)), lg(n), True
        yield 'jump', _blocks(lambda: LA.jump_search(a, k, backend=CPP)), math.sqrt(n) + 5, True
        yield 'linear', _blocks(lambda: LA.linear_search(a, k, backend=CPP)), n + 5, True
    yield 'ordered', _blocks(lambda: LA.is_ordered(a, backend=CPP)), n + 5, True


def cc_dynamic(rng, n):
    n *= 4
    a = DODA(int, rng.choice([0, 0, 4]), backend=CPP)
    yield 'appends', _blocks(lambda: [a.append(i) for i in range(n)]), n, True
    at = [rng.randrange(n) for _ in range(n)]
    yield 'reads', _blocks(lambda: [a[i] for i in at]), n, True
    yield 'writes', _blocks(lambda: [a.__setitem__(i, i) for i in at]), n, True
    order = rng.sample(range(n), n)
    if rng.random() < 0.5:
        order = list(range(n))[::rng.choice([1, -1])]
    yield 'deletes', _blocks(lambda: [a.delete(i) for i in order]), n, True
    yield 'mixed', _blocks(lambda: [(a.append(i), a.delete(a._last_pos_filled if i % 3 else 0)) for i in range(n)]), n, True
    f = ODA(int, list(range(n)), backend=CPP)
    yield 'fixed reads', _blocks(lambda: [f[i] for i in at]), n, True
    yield 'fixed writes', _blocks(lambda: [f.__setitem__(i, i) for i in at]), n, True


def cc_stack(rng, n):
    n *= 4
    s = Stack(backend=CPP)
    yield 'push', _blocks(lambda: [s.push(i) for i in range(n)]), n, True
    yield 'peek', _blocks(lambda: [s.peek for i in range(n)]), n, True
    yield 'pop', _blocks(lambda: [s.pop() for i in range(n)]), n, True
    yield 'pairs', _blocks(lambda: [(s.push(i), s.push(i), s.pop()) for i in range(n)]), n, True


def _cc_tree(name):
    def gen(rng, n):
        ostat = rng.random() < 0.3 and name == 'AVLTree'
        t = getattr(BT, name)(is_order_statistic=ostat, backend=CPP)
        keys = list(dict.fromkeys(shaped(rng, n, rng.choice(['random', 'up', 'down', 'pipe']))))
        n = len(keys)
        order = rng.choice([keys, keys[::-1], rng.sample(keys, n)])
        if name == 'CartesianTree':
            yield 'insert', _blocks(lambda: [t.insert(k, rng.random(), k) for k in keys]), n * lg(n), True
        else:
            yield 'insert', _blocks(lambda: [t.insert(k, k) for k in keys]), n * lg(n), True
        if name != 'SplayTree':
            yield 'search', _blocks(lambda: [t.search(k) for k in order]), n * lg(n), True
            yield 'search absent', _blocks(lambda: [t.search(k + 0.5) for k in order]), n * lg(n), True
            yield 'lower', _blocks(lambda: [t.lower_bound(k) for k in order]), n * lg(n), True
            yield 'upper', _blocks(lambda: [t.upper_bound(k) for k in order]), n * lg(n), True
            yield 'lca', _blocks(lambda: [t.lowest_common_ancestor(order[0], k) for k in order[:20]]), 20 * (n + 20), True
        if ostat:
            yield 'select', _blocks(lambda: [t.select(i + 1) for i in range(n)]), n * lg(n), True
            yield 'rank', _blocks(lambda: [t.rank(k) for k in order]), n * lg(n), True
        tr = BinaryTreeTraversal(t, backend=CPP)
        for o in ('in_order', 'pre_order', 'post_order', 'out_order'):
            yield o, _blocks(lambda: tr.depth_first_search(order=o)), n, True
        yield 'breadth', _blocks(lambda: tr.breadth_first_search()), n, True
        yield 'delete', _blocks(lambda: [t.delete(k) for k in order]), n * lg(n), True
    return gen


def cc_bit(rng, n):
    n *= 4
    t = BinaryIndexedTree(shaped(rng, n, rng.choice(SHAPES)), backend=CPP)
    at = [rng.randrange(n) for _ in range(20)] + [0, n - 1]
    yield 'update', _blocks(lambda: [t.update(i, 5) for i in at]), len(at) * lg(n), True
    yield 'prefix', _blocks(lambda: [t.get_prefix_sum(i) for i in at]), len(at) * lg(n), True
    yield 'sum', _blocks(lambda: [t.get_sum(i // 2, i) for i in at]), len(at) * lg(n), True
    vals = shaped(rng, n, 'random')
    yield 'build', _blocks(lambda: BinaryIndexedTree(vals, backend=CPP)), n * lg(n), True


def cc_graphs(rng, n):
    impl = rng.choice(['adjacency_list', 'adjacency_matrix'])
    short = impl[10:]
    n = min(2 * n, 900)
    g, n, m, shape = _graph(rng, n, rng.choice([n, 2 * n, 4 * n]), impl=impl, backend=CPP,
                            undirected=rng.random() < 0.3)
    op = lambda *a: True
    yield 'bfs ' + short, _blocks(lambda: breadth_first_search(g, 'v0', op, backend=CPP)), n + m + 60, True
    if short == 'list':
        yield 'dijkstra', _blocks(lambda: shortest_paths(g, 'dijkstra', 'v0', backend=CPP)), (n + m + 60) * lg(n), True
        yield 'prim', _blocks(lambda: minimum_spanning_tree(g, 'prim', backend=CPP)), (n + m + 60) * lg(n), True
    deg = max(len(g.neighbors('v%d' % i)) for i in range(n)) + 1
    pairs = [(rng.randrange(n), rng.randrange(n)) for _ in range(50)]
    pairs = [('v%d' % a, 'v%d' % b) for a, b in pairs if a != b]
    yield 'get_edge ' + short, _blocks(lambda: [g.get_edge(a, b) for a, b in pairs]), 50 * (deg + 2), True
    yield 'is_adjacent ' + short, _blocks(lambda: [g.is_adjacent(a, b) for a, b in pairs]), 50 * (deg + 2), True
    yield 'neighbors ' + short, _blocks(lambda: [g.neighbors(a) for a, b in pairs]), 50 * (deg + 2), True
    yield 'add_edge ' + short, _blocks(lambda: [g.add_edge(a, b, 3) for a, b in pairs]), 50 * (deg + 2), True
    yield 'remove_edge ' + short, _blocks(lambda: [g.remove_edge(a, b) for a, b in pairs]), 50 * (deg + 2), True


COMPILED = {'compiled sorts': cc_sorts, 'compiled searches': cc_searches, 'compiled arrays': cc_dynamic,
            'compiled stack': cc_stack, 'compiled Fenwick tree': cc_bit, 'compiled graphs': cc_graphs}
COMPILED.update({'compiled ' + n: _cc_tree(n) for n in ('AVLTree', 'RedBlackTree', 'Treap', 'SplayTree', 'CartesianTree')})

# steps per unit seen on the tree as it is; a check allows SLACK times as many
SEEN = {
    'AVLTree': {
        'breadth': 5, 'delete': 36.2, 'in_order': 25.3, 'insert': 57.3, 'lca': 41.1, 'lower': 3.66,
        'out_order': 25.4, 'post_order': 35.2, 'pre_order': 24.3, 'rank': 10.1, 'search': 4.38,
        'search absent': 5.3, 'select': 7.9, 'upper': 4.12,
    },
    'C++ AVLTree': {
        'delete': 1.55, 'insert': 2.74, 'lower': 0.84, 'search': 0.84, 'upper': 0.94,
    },
    'C++ CartesianTree': {
        'delete': 2.35, 'insert': 5.08, 'lower': 1.35, 'search': 1.35, 'upper': 1.44,
    },
    'C++ RedBlackTree': {
        'delete': 0.78, 'insert': 5.93, 'lower': 0.85, 'search': 0.85, 'upper': 0.94,
    },
    'C++ SplayTree': {
        'delete': 1.06, 'insert': 3.5,
    },
    'C++ Treap': {
        'delete': 2.1, 'insert': 4.69, 'lower': 1.45, 'search': 1.45, 'upper': 1.61,
    },
    'CartesianTree': {
        'breadth': 5, 'delete': 22.4, 'in_order': 25.6, 'insert': 31.4, 'out_order': 25.6, 'post_order': 38.2,
        'pre_order': 23.7, 'search': 6.34, 'search absent': 7.47,
    },
    'RedBlackTree': {
        'breadth': 5, 'delete': 21.9, 'in_order': 26.1, 'insert': 40.9, 'lca': 41.3, 'lower': 3.77,
        'out_order': 26.1, 'post_order': 37.6, 'pre_order': 25, 'search': 4.52, 'search absent': 5.71,
        'upper': 4.38,
    },
    'SplayTree': {
        'breadth': 5, 'delete': 29.4, 'in_order': 32.2, 'insert': 38.7, 'out_order': 32.2, 'post_order': 44.2,
        'pre_order': 22.7,
    },
    'Treap': {
        'breadth': 5, 'delete': 19.8, 'in_order': 26.7, 'insert': 31.3, 'lca': 39.9, 'lower': 5.31,
        'out_order': 26.8, 'post_order': 37.7, 'pre_order': 23.9, 'search': 6.38, 'search absent': 7.5,
        'upper': 5.84,
    },
    'binary indexed tree': {
        'prefix': 0.56, 'sum': 1.16, 'update': 1.4,
    },
    'binomial heap': {
        'delete minimum': 20.8, 'insert': 6.58, 'merge': 15, 'minimum': 1.2,
    },
    'common subsequence': {
        'lcs': 4.51,
    },
    'compiled AVLTree': {
        'breadth': 56.6, 'delete': 126, 'in_order': 67.4, 'insert': 285, 'lca': 125, 'lower': 26.9,
        'out_order': 67.9, 'post_order': 107, 'pre_order': 71.4, 'rank': 32.4, 'search': 22.3,
        'search absent': 29.2, 'select': 30.9, 'upper': 32.7,
    },
    'compiled CartesianTree': {
        'breadth': 56.6, 'delete': 87.4, 'in_order': 67.5, 'insert': 157, 'lca': 125, 'lower': 39.7,
        'out_order': 68, 'post_order': 116, 'pre_order': 71.4, 'search': 33, 'search absent': 40.4,
        'upper': 45.9,
    },
    'compiled Fenwick tree': {
        'build': 11.7, 'prefix': 6.95, 'sum': 15.4, 'update': 8.32,
    },
    'compiled RedBlackTree': {
        'breadth': 56.6, 'delete': 85.3, 'in_order': 67.5, 'insert': 186, 'lca': 125, 'lower': 27.3,
        'out_order': 68.1, 'post_order': 107, 'pre_order': 71.4, 'search': 22.7, 'search absent': 31.4,
        'upper': 34,
    },
    'compiled SplayTree': {
        'breadth': 56.6, 'delete': 75.7, 'in_order': 67.2, 'insert': 130, 'out_order': 67.7, 'post_order': 122,
        'pre_order': 71.4,
    },
    'compiled Treap': {
        'breadth': 56.6, 'delete': 82.3, 'in_order': 67.5, 'insert': 158, 'lca': 125, 'lower': 41.5,
        'out_order': 68.1, 'post_order': 114, 'pre_order': 71.4, 'search': 34.6, 'search absent': 41.2,
        'upper': 46.7,
    },
    'compiled arrays': {
        'appends': 21.3, 'deletes': 34, 'fixed reads': 12, 'fixed writes': 25.6, 'mixed': 51, 'reads': 14,
        'writes': 27.6,
    },
    'compiled graphs': {
        'add_edge list': 234, 'add_edge matrix': 229, 'bfs list': 366, 'bfs matrix': 423, 'dijkstra': 78.6,
        'get_edge list': 29.1, 'get_edge matrix': 28.6, 'is_adjacent list': 72.5, 'is_adjacent matrix': 75.7,
        'neighbors list': 116, 'neighbors matrix': 106, 'prim': 457, 'remove_edge list': 133,
        'remove_edge matrix': 110,
    },
    'compiled searches': {
        'binary': 32.9, 'jump': 38.3, 'linear': 19, 'ordered': 54.9,
    },
    'compiled sorts': {
        'bubble_sort': 83, 'insertion_sort': 34.6, 'quick_sort': 67, 'selection_sort': 23,
    },
    'compiled stack': {
        'pairs': 92.3, 'peek': 16, 'pop': 51.6, 'push': 27.4,
    },
    'counting_sort': {
        'x': 15.7,
    },
    'disjoint sets': {
        'find': 1.31, 'make': 3, 'union': 2.54,
    },
    'dynamic array': {
        'appends': 12.2, 'deletes': 8.08, 'mixed': 11.3,
    },
    'ends': {
        'append DoublyCircularLinkedList': 14.8, 'append DoublyLinkedList': 6,
        'append SinglyCircularLinkedList': 14.8, 'append SinglyLinkedList': 5, 'append array': 18.2,
        'append linked': 6, 'appendleft DoublyCircularLinkedList': 8, 'appendleft DoublyLinkedList': 6,
        'appendleft SinglyCircularLinkedList': 7, 'appendleft SinglyLinkedList': 5, 'pop array': 11.1,
        'pop linked': 6, 'popleft DoublyCircularLinkedList': 4, 'popleft DoublyLinkedList': 3,
        'popleft SinglyCircularLinkedList': 4, 'popleft SinglyLinkedList': 3, 'popleft array': 16.1,
        'popleft linked': 6, 'push array': 14.2, 'push linked': 6, 'rotate array': 46, 'rotate linked': 18,
    },
    'flows': {
        'dinic': 0.66, 'edmonds_karp': 0.12,
    },
    'graph walks': {
        'bfs': 2.02, 'bridges': 7.34, 'dfs': 2.03, 'dijkstra': 7.07, 'kosaraju': 4.74, 'pbfs': 3.01,
        'tarjan': 3.24,
    },
    'heap': {
        'build': 11.9, 'extract': 7.92, 'insert': 11.8,
    },
    'heapsort': {
        'x': 27.1,
    },
    'increasing subsequence': {
        'lis': 5.86,
    },
    'intervals': {
        'build': 18.5, 'query': 8.2,
    },
    'intro_sort': {
        'x': 32.6,
    },
    'jump_search': {
        'jump': 3.87,
    },
    'linear scans': {
        'next': 13.4, 'ordered': 8.9, 'prev': 13.4, 'search': 2,
    },
    'linked lists': {
        'after DoublyCircularLinkedList': 6, 'after DoublyLinkedList': 5, 'after SinglyCircularLinkedList': 5,
        'after SinglyLinkedList': 4, 'before DoublyCircularLinkedList': 6, 'before DoublyLinkedList': 5,
        'extract DoublyCircularLinkedList': 0.63, 'extract DoublyLinkedList': 0.65,
        'extract SinglyCircularLinkedList': 0.68, 'extract SinglyLinkedList': 0.72,
        'insert DoublyCircularLinkedList': 1.28, 'insert DoublyLinkedList': 0.75,
        'insert SinglyCircularLinkedList': 1.35, 'insert SinglyLinkedList': 0.79,
        'read DoublyCircularLinkedList': 0.62, 'read DoublyLinkedList': 0.63,
        'read SinglyCircularLinkedList': 0.62, 'read SinglyLinkedList': 0.7, 'search DoublyCircularLinkedList': 1,
        'search DoublyLinkedList': 1, 'search SinglyCircularLinkedList': 1, 'search SinglyLinkedList': 1,
        'show DoublyCircularLinkedList': 3, 'show DoublyLinkedList': 3, 'show SinglyCircularLinkedList': 2,
        'show SinglyLinkedList': 2,
    },
    'merge_sort_parallel': {
        'x': 8.11,
    },
    'priority queue': {
        'pop binary_heap': 15.9, 'pop binomial_heap': 22.1, 'push binary_heap': 11.9, 'push binomial_heap': 6.78,
    },
    'quadratic sorts': {
        'brick_sort': 6.99, 'bubble_sort': 7.89, 'bucket_sort': 0.53, 'cocktail_shaker_sort': 5.95,
        'insertion_sort': 3.5, 'quick_sort': 7.24, 'selection_sort': 2.59, 'shell_sort': 1.11,
    },
    'radix_sort': {
        'x': 12.8,
    },
    'range queries': {
        'dynamic query': 5.39, 'dynamic update': 40.9, 'segment build': 40, 'segment query': 5.2,
        'segment update': 40.7, 'sparse build': 6.72, 'sparse query': 1.94, 'static query': 2.34,
    },
    'searches': {
        'binary': 4.27, 'lower': 3.8, 'upper': 3.8,
    },
    'shortest paths': {
        'bellman_ford': 0.17, 'floyd_warshall': 1.05, 'johnson': 17.8,
    },
    'skip list': {
        'extract': 2.71, 'insert': 2.8, 'search': 2.42,
    },
    'spanning trees': {
        'kruskal': 1.6, 'parallel kruskal': 7.16, 'prim': 31.6,
    },
    'string matching': {
        'rabin_karp': 15.8, 'kmp': 14, 'z_function': 41.8,
    },
    'topological order': {
        'kahn': 5.01, 'parallel kahn': 3.97,
    },
    'trie': {
        'delete': 3.69, 'insert': 3.77, 'member': 2.77, 'prefix': 2.77, 'strings': 1.52,
    },
}
SLACK = 4.0


def sc_cost(names):
    def sc(mon, rng, params):
        name = rng.choice(names)
        STEPS[0] = mon.steps
        n = rng.choice([30, 60, 120, 240, 480] + ([1000] if THOROUGH and rng.random() < 0.3 else []))
        for label, fn, units, *counted in (OPS.get(name) or COMPILED[name])(rng, n):
            if name in ('graph walks', 'topological order'):
                label = ' '.join(label.split()[:-1])
            key = 'x' if 'x' in SEEN[name] else label
            mon.op(name, n, label)
            before = mon.steps.count
            r = fn()
            cost = r if counted else mon.steps.count - before
            limit = SLACK * SEEN[name][key] * units
            mon.check(cost <= limit, '%s (%s) costs more than its growth class allows' % (name, label),
                      n=n, cost=cost, allowed=limit)
            mon.ev('cost judged')
            mon.ev('cost: ' + name)
            mon.state((name, label, n, cost))
        mon.case((name, n, rng.getrandbits(40)))
    return sc


FAST = [n for n in OPS if n not in ('shortest paths', 'flows', 'graph walks', 'spanning trees', 'common subsequence',
                                    'increasing subsequence', 'topological order', 'quadratic sorts')]
SLOW = [n for n in OPS if n not in FAST]
SCENARIOS = {
    'structures': dict(fn=sc_cost(sorted(FAST)), quick=1400, thorough=30000, steps=60000000),
    'algorithms': dict(fn=sc_cost(sorted(SLOW)), quick=250, thorough=6000, steps=60000000),
    'compiled code': dict(fn=sc_cost(sorted(COMPILED)), quick=700, thorough=20000, flavour='count'),
}
REQUIRED = ['cost: ' + n for n in sorted(OPS) + sorted(COMPILED)]
