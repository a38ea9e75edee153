"""Graph algorithms of the C++ backend: BFS, Prim and Dijkstra."""
from .graphs import *   # noqa
from . import p29, p30

ID = 'P26'
RULE = 'distinct (graph, source, algorithm) tuples'


def cpp_graph(mon, rng, m, impl):
    """Builds m through detours: vertices and edges that are removed again."""
    if impl == 'adjacency_matrix' or rng.random() < 0.4:
        return build(m, impl, rng, CPP)
    extra = ['extra %d' % i for i in range(rng.randint(1, 4))]
    names = m.names + extra
    rng.shuffle(names)
    g = Graph(*[node(impl, v, m.names.index(v) if v in m.adj else None, backend=CPP) for v in names], backend=CPP)
    es = m.edges()
    rng.shuffle(es)
    for u, v, w in es:
        g.add_edge(u, v) if w is None else g.add_edge(u, v, w)
        if rng.random() < 0.3:
            x = rng.choice(extra)
            a, b = rng.choice([(x, u), (u, x), (x, x), (v, x)])
            g.add_edge(a, b) if w is None else g.add_edge(a, b, w)
        if rng.random() < 0.15:
            g.remove_edge(u, v)
            g.add_edge(u, v) if w is None else g.add_edge(u, v, w)
    rng.shuffle(extra)
    for x in extra:
        g.remove_vertex(x)
    for v in rng.sample(m.names, min(2, len(m.names))):      # taken out and put back: gets the last id
        if rng.random() < 0.4:
            g.remove_vertex(v)
            g.add_vertex(node(impl, v, m.names.index(v), backend=CPP))
            for a, b, w in es:
                if v in (a, b):
                    g.add_edge(a, b) if w is None else g.add_edge(a, b, w)
    mon.ev('built by detours')
    return g


def view(g, m):
    return {u: sorted((x.name, g.get_edge(u, x.name) and g.get_edge(u, x.name).value) for x in g.neighbors(u))
            for u in m.names}, g.num_vertices(), g.num_edges()


class Boom(Exception):
    pass


def sc_bfs(mon, rng, params):
    n = longish(rng, [1, 2, 3, 5, 8, 15, 30], factor=4)
    m = directed(rng, n, rng.choice(['none', 'nat']))
    if rng.random() < 0.3:
        m = undirected(rng, n, 'none', rng.random() < 0.5)
    impl = rng.choice(IMPLS)
    g = cpp_graph(mon, rng, m, impl)
    before = view(g, m)
    src = rng.choice(m.names)
    reach = m.reach(src)
    extra = tuple(object() for _ in range(rng.choice([0, 1, 1, 2, 3])))
    stop = None if rng.random() < 0.5 else rng.randrange(len(reach) + 1)
    how = rng.choice(['false', 'raise', 'none'])
    calls = []

    named = {'tag': extra} if rng.random() < 0.3 else {}

    def op(u, v, *more, **kw):
        mon.eq(kw, named, 'the named arguments are not passed on')
        mon.check(more == extra and all(a is b for a, b in zip(more, extra)), 'the extra arguments are not passed on')
        calls.append((u.name, v.name))
        mon.eq((u.data, v.data), (m.names.index(u.name), m.names.index(v.name)), 'the operation got other vertices')
        if stop is not None and len(calls) > stop:
            if how == 'raise':
                raise Boom()
            return False if how == 'false' else None
        return True
    stopped = stop is not None and stop < len(reach) - 1
    mon.op('bfs', src)
    if stopped and how == 'raise':
        mon.raises(Boom, lambda: pds.breadth_first_search(g, fresh(src), op, *extra, backend=CPP, **named), 'an error of the operation is lost')
    else:
        mon.eq(pds.breadth_first_search(g, fresh(src), op, *extra, backend=CPP, **named), None, 'the result of a traversal')
    if stopped:
        mon.eq(len(calls), stop + 1, 'the traversal went on after the operation asked to stop', stop=stop)
        mon.ev('stopped traversal')
    # the C++ traversal does not report dead ends: check discovery and layers
    found = {src: None}
    for u, v in calls:
        mon.check(u in found and v in m.adj[u], 'the operation was called for a pair that is no edge from a discovered vertex', call=(u, v))
        mon.check(v not in found, 'a vertex was discovered twice', call=(u, v))
        mon.eq(reach[v], reach[u] + 1, 'a vertex was not discovered from the layer before it', vertex=v, via=u)
        found[v] = u
    if not stopped:
        mon.eq(sorted(found), sorted(reach), 'the vertices discovered are not the reachable ones')
        mon.ev('complete traversal')
    order = [src] + [v for _, v in calls]
    at = [order.index(u) for u, _ in calls]
    mon.eq(at, sorted(at), 'vertices are not expanded first in first out')
    mon.eq(view(g, m), before, 'the traversal changed the graph')
    mon.raises(KeyError, lambda: pds.breadth_first_search(g, 'no such vertex', op, backend=CPP), 'an unknown source')
    if rng.random() < 0.3:       # an operation that edits the graph
        log = []

        def edit(u, v):
            log.append(v.name)
            r = rng.random()
            a, b = rng.choice(m.names), rng.choice(m.names)
            try:
                if r < 0.3:
                    g.add_edge(a, b)
                elif r < 0.5:
                    g.remove_edge(a, b)
                elif impl == 'adjacency_list' and r < 0.7:
                    g.remove_vertex(a)
                elif impl == 'adjacency_list' and r < 0.8:
                    g.add_vertex(node(impl, a, 0, backend=CPP))
            except (ValueError, KeyError):
                pass
            return True
        pds.breadth_first_search(g, src, edit, backend=CPP)
        mon.eq(len(log), len(set(log)), 'a vertex was discovered twice while the graph was edited')
        mon.ev('edited while walking')
    mon.case((impl, m.sig(), src, stop, how))


def sc_prim(mon, rng, params):
    n = longish(rng, [1, 2, 2, 3, 4, 6, 10, 18], factor=4)
    m = undirected(rng, n, rng.choice(['unit', 'small', 'nat', 'float', 'neg', 'fneg', 'big']), True)
    if rng.random() < 0.25:      # integers and fractions side by side
        for u in m.names:
            for v in m.adj[u]:
                if u < v:
                    w = rng.choice([rng.randint(-3, 9), rng.randint(-12, 36) / 4.0])
                    m.adj[u][v] = m.adj[v][u] = w
        mon.ev('mixed weights')
    rank = None
    if rng.random() < 0.15:      # weights that are ordered but no numbers
        words_ = sorted(set(''.join(rng.choice('aZ\u00e9\u4e2d~') for _ in range(rng.randint(0, 4))) for _ in range(12)))
        rank = {w: i for i, w in enumerate(words_)}
        for u in m.names:
            for v in m.adj[u]:
                if u < v:
                    m.adj[u][v] = m.adj[v][u] = rng.choice(words_)
        mon.ev('weights that are words')
    g = cpp_graph(mon, rng, m, 'adjacency_list')
    before = view(g, m)
    mon.op('prim', n)
    t = pds.minimum_spanning_tree(g, 'prim', backend=CPP)
    mon.eq(t.num_vertices(), n, 'the tree does not span the vertices of the graph')
    es = []
    for u in m.names:
        for x in t.neighbors(u):
            v = x.name
            mon.check(v in m.adj[u], 'the tree has an edge the graph does not have', u=u, v=v)
            mon.check(t.is_adjacent(v, u), 'the tree is not undirected', u=u, v=v)
            e = t.get_edge(u, v)
            mon.check(e is not None, 'an edge of the tree has no weight')
            mon.eq((e.value, type(e.value)), (m.adj[u][v], type(m.adj[u][v])), 'an edge of the tree has another weight than in the graph')
            mon.eq(x.data, m.names.index(v), 'a vertex of the tree lost its data')
            es.append((u, v))
    mon.eq((len(es), t.num_edges()), (2 * (n - 1), 2 * (n - 1)), 'the number of edges is not that of a spanning tree')
    tm = Model(m.names)
    for u, v in es:
        tm.edge(u, v)
    mon.eq(len(tm.reach(m.names[0])), n, 'the tree is not connected')
    if rank is None:
        mon.eq(sum(m.adj[u][v] for u, v in es) / 2, p30.reference(m), 'the spanning tree is not minimal')
    else:
        r = Model(m.names)
        for u, v, w in m.edges():
            r.edge(u, v, rank[w])
        mon.eq(sum(r.adj[u][v] for u, v in es) / 2, p30.reference(r), 'the spanning tree is not minimal')
    mon.eq(view(g, m), before, 'building the tree changed the graph')
    # later edits of the tree do not reach the graph, nor the other way round
    if n > 1:
        t.remove_vertex(rng.choice(m.names))
        mon.eq(view(g, m), before, 'editing the tree changed the graph')
        t.add_vertex(node('adjacency_list', 'fresh', 0, backend=CPP))
        t.add_edge('fresh', 'fresh', 1)
        mon.eq((t.num_vertices(), t.is_adjacent('fresh', 'fresh')), (n, True), 'editing the tree')
        d, p = pds.shortest_paths(t, 'dijkstra', 'fresh', backend=CPP)
        mon.eq(sorted(d), sorted(x for x in list(p)), 'paths in an edited tree')
        mon.eq(d['fresh'], 0, 'paths in an edited tree')
    mon.ev('tree judged')
    mon.case(m.sig())


def sc_prim_odd(mon, rng, params):
    """Graphs that are empty, directed or not connected: no crash, input kept."""
    n = rng.choice([0, 1, 2, 5, 9])
    m = directed(rng, n, rng.choice(['nat', 'none', 'float']))
    g = cpp_graph(mon, rng, m, 'adjacency_list') if n else Graph(backend=CPP, implementation='adjacency_list')
    before = view(g, m)
    t = pds.minimum_spanning_tree(g, 'prim', backend=CPP)
    mon.check(t.num_vertices() <= n, 'the tree has more vertices than the graph')
    mon.eq(view(g, m), before, 'building the tree changed the graph')
    mon.ev('unsuitable graph')
    mon.case(m.sig())


def sc_dijkstra(mon, rng, params):
    n = longish(rng, [1, 2, 3, 5, 8, 14, 25], factor=4)
    m = directed(rng, n, rng.choice(['unit', 'small', 'nat', 'float', 'big']))
    g = cpp_graph(mon, rng, m, 'adjacency_list')
    before = view(g, m)
    for src in rng.sample(m.names, min(3, n)):
        want = m.distances(src)
        mon.op('dijkstra', src)
        d, p = pds.shortest_paths(g, 'dijkstra', fresh(src), backend=CPP)
        mon.eq(d, want, 'a distance is not the length of a shortest path', source=src)
        mon.eq(sorted(p), sorted(m.names), 'the predecessors are not given for every vertex')
        for v in m.names:
            u = p[v]
            if v == src or want[v] == INF:
                mon.eq(u, None, 'a predecessor where there is none', vertex=v)
                continue
            total, x, seen = 0, v, set()
            while x != src:
                mon.check(x is not None and x not in seen, 'predecessors do not lead to the source', vertex=v)
                seen.add(x)
                y = p[x]
                mon.check(y is not None and x in m.adj[y], 'a predecessor over no edge', vertex=x, predecessor=y)
                total += m.adj[y][x]
                x = y
            mon.eq(total, want[v], 'the path of predecessors is not a shortest one', vertex=v)
            mon.ev('path judged')
        t = rng.choice(m.names)
        if t != '':
            got = pds.shortest_paths(g, 'dijkstra', src, fresh(t), backend=CPP)
            mon.eq(got[0], want[t], 'the distance of a target is not the length of a shortest path', target=t)
            mon.eq(got[1], p, 'the predecessors with a target')
            mon.raises(KeyError, lambda: pds.shortest_paths(g, 'dijkstra', src, 'no such vertex', backend=CPP), 'an unknown target')
        mon.raises(KeyError, lambda: pds.shortest_paths(g, 'dijkstra', 'no such vertex', backend=CPP), 'an unknown source')
    mon.eq(view(g, m), before, 'searching changed the graph')
    mon.case((m.sig(), src))


def sc_far(mon, rng, params):
    """A path of thousands of vertices."""
    m, order = far(rng, rng.choice(['nat', 'float']), both=True, lo=1500, hi=4000)
    m.names = list(order)
    g = build(m, 'adjacency_list', rng, CPP)
    calls = []
    pds.breadth_first_search(g, order[0], lambda u, v: calls.append((u.name, v.name)) or True, backend=CPP)
    mon.eq(calls, list(zip(order, order[1:])), 'a long path is not walked from one end to the other')
    want, pred, d = {order[0]: 0}, {order[0]: None}, 0
    for u, v in zip(order, order[1:]):
        d += m.adj[u][v]
        want[v], pred[v] = d, u
    got = pds.shortest_paths(g, 'dijkstra', order[0], backend=CPP)
    mon.eq(got[0], want, 'the distances along a long path')
    mon.eq(got[1], pred, 'the predecessors along a long path')
    t = pds.minimum_spanning_tree(g, 'prim', backend=CPP)
    mon.eq(view(t, m), view(g, m), 'the spanning tree of a path is not the path')
    mon.ev('long path')
    mon.case((len(order), tuple(order[:5])))


SCENARIOS = {
    'far': dict(fn=sc_far, quick=12, thorough=300),
    'far under asan': dict(fn=sc_far, quick=3, thorough=60, flavour='asan'),
    'bfs': dict(fn=sc_bfs, quick=900, thorough=30000),
    'prim': dict(fn=sc_prim, quick=700, thorough=25000),
    'prim odd': dict(fn=sc_prim_odd, quick=150, thorough=4000),
    'dijkstra': dict(fn=sc_dijkstra, quick=700, thorough=25000),
    'bfs under asan': dict(fn=sc_bfs, quick=240, thorough=6000, flavour='asan'),
    'prim under asan': dict(fn=sc_prim, quick=160, thorough=5000, flavour='asan'),
    'prim odd under asan': dict(fn=sc_prim_odd, quick=80, thorough=2000, flavour='asan'),
    'dijkstra under asan': dict(fn=sc_dijkstra, quick=160, thorough=5000, flavour='asan'),
}
REQUIRED = ['long path', 'built by detours', 'stopped traversal', 'complete traversal', 'edited while walking', 'mixed weights', 'weights that are words',
            'tree judged', 'unsuitable graph', 'path judged', 'rejected']
