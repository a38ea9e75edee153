"""C++ graphs, graph nodes and edges against a set-of-edges model."""
import sys
from .graphs import *   # noqa

ID = 'P28'
RULE = 'distinct (implementation, operation history) pairs'


class Token(object):
    pass


def payload(rng):
    """Data a node must give back unchanged."""
    return rng.choice([None, 0, -7, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 10 ** 30, 2.5, 0.1, float('inf'), 'txt', '',
                       "it's", '\u00e9\u4e2d', 'a\0b', '\ud800', True, (1, 'x'), [1, 2], Token(), rng.random(),
                       rng.randint(-10 ** 9, 10 ** 9)])


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def audit(mon, g, m, data, nodes, impl):
    mon.eq(g._impl, impl, 'the implementation of the graph')
    mon.eq(g.num_vertices(), len(m.names), 'num_vertices disagrees')
    mon.eq(g.num_edges(), len(m.edges()), 'num_edges is not the number of edges', edges=m.edges())
    for u in m.names:
        got = g.neighbors(u)
        mon.eq(sorted(names_of(got)), sorted(m.adj[u]), 'neighbors are not the targets of the edges', of=u)
        mon.check(all(x is nodes[x.name] for x in got), 'neighbors returned a node which is not the vertex', of=u)
        mon.check(same(nodes[u].data, data[u]), 'the data of a vertex changed', of=u, got=nodes[u].data, want=data[u])
        for v in m.names:
            mon.eq(g.is_adjacent(u, v), v in m.adj[u], 'is_adjacent disagrees with the edges', u=u, v=v)
            e = g.get_edge(u, v)
            w = m.adj[u].get(v)
            if w is None:
                mon.check(e is None or (v in m.adj[u] and e.value is None), 'get_edge returned an edge without a weight',
                          u=u, v=v, got=str(e))
            else:
                mon.check(e is not None, 'get_edge lost a weighted edge', u=u, v=v)
                mon.eq(e.value, w, 'get_edge returned another weight', u=u, v=v)
                if impl == 'adjacency_list':
                    mon.eq(type(e.value), type(w), 'get_edge returned a weight of another type')
                mon.check(str(e).startswith("('%s', '%s', " % (u, v)), 'get_edge returned another edge', got=str(e))
    mon.ev('graph audited')
    mon.state((impl, m.sig()[0], len(m.edges())))


def history(mon, rng, impl):
    mk = style(rng)
    if rng.random() < 0.15:      # names whose pairs join to the same text
        parts = ['a', 'b', 'a_b', 'b_a', 'a_b_a', '_', '', 'a_', '_b', 'data', 'name', 'adjacent', 'vertices']
        rng.shuffle(parts)
        mk = lambda i: parts[i]  # noqa
    pool = [mk(i) for i in range(rng.choice([1, 2, 4, 7, 12]))]
    k = rng.randint(0, len(pool)) if impl == 'adjacency_list' else len(pool)
    m = Model(pool[:k])
    data = {v: payload(rng) for v in m.names}
    nodes = {v: node(impl, v, data[v], backend=CPP) for v in m.names}
    g = Graph(*[nodes[v] for v in m.names], implementation=impl, backend=CPP)
    w = weigher(rng, rng.choice(['nat', 'float', 'neg', 'small', 'big']))
    kept = []                    # edges handed out: (edge, weight)
    hist = []
    audit(mon, g, m, data, nodes, impl)
    grow = rng.choice([0.3, 0.5, 0.7])
    for step in range(longish(rng, [5, 20, 50], factor=4)):
        r = rng.random()
        live = m.names
        if impl == 'adjacency_list' and (r < 0.12 or not live):
            v = rng.choice(pool)
            mon.op('add_vertex', v)
            hist.append(('av', v))
            d = payload(rng)
            x = node(impl, v, d, backend=CPP)
            if v in m.adj:
                mon.raises(ValueError, lambda: g.add_vertex(x), 'a second vertex of the same name')
            else:
                g.add_vertex(x)
                m.names.append(v)
                m.adj[v] = {}
                nodes[v], data[v] = x, d
        elif impl == 'adjacency_list' and r < 0.22:
            v = rng.choice(live)
            mon.op('remove_vertex', v)
            hist.append(('rv', v))
            g.remove_vertex(v)
            m.names.remove(v)
            del m.adj[v], data[v], nodes[v]
            for u in m.adj:
                m.adj[u].pop(v, None)
        elif r < 0.28:
            bad = rng.choice(['ghost', 'no such', 'v', '_1'])
            if bad in m.adj:
                continue
            u = rng.choice(live) if live and rng.random() < 0.7 else bad
            a, b = (u, bad) if rng.random() < 0.5 else (bad, u)
            mon.op('bad', a, b)
            hist.append(('be',))
            mon.raises(ValueError, lambda: g.add_edge(a, b, 1), 'add_edge accepted an unknown vertex')
            mon.fails(lambda: g.neighbors(bad), 'the neighbours of an unknown vertex')
            if impl == 'adjacency_list':
                mon.fails(lambda: g.remove_vertex(bad), 'remove_vertex accepted an unknown vertex')
                mon.fails(lambda: g.remove_edge(a, b), 'remove_edge accepted an unknown vertex')
            if live:
                x, y = rng.choice(live), rng.choice(live)
                for junk in ([], object(), 2 ** 70 if impl == 'adjacency_list' else 'text'):
                    mon.fails(lambda: g.add_edge(x, y, junk), 'a weight that cannot be held', weight=junk)
            mon.raises(TypeError, lambda: Graph(3, implementation=impl, backend=CPP), 'a vertex which is no node')
        elif not live:
            continue
        elif r < 0.28 + grow * 0.72:
            u, v = rng.choice(live), rng.choice(live)
            x = None if rng.random() < 0.25 and v not in m.adj[u] else w()
            if impl == 'adjacency_list' and rng.random() < 0.1:
                x = rng.choice(['label', 2 ** 63 - 1, 0.1, -2 ** 63])
            mon.op('add_edge', u, v, x)
            hist.append(('ae', u, v, x))
            g.add_edge(u, v) if x is None else g.add_edge(u, v, x)
            m.adj[u][v] = x
            if rng.random() < 0.3 and x is not None:
                kept.append((g.get_edge(u, v), x, u, v))
        else:
            es = m.edges()
            if es and rng.random() < 0.85:
                u, v, _ = rng.choice(es)
            else:
                u, v = rng.choice(live), rng.choice(live)
            mon.op('remove_edge', u, v)
            hist.append(('re', u, v))
            g.remove_edge(u, v)
            m.adj[u].pop(v, None)
        audit(mon, g, m, data, nodes, impl)
        for e, x, u, v in kept:
            mon.eq(e.value, x, 'an edge handed out earlier changed')
        mon.ev('kept edge', len(kept))
    if rng.random() < 0.5:       # what was handed out outlives the graph
        ns = {v: g.neighbors(v) for v in m.names}
        del g
        for v in m.names:
            mon.check(all(same(x.data, data[x.name]) for x in ns[v]), 'a neighbour handed out died with its graph')
        nodes.clear()
        for e, x, u, v in kept:
            mon.eq((e.value, str(e).startswith("('%s', '%s', " % (u, v))), (x, True), 'an edge handed out died with its graph')
        mon.ev('outlived the graph')
    mon.case((impl, tuple(pool), tuple(hist)), nontrivial=len(hist) > 2)


def sc_nodes(mon, rng, params):
    """Nodes and edges on their own."""
    from pydatastructs.utils.misc_util import GraphEdge
    cls = rng.choice([AdjacencyListGraphNode, AdjacencyMatrixGraphNode])
    mk = style(rng)
    names = [mk(i) for i in range(rng.randint(1, 8))]
    ops = []
    d = payload(rng)
    x = cls('n' * rng.randint(0, 40), d, backend=CPP)
    for i in range(rng.randint(1, 12)):
        mon.check(same(x.data, d), 'a node does not give back its data', got=x.data, want=d)
        if type(d) is not Token:
            mon.eq(str(x), str((x.name, d)), 'str() of a node')
        d = payload(rng)
        x.data = d
        ops.append(repr(d))
        if rng.random() < 0.1:
            mon.fails(lambda: delattr(x, rng.choice(['data', 'name'])), 'deleting an attribute of a node')
        if rng.random() < 0.3:
            old = x.name
            for bad in (5, None, 'half a \ud800', 'cut\0here'):
                mon.fails(lambda: setattr(x, 'name', bad), 'a name a node cannot hold', name=bad)
            mon.eq(x.name, old, 'the name of a node after a rejected one')
            x.name = 'other ' + old
            mon.eq(x.name, 'other ' + old, 'the name given to a node')
            x.name = old
            mon.ev('names refused')
    token = Token()
    count = sys.getrefcount(token)
    x.data = token
    y = cls('m', token, backend=CPP)
    mon.eq(sys.getrefcount(token), count + 2, 'the references to the data of nodes are miscounted')
    x.data = 5
    del y
    mon.eq(sys.getrefcount(token), count, 'nodes do not release their data')
    if cls is AdjacencyListGraphNode:
        first = [cls(v, i, backend=CPP) for i, v in enumerate(names[:rng.randint(0, len(names))])]
        x = cls('centre', 5, adjacency_list=list(first), backend=CPP)
        model = {v.name: v.data for v in first}
        for step in range(longish(rng, [3, 10, 25], factor=4)):
            v = rng.choice(names)
            ops.append(v)
            if v in model and rng.random() < 0.8:
                x.remove_adjacent_node(v)
                del model[v]
            elif v not in model and rng.random() < 0.3:
                mon.raises(ValueError, lambda: x.remove_adjacent_node(v), 'removed a node which is not adjacent')
            elif v not in model:
                model[v] = payload(rng)
                x.add_adjacent_node(v, model[v])
            adj = x.adjacent
            mon.eq(sorted(adj), sorted(model), 'adjacent is not the set of adjacent names')
            mon.check(all(adj[a].name == a and same(adj[a].data, model[a]) for a in adj), 'an adjacent node lost its name or data')
        if rng.random() < 0.5:
            x.adjacent = {v.name: v for v in first}
            mon.eq(sorted(x.adjacent), sorted(v.name for v in first), 'the neighbours assigned')
        held = {k: id(v) for k, v in x.adjacent.items()}
        for bad in ([3, [], {'a': 1}, {1: x}, {'\ud800': x}, {'a\0b': x}, {'new': x, 'no': 3}]):
            mon.fails(lambda: setattr(x, 'adjacent', bad), 'neighbours which are no nodes')
            mon.eq({k: id(v) for k, v in x.adjacent.items()}, held, 'refused neighbours replace the old ones')
        mon.ev('neighbours refused')
        mon.fails(lambda: cls('z', 0, adjacency_list=[3], backend=CPP), 'neighbours which are no nodes')
        # a graph made of nodes with initial neighbours of the same names
        nodes = {v: cls(v, i, backend=CPP) for i, v in enumerate(names)}
        m = Model(names)
        for v in names:
            ts = rng.sample(names, rng.randint(0, min(3, len(names))))
            if ts and rng.random() < 0.5:
                nodes[v] = cls(v, nodes[v].data, adjacency_list=[cls(t, backend=CPP) for t in ts], backend=CPP)
                for t in ts:
                    m.edge(v, t)
        g = Graph(*[nodes[v] for v in names], backend=CPP)
        data = {v: nodes[v].data for v in names}
        audit(mon, g, m, data, nodes, 'adjacency_list')
        for u, v, _ in m.edges():
            if rng.random() < 0.5:
                g.add_edge(u, v, 3)
                m.edge(u, v, 3)
        audit(mon, g, m, data, nodes, 'adjacency_list')
        seen = {}
        pds.breadth_first_search(g, names[0], lambda a, b: seen.setdefault(b.name, a.name) is a.name or True, backend=CPP)
        mon.eq(sorted(set(seen) | {names[0]}), sorted(m.reach(names[0])), 'a traversal over initial neighbours')
        mon.ev('initial neighbours')
    a, b = cls(names[0], 1, backend=CPP), cls(names[-1], 2, backend=CPP)
    for v in [None, 0, -5, 2.5, 'lab', 2 ** 63 - 1, -2 ** 63, '\u00e9', '', 'a\0b', '\0']:
        e = GraphEdge(a, b, v, backend=CPP)
        mon.check(same(e.value, v), 'an edge does not give back its value', got=e.value, want=v)
        e.value = 7
        mon.eq(e.value, 7, 'the value assigned to an edge')
        for junk in (2 ** 64, [], '\ud800'):
            mon.fails(lambda: setattr(e, 'value', junk), 'a value an edge cannot hold')
            mon.fails(lambda: GraphEdge(a, b, junk, backend=CPP), 'a value an edge cannot hold')
        mon.fails(lambda: delattr(e, 'value'), 'deleting the value of an edge')
        mon.eq((e.value, str(e)), (7, "('%s', '%s', 7)" % (names[0], names[-1])), 'an edge after a rejected value')
    mon.raises(TypeError, lambda: GraphEdge(a, rng.choice([3, None, 'b']), backend=CPP), 'an edge to something else')
    mon.case((cls.__name__, tuple(names), tuple(ops)))


def sc_renamed(mon, rng, params):
    """The name of a vertex is changed while graphs hold it: they know it by the
    old name, and nothing may break."""
    impl = rng.choice(['adjacency_list', 'adjacency_list', 'adjacency_matrix'])
    n = rng.choice([1, 2, 3, 5, 9])
    m = directed(rng, n, 'nat')
    data = {v: payload(rng) for v in m.names}
    nodes = {v: node(impl, v, data[v], backend=CPP) for v in m.names}
    g = Graph(*[nodes[v] for v in m.names], implementation=impl, backend=CPP)
    other = Graph(*[nodes[v] for v in m.names], implementation=impl, backend=CPP)
    for u, v, w in m.edges():
        g.add_edge(u, v, w)
    if impl == 'adjacency_list' and n > 1 and rng.random() < 0.4:
        gone = m.names[0]
        g.remove_vertex(gone)
        m.names.remove(gone)
        del m.adj[gone], data[gone], nodes[gone]
        for u in m.adj:
            m.adj[u].pop(gone, None)
    hist = []
    for step in range(rng.randint(1, 6)):
        if not m.names:
            break
        some = rng.sample(m.names, rng.randint(1, len(m.names)))
        for v in some:
            nodes[v].name = rng.choice(['renamed %s' % v, rng.choice(m.names), '', 'x' * 300])
        for k in range(rng.randint(1, 8)):
            u, v = rng.choice(m.names), rng.choice(m.names)
            what = rng.choice(['read', 'algorithms', 'remove', 'edge', 'unedge'])
            hist.append((what, u, v))
            mon.op('renamed ' + what, u, v)
            if what == 'read':
                mon.eq((g.num_vertices(), g.num_edges()), (len(m.names), len(m.edges())), 'the size of a graph with a renamed vertex')
                mon.eq(sorted(id(x) for x in g.neighbors(u)), sorted(id(nodes[x]) for x in m.adj[u]), 'neighbors with renamed vertices')
                mon.eq(g.is_adjacent(u, v), v in m.adj[u], 'is_adjacent with renamed vertices')
                str(g.get_edge(u, v))
            elif what == 'algorithms':
                met = []
                pds.breadth_first_search(g, u, lambda a, b: met.append((a, b)) or True, backend=CPP)
                mon.eq(sorted(id(b) for a, b in met), sorted(id(nodes[x]) for x in m.reach(u) if x != u),
                       'a traversal with renamed vertices')
                if impl == 'adjacency_list':
                    pds.minimum_spanning_tree(g, 'prim', backend=CPP)
                    d, _ = pds.shortest_paths(g, 'dijkstra', u, backend=CPP)
                    mon.eq(d, m.distances(u), 'distances with renamed vertices')
            elif what == 'remove' and impl == 'adjacency_list':
                g.remove_vertex(u)
                nodes[u].name = u
                m.names.remove(u)
                del m.adj[u], data[u], nodes[u]
                for x in m.adj:
                    m.adj[x].pop(u, None)
                if not m.names:
                    break
            elif what == 'edge':
                g.add_edge(u, v, 3)
                m.edge(u, v, 3)
            elif what == 'unedge':
                g.remove_edge(u, v)
                m.adj[u].pop(v, None)
        for v in nodes:
            nodes[v].name = v
        audit(mon, g, m, data, nodes, impl)
        mon.ev('renamed vertex')
    del other
    mon.case((impl, n, tuple(hist)))


def _h(impl):
    return lambda mon, rng, p: history(mon, rng, impl)


SCENARIOS = {
    'list': dict(fn=_h('adjacency_list'), quick=700, thorough=16000),
    'matrix': dict(fn=_h('adjacency_matrix'), quick=500, thorough=9000),
    'nodes': dict(fn=sc_nodes, quick=500, thorough=12000),
    'renamed': dict(fn=sc_renamed, quick=500, thorough=12000),
    'renamed under asan': dict(fn=sc_renamed, quick=120, thorough=4000, flavour='asan'),
    'list under asan': dict(fn=_h('adjacency_list'), quick=200, thorough=5000, flavour='asan'),
    'matrix under asan': dict(fn=_h('adjacency_matrix'), quick=160, thorough=4000, flavour='asan'),
    'nodes under asan': dict(fn=sc_nodes, quick=160, thorough=4000, flavour='asan'),
}
REQUIRED = ['graph audited', 'op:add_vertex', 'op:remove_vertex', 'op:add_edge', 'op:remove_edge', 'rejected',
            'kept edge', 'outlived the graph', 'initial neighbours', 'renamed vertex', 'names refused', 'neighbours refused']
