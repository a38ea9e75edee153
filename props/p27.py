"""Python graphs against a set-of-edges model."""
from .graphs import *   # noqa

ID = 'P27'
RULE = 'distinct (implementation, operation history) pairs'
UNKNOWN = object()


def audit(mon, g, m, data, nodes, impl):
    mon.eq(list(g.vertices), m.names, 'the vertices are not the ones added, in order')
    mon.eq(g.num_vertices(), len(m.names), 'num_vertices disagrees')
    mon.eq(g.num_edges(), len(m.edges()), 'num_edges is not the number of edges', edges=m.edges())
    for u in m.names:
        got = g.neighbors(u)
        if impl == 'adjacency_list':
            mon.eq(names_of(got), list(m.adj[u]), 'neighbors are not the targets of the edges', of=u)
        else:
            mon.eq(sorted(names_of(got)), sorted(m.adj[u]), 'neighbors are not the targets of the edges', of=u)
        mon.check(all(x is nodes[x.name] for x in got), 'neighbors returned a node which is not the vertex', of=u)
        mon.eq(nodes[u].data, data[u], 'the data of a vertex changed', of=u)
        for v in m.names:
            mon.eq(g.is_adjacent(u, v), v in m.adj[u], 'is_adjacent disagrees with the edges', u=u, v=v)
            e = g.get_edge(u, v)
            w = m.adj[u].get(v)
            if w is UNKNOWN:
                continue
            if w is None:
                mon.check(e is None, 'get_edge returned an edge without a weight', u=u, v=v, got=str(e))
            else:
                mon.check(e is not None, 'get_edge lost a weighted edge', u=u, v=v)
                mon.eq((e.source.name, e.target.name, e.value), (u, v, w), 'get_edge returned another edge')
    mon.state((impl, m.sig()[0], len(m.edges())))


def odd(rng):
    """A weight that is not a number, or a falsy one."""
    return rng.choice([0, 0.0, False, '', 'w', (1, 2), Thing(1), INF, -INF, 10 ** 40])


def sc_history(mon, rng, params):
    impl = params['impl']
    mk = style(rng)
    pool = [mk(i) for i in range(longish(rng, [1, 2, 4, 7, 12], factor=4))]
    k = rng.randint(0, len(pool)) if impl == 'adjacency_list' else len(pool)
    m = Model(pool[:k])
    nodes = {v: node(impl, v, payload(rng, i)) for i, v in enumerate(m.names)}
    data = {v: nodes[v].data for v in nodes}
    g = Graph(*[nodes[v] for v in m.names], implementation=impl)
    w = weigher(rng, rng.choice(['nat', 'float', 'neg', 'small']))
    hist = []
    audit(mon, g, m, data, nodes, impl)
    n_steps = longish(rng, [5, 20, 50], factor=4)
    grow = rng.choice([0.3, 0.5, 0.7])
    for step in range(n_steps):
        r = rng.random()
        live = m.names
        if impl == 'adjacency_list' and (r < 0.12 or not live):
            v = rng.choice(pool)
            mon.op('add_vertex', v)
            hist.append(('av', v))
            x = node(impl, v, payload(rng, step))
            g.add_vertex(x)
            if v not in m.adj:
                m.names.append(v)
                m.adj[v] = {}
                nodes[v], data[v] = x, x.data
            else:
                mon.ev('vertex added again')
        elif impl == 'adjacency_list' and r < 0.2:
            v = rng.choice(live)
            mon.op('remove_vertex', v)
            hist.append(('rv', v))
            g.remove_vertex(v)
            m.names.remove(v)
            del m.adj[v], data[v], nodes[v]
            for u in m.adj:
                m.adj[u].pop(v, None)
        elif r < 0.28:
            bad = rng.choice(['ghost', 'no such'])
            u = rng.choice(live) if live and rng.random() < 0.7 else bad
            a, b = (u, bad) if rng.random() < 0.5 else (bad, u)
            mon.op('bad_edge', a, b)
            hist.append(('be',))
            mon.raises(ValueError, lambda: g.add_edge(a, b, 1), 'add_edge accepted an unknown vertex')
            if impl == 'adjacency_list':
                mon.fails(lambda: g.remove_vertex(bad), 'remove_vertex accepted an unknown vertex')
            else:
                mon.raises(NotImplementedError, lambda: g.add_vertex(node(impl, bad)), 'add_vertex on a matrix graph')
                mon.raises(NotImplementedError, lambda: g.remove_vertex(bad), 'remove_vertex on a matrix graph')
        elif not live:
            continue
        elif r < 0.28 + grow * 0.72:
            u, v = rng.choice(live), rng.choice(live)
            x = None if rng.random() < 0.25 else w() if rng.random() < 0.9 else odd(rng)
            mon.op('add_edge', u, v, x)
            hist.append(('ae', u, v, x))
            g.add_edge(u, v) if x is None else g.add_edge(u, v, x)
            if v in m.adj[u] and x is None and m.adj[u][v] is not None:
                x = UNKNOWN        # an unweighted edge over a weighted one: not specified
            m.adj[u][v] = x
        else:
            es = m.edges()
            if es and rng.random() < 0.85:
                u, v, _ = rng.choice(es)
            else:
                u, v = rng.choice(live), rng.choice(live)
            mon.op('remove_edge', u, v)
            hist.append(('re', u, v))
            if v in m.adj[u]:
                g.remove_edge(u, v)
                del m.adj[u][v]
            elif impl == 'adjacency_list':
                mon.raises(ValueError, lambda: g.remove_edge(u, v), 'removing an absent edge of a list graph')
            else:
                g.remove_edge(u, v)
        audit(mon, g, m, data, nodes, impl)
        mon.ev('graph audited')
    mon.case((impl, tuple(pool), tuple(hist)), nontrivial=len(hist) > 2)


def sc_nodes(mon, rng, params):
    """Nodes on their own: adjacency lists given at construction and edited."""
    from pydatastructs.utils.misc_util import GraphEdge
    mk = style(rng)
    names = [mk(i) for i in range(rng.randint(1, 10))]
    first = [AdjacencyListGraphNode(v, i) for i, v in enumerate(names[:rng.randint(0, len(names))])]
    passed = list(first)
    x = AdjacencyListGraphNode('centre', 5, adjacency_list=passed)
    model = {v.name: v.data for v in first}
    ops = []
    for step in range(longish(rng, [3, 10, 25], factor=4)):
        v = rng.choice(names)
        ops.append(v)
        if v in model and rng.random() < 0.6:
            mon.op('remove_adjacent_node', v)
            x.remove_adjacent_node(v)
            del model[v]
        elif v not in model and rng.random() < 0.2:
            mon.raises(ValueError, lambda: x.remove_adjacent_node(v), 'removed a node which is not adjacent')
        else:
            mon.op('add_adjacent_node', v)
            x.add_adjacent_node(v, step)
            model[v] = step
        mon.eq(list(x.adjacent), [a for a in x.adjacent if a in model], 'adjacent lists an unknown name')
        mon.eq(sorted(x.adjacent), sorted(model), 'adjacent is not the set of adjacent names')
        for a, d in model.items():
            mon.eq((getattr(x, a).name, getattr(x, a).data), (a, d), 'the adjacent node does not carry its name and data')
        mon.check(not any(hasattr(x, a) for a in names if a not in model), 'a removed neighbour is still reachable')
        mon.eq((x.name, x.data, str(x)), ('centre', 5, "('centre', 5)"), 'the node itself changed')
    mon.eq(len(passed), len(first), 'the list given as adjacency_list changed')
    a, b = AdjacencyListGraphNode(names[0], 1), AdjacencyListGraphNode(names[-1], 2)
    e = GraphEdge(a, b, step)
    mon.eq((e.source is a, e.target is b, e.value, str(e)), (True, True, step, str((names[0], names[-1]))), 'GraphEdge')
    # a graph made of nodes with initial neighbours
    nodes = {v: AdjacencyListGraphNode(v, i) for i, v in enumerate(names)}
    m = Model(names)
    g_nodes = dict(nodes)
    for v in names:
        ts = rng.sample(names, rng.randint(0, min(3, len(names))))
        if rng.random() < 0.5 and ts:
            g_nodes[v] = AdjacencyListGraphNode(v, nodes[v].data, adjacency_list=[AdjacencyListGraphNode(t) for t in ts])
            for t in ts:
                m.edge(v, t)
    g = Graph(*[g_nodes[v] for v in names])
    audit(mon, g, m, {v: nodes[v].data for v in names}, g_nodes, 'adjacency_list')
    for u, v, _ in m.edges():
        if rng.random() < 0.5:
            g.add_edge(u, v, 3)
            m.edge(u, v, 3)
    audit(mon, g, m, {v: nodes[v].data for v in names}, g_nodes, 'adjacency_list')
    mon.ev('graph audited')
    mon.case((tuple(names), tuple(ops), m.sig()))


SCENARIOS = {
    'list': {'fn': lambda mon, rng, p: sc_history(mon, rng, {'impl': 'adjacency_list'}), 'quick': 700, 'thorough': 12000},
    'matrix': {'fn': lambda mon, rng, p: sc_history(mon, rng, {'impl': 'adjacency_matrix'}), 'quick': 400, 'thorough': 7000},
    'nodes': {'fn': sc_nodes, 'quick': 300, 'thorough': 5000},
}
REQUIRED = ['graph audited', 'op:add_vertex', 'op:remove_vertex', 'op:add_edge', 'op:remove_edge', 'rejected', 'vertex added again']


def _kf_names(mon):
    """A vertex called like an attribute of the graph object."""
    g = Graph(AdjacencyListGraphNode('a'))
    g.add_vertex(AdjacencyListGraphNode('vertices'))
    if g.num_vertices() != 2:
        return True
    b = Graph(AdjacencyListGraphNode('a'), AdjacencyListGraphNode('data'))
    return b.is_adjacent('a', 'data')


def _kf_key(mon):
    """Edge keys join the names with an underscore."""
    g = Graph(*[AdjacencyListGraphNode(v) for v in ('a', 'b_c', 'a_b', 'c')])
    g.add_edge('a', 'b_c', 1)
    g.add_edge('a_b', 'c', 2)
    return g.get_edge('a', 'b_c').value != 1


PROBES = {'KF-GRAPH-NAMES': _kf_names, 'KF-GRAPH-KEY': _kf_key}
