"""Minimum spanning trees judged against an independent Kruskal on the model."""
import sys
from .graphs import *   # noqa
from .sched import schedule

ID = 'P30'
RULE = 'distinct (weighted graph, algorithm, threads) tuples'


def reference(m):
    """Total weight of a minimum spanning tree of a connected undirected model."""
    parent = {v: v for v in m.names}

    def find(v):
        while parent[v] != v:
            v = parent[v]
        return v
    total = 0
    for w, u, v in sorted((w, u, v) for u, v, w in m.edges()):
        a, b = find(u), find(v)
        if a != b:
            parent[a] = b
            total += w
    return total


def judge(mon, m, g, t, impl):
    n = len(m.names)
    mon.eq(sorted(t.vertices), sorted(m.names), 'the tree does not span the vertices of the graph')
    mon.eq(t._impl, impl, 'the tree uses another implementation than the graph')
    es = []
    for u in t.vertices:
        mon.check(getattr(t, u).name == u and getattr(t, u).data == getattr(g, u).data, 'a vertex of the tree lost its data')
        for x in t.neighbors(u):
            v = x.name
            mon.check(v in m.adj[u], 'the tree has an edge the graph does not have', u=u, v=v)
            mon.check(t.is_adjacent(v, u), 'the tree is not undirected', u=u, v=v)
            e = t.get_edge(u, v)
            mon.check(e is not None, 'an edge of the tree has no weight', u=u, v=v)
            mon.eq((e.source.name, e.target.name, e.value), (u, v, m.adj[u][v]), 'an edge of the tree has another weight than in the graph')
            es.append((u, v))
    mon.eq(len(es), 2 * (n - 1), 'the number of edges is not that of a spanning tree')
    mon.eq(t.num_edges(), len(es), 'num_edges of the tree')
    mon.eq(len(t.edge_weights), len(es), 'the tree has weights of edges it does not contain')
    tm = Model(m.names)
    for u, v in es:
        tm.edge(u, v)
    mon.eq(len(tm.reach(m.names[0])), n, 'the tree is not connected')
    total = sum(m.adj[u][v] for u, v in es) / 2
    mon.eq(total, reference(m), 'the spanning tree is not minimal')
    mon.ev('tree judged')


ALGS = [('kruskal', 'adjacency_list'), ('kruskal', 'adjacency_matrix'), ('prim', 'adjacency_list')]


def sc_mst(mon, rng, params):
    n = longish(rng, [1, 2, 2, 3, 4, 6, 10, 18], factor=4)
    m = undirected(rng, n, rng.choice(['unit', 'small', 'nat', 'float', 'neg', 'fneg', 'big']), True)
    alg, impl = rng.choice(ALGS)
    g = build(m, impl, rng)
    before = snapshot(g)
    par = params['parallel']
    threads = rng.choice([1, 2, 3, 5, 16]) if par else 0
    mon.op(alg, impl, threads)
    if par:
        with schedule(mon, rng):
            t = pds.minimum_spanning_tree_parallel(g, alg, threads)
    else:
        t = pds.minimum_spanning_tree(g, alg)
    judge(mon, m, g, t, impl)
    mon.eq(snapshot(g), before, 'the graph was changed')
    # the tree is a graph of its own
    if n > 1 and rng.random() < 0.5:
        u, v = m.names[0], t.neighbors(m.names[0])[0].name
        t.remove_edge(u, v)
        t.add_edge(v, u, -99)
        if impl == 'adjacency_list':
            t.remove_vertex(v)
        mon.eq(snapshot(g), before, 'editing the tree changed the graph')
        mon.ev('tree edited')
    mon.ev('%s %s' % (alg, 'parallel' if par else 'serial'))
    mon.state((m.sig(), alg, impl))
    mon.case((m.sig(), alg, impl, threads), nontrivial=n > 1)


def sc_far(mon, rng, params):
    m, order = far(rng, rng.choice(['nat', 'neg', 'float']), both=True)
    alg = rng.choice(['kruskal', 'prim'])
    g = build(m, 'adjacency_list', rng)
    mon.op(alg, 'long path')
    judge(mon, m, g, pds.minimum_spanning_tree(g, alg), 'adjacency_list')
    mon.ev('long path spanned')
    mon.case((len(order), alg, tuple(m.names[:5])))


SCENARIOS = {
    'serial': {'fn': lambda mon, rng, p: sc_mst(mon, rng, {'parallel': False}), 'quick': 1500, 'thorough': 25000},
    'far': {'fn': sc_far, 'quick': 8, 'thorough': 100, 'steps': 100000000},
    'parallel': {'fn': lambda mon, rng, p: sc_mst(mon, rng, {'parallel': True}), 'quick': 600, 'thorough': 6000},
}
REQUIRED = ['long path spanned', 'tree judged', 'tree edited', 'kruskal serial', 'kruskal parallel', 'prim serial', 'prim parallel', 'perturbed schedules']
PROBES = {}
