"""Single-source shortest paths against relaxation to a fixed point."""
from .graphs import *   # noqa

# the empty name means: no target
STYLES.pop('empty', None)

ID = 'P32'
RULE = 'distinct (weighted graph, source, algorithm) triples'


def judge(mon, m, s, dist, pred, want):
    mon.eq(sorted(dist), sorted(m.names), 'distances do not cover the vertices')
    mon.eq(sorted(pred), sorted(m.names), 'predecessors do not cover the vertices')
    for v in m.names:
        mon.eq(dist[v], want[v], 'the distance is not that of a shortest path', vertex=v, source=s)
        if v == s or want[v] == INF:
            mon.check(pred[v] is None, 'the source or an unreachable vertex has a predecessor', vertex=v, pred=pred[v])
        else:
            u, k = v, 0
            while u != s:
                p = pred[u]
                mon.check(p in m.adj and u in m.adj[p], 'the predecessor is not joined by an edge', vertex=u, pred=p)
                mon.eq(dist[p] + m.adj[p][u], dist[u], 'the predecessor is not on a shortest path', vertex=u, pred=p)
                u, k = p, k + 1
                mon.check(k <= len(m.names), 'the predecessors run in a circle', vertex=v)
    mon.ev('distances judged')
    if any(want[v] == INF for v in m.names):
        mon.ev('unreachable vertices')


def sc_single(mon, rng, params):
    n = longish(rng, [1, 2, 3, 4, 6, 9, 14, 25], factor=4)
    kind = rng.choice(['unit', 'small', 'nat', 'float', 'big', 'neg', 'fneg'])
    m = directed(rng, n, kind) if rng.random() < 0.7 else undirected(rng, n, kind, rng.random() < 0.5)
    if kind in ('neg', 'fneg') and rng.random() < 0.6:
        # potentials: negative edges without a negative cycle
        pot = {v: rng.randint(-20, 20) for v in m.names}
        for u, v, w in m.edges():
            m.edge(u, v, abs(w) + pot[u] - pot[v])
    impl = rng.choice(IMPLS)
    g = build(m, impl, rng)
    before = snapshot(g)
    s = rng.choice(m.names)
    want = m.distances(s)
    negative = any(w < 0 for _, _, w in m.edges())
    for alg in ('bellman_ford', 'dijkstra'):
        if alg == 'dijkstra' and negative:
            continue
        mon.op(alg, s, impl)
        if want is None:
            mon.raises(ValueError, lambda: pds.shortest_paths(g, alg, fresh(s)), 'a reachable negative cycle was not reported')
            mon.ev('negative cycle reported')
        else:
            dist, pred = pds.shortest_paths(g, alg, fresh(s))
            judge(mon, m, s, dist, pred, want)
            t = rng.choice(m.names)
            d, pred = pds.shortest_paths(g, alg, s, fresh(t))
            mon.eq(d, want[t], 'the distance to the target', source=s, target=t)
            dist[t] = want[t]
            if negative:
                mon.ev('negative weights')
        mon.ev('%s run' % alg)
        mon.eq(snapshot(g), before, 'the graph was changed')
        mon.case((m.sig(), s, alg, impl), nontrivial=n > 1)
    mon.state((m.sig(), s))


def sc_edit(mon, rng, params):
    """Shortest paths stay exact while the graph is edited."""
    n = rng.randint(2, 10)
    m = directed(rng, n, 'nat')
    impl = rng.choice(IMPLS)
    g = build(m, impl, rng)
    for step in range(rng.randint(2, 8)):
        r = rng.random()
        u, v = rng.choice(m.names), rng.choice(m.names)
        es = m.edges()
        if r < 0.4:
            w = rng.randint(0, 40)
            g.add_edge(u, v, w)
            m.edge(u, v, w)
        elif r < 0.7 and es:
            u, v, _ = rng.choice(es)
            g.remove_edge(u, v)
            del m.adj[u][v]
        elif impl == 'adjacency_list' and len(m.names) > 1:
            g.remove_vertex(v)
            m.names.remove(v)
            del m.adj[v]
            for x in m.names:
                m.adj[x].pop(v, None)
            if rng.random() < 0.6:
                # a fresh vertex of the same name has no edges
                g.add_vertex(AdjacencyListGraphNode(v))
                m.names.append(v)
                m.adj[v] = {}
        s = rng.choice(m.names)
        want = m.distances(s)
        for alg in ('bellman_ford', 'dijkstra'):
            mon.op(alg, s)
            dist, pred = pds.shortest_paths(g, alg, fresh(s))
            judge(mon, m, s, dist, pred, want)
    mon.ev('edited graph')
    mon.case((m.sig(), impl))


def sc_relax(mon, rng, params):
    """Graphs in which every longer path is shorter: each distance is improved many times over."""
    n = longish(rng, [3, 4, 5, 6, 8, 10, 13], factor=4)
    st = style(rng)
    names = [st(i) for i in range(n)]
    m = Model(names)
    f = rng.choice([lambda k: 2 ** k, lambda k: k * k, lambda k: k * (k + 1), lambda k: 3 ** k])
    lo = rng.choice([0, 0, 1, 2])
    pot = [0] * n
    if rng.random() < 0.5:
        pot = [rng.choice([1, -1]) * i * rng.randint(0, 3 ** min(i, 6)) for i in range(n)]
    order = [(i, j) for i in range(n) for j in range(i + 1, n)]
    k = rng.random()
    if k < 0.5:
        rng.shuffle(order)
    elif k < 0.7:
        order.reverse()
    drop = rng.choice([0, 0, 0.1, 0.4])
    for i, j in order:
        if j == i + 1 or rng.random() >= drop:
            m.edge(names[i], names[j], f(j - i) + rng.randint(0, lo) + pot[i] - pot[j])
    back = rng.random() < 0.3
    if back:
        for _ in range(rng.randint(1, n)):
            j = rng.randrange(1, n)
            i = rng.randrange(j)
            m.edge(names[j], names[i], rng.randint(0, 5) + pot[j] - pot[i])
    impl = rng.choice(IMPLS)
    g = build(m, impl, rng)
    negative = any(w < 0 for _, _, w in m.edges())
    for s in {names[0], rng.choice(names)}:
        want = m.distances(s)
        for alg in ('bellman_ford', 'dijkstra'):
            if alg == 'dijkstra' and negative:
                continue
            mon.op(alg, s, impl)
            dist, pred = pds.shortest_paths(g, alg, fresh(s))
            judge(mon, m, s, dist, pred, want)
            mon.case((m.sig(), s, alg, impl))
    mon.ev('repeatedly improved distances')


def sc_far(mon, rng, params):
    alg = rng.choice(['dijkstra', 'bellman_ford'])
    m, order = far(rng, rng.choice(['nat', 'float'] if alg == 'dijkstra' else ['nat', 'fneg']))
    g = build(m, 'adjacency_list', rng)
    want, pred, d = {order[0]: 0}, {order[0]: None}, 0
    for u, v in zip(order, order[1:]):
        d += m.adj[u][v]
        want[v], pred[v] = d, u
    mon.op(alg, 'long path')
    got = pds.shortest_paths(g, alg, order[0])
    mon.eq(got[0], want, 'the distances along a long path')
    mon.eq(got[1], pred, 'the predecessors along a long path')
    t = rng.choice(order[-9:])
    mon.eq(pds.shortest_paths(g, alg, order[0], t)[0], want[t], 'the distance of the end of a long path')
    mon.ev('long path measured')
    mon.case((len(order), alg, tuple(m.names[:5])))


SCENARIOS = {
    'relax': {'fn': sc_relax, 'quick': 600, 'thorough': 10000},
    'single': {'fn': sc_single, 'quick': 2500, 'thorough': 40000},
    'far': {'fn': sc_far, 'quick': 8, 'thorough': 100, 'steps': 100000000},
    'edited': {'fn': sc_edit, 'quick': 500, 'thorough': 8000},
}
REQUIRED = ['long path measured', 'distances judged', 'unreachable vertices', 'negative cycle reported', 'negative weights', 'bellman_ford run', 'dijkstra run', 'edited graph', 'repeatedly improved distances']
PROBES = {}
