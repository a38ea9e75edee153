"""All-pairs shortest paths."""
from .graphs import *   # noqa

ID = 'P33'
RULE = 'distinct (weighted graph, algorithm) pairs'
ALGS = [('floyd_warshall', 'adjacency_list'), ('floyd_warshall', 'adjacency_matrix'), ('johnson', 'adjacency_list')]


def judge(mon, m, dist, nxt, want, alg):
    for i in m.names:
        for j in m.names:
            w = want[i][j]
            d = dist[i].get(j, INF)
            mon.eq(d, w, 'the distance is not that of a shortest path', source=i, target=j, algorithm=alg)
            if w == INF:
                mon.ev('unreachable pair')
                continue
            x = nxt[i].get(j, None)
            direct = i == j or (j in m.adj[i] and m.adj[i][j] == w)
            if x is not None:
                mon.check(x == i and direct, 'next_vertex names a vertex although no direct edge is shortest', source=i, target=j, got=x)
                mon.ev('direct pair')
            elif alg == 'floyd_warshall':
                mon.check(not direct, 'next_vertex does not tell that the direct edge is shortest', source=i, target=j)
            else:
                # among equal alternatives any may be recorded
                alt = [k for k in m.names if k != i and j in m.adj[k] and want[i][k] + m.adj[k][j] == w]
                mon.check(not direct or (i != j and alt), 'next_vertex does not tell that the direct edge is shortest', source=i, target=j)
    mon.ev('all pairs judged')


def sc_pairs(mon, rng, params):
    n = longish(rng, [1, 2, 3, 4, 6, 9, 13], factor=4)
    kind = rng.choice(['unit', 'small', 'nat', 'float', 'big', 'neg', 'fneg'])
    m = directed(rng, n, kind) if rng.random() < 0.8 else undirected(rng, n, kind, rng.random() < 0.5)
    if kind in ('neg', 'fneg') and rng.random() < 0.8:
        pot = {v: rng.randint(-20, 20) for v in m.names}
        for u, v, w in m.edges():
            m.edge(u, v, abs(w) + pot[u] - pot[v])
    if '__q__' in m.names:
        mon.ev('awkward names')
    neg = m.negative_cycle()
    want = None if neg else {s: m.distances(s) for s in m.names}
    if not neg and any(w < 0 for _, _, w in m.edges()):
        mon.ev('negative weights')
    for alg, impl in ALGS:
        g = build(m, impl, rng)
        before = snapshot(g)
        mon.op(alg, impl)
        if neg:
            if alg == 'johnson':
                mon.raises(ValueError, lambda: pds.all_pair_shortest_paths(g, alg), 'a negative cycle was not reported')
                mon.ev('negative cycle reported')
        else:
            dist, nxt = pds.all_pair_shortest_paths(g, alg)
            mon.eq(sorted(dist), sorted(m.names), 'distances do not cover the vertices')
            judge(mon, m, dist, nxt, want, alg)
            if rng.random() < 0.3:
                dist2, _ = pds.all_pair_shortest_paths(g, alg)
                mon.eq(dist2, dist, 'a second run gives other distances', algorithm=alg)
                mon.ev('second run')
        mon.eq(snapshot(g), before, 'the graph was changed', algorithm=alg)
        mon.case((m.sig(), alg, impl), nontrivial=n > 1)
    mon.state(m.sig())


def sc_decimal(mon, rng, params):
    """Weights that are not exact in binary: distances up to rounding."""
    n = rng.choice([2, 3, 5, 8])
    m = directed(rng, n, 'unit', loops=False)
    pot = {v: rng.randint(-50, 50) / 10.0 for v in m.names}
    for u, v, _ in m.edges():
        m.edge(u, v, rng.randint(1, 60) / 10.0 + pot[u] - pot[v])
    if any(w < 0 for _, _, w in m.edges()):
        mon.ev('negative weights')
    want = {}
    for s in m.names:
        # potentials make every cycle clearly positive
        want[s] = m.distances(s)
        if want[s] is None:
            return
    for alg, impl in ALGS:
        g = build(m, impl, rng)
        before = snapshot(g)
        dist, nxt = pds.all_pair_shortest_paths(g, alg)
        for i in m.names:
            for j in m.names:
                d, w = dist[i].get(j, INF), want[i][j]
                mon.check(d == w or abs(d - w) < 1e-6, 'the distance is not that of a shortest path', source=i, target=j,
                          got=d, want=w, algorithm=alg)
        mon.eq(snapshot(g), before, 'the graph was changed', algorithm=alg)
        mon.ev('rounded weights')
        mon.case((m.sig(), alg, impl))


SCENARIOS = {
    'pairs': {'fn': sc_pairs, 'quick': 800, 'thorough': 15000},
    'decimal': {'fn': sc_decimal, 'quick': 300, 'thorough': 6000},
}
REQUIRED = ['awkward names', 'all pairs judged', 'unreachable pair', 'direct pair', 'negative weights', 'negative cycle reported', 'second run', 'rounded weights']
PROBES = {}
