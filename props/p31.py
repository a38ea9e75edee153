"""Strongly connected components and bridges against reachability."""
from .graphs import *   # noqa

ID = 'P31'
RULE = 'distinct (graph, algorithm) pairs'


def components(m):
    ix = {v: i for i, v in enumerate(m.names)}
    reach = {v: set(m.reach(v)) for v in m.names}
    return sorted({tuple(sorted(v for v in reach[u] if u in reach[v])) for u in m.names})


def sc_scc(mon, rng, params):
    n = longish(rng, [0, 1, 2, 3, 4, 5, 7, 10, 16, 30], factor=4)
    m = directed(rng, n, rng.choice(['none', 'small']))
    want = components(m)
    for impl in IMPLS:
        g = build(m, impl, rng)
        before = snapshot(g)
        for alg in ('kosaraju', 'tarjan'):
            mon.op(alg, impl)
            got = pds.strongly_connected_components(g, alg)
            mon.check(isinstance(got, list) and all(isinstance(c, set) for c in got), 'the result is not a list of sets')
            mon.eq(sorted(tuple(sorted(c)) for c in got), want,
                   'the components are not the classes of mutually reachable vertices', algorithm=alg, edges=m.edges())
            mon.eq(snapshot(g), before, 'the graph was changed')
            mon.ev('components judged')
            mon.case((m.sig(), alg, impl), nontrivial=n > 1)
    if any(len(c) > 1 for c in want) and len(want) > 1:
        mon.ev('several components')
    mon.state(m.sig())


def sc_bridges(mon, rng, params):
    n = longish(rng, [0, 1, 2, 3, 4, 6, 9, 14, 25], factor=4)
    m = undirected(rng, n, rng.choice(['none', 'small']), rng.random() < 0.5,
                   shapes=['path', 'cycle', 'tree', 'cliques', 'cycles', 'cycles', 'random', 'random'])
    if rng.random() < 0.2 and n:
        v = rng.choice(m.names)
        m.edge(v, v, m.adj[v].get(v))
    want = sorted((u, v) for u, v, _ in m.edges() if u < v and v not in m.reach(u, skip=(u, v)))
    for impl in IMPLS:
        g = build(m, impl, rng)
        before = snapshot(g)
        mon.op('find_bridges', impl)
        got = pds.find_bridges(g)
        mon.eq(got, want, 'the bridges are not the edges whose removal disconnects their ends', edges=m.edges())
        mon.eq(snapshot(g), before, 'the graph was changed')
        mon.ev('bridges judged', max(1, len(want)))
        mon.case((m.sig(), 'bridges', impl), nontrivial=n > 1)
    mon.state(m.sig())


def sc_deep(mon, rng, params):
    """Long chains, within the interpreter's recursion limit."""
    n = rng.randint(100, 300)
    mk = style(rng)
    m = Model([mk(i) for i in range(n)])
    order = list(m.names)
    rng.shuffle(order)
    for a, b in zip(order, order[1:]):
        m.edge(a, b)
        m.edge(b, a)
    cut = rng.randrange(n - 1)
    closed = rng.random() < 0.5
    if closed:
        m.edge(order[-1], order[cut])
        m.edge(order[cut], order[-1])
    g = build(m, rng.choice(IMPLS), rng)
    want = sorted(tuple(sorted(e)) for e in zip(order, order[1:]) if not closed or order.index(e[0]) < cut or (cut == n - 2))
    mon.eq(pds.find_bridges(g), want, 'bridges of a long chain')
    d = Model(m.names)
    for a, b in zip(order, order[1:]):
        d.edge(a, b)
    d.edge(order[-1], order[cut])
    g = build(d, rng.choice(IMPLS), rng)
    want = sorted([(v,) for v in order[:cut]] + [tuple(sorted(order[cut:]))])
    for alg in ('kosaraju', 'tarjan'):
        got = pds.strongly_connected_components(g, alg)
        mon.eq(sorted(tuple(sorted(c)) for c in got), want, 'components of a long chain', algorithm=alg)
    # kosaraju alone has no recursion: chains beyond the recursion limit
    if rng.random() < 0.3:
        k = rng.randint(1500, 3000)
        big = Model(['n%d' % i for i in range(k)])
        for i in range(k - 1):
            big.edge('n%d' % i, 'n%d' % (i + 1))
        got = pds.strongly_connected_components(build(big, 'adjacency_list'), 'kosaraju')
        mon.eq(len(got), k, 'components of a very long chain')
        mon.ev('very long chain')
    mon.ev('long chain judged')
    mon.case((n, cut, closed, order[0], order[-1]))


SCENARIOS = {
    'scc': {'fn': sc_scc, 'quick': 2000, 'thorough': 40000},
    'bridges': {'fn': sc_bridges, 'quick': 2000, 'thorough': 40000},
    'deep': {'fn': sc_deep, 'quick': 60, 'thorough': 600},
}
REQUIRED = ['components judged', 'several components', 'bridges judged', 'long chain judged', 'very long chain']


def _long(n=4000):
    m = Model([str(i) for i in range(n)])
    for i in range(n - 1):
        m.edge(str(i), str(i + 1))
        m.edge(str(i + 1), str(i))
    return build(m, 'adjacency_list')


def _kf_tarjan(mon):
    try:
        return len(pds.strongly_connected_components(_long(), 'tarjan')) != 1
    except RecursionError:
        return True


def _kf_bridges(mon):
    try:
        return len(pds.find_bridges(_long())) != 3999
    except RecursionError:
        return True


PROBES = {'KF-TARJAN-DEPTH': _kf_tarjan, 'KF-BRIDGES-DEPTH': _kf_bridges}
