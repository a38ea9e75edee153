"""Maximum flow by both algorithms against an independent augmenting-path oracle
whose answer is certified by a minimum cut."""
from .graphs import *   # noqa

ID = 'P35'
RULE = 'distinct (network, source, sink) triples'


def reference(m, s, t):
    res = {u: {} for u in m.names}
    for u, v, c in m.edges():
        if u != v:
            res[u][v] = res[u].get(v, 0) + c
            res[v].setdefault(u, 0)
    flow = 0
    while True:
        par, todo = {s: None}, [s]
        while todo and t not in par:
            u = todo.pop()
            for v, c in res[u].items():
                if c > 0 and v not in par:
                    par[v] = u
                    todo.append(v)
        if t not in par:
            cut = sum(c for u, v, c in m.edges() if u in par and v not in par)
            assert cut == flow, 'oracle is wrong'
            return flow, len(par)
        path, v = [], t
        while par[v] is not None:
            path.append((par[v], v))
            v = par[v]
        b = min(res[u][v] for u, v in path)
        for u, v in path:
            res[u][v] -= b
            res[v][u] += b
        flow += b


def bottlenecks(rng):
    """Short paths fill one edge again and again; later and longer ones have to
    take that flow back: arcs u -> v with as many short ways in and out as fit,
    long ways to v and long ways from u, several such pieces chained or side by
    side, and a few stray edges."""
    edges, count = [], [2]

    def new():
        count[0] += 1
        return count[0] - 1

    def way(a, b, inner, c):
        for _ in range(inner):
            x = new()
            edges.append((a, x, c))
            a = x
        edges.append((a, b, c))

    s, t = 0, 1
    for _ in range(rng.choice([1, 1, 2, 3])):
        u, v = new(), new()
        k = rng.randint(2, 4)
        caps = [rng.choice([1, 1, 2, 3]) for _ in range(k)]
        way(u, v, rng.choice([0, 0, 0, 1]), sum(caps) + rng.choice([0, 0, 0, 1, -1]))
        for c in caps:
            way(s, u, rng.choice([1, 1, 1, 2]), c)
        for c in caps:
            way(v, t, rng.choice([1, 1, 1, 2]), c)
        for _ in range(rng.randint(1, 3)):
            c = rng.choice([1, 1, 2, sum(caps)])
            way(s, v, rng.randint(2, 5), c)
            way(u, t, rng.randint(2, 5), rng.choice([c, 1, 2]))
    n = count[0]
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        a, b = rng.sample(range(n), 2)
        edges.append((a, b, rng.randint(1, 2)))
    mk = style(rng)
    m = Model([mk(i) for i in range(n)])
    rng.shuffle(edges)
    scale = rng.choice([1, 1, 1, 0.25, 10**9])
    for a, b, c in edges:
        m.edge(m.names[a], m.names[b], c * scale)
    return m, m.names[s], m.names[t]


def sc_flow(mon, rng, params):
    n = longish(rng, [2, 3, 4, 5, 6, 8, 12, 16], factor=2)
    kind = rng.choice(['unit', 'small', 'nat', 'float', 'big'])
    shapes = ['layers', 'layers', 'complete', 'dag', 'dag', 'random', 'random', 'cycles', 'path', 'tree']
    r = rng.random()
    if r < 0.2:
        m, s, t = bottlenecks(rng)
    else:
        m = directed(rng, n, kind, shapes=shapes) if rng.random() < 0.75 else undirected(rng, n, kind, True, shapes=shapes)
    if r < 0.2:
        mon.ev('flow that must be taken back')
    elif rng.random() < 0.25 and n >= 4:
        # the classic network whose first augmenting path has to be undone
        a = [m.names[i] for i in rng.sample(range(n), 4)]
        for u, v in ((0, 1), (0, 2), (1, 2), (1, 3), (2, 3)):
            m.edge(a[u], a[v], 1)
        s, t = a[0], a[3]
    else:
        s, t = rng.sample(m.names, 2)
    want, side = reference(m, s, t)
    for impl in IMPLS:
        g = build(m, impl, rng)
        before = snapshot(g)
        for alg in ('edmonds_karp', 'dinic'):
            mon.op(alg, impl, s, t)
            got = pds.max_flow(g, fresh(s), fresh(t), alg) if rng.random() < 0.8 or alg != 'edmonds_karp' else pds.max_flow(g, s, t)
            mon.eq(got, want, 'the flow is not the value of a minimum cut', algorithm=alg, source=s, sink=t, edges=m.edges())
            mon.eq(snapshot(g), before, 'the graph was changed')
            mon.ev('flow judged')
            mon.case((m.sig(), s, t, alg, impl), nontrivial=want > 0)
    if want > 0:
        mon.ev('positive flow')
    else:
        mon.ev('zero flow')
    mon.state((m.sig(), s, t))


def sc_far(mon, rng, params):
    m, order = far(rng, 'big')
    g = build(m, 'adjacency_list', rng)
    want = min(m.adj[u][v] for u, v in zip(order, order[1:]))
    mon.op('edmonds_karp', 'long path')
    mon.eq(pds.max_flow(g, order[0], order[-1], 'edmonds_karp'), want, 'the flow along a long path')
    mon.ev('long path filled')
    mon.case((len(order), want, tuple(m.names[:5])))


SCENARIOS = {'far': {'fn': sc_far, 'quick': 3, 'thorough': 60, 'steps': 100000000},
             'flow': {'fn': sc_flow, 'quick': 4000, 'thorough': 40000, 'steps': 20000000}}
REQUIRED = ['long path filled', 'flow judged', 'flow that must be taken back', 'positive flow', 'zero flow']


def _kf_dinic(mon):
    m = Model([str(i) for i in range(1200)])
    for i in range(1199):
        m.edge(str(i), str(i + 1), 2)
    g = build(m, 'adjacency_list')
    try:
        return pds.max_flow(g, '0', '1199', 'dinic') != 2
    except RecursionError:
        return True


PROBES = {'KF-DINIC-DEPTH': _kf_dinic}
