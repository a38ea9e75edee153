"""Shared graph workload: models, generators, builders and observers."""
from .common import *   # noqa

if LIVE:
    from pydatastructs import Graph, AdjacencyListGraphNode, AdjacencyMatrixGraphNode
else:
    Graph = AdjacencyListGraphNode = AdjacencyMatrixGraphNode = None

INF = float('inf')

STYLES = {
    'num': lambda i: str(i),
    'one': lambda i: '1' * (i + 1),
    'v': lambda i: 'v%d' % i,
    'under': lambda i: 'v_%d' % i,
    'letter': lambda i: 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i % 26] * (1 + i // 26),
    'uni': lambda i: '\u00e9\u4e2d %d' % i,
    # names the code might use for something of its own
    'special': lambda i: ('__q__', 'None', 'q', '__q___', 'True', '-1')[i] if i < 6 else 'v%d' % i,
    # the empty name is a name
    'empty': lambda i: '' if i == 1 else 'v%d' % i,
    'rev': lambda i: 'n%03d' % (999 - i),
}


def fresh(name):
    """An equal name that is another object (where Python allows it)."""
    return (name + ' ')[:-1]


def style(rng, cpp=False):
    names = [s for s in STYLES if not (cpp and s in ('under', 'one', 'special'))]
    return STYLES[rng.choice(names)]


class Model(object):
    """A directed graph: vertex names in order, {u: {v: weight or None}}."""

    def __init__(self, names):
        self.names = list(names)
        self.adj = {v: {} for v in self.names}

    def edge(self, u, v, w=None):
        self.adj[u][v] = w

    def edges(self):
        return [(u, v, w) for u in self.names for v, w in self.adj[u].items()]

    def reach(self, s, skip=None):
        seen, todo = {s: 0}, [s]
        for u in todo:
            for v in self.adj[u]:
                if (u, v) != skip and (v, u) != skip and v not in seen:
                    seen[v] = seen[u] + 1
                    todo.append(v)
        return seen

    def sig(self):
        ix = {v: i for i, v in enumerate(self.names)}
        return (len(self.names), tuple((ix[u], ix[v], w) for u, v, w in self.edges()))

    def distances(self, s):
        """Shortest distances by relaxation rounds; None for a reachable negative cycle."""
        d = {v: INF for v in self.names}
        d[s] = 0
        es = self.edges()
        for rnd in range(len(self.names) + 1):
            changed = False
            for u, v, w in es:
                if d[u] + w < d[v]:
                    d[v] = d[u] + w
                    changed = True
            if not changed:
                return d
        return None

    def negative_cycle(self):
        d = {v: 0 for v in self.names}
        es = self.edges()
        for rnd in range(len(self.names) + 1):
            changed = False
            for u, v, w in es:
                if d[u] + w < d[v]:
                    d[v] = d[u] + w
                    changed = True
            if not changed:
                return False
        return True


def pairs(rng, n, shape):
    """Directed index pairs of a graph over range(n)."""
    idx = list(range(n))
    rng.shuffle(idx)
    p = set()
    if n == 0:
        return []
    if shape == 'path':
        p = {(idx[i], idx[i + 1]) for i in range(n - 1)}
    elif shape == 'cycle':
        p = {(idx[i], idx[(i + 1) % n]) for i in range(n)}
    elif shape == 'star':
        p = {(idx[0], x) for x in idx[1:]}
    elif shape == 'instar':
        p = {(x, idx[0]) for x in idx[1:]}
    elif shape == 'complete':
        p = {(a, b) for a in idx for b in idx if a != b}
    elif shape == 'tree':
        p = {(idx[rng.randrange(i)], idx[i]) for i in range(1, n)}
    elif shape == 'dag':
        d = rng.random()
        p = {(idx[i], idx[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < d}
    elif shape == 'cliques':
        k = rng.randint(1, max(1, n // 2))
        p = {(a, b) for a in idx for b in idx if a != b and a % k == b % k and rng.random() < 0.6}
        for _ in range(rng.randint(0, k + 1)):
            p.add((rng.choice(idx), rng.choice(idx)))
    elif shape == 'layers':
        k = rng.randint(2, 4)
        p = {(a, b) for a in idx for b in idx if b // k == a // k + 1 and rng.random() < 0.8}
        p |= {(a, b) for a in idx for b in idx if a != b and rng.random() < 0.05}
    elif shape == 'cycles':
        i = 0
        while i < n:
            k = rng.randint(1, 5)
            c = idx[i:i + k]
            p |= {(c[j], c[(j + 1) % len(c)]) for j in range(len(c))}
            if i and rng.random() < 0.7:
                p.add((idx[rng.randrange(i)], rng.choice(c)))
            i += k
    else:
        m = int(n * rng.choice([0.3, 0.8, 1.2, 2, 4]))
        p = {(rng.choice(idx), rng.choice(idx)) for _ in range(m)}
    p = sorted(p)
    rng.shuffle(p)
    return p


SHAPES = ['path', 'cycle', 'star', 'instar', 'complete', 'tree', 'dag', 'cliques', 'layers', 'cycles',
          'random', 'random', 'random']


def weigher(rng, kind):
    if kind == 'unit':
        return lambda: 1
    if kind == 'small':
        return lambda: rng.randint(0, 3)
    if kind == 'nat':
        return lambda: rng.randint(0, 60)
    if kind == 'float':
        return lambda: rng.randint(0, 200) / 8.0
    if kind == 'neg':
        return lambda: rng.randint(-6, 30)
    if kind == 'fneg':
        return lambda: rng.randint(-20, 160) / 4.0
    if kind == 'big':
        return lambda: rng.randint(1, 5) * 10**12 + rng.randint(0, 2)
    return lambda: None


def directed(rng, n, weights, loops=True, shapes=SHAPES, mk=None):
    mk = mk or style(rng)
    m = Model([mk(i) for i in range(n)])
    w = weigher(rng, weights)
    for a, b in pairs(rng, n, rng.choice(shapes)):
        if a != b or loops:
            m.edge(m.names[a], m.names[b], w())
    return m


def undirected(rng, n, weights, connected, shapes=SHAPES, mk=None):
    mk = mk or style(rng)
    m = Model([mk(i) for i in range(n)])
    w = weigher(rng, weights)
    ps = [(a, b) for a, b in pairs(rng, n, rng.choice(shapes)) if a != b]
    if connected:
        ps += [(rng.randrange(i), i) for i in range(1, n)]
    rng.shuffle(ps)
    todo = []
    seen = set()
    for a, b in ps:
        if (a, b) not in seen:
            seen |= {(a, b), (b, a)}
            x = w()
            todo += [(a, b, x), (b, a, x)]
    if rng.random() < 0.5:
        rng.shuffle(todo)
    for a, b, x in todo:
        m.edge(m.names[a], m.names[b], x)
    return m


def node(impl, name, data=None, **kw):
    cls = AdjacencyListGraphNode if impl == 'adjacency_list' else AdjacencyMatrixGraphNode
    return cls(name, data, **kw)


def build(model, impl, rng=None, backend=None):
    kw = {} if backend is None else {'backend': backend}
    nodes = [node(impl, v, i, **kw) for i, v in enumerate(model.names)]
    g = Graph(*nodes, implementation=impl, **kw)
    es = model.edges()
    if rng is not None and rng.random() < 0.5:
        rng.shuffle(es)
    for u, v, w in es:
        u, v = fresh(u), fresh(v)
        if w is None:
            g.add_edge(u, v)
        else:
            g.add_edge(u, v, w)
    return g


def far(rng, weights='nat', both=False, lo=1100, hi=1400):
    """A path longer than the interpreter's recursion limit, its vertices given
    in any order: (model, names along the path)."""
    mk = style(rng)
    order = [mk(i) for i in range(rng.randint(lo, hi))]
    m = Model(order)
    w = weigher(rng, weights)
    for a, b in zip(order, order[1:]):
        c = w()
        m.edge(a, b, c)
        if both:
            m.edge(b, a, c)
    if rng.random() < 0.7:
        rng.shuffle(m.names)
    return m, order


def snapshot(g):
    """Everything a caller can see of a Python graph."""
    vs = list(g.vertices)
    return (vs, g._impl,
            {v: sorted(x.name for x in g.neighbors(v)) for v in vs},
            {k: (e.source.name, e.target.name, e.value, type(e.value)) for k, e in g.edge_weights.items()},
            {v: (getattr(g, v).name, getattr(g, v).data) for v in vs},
            {v: list(getattr(g, v).adjacent) for v in vs} if g._impl == 'adjacency_list' else None)


def names_of(nodes):
    return [x.name for x in nodes]


IMPLS = ['adjacency_list', 'adjacency_matrix']
