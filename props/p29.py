"""Breadth-first and depth-first traversals, judged on the trace of operation calls."""
import time
from .graphs import *   # noqa
from .sched import schedule

# the empty name is what an operation is handed when there is no next vertex
STYLES.pop('empty', None)

ID = 'P29'
RULE = 'distinct (graph, source, stop point, algorithm) tuples'


def judge(mon, m, src, calls, stop, kind):
    """calls: the (curr, next) pairs in order; stop: number of the call that returned False, or None."""
    dist = m.reach(src)
    found = {src: None}
    for k, (u, v) in enumerate(calls):
        mon.check(u in found, 'the operation was called for a vertex that was not discovered', call=(u, v))
        if v == '':
            mon.check(not m.adj[u], 'a vertex with neighbours was reported as a dead end', call=(u, v))
            mon.ev('dead end seen')
        else:
            mon.check(v in m.adj[u], 'the operation was called for a pair that is no edge', call=(u, v))
            mon.check(v not in found, 'a vertex was discovered twice', call=(u, v), before=calls[:k])
            found[v] = u
    ends = [u for u, v in calls if v == '']
    mon.eq(len(ends), len(set(ends)), 'a dead end was reported twice')
    if stop is None:
        mon.eq(sorted(found), sorted(dist), 'the vertices discovered are not the reachable ones')
        mon.eq(sorted(ends), sorted(v for v in dist if not m.adj[v]), 'the dead ends reported are not the reachable ones')
        mon.ev('complete traversal')
    elif kind != 'pbfs':
        mon.check(len(calls) <= stop + 1, 'the traversal went on after the operation asked to stop', stop=stop, calls=len(calls))
        mon.ev('stopped traversal')
    if kind in ('bfs', 'pbfs'):
        for v, u in found.items():
            if u is not None:
                mon.eq(dist[u] + 1, dist[v], 'a vertex was not discovered from the layer before it', vertex=v, via=u)
        layers = [dist[u] for u, v in calls]
        mon.eq(layers, sorted(layers), 'a breadth first search left the layer order')
        if kind == 'pbfs' and stop is not None:
            mon.check(all(d <= layers[stop] for d in layers), 'a deeper layer was expanded after a stop request')
            mon.check(all(u != calls[stop][0] for u, v in calls[stop + 1:]), 'the vertex whose operation asked to stop was expanded further')
            mon.ev('stopped traversal')
    # expansion discipline: first in first out / last in first out
    if kind in ('bfs', 'dfs'):
        todo, seen, cur = [src], {src}, None
        for u, v in calls:
            if u != cur:
                while True:
                    mon.check(todo, 'a vertex was expanded twice', vertex=u)
                    x = todo.pop(0 if kind == 'bfs' else -1)
                    if x == u:
                        break
                    mon.check(m.adj[x] and all(y in seen for y in m.adj[x]),
                              'a vertex was expanded out of turn', expected=x, got=u)
                cur = u
            if v != '':
                todo.append(v)
                seen.add(v)
        mon.ev('expansion order judged')


def sc_walk(mon, rng, params):
    n = longish(rng, [1, 2, 3, 5, 8, 15, 30], factor=4)
    m = directed(rng, n, rng.choice(['none', 'nat']))
    if rng.random() < 0.3:
        m = undirected(rng, n, 'none', rng.random() < 0.5)
    impl = rng.choice(IMPLS)
    g = build(m, impl, rng)
    if impl == 'adjacency_matrix' and rng.random() < 0.3 and m.edges():
        u, v, _ = rng.choice(m.edges())
        g.remove_edge(u, v)
        del m.adj[u][v]
    before = snapshot(g)
    src = rng.choice(m.names)
    total = len(m.reach(src)) + 2
    for kind, fn in (('bfs', pds.breadth_first_search), ('dfs', pds.depth_first_search)):
        stop = None if rng.random() < 0.6 else rng.randrange(total)
        calls, extra = [], []
        token = object()

        def op(u, v, a, b=None, tag=None):
            calls.append((u, v))
            extra.append((a is token, tag))
            if stop is not None and len(calls) - 1 == stop:
                return rng.choice([False, None, 0, ''])
            return rng.choice([True, 1, 'x'])
        mon.op(kind, src, stop)
        kw = {'backend': PY} if rng.random() < 0.2 else {}
        r = fn(g, src, op, token, tag=7, **kw)
        mon.check(r is None, 'a traversal returned something', got=short_repr(r))
        mon.check(all(e == (True, 7) for e in extra), 'extra arguments were not passed to the operation')
        judge(mon, m, src, calls, stop if stop is not None and stop < len(calls) else None, kind)
        mon.eq(snapshot(g), before, 'a traversal changed the graph')
        mon.state((m.sig(), src, kind))
        mon.case((m.sig(), src, stop, kind, impl), nontrivial=len(calls) > 0)


def sc_far(mon, rng, params):
    m, order = far(rng, 'none')
    g = build(m, 'adjacency_list', rng)
    for fn in (pds.breadth_first_search, pds.depth_first_search):
        calls = []
        fn(g, order[0], lambda u, v: calls.append((u, v)) or True)
        mon.eq(calls, list(zip(order, order[1:] + [''])), 'a long path is not walked from one end to the other')
    mon.ev('long path walked')
    mon.case((len(order), tuple(m.names[:5])))


class Boom(Exception):
    pass


def sc_failing(mon, rng, params):
    """The error of an operation reaches the caller, and is the last call."""
    n = rng.choice([1, 2, 4, 8, 15])
    m = directed(rng, n, 'none') if rng.random() < 0.7 else undirected(rng, n, 'none', True)
    impl = rng.choice(IMPLS)
    g = build(m, impl, rng)
    before = snapshot(g)
    src = rng.choice(m.names)
    when = rng.randrange(len(m.reach(src)) + 1)
    for kind in ('bfs', 'dfs', 'pbfs'):
        calls = []

        def op(u, v):
            calls.append((u, v))
            if len(calls) - 1 == when:
                raise Boom(u, v)
            return True
        mon.op('failing', kind, src, when)
        try:
            if kind == 'pbfs':
                pds.breadth_first_search_parallel(g, src, 1, op)
            else:
                {'bfs': pds.breadth_first_search, 'dfs': pds.depth_first_search}[kind](g, fresh(src), op)
            mon.check(len(calls) <= when, 'an error of the operation was lost', kind=kind, calls=calls)
        except Boom as e:
            mon.eq(e.args, calls[when], 'the error is another one')
            if kind != 'pbfs':
                mon.eq(len(calls), when + 1, 'the operation was called after its error', kind=kind)
            mon.ev('operation failed')
        mon.eq(snapshot(g), before, 'a failed traversal changed the graph')
        calls = []
        op2 = lambda u, v: calls.append((u, v)) or True
        if kind == 'pbfs':
            pds.breadth_first_search_parallel(g, src, 2, op2)
        else:
            {'bfs': pds.breadth_first_search, 'dfs': pds.depth_first_search}[kind](g, src, op2)
        judge(mon, m, src, calls, None, kind)
    mon.case((m.sig(), src, when, impl))


def short_repr(x):
    return repr(x)[:200]


def sc_parallel(mon, rng, params):
    n = longish(rng, [1, 2, 3, 5, 8, 15, 30], factor=4)
    m = directed(rng, n, 'none') if rng.random() < 0.7 else undirected(rng, n, 'none', True)
    impl = rng.choice(IMPLS)
    g = build(m, impl, rng)
    before = snapshot(g)
    src = rng.choice(m.names)
    threads = rng.choice([1, 2, 3, 8])
    stop = None if rng.random() < 0.6 else rng.randrange(len(m.reach(src)) + 1)
    calls = []
    delay = rng.random() < 0.3

    def op(u, v, a, tag=None):
        if delay and rng.random() < 0.2:
            time.sleep(0.0002)
        calls.append((u, v))
        if a != 3 or tag != 't':
            raise ValueError('extra arguments lost')
        return len(calls) - 1 != stop
    mon.op('pbfs', src, threads, stop)
    kw = {'backend': PY} if rng.random() < 0.2 else {}
    with schedule(mon, rng):
        r = pds.breadth_first_search_parallel(g, fresh(src), threads, op, 3, tag='t', **kw)
    mon.check(r is None, 'a traversal returned something')
    judge(mon, m, src, calls, stop if stop is not None and stop < len(calls) else None, 'pbfs')
    mon.eq(snapshot(g), before, 'a traversal changed the graph')
    mon.ev('parallel traversal')
    mon.state(tuple(calls))
    mon.case((m.sig(), src, stop, threads, impl), nontrivial=len(calls) > 0)


SCENARIOS = {
    'serial': {'fn': sc_walk, 'quick': 2500, 'thorough': 40000},
    'far': {'fn': sc_far, 'quick': 8, 'thorough': 100, 'steps': 100000000},
    'parallel': {'fn': sc_parallel, 'quick': 800, 'thorough': 12000},
    'failing operations': {'fn': sc_failing, 'quick': 500, 'thorough': 8000},
}
REQUIRED = ['long path walked', 'complete traversal', 'stopped traversal', 'expansion order judged', 'parallel traversal', 'dead end seen', 'operation failed', 'perturbed schedules']
PROBES = {}
