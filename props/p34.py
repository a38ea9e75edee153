"""Topological sorting, serial and parallel."""
import sys
from .graphs import *   # noqa
from .sched import schedule

ID = 'P34'
RULE = 'distinct (graph, threads) pairs'


def acyclic(m):
    left = {v: set(m.adj[v]) for v in m.names}
    while left:
        sinks = [v for v in left if not left[v]]
        if not sinks:
            return False
        for v in sinks:
            del left[v]
        for v in left:
            left[v] -= set(sinks)
    return True


def sc_topo(mon, rng, params):
    n = longish(rng, [0, 1, 2, 3, 5, 8, 14, 30], factor=4)
    if rng.random() < 0.75:
        m = directed(rng, n, rng.choice(['none', 'small']), loops=False, shapes=['path', 'star', 'instar', 'tree', 'dag', 'dag', 'dag'])
        if n > 1 and rng.random() < 0.2:
            m.edge(rng.choice(m.names), rng.choice(m.names), 1)
    else:
        m = directed(rng, n, 'none')
    g = build(m, 'adjacency_list', rng)
    before = snapshot(g)
    par = params['parallel']
    threads = rng.choice([1, 2, 3, 8]) if par else 0

    def call():
        if not par:
            return pds.topological_sort(g, 'kahn')
        with schedule(mon, rng):
            return pds.topological_sort_parallel(g, 'kahn', threads)
    for again in range(2):
        mon.op('topological_sort', threads)
        if acyclic(m):
            got = call()
            mon.eq(sorted(got), sorted(m.names), 'the order does not list every vertex once')
            at = {v: i for i, v in enumerate(got)}
            for u, v, _ in m.edges():
                mon.check(at[u] < at[v], 'the order puts the target of an edge before its source', edge=(u, v), got=got)
            mon.ev('order judged %s' % ('parallel' if par else 'serial'))
            mon.state((m.sig(), tuple(got)))
        else:
            mon.raises(ValueError, call, 'a cycle was not reported', edges=m.edges())
            mon.ev('cycle reported')
        mon.eq(snapshot(g), before, 'sorting changed the graph')
        mon.case((m.sig(), threads), nontrivial=n > 1)


def sc_far(mon, rng, params):
    m, order = far(rng, 'none')
    g = build(m, 'adjacency_list', rng)
    mon.op('topological_sort', 'long path')
    mon.eq(pds.topological_sort(g, 'kahn'), order, 'the order of a long path')
    g.add_edge(order[-1], rng.choice(order))
    mon.raises(ValueError, lambda: pds.topological_sort(g, 'kahn'), 'a long cycle was not reported')
    mon.ev('long path sorted')
    mon.case((len(order), tuple(m.names[:5])))


SCENARIOS = {
    'serial': {'fn': lambda mon, rng, p: sc_topo(mon, rng, {'parallel': False}), 'quick': 2000, 'thorough': 40000},
    'far': {'fn': sc_far, 'quick': 8, 'thorough': 100, 'steps': 100000000},
    'parallel': {'fn': lambda mon, rng, p: sc_topo(mon, rng, {'parallel': True}), 'quick': 500, 'thorough': 6000},
}
REQUIRED = ['long path sorted', 'order judged serial', 'order judged parallel', 'cycle reported', 'perturbed schedules']
PROBES = {}
