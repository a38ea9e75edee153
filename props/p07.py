"""Dynamic arrays: element conservation, order, holes and capacity."""
from .common import *   # noqa

ID = 'P07'
RULE = 'distinct operation histories (container, load factor, start, operations)'


def sc_dyn(mon, rng, params):
    cpp = rng.random() < 0.5
    kind = rng.choice(['int', 'int', 'float', 'str'])
    t = DTYPES[kind]
    kw = {'backend': CPP} if cpp else {}
    lf = rng.choice([None, None, 0.25, 0.5, 0.125, 0.0625] + ([] if cpp else [0.1, 0.3, 0.45]))
    if lf is not None:
        kw['load_factor'] = lf
    load = 0.25 if lf is None else lf
    n = rng.choice([0, 0, 1, 2, 5, rng.randint(0, 20)])
    if rng.random() < 0.02:
        n = rng.randint(240, 520)
        mon.ev('hundreds of elements')
    fresh = 1000 * rng.randint(-5, 5)

    def new():
        nonlocal fresh
        fresh += 1
        if rng.random() < 0.1:
            return t()      # zero or the empty string: an element like any other
        return t(fresh) if kind != 'float' else fresh / 4.0
    if rng.random() < 0.5:
        start = [new() for _ in range(n)]
        a = DODA(t, list(start), **kw)
        slots, cap = list(start), n
    else:
        a = DODA(t, n, **kw)
        slots, cap = [], n
        start = n
    # slots: what positions 0.. hold up to the last one in use; None is a hole
    hist = []
    mode = rng.choice(['mixed', 'grow then drain', 'drain front', 'drain back', 'churn'])
    steps = longish(rng, [6, 15, 40, 90])
    for step in range(steps):
        live = [i for i, x in enumerate(slots) if x is not None]
        p = {'mixed': 0.6, 'churn': 0.5}.get(mode, 1.0 if step < steps * 0.45 else 0.0)
        before, resized = (list(slots), cap), False
        if rng.random() < 0.08 and live:
            i, x = rng.choice(live), new()
            mon.op('set', i, x)
            hist.append(('s', i))
            a[i] = x
            slots[i] = x
        elif rng.random() < 0.02 and 0 < cap <= 60:
            x = new()
            mon.op('fill', x)
            hist.append('f')
            a.fill(x)
            slots = [x] * cap
            mon.ev('filled')
        elif rng.random() < 0.05:
            # one element type: another one is refused, before anything changes
            # (the Python arrays convert what converts)
            x = rng.choice([(1,), [2], object()] + (['x'] if t is not str else [5])) if cpp else \
                rng.choice(['x', (1,), [2], '']) if t is not str else None
            if x is None:
                continue
            i = rng.choice([None] + live)
            mon.op('store another type', x, i)
            hist.append(('t', str(x)[:9], i))
            mon.raises((TypeError, ValueError), (lambda: a.append(x)) if i is None else (lambda: a.__setitem__(i, x)),
                       'an element of another type was taken')
            mon.ev('other type refused')
        elif rng.random() < p:
            x = new()
            mon.op('append', x)
            hist.append('a')
            a.append(x)
            if len(slots) == cap:
                cap = 2 * cap + 1
                mon.ev('growth')
            slots.append(x)
            resized = True
        else:
            if rng.random() < 0.15 or not live:
                i = rng.choice([-1, -2, len(slots), len(slots) + 3, 10**6] +
                               [j for j, x in enumerate(slots) if x is None])
            else:
                i = {'drain front': live[0], 'drain back': live[-1]}.get(mode, rng.choice(live))
            mon.op('delete', i)
            hist.append(('d', i))
            a.delete(i)
            if 0 <= i < len(slots) and slots[i] is not None:
                slots[i] = None
                if i == len(slots) - 1:
                    slots.pop()
                resized = True
        num = sum(x is not None for x in slots)
        if resized and cap and num / float(cap) < load:
            mon.ev('compaction')
            slots = [x for x in slots if x is not None]
            cap = 2 * num + 1
        det = dict(before=before, op=mon.log[-1], load=load)
        mon.eq((a.size, len(a)), (cap, cap), 'the capacity is wrong', **det)
        got = read(a)
        mon.eq([x for x in got if x is not None], [x for x in slots if x is not None],
               'the elements or their order changed', **det)
        mon.eq(got, slots + [None] * (cap - len(slots)), 'an element is at another position', **det)
        if kind != 'float' or not cpp:
            mon.eq(str(a), str(['' if x is None else str(x) for x in slots]), 'str() shows other elements', **det)
        if not cpp:
            mon.eq(list(reversed(a)), slots[::-1], 'reversed() differs', **det)
        mon.raises(IndexError, lambda: a[cap], 'reading behind the end')
        mon.raises(IndexError, lambda: a.__setitem__(-1, new()), 'writing in front of the start')
        mon.state((cap, tuple(x is None for x in slots)))
    mon.case((cpp, kind, lf, start, hist), len(hist) > 2)


def sc_trees(mon, rng, params):
    """An array for trees keeps the links between the nodes it stores and
    reports where each node went."""
    from pydatastructs.linear_data_structures.arrays import ArrayForTrees
    from pydatastructs.utils import TreeNode
    cpp = rng.random() < 0.5
    kw = {}
    load = 0.25
    if rng.random() < 0.4:
        load = kw['load_factor'] = rng.choice([0.5, 0.25, 0.125, 0.0625])
    mk = (lambda k: TreeNode(k, k * 3, backend=CPP)) if cpp else (lambda k: TreeNode(k, k * 3))
    start = [mk(-j - 1) for j in range(rng.choice([0, 0, 0, 1, 3, 9]))]
    if not cpp:
        A = ArrayForTrees(TreeNode, start or 0, **kw)
    else:
        from pydatastructs.linear_data_structures._backend.cpp import _arrays
        from pydatastructs.utils._backend.cpp import _nodes
        if rng.random() < 0.7:
            A = ArrayForTrees(_nodes.TreeNode, start or 0, backend=CPP, **kw)
        else:
            A = _arrays.ArrayForTrees(_nodes.TreeNode, start or 0, **kw)
    cap = len(start)
    nodes, pos, links = {}, {}, {}
    for j, node in enumerate(start):
        nodes[-j - 1], pos[-j - 1], links[-j - 1] = node, j, {}
    hist, k, last = [], 0, len(start) - 1
    for _ in range(rng.randint(3, 40)):
        moved = None
        before = (cap, last, len(pos))
        if rng.random() < 0.03:
            # what is not a node is refused and nothing changes
            bad = rng.choice([5, 'node', 2.5])
            if cap and cpp:
                at = rng.randrange(cap)
                mon.raises((TypeError, ValueError), lambda: A.__setitem__(at, bad), 'storing something that is not a node')
        if rng.random() < 0.55 or not pos:
            k += 1
            node = mk(k)
            # link to nodes that are stored
            refs = {}
            if pos:
                for side in ('left', 'right', 'parent'):
                    if rng.random() < 0.6:
                        tgt = rng.choice(list(pos))
                        refs[side] = tgt
                        setattr(node, side, pos[tgt])
            at = last = last + 1
            if at == cap:
                cap = 2 * cap + 1
            mon.op('append', k, refs)
            nodes[k], links[k] = node, refs
            pos[k] = at
            moved = A.append(node)
            hist.append(('a', sorted(refs.items())))
        else:
            # only nodes nobody points to can go
            used_by = {t for r in links.values() for t in r.values()}
            free = [x for x in pos if x not in used_by]
            if not free:
                continue
            x = rng.choice(free)
            mon.op('delete', x)
            hist.append(('d', x))
            moved = A.delete(pos[x])
            if pos[x] == last:
                last -= 1
            del pos[x], nodes[x], links[x]
        mon.eq(moved is not None, len(pos) / float(cap) < load, 'the array is compacted at another load', before=before)
        if moved is not None:
            cap, last = 2 * len(pos) + 1, len(pos) - 1
            mon.ev('node array compacted')
            mon.eq(set(moved), set(pos), 'the relocation map does not cover exactly the stored nodes')
            pos = dict(moved)
        for x, i in pos.items():
            mon.check(A[i] is nodes[x], 'a node is not where the array says it is', key=x, at=i)
            for side in ('left', 'right', 'parent'):
                tgt = links[x].get(side)
                mon.eq(getattr(A[i], side), None if tgt is None else pos[tgt],
                       'the %s link of a node points elsewhere' % side, key=x)
        mon.eq(A._num, len(pos), 'the element count is wrong')
        mon.eq((len(A), A.size, A._last_pos_filled), (cap, cap, last), 'the capacity is wrong', before=before)
        cells = [''] * (last + 1)
        for x, i in pos.items():
            cells[i] = str(A[i])
        mon.eq(str(A), str(cells), 'str() shows other elements')
        mon.raises(IndexError, lambda: A[cap], 'reading behind the end')
    mon.case((cpp, load, len(start), hist))


SCENARIOS = {
    'dynamic arrays': {'fn': sc_dyn, 'quick': 4000, 'thorough': 80000},
    'arrays for trees': {'fn': sc_trees, 'quick': 2000, 'thorough': 40000},
    'dynamic arrays under asan': {'fn': sc_dyn, 'quick': 300, 'thorough': 6000, 'flavour': 'asan'},
    'arrays for trees under asan': {'fn': sc_trees, 'quick': 300, 'thorough': 6000, 'flavour': 'asan'},
}
REQUIRED = ['hundreds of elements', 'other type refused', 'compaction', 'growth', 'node array compacted', 'op:delete', 'op:append', 'op:set']
