"""Disjoint set forest against a partition model."""
from .common import *   # noqa

ID = 'P15'
RULE = 'distinct (universe, operation history) pairs'


def sc_forest(mon, rng, params):
    from pydatastructs import DisjointSetForest
    n = longish(rng, [1, 2, 4, 8, 16, 40])
    kind = rng.choice(['int', 'str', 'tuple', 'float'])
    mk = {'int': lambda i: i - 3, 'str': lambda i: 'k%02d' % i, 'tuple': lambda i: (i % 3, i), 'float': lambda i: i / 2.0}[kind]
    keys = [mk(i) for i in range(n)]
    f = DisjointSetForest()
    groups = {}                  # key -> frozen group object (shared list)
    data, hist = {}, []
    absent = mk(n + 7)

    def audit(full):
        ks = list(groups)
        if full:
            want = sorted(sorted(g) for g in {id(g): g for g in groups.values()}.values())
            mon.eq(f.disjoint_sets(), want, 'disjoint_sets() is not the partition')
            reps = {}
            for k in ks:
                r = f.find_root(k)
                mon.check(r.key in groups[k], 'the representative is not a member of the set', key=k, root=r.key)
                reps.setdefault(id(groups[k]), set()).add(r.key)
                mon.eq(f.find_size(k), len(groups[k]), 'find_size is not the number of members', key=k)
                mon.eq(f.tree[k].data, data[k], 'the data of a set member changed')
            mon.check(all(len(v) == 1 for v in reps.values()), 'a set has two representatives')
            mon.ev('partition audited')
        else:
            for k in rng.sample(ks, min(4, len(ks))):
                for j in rng.sample(ks, min(4, len(ks))):
                    mon.eq(f.find_root(k) is f.find_root(j), groups[k] is groups[j],
                           'find_root disagrees with the unions made', a=k, b=j)
        mon.state(tuple(sorted(tuple(sorted(map(str, g))) for g in {id(g): g for g in groups.values()}.values())))

    p_root = rng.choice([0, 0.1, 0.3])
    for step in range(longish(rng, [5, 20, 60, 120])):
        r = rng.random()
        if r < 0.25 or not groups:
            k = rng.choice(keys)
            d = rng.choice([None, step])
            mon.op('make_set', k)
            hist.append(('m', k))
            f.make_set(k, d) if d is not None else f.make_set(k)
            if k not in groups:
                groups[k] = [k]
                data[k] = d
        elif r < 0.25 + p_root:
            k = rng.choice(list(groups))
            mon.op('make_root', k)
            hist.append(('r', k))
            f.make_root(k)
            mon.eq(f.find_root(k).key, k, 'make_root did not make the element the representative')
            mon.ev('rerooted')
        elif r < 0.9:
            a, b = rng.choice(list(groups)), rng.choice(list(groups))
            mon.op('union', a, b)
            hist.append(('u', a, b))
            f.union(a, b)
            ga, gb = groups[a], groups[b]
            if ga is not gb:
                ga.extend(gb)
                for k in gb:
                    groups[k] = ga
        else:
            mon.op('unknown key', absent)
            hist.append('x')
            other = rng.choice(list(groups))
            fn = rng.choice([lambda: f.find_root(absent), lambda: f.find_size(absent), lambda: f.make_root(absent),
                             lambda: f.union(absent, other), lambda: f.union(other, absent)])
            mon.raises(KeyError, fn, 'an unknown key')
        audit(rng.random() < 0.2)
    audit(True)
    mon.case((kind, n, tuple(hist)))


SCENARIOS = {'forest': dict(fn=sc_forest, quick=2500, thorough=120000)}
REQUIRED = ['partition audited', 'rerooted', 'rejected']
