"""Searching in arrays: linear, binary, jump, bounds, order check."""
from .common import *   # noqa
from .p01 import COMPS, in_order
import bisect

ID = 'P03'
RULE = 'distinct (function, back end, content, range, value, comparator) tuples'


def arr_of(rng, kind, vals, backend):
    dt = DTYPES[kind]
    kw = {'backend': CPP} if backend is CPP or rng.random() < 0.2 else {}
    if rng.random() < 0.7 or not vals:
        return ODA(dt, list(vals), **kw)
    a = DODA(dt, 0, **kw)
    for v in vals:
        a.append(v)
    return a


def pick_value(rng, vals, kind):
    there = [x for x in vals if x is not None]
    if there and rng.random() < 0.6:
        return rng.choice(there)
    v = values(rng, 1, kind)[0]
    return v


def sc_search(mon, rng, params):
    for name in ('linear_search', 'binary_search', 'jump_search'):
        kind = rng.choice(['int', 'int', 'float', 'str'])
        backend = rng.choice([PY, CPP])
        n = max(0 if rng.random() < 0.05 else 1, size(rng, 12, 120))
        vals = values(rng, n, kind)
        desc = False
        kw = {}
        if name != 'linear_search':
            desc = rng.random() < 0.3
            vals.sort(reverse=desc)
            if desc:
                kw['comp'] = (lambda u, v: u >= v) if name == 'binary_search' else (lambda u, v: u > v)
            elif rng.random() < 0.3:
                kw['comp'] = (lambda u, v: u <= v) if name == 'binary_search' else (lambda u, v: u < v)
        arr = arr_of(rng, kind, vals, backend)
        if name == 'linear_search' and n and rng.random() < 0.3:
            for i in rng.sample(range(n), rng.randint(1, min(n, 3))):
                arr[i] = None
                vals[i] = None
        start, end = 0, n - 1
        if n and (isinstance(arr, DODA) or len(arr) != n):
            # a grown dynamic array has empty slots behind the values
            kw['end'] = end
        if n and rng.random() < 0.5:
            start = rng.randrange(n)
            end = rng.randrange(start, n)
            if rng.random() < 0.08:
                start = rng.randint(1, n)
                end = start - 1
                mon.ev('empty range')
            kw.update(start=start, end=end)
        value = pick_value(rng, vals, kind)
        det = dict(vals=vals, start=start, end=end, value=value, backend=str(backend), desc=desc)
        mon.op(name, vals, start, end, value)
        r = getattr(pds, name)(arr, value, backend=backend, **kw)
        present = value in vals[start:end + 1]
        mon.ev('hit' if present else 'miss')
        if not present:
            mon.check(r is None, '%s found a value that is not in the range' % name, got=r, **det)
        else:
            mon.check(isinstance(r, int) and start <= r <= end and vals[r] == value,
                      '%s did not find a value that is in the range' % name, got=r, **det)
            if name == 'linear_search':
                mon.eq(r, vals.index(value, start), 'linear_search did not return the first match', **det)
        mon.eq(read(arr, n), vals, '%s changed the array' % name, **det)
        mon.case((name, str(backend), vals, start, end, value, desc))
        mon.state((name, r))


def sc_bounds(mon, rng, params):
    kind = rng.choice(['int', 'int', 'float', 'str', 'tuple'])
    n = max(0 if rng.random() < 0.05 else 1, size(rng, 12, 120))
    vals = values(rng, n, kind)
    mode = rng.choice(['asc', 'asc', 'desc', 'key'])
    kw, key = {}, None
    if mode == 'asc':
        vals.sort()
        lt = lambda x, y: x < y
        if rng.random() < 0.4:
            kw['comp'] = lt
    elif mode == 'desc':
        vals.sort(reverse=True)
        lt = lambda x, y: x > y
        kw['comp'] = lt
    else:
        if kind == 'tuple':
            lt = lambda x, y: x[0] < y[0]
            vals.sort(key=lambda t: t[0])
        elif kind == 'str':
            lt = lambda x, y: len(x) < len(y)
            vals.sort(key=len)
        else:
            lt = lambda x, y: abs(x) < abs(y)
            vals.sort(key=abs)
        kw['comp'] = lt
    arr = ODA(DTYPES[kind], list(vals), **({'backend': CPP} if rng.random() < 0.2 else {}))
    start, end = 0, n
    if n and rng.random() < 0.5:
        start = rng.randrange(n)
        end = rng.randrange(start + (rng.random() < 0.9), n + 1)
        kw.update(start=start, end=end)
    value = pick_value(rng, vals, kind)
    det = dict(vals=vals, start=start, end=end, value=value, mode=mode)
    for name in ('lower_bound', 'upper_bound'):
        mon.op(name, vals, start, end, value, mode)
        got = getattr(pds, name)(arr, value, **kw)
        want = end
        for i in range(start, end):
            if (name == 'lower_bound' and not lt(vals[i], value)) or \
                    (name == 'upper_bound' and lt(value, vals[i])):
                want = i
                break
        mon.eq(got, want, '%s returned the wrong position' % name, **det)
        mon.case((name, vals, start, end, value, mode))
        mon.state((name, got))


def sc_ordered(mon, rng, params):
    kind = rng.choice(['int', 'int', 'float', 'str'])
    backend = rng.choice([PY, CPP])
    n = size(rng, 10, 60)
    vals = values(rng, n, kind)
    cname = rng.choice(['default', 'default', 'le', 'ge', 'lt', 'gt'])
    comp = COMPS[cname]
    kw = {} if comp is None else {'comp': comp}
    c = comp or COMPS['le']
    if rng.random() < 0.5:
        vals.sort(reverse=cname in ('ge', 'gt'))
        if n > 1 and rng.random() < 0.4:
            i = rng.randrange(n - 1)
            vals[i], vals[i + 1] = vals[i + 1], vals[i]
    arr = arr_of(rng, kind, vals, backend)
    start, end = 0, n - 1
    holes = []
    if n and rng.random() < 0.35:
        # empty cells are passed over
        holes = sorted(rng.sample(range(n), rng.randint(1, min(n, 3))))
        for i in holes:
            arr[i] = None
            vals[i] = None
    if len(arr) != n and rng.random() < 0.5:
        kw['end'] = end
    if n and rng.random() < 0.5:
        start = rng.randrange(n)
        end = rng.randrange(start, n)
        kw.update(start=start, end=end)
    seen = [x for x in vals[start:end + 1] if x is not None]
    want = all(in_order(c, u, v) for u, v in zip(seen, seen[1:]))
    if not want and all(in_order(c, vals[i], vals[i + 1]) for i in range(start, end)
                        if vals[i] is not None and vals[i + 1] is not None):
        # only elements on the two sides of a hole are out of order: not specified
        mon.ev('disorder across a hole')
        return
    mon.op('is_ordered', vals, start, end, cname)
    got = pds.is_ordered(arr, backend=backend, **kw)
    mon.check(got is want or got == want, 'is_ordered gave the wrong answer', got=got, want=want,
              vals=vals, start=start, end=end, comp=cname, backend=str(backend))
    mon.ev(('ordered' if want else 'not ordered') + (' with holes' if holes else ''))
    mon.case(('is_ordered', str(backend), vals, start, end, cname), end > start)


def sc_sorted_is_ordered(mon, rng, params):
    """Whatever a sort produced has to be accepted by the order check."""
    name = rng.choice(['quick_sort', 'insertion_sort', 'bubble_sort', 'selection_sort',
                       'cocktail_shaker_sort', 'shell_sort', 'brick_sort'])
    cname = rng.choice(['le', 'ge', 'lt', 'gt'])
    vals = ints(rng, size(rng, 12, 40))
    arr = ODA(int, list(vals))
    getattr(pds, name)(arr, comp=COMPS[cname])
    mon.op('sort then check', name, vals, cname)
    mon.check(pds.is_ordered(arr, comp=COMPS[cname]), 'is_ordered rejects what %s produced' % name,
              vals=vals, after=read(arr), comp=cname)
    mon.case(('soc', name, vals, cname))


SCENARIOS = {
    'searches': {'fn': sc_search, 'quick': 4000, 'thorough': 120000},
    'searches under ASan': {'fn': sc_search, 'quick': 240, 'thorough': 6000, 'flavour': 'asan'},
    'bounds': {'fn': sc_bounds, 'quick': 4000, 'thorough': 120000},
    'order check': {'fn': sc_ordered, 'quick': 4000, 'thorough': 120000},
    'sorted arrays are ordered': {'fn': sc_sorted_is_ordered, 'quick': 1000, 'thorough': 20000},
}
REQUIRED = ['hit', 'miss', 'ordered', 'not ordered', 'op:lower_bound', 'op:upper_bound']
