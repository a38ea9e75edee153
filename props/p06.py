"""Fixed-size and multi-dimensional arrays against a plain model."""
from .common import *   # noqa
import itertools

ID = 'P06'
RULE = 'distinct (class, backend, type, shape, operation history) tuples with at least one write'
CONV = {'int': int, 'float': float, 'str': str, 'tuple': tuple}


def any_value(rng):
    return rng.choice([rng.randint(-10**6, 10**6), rng.randint(-300, 300), rng.randint(-40, 40) / 4.0,
                       10**20 + rng.randint(0, 9), str(rng.randint(-99, 99))])


def build(mon, rng, cls, kind, cpp, n):
    """An array and its model."""
    t = CONV[kind]
    kw = {'backend': CPP} if cpp else {}
    form = rng.randrange(6)
    data = [any_value(rng) for _ in range(n)]
    if cpp:
        data = [t(x) for x in data]
    keep = list(data)
    want = [x if isinstance(x, t) else t(x) for x in data]
    if form == 0:
        a, want = cls(t, n, **kw), [None] * n
    elif form == 1:
        init = any_value(rng)
        if kw:
            init = t(init)
        a = cls(t, n, init=init, **kw)
        if not isinstance(init, t):
            mon.ev('initial value converted')
            init = t(init)
        want = [init] * n
        del init
    elif form == 2:
        a = cls(t, n, data, **kw)
    elif form == 3:
        a = cls(t, data, n, **kw)
    elif form == 4:
        a = cls(t, tuple(data), **kw)
    else:
        a = cls(t, data, **kw)
    mon.eq(data, keep, 'the constructor changed the list it was given', form=form, kind=kind)
    mon.check(all(type(x) is type(y) for x, y in zip(data, keep)),
              'the constructor converted elements of the list it was given', form=form)
    return a, want


def same(got, want):
    return len(got) == len(want) and all(type(x) is type(y) and x == y for x, y in zip(got, want))


def sc_oda(mon, rng, params):
    cpp = rng.random() < 0.5
    kind = rng.choice(['int', 'float', 'str'])
    n = size(rng, 8, 60)
    a, m = build(mon, rng, ODA, kind, cpp, n)
    t = CONV[kind]
    mon.check(same(read(a), m), 'a new array does not hold the given values', got=read(a), want=m)
    hist = []
    for _ in range(rng.randint(1, 30)):
        r = rng.random()
        if r < 0.55 and n:
            i = rng.randrange(n)
            x = None if rng.random() < 0.1 else any_value(rng)
            if cpp and x is not None and rng.random() < 0.85:
                x = t(x)
            mon.op('set', i, x)
            hist.append((i, x))
            if cpp and x is not None and not isinstance(x, t):
                mon.raises(TypeError, lambda: a.__setitem__(i, x), 'a value of another type was stored', value=x)
            else:
                try:
                    want = x if x is None or isinstance(x, t) else t(x)
                except ValueError:
                    mon.raises(ValueError, lambda: a.__setitem__(i, x), 'an unconvertible value was stored')
                else:
                    a[i] = x
                    m[i] = want
        elif r < 0.63:
            x = t(any_value(rng))
            mon.op('fill', x)
            hist.append(('fill', x))
            a.fill(x)
            m = [x] * n
        elif r < 0.85:
            i = rng.choice([-1, -n, -n - 1, n, n + 1, n + rng.randint(0, 50), -rng.randint(1, 60), 2 ** 40])
            if 0 <= i < n:
                continue
            mon.op('outside', i)
            mon.raises(IndexError, lambda: a[i], 'reading outside the array', index=i, size=n)
            mon.raises(IndexError, lambda: a.__setitem__(i, t(1)), 'writing outside the array', index=i, size=n)
        elif n:
            i = rng.randrange(n)
            mon.op('get', i)
            mon.check(same([a[i]], [m[i]]), 'an element reads back differently', index=i, got=a[i], want=m[i])
        mon.check(same(read(a), m), 'the array differs from the model', got=read(a), want=m)
        mon.eq(len(a), n, 'the size of a fixed array changed')
    if not cpp:
        mon.eq(str(a), str(m), 'str() does not show the elements')
    elif kind == 'int':
        mon.eq(str(a), str(['' if x is None else str(x) for x in m]), 'str() does not show the elements')
    mon.state((kind, cpp, n))
    mon.case((kind, cpp, n, hist, m), bool(hist))


def sc_bad(mon, rng, params):
    """Constructor misuse is rejected, on both backends alike."""
    kw = rng.choice([{}, {'backend': CPP}])
    n = rng.randint(0, 6)
    d = [rng.randint(0, 9) for _ in range(n)]
    k = n + rng.choice([-1, 1, 2, 7])
    if k >= 0:
        mon.raises(ValueError, lambda: ODA(int, k, d, **kw), 'size and data conflict', n=n, size=k)
        mon.raises(ValueError, lambda: ODA(int, d, k, **kw), 'size and data conflict', n=n, size=k)
    mon.raises(ValueError, lambda: ODA(**kw), 'no element type')
    mon.raises(ValueError, lambda: ODA(int, n, d, 3, **kw), 'too many arguments')
    mon.raises(TypeError, lambda: ODA(int, float(n), **kw), 'a size that is not an int')
    mon.raises(TypeError, lambda: ODA(int, set(d), **kw), 'data that is no list or tuple')
    mon.raises(TypeError, lambda: ODA(int, float(n), d, **kw), 'a size that is not an int')
    # one element that is of another type (the Python arrays convert what converts)
    odd = rng.choice(['x', '', None, (1,), object()] + ([1.5, '7'] if kw else []))
    e = list(d)
    e.insert(rng.randint(0, n), odd)
    keep = list(e)
    form = rng.choice([lambda: ODA(int, e, **kw), lambda: ODA(int, tuple(e), **kw), lambda: ODA(int, e, n + 1, **kw),
                       lambda: ODA(int, n + 1, e, **kw)])
    mon.raises((TypeError, ValueError), form, 'an element of another type', element=odd, backend=bool(kw))
    mon.check(all(x is y for x, y in zip(e, keep)) and len(e) == len(keep), 'the list that was refused was changed')
    if odd is not None:
        mon.raises((TypeError, ValueError), lambda: ODA(int, n + 1, init=odd, **kw), 'an initial value of another type', element=odd)
    mon.op('misuse')
    mon.case(('bad', bool(kw), n, k, str(odd)[:9]))


class Twin(object):
    """Objects that are all equal and yet different ones."""
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __hash__(self):
        return 1

    def __bool__(self):
        return self.n % 2 == 0

    def __repr__(self):
        return 'Twin(%d)' % self.n


def sc_twins(mon, rng, params):
    """Arrays give back the very object stored last, whatever it is equal to."""
    cls = rng.choice([ODA, DODA, pds.MultiDimensionalArray])
    kw = {'backend': CPP} if cls is not pds.MultiDimensionalArray and rng.random() < 0.5 else {}
    n = rng.randint(1, 9)
    m = [Twin(i) for i in range(n)]
    if cls is pds.MultiDimensionalArray:
        a = cls(Twin, 1, n)
        key = lambda i: (0, i)
        for i, x in enumerate(m):
            a[key(i)] = x
    else:
        a = cls(Twin, list(m), **kw)
        key = lambda i: i
    for step in range(rng.randint(1, 12)):
        i = rng.randrange(n)
        m[i] = rng.choice([Twin(n + step), m[rng.randrange(n)]])
        mon.op('set', i, m[i])
        a[key(i)] = m[i]
        got = [a[key(k)] for k in range(n)]
        mon.check(all(x is y for x, y in zip(got, m)), 'an array gives back another object than the one stored',
                  got=got, want=m, container=cls.__name__)
        mon.ev('told equal values apart')
    mon.case(('twins', cls.__name__, bool(kw), [x.n for x in m]))


def sc_mda(mon, rng, params):
    MDA = pds.MultiDimensionalArray
    nd = rng.choice([1, 2, 2, 3, 3, 4, 5])
    shape = tuple(rng.randint(1, {1: 20, 2: 9, 3: 6, 4: 4, 5: 3}[nd]) for _ in range(nd))
    kind = rng.choice(['int', 'int', 'float', 'str'])
    t = CONV[kind]
    a = MDA(t, *shape)
    mon.eq(a.shape, shape, 'shape differs from the dimensions')
    cells = list(itertools.product(*[range(d) for d in shape]))
    key = (lambda c: c[0]) if nd == 1 else (lambda c: c)
    if rng.random() < 0.3:
        model = {c: None for c in cells}
    else:
        v = rng.randint(-5, 5)
        v = v if rng.random() < 0.5 else float(v)
        a.fill(v)
        model = {c: t(v) for c in cells}
    hist = []
    for step in range(rng.randint(1, 25)):
        r = rng.random()
        if r < 0.7:
            c = rng.choice(cells)
            x = None if rng.random() < 0.08 else any_value(rng)
            mon.op('set', c, x)
            hist.append((c, x))
            try:
                want = x if x is None or isinstance(x, t) else t(x)
            except ValueError:
                mon.raises(ValueError, lambda: a.__setitem__(key(c), x), 'an unconvertible value was stored')
            else:
                a[key(c)] = x
                model[c] = want
                mon.check(same([a[key(c)]], [want]), 'an element reads back differently', index=c, got=a[key(c)], want=want)
        elif r < 0.75:
            x = rng.randint(0, 9)
            a.fill(x)
            hist.append(x)
            model = {c: t(x) for c in cells}
        else:
            c = list(rng.choice(cells))
            axis = rng.randrange(nd)
            c[axis] = rng.choice([shape[axis], shape[axis] + rng.randint(0, 5), -1, -shape[axis], -7])
            c = tuple(c)
            mon.op('outside', c)
            mon.ev('outside one dimension')
            mon.raises(IndexError, lambda: a[key(c)], 'reading outside a dimension', index=c, shape=shape)
            mon.raises(IndexError, lambda: a.__setitem__(key(c), t(1)), 'writing outside a dimension', index=c, shape=shape)
            wrong = tuple([0] * (nd + rng.choice([-1, 1])))
            if wrong:
                mon.raises(IndexError, lambda: a[wrong], 'wrong number of indices', shape=shape)
        if step % 4 == 0:
            got = {c: a[key(c)] for c in cells}
            mon.check(same(list(got.values()), list(model.values())), 'the cells differ from the model', shape=shape,
                      diff=[(c, got[c], model[c]) for c in cells if got[c] != model[c]][:5])
    got = {c: a[key(c)] for c in cells}
    mon.check(same(list(got.values()), list(model.values())), 'the cells differ from the model', shape=shape,
              diff=[(c, got[c], model[c]) for c in cells if got[c] != model[c]][:5])
    mon.eq(str(a), str([model[c] for c in cells]), 'str() is not row-major')
    bad = list(shape)
    bad[rng.randrange(nd)] = rng.choice([0, -1, -4])
    mon.raises(ValueError, lambda: MDA(int, *bad), 'a dimension below 1', dims=bad)
    mon.state(shape)
    mon.case((shape, kind, hist), bool(hist))


SCENARIOS = {
    'fixed arrays': {'fn': sc_oda, 'quick': 4000, 'thorough': 80000},
    'misuse': {'fn': sc_bad, 'quick': 400, 'thorough': 6000},
    'misuse under asan': {'fn': sc_bad, 'quick': 100, 'thorough': 2000, 'flavour': 'asan'},
    'equal objects': {'fn': sc_twins, 'quick': 600, 'thorough': 10000},
    'multi-dimensional arrays': {'fn': sc_mda, 'quick': 3000, 'thorough': 60000},
    'fixed arrays under asan': {'fn': sc_oda, 'quick': 300, 'thorough': 8000, 'flavour': 'asan'},
}
REQUIRED = ['told equal values apart', 'initial value converted', 'outside one dimension', 'rejected', 'op:set', 'op:fill', 'op:get']
