"""Range queries, sparse table, segment tree, binary indexed tree."""
from fractions import Fraction
from .common import *   # noqa

ID = 'P17'
RULE = 'distinct (structure, function, array, operation history) tuples'


def _functions():
    from pydatastructs import minimum, greatest_common_divisor, summation
    import math

    def monoid(op):
        def f(xs):
            if len(xs) == 1:
                return xs[0]
            x, y = xs
            if x is None or y is None:
                return x if y is None else y
            return op(x, y)
        return f
    plain = {'min': min, 'gcd': math.gcd, 'sum': lambda a, b: a + b, 'max': max, 'first': lambda a, b: a,
             'last': lambda a, b: b, 'or': lambda a, b: a | b,
             # 2x2-matrix-like non-commutative associative operation on packed ints (affine maps mod 97)
             'affine': lambda a, b: ((a // 97) * (b // 97) % 97) * 97 + ((a % 97) * (b // 97) + b % 97) % 97}
    fs = {k: monoid(v) for k, v in plain.items()}
    fs['min'], fs['gcd'], fs['sum'] = minimum, greatest_common_divisor, summation
    return fs, plain


def _fold(op, xs):
    acc = xs[0]
    for x in xs[1:]:
        # a cell without a value does not take part
        acc = acc if x is None else x if acc is None else op(acc, x)
    return acc


class Keyed(object):
    """Values that are equal (in order) without being the same."""
    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Keyed) and self.k == other.k

    def __lt__(self, other):
        return self.k < other.k
    __hash__ = None

    def __repr__(self):
        return 'Keyed(%d)@%x' % (self.k, id(self))


def _agree(mon, got, want, message, **det):
    """Equal, and the very same object where equal ones can be told apart."""
    mon.eq(got, want, message, **det)
    if isinstance(want, Keyed):
        mon.check(got is want, message + ' (another object that compares equal)', got=got, want=want, **det)
        mon.ev('told equal values apart')


def _array(rng):
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, rng.randint(1, 40), rng.choice([33, 63, 64, 65])])
    if rng.random() < 0.01:
        n = rng.randint(100, 300)
    return n


FUNCS = {'float': ('min', 'max', 'sum', 'first', 'last'), 'str': ('min', 'max', 'sum', 'first', 'last'),
         'tuple': ('min', 'max', 'sum', 'first', 'last'), 'frac': ('min', 'max', 'sum', 'first', 'last'),
         'keyed': ('max', 'first', 'last'), 'holes': ('min', 'max', 'sum', 'first', 'last', 'affine'),
         'huge': ('min', 'max', 'sum', 'gcd', 'or')}


def _pick(rng, fs):
    """(function name, kind of values)"""
    kind = rng.choice(['int', 'int', 'int', 'float', 'str', 'tuple', 'frac', 'huge', 'keyed', 'holes'])
    return rng.choice(sorted(FUNCS.get(kind, fs))), kind


def _vals(rng, n, fname, kind='int'):
    if kind == 'float':
        return [rng.randint(-200, 200) / 8.0 for _ in range(n)]
    if kind == 'str':
        return [''.join(rng.choice('abc') for _ in range(rng.randint(0, 3))) for _ in range(n)]
    if kind == 'tuple':
        return [tuple(rng.randint(0, 3) for _ in range(rng.randint(0, 2))) for _ in range(n)]
    if kind == 'frac':
        return [Fraction(rng.randint(-9, 9), rng.randint(1, 9)) for _ in range(n)]
    if kind == 'huge':
        return [rng.getrandbits(90) for _ in range(n)]
    if kind == 'keyed':
        return [Keyed(rng.randint(0, 2)) for _ in range(n)]
    if kind == 'holes':
        return [None if rng.random() < 0.4 else x for x in
                ([rng.randrange(97 * 97) for _ in range(n)] if fname == 'affine' else ints(rng, n))]
    if fname == 'affine':
        return [rng.randrange(97 * 97) for _ in range(n)]
    if fname in ('gcd', 'or'):
        return [abs(x) for x in ints(rng, n)]
    return ints(rng, n)


def _all_ranges(rng, n, cap=60):
    rs = [(i, j) for i in range(n) for j in range(i, n)]
    return rs if len(rs) <= cap else rng.sample(rs, cap)


def _hold(rng, vals):
    """the container given to the structure"""
    form = rng.choice(['list', 'ODA', 'DODA', 'tuple'])
    if form == 'list':
        return form, list(vals)
    if form == 'tuple':
        return form, tuple(vals)
    dtype = next((type(x) for x in vals if x is not None), int)
    if form == 'DODA' and None not in vals:
        return form, DODA(dtype, list(vals))
    if None in vals:
        arr = ODA(dtype, len(vals))
        for i, x in enumerate(vals):
            arr[i] = x
        return 'ODA', arr
    return 'ODA', ODA(dtype, list(vals))


def _bad_ranges(mon, rng, q, n, label):
    i = rng.randrange(n)
    mon.raises(ValueError, lambda: q.query(i, i - 1), label + ': empty range')
    mon.raises(IndexError, lambda: q.query(-rng.randint(1, 3), i), label + ': negative start')
    mon.raises(IndexError, lambda: q.query(i, n + rng.randint(0, 3)), label + ': end out of bounds')


def sc_static(mon, rng, params):
    from pydatastructs import RangeQueryStatic
    fs, plain = _functions()
    fname, kind = _pick(rng, fs)
    ds = rng.choice(['array', 'sparse_table', None])
    n = _array(rng)
    vals = _vals(rng, n, fname, kind)
    form, arr = _hold(rng, vals)
    q = RangeQueryStatic(arr, fs[fname]) if ds is None else RangeQueryStatic(arr, fs[fname], ds)
    rs = _all_ranges(rng, n)
    rng.shuffle(rs)
    for i, j in rs:
        _agree(mon, q.query(i, j), _fold(plain[fname], vals[i:j + 1]), 'a static range query is wrong',
               range=(i, j), func=fname, structure=ds, values=vals)
        mon.ev('range query')
    mon.eq([arr[i] for i in range(n)], vals, 'a static query changed the array')
    _bad_ranges(mon, rng, q, n, 'static')
    if rng.random() < 0.1:
        mon.raises(ValueError, lambda: RangeQueryStatic(ODA(int, []), fs[fname]), 'an empty array')
        mon.raises(NotImplementedError, lambda: RangeQueryStatic(arr, fs[fname], 'nothing'), 'an unknown structure')
    mon.case((ds, fname, kind, form, tuple(vals)))
    mon.state((ds, fname, kind, n))


def sc_sparse(mon, rng, params):
    from pydatastructs import SparseTable
    fs, plain = _functions()
    fname, kind = _pick(rng, fs)
    n = _array(rng)
    vals = _vals(rng, n, fname, kind)
    form, arr = _hold(rng, vals)
    t = SparseTable(arr, fs[fname])
    for i, j in _all_ranges(rng, n):
        _agree(mon, t.query(i, j), _fold(plain[fname], vals[i:j + 1]), 'a sparse table query is wrong',
               range=(i, j), func=fname, values=vals)
        mon.ev('range query')
    str(t)
    mon.case((fname, kind, form, tuple(vals)))


def sc_dynamic(mon, rng, params):
    from pydatastructs import RangeQueryDynamic, ArraySegmentTree
    fs, plain = _functions()
    fname, kind = _pick(rng, fs)
    ds = rng.choice(['array', 'segment_tree', None, 'raw'])
    n = _array(rng)
    vals = _vals(rng, n, fname, kind)
    form, arr = _hold(rng, vals)
    if form == 'tuple':
        form, arr = 'list', list(vals)
    first = list(vals)
    if ds == 'raw':
        q = ArraySegmentTree(arr, fs[fname])
        mon.raises(ValueError, lambda: q.update(0, 1), 'updating a segment tree that is not built')
        mon.raises(ValueError, lambda: q.query(0, 0), 'querying a segment tree that is not built')
        q.build()
        if rng.random() < 0.3:
            q.build()
    else:
        q = RangeQueryDynamic(arr, fs[fname]) if ds is None else RangeQueryDynamic(arr, fs[fname], ds)
    hist = []
    for step in range(longish(rng, [3, 10, 30])):
        if rng.random() < 0.5:
            i = rng.choice([0, n - 1, rng.randrange(n)])
            x = _vals(rng, 1, fname, kind)[0]
            mon.op('update', i, x)
            hist.append((i, x))
            q.update(i, x)
            vals[i] = x
            mon.eq([arr[k] for k in range(n)], vals, 'update changed the array differently')
            mon.ev('point update')
        rs = _all_ranges(rng, n, 8)
        for i, j in rs:
            _agree(mon, q.query(i, j), _fold(plain[fname], vals[i:j + 1]), 'a dynamic range query is wrong',
                   range=(i, j), func=fname, structure=ds, values=vals)
            mon.ev('range query')
    for i, j in _all_ranges(rng, n, 40):
        _agree(mon, q.query(i, j), _fold(plain[fname], vals[i:j + 1]), 'a dynamic range query is wrong',
               range=(i, j), func=fname, structure=ds, values=vals)
    if ds != 'raw':
        _bad_ranges(mon, rng, q, n, 'dynamic')
        if rng.random() < 0.1:
            mon.raises(ValueError, lambda: RangeQueryDynamic(ODA(int, []), fs[fname]), 'an empty array')
            mon.raises(NotImplementedError, lambda: RangeQueryDynamic(arr, fs[fname], 'nothing'), 'an unknown structure')
    else:
        str(q)
    if ds in ('raw', None, 'segment_tree') or form != 'list':
        k = rng.choice([n, n + 3, -1, -n])
        mon.raises(IndexError, lambda: q.update(k, 1), 'updating outside of the array', index=k)
        mon.eq([arr[k] for k in range(n)], vals, 'a rejected update changed the array')
        mon.eq(q.query(0, n - 1), _fold(plain[fname], vals), 'a rejected update changed the answers')
    mon.case((ds, fname, kind, form, tuple(first), tuple(hist)))
    mon.state((ds, fname, n, len(hist)))


def _fenwick(mon, rng, backend):
    from pydatastructs import BinaryIndexedTree
    n = rng.choice([1, 2, 3, 4, 7, 8, 9, rng.randint(1, 70)])
    big = rng.choice([50, 50, 10**9, 2**40, 2**62, 2**75])
    kind = rng.choice(['int', 'int', 'float']) if big <= 2**40 else 'int'
    vals = ints(rng, n, -big, big)
    if kind == 'float':
        vals = [x / 4.0 for x in vals]
    first = list(vals)
    arr = rng.choice([list, tuple])(vals)
    t = BinaryIndexedTree(arr) if backend == PY else BinaryIndexedTree(arr, backend=backend)
    hist = []
    for step in range(longish(rng, [0, 3, 10, 40])):
        i = rng.choice([0, n - 1, rng.randrange(n)])
        x = ints(rng, 1, -big, big)[0]
        if kind == 'float':
            x = x / 4.0
        mon.op('update', i, x)
        hist.append((i, x))
        t.update(i, x)
        vals[i] = x
        mon.ev('point update')
        i, j = sorted((rng.randrange(n), rng.randrange(n)))
        mon.eq(t.get_sum(i, j), sum(vals[i:j + 1]), 'get_sum is wrong', range=(i, j), values=vals)
        mon.eq(t.get_prefix_sum(j), sum(vals[:j + 1]), 'get_prefix_sum is wrong', index=j, values=vals)
    for i, j in _all_ranges(rng, n, 60):
        mon.eq(t.get_sum(i, j), sum(vals[i:j + 1]), 'get_sum is wrong', range=(i, j), values=vals)
        mon.ev('range query')
    mon.eq([t.get_prefix_sum(i) for i in range(n)], [sum(vals[:i + 1]) for i in range(n)], 'get_prefix_sum is wrong')
    mon.eq([t.array[i] for i in range(n)], vals, 'the array of the tree is not the current values')
    mon.eq(list(arr), first, 'the input was changed')
    k = rng.choice([n, n + 1, n + 100])
    for fn in (lambda: t.update(k, 1), lambda: t.get_prefix_sum(k), lambda: t.get_sum(0, k), lambda: t.get_sum(n - 1, k),
               lambda: t.update(-rng.randint(1, 3), 1)):
        mon.raises(IndexError, fn, 'an index outside of the array', size=n)
    mon.eq(t.get_sum(0, n - 1), sum(vals), 'a rejected call changed the sums')
    mon.case((str(backend), kind, tuple(first), tuple(hist)))
    mon.state((n, kind, len(hist)))


def sc_fenwick_py(mon, rng, params):
    _fenwick(mon, rng, PY)


def sc_fenwick_cpp(mon, rng, params):
    _fenwick(mon, rng, CPP)
    from pydatastructs import BinaryIndexedTree
    t = BinaryIndexedTree([1, 2], backend=CPP)
    for bad in ('x', None, 1.5):
        mon.raises((TypeError, ValueError), lambda: t.update(0, bad), 'a value that is no integer')
    mon.eq(t.get_sum(0, 1), 3, 'a rejected value changed the sums')


SCENARIOS = {
    'static': dict(fn=sc_static, quick=1200, thorough=40000),
    'sparse': dict(fn=sc_sparse, quick=600, thorough=20000),
    'dynamic': dict(fn=sc_dynamic, quick=1600, thorough=60000),
    'fenwick_py': dict(fn=sc_fenwick_py, quick=1500, thorough=60000),
    'fenwick_cpp': dict(fn=sc_fenwick_cpp, quick=1500, thorough=60000),
    'fenwick_asan': dict(fn=sc_fenwick_cpp, quick=300, thorough=8000, flavour='asan'),
}
REQUIRED = ['told equal values apart', 'range query', 'point update', 'rejected']
