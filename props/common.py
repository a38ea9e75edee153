"""Shared generators and observers.  The package under test is imported only in
a worker process, never in the driver."""
import os

LIVE = 'PDS_TIER' in os.environ
if LIVE:
    import pydatastructs as pds
    from pydatastructs import (OneDimensionalArray as ODA,
                               DynamicOneDimensionalArray as DODA)
    from pydatastructs.utils.misc_util import Backend
    CPP, PY, LLVM = Backend.CPP, Backend.PYTHON, Backend.LLVM
else:
    pds = ODA = DODA = Backend = CPP = PY = LLVM = None

THOROUGH = os.environ.get('PDS_TIER') == 'thorough'


def size(rng, small=12, big=80, pbig=0.15):
    """Sizes biased to the boundary cases."""
    r = rng.random()
    if r < 0.12:
        return rng.randint(0, 2)
    if r > 0.99:
        return rng.randint(big, 5 * big)
    if r < 1 - pbig:
        return rng.randint(1, small)
    return rng.randint(small, big)


def ints(rng, n, lo=-50, hi=50):
    """n integers with one of several shapes."""
    shape = rng.randrange(9)
    if shape == 0:
        v = [rng.randint(lo, hi)] * n
    elif shape == 1:
        v = sorted(rng.randint(lo, hi) for _ in range(n))
    elif shape == 2:
        v = sorted((rng.randint(lo, hi) for _ in range(n)), reverse=True)
    elif shape == 3:
        a, b = rng.randint(lo, hi), rng.randint(lo, hi)
        v = [rng.choice((a, b)) for _ in range(n)]
    elif shape == 4:
        v = sorted(rng.randint(lo, hi) for _ in range(n))
        for _ in range(rng.randint(1, 3)):
            if n > 1:
                i, j = rng.randrange(n), rng.randrange(n)
                v[i], v[j] = v[j], v[i]
    elif shape == 5:
        w = rng.randint(1, 4)
        base = rng.randint(lo, hi - min(w, hi - lo))
        v = [min(hi, base + rng.randrange(w)) for _ in range(n)]
    elif shape == 6:
        half = sorted(rng.randint(lo, hi) for _ in range((n + 1) // 2))
        v = (half + half[::-1])[:n]
    else:
        v = [rng.randint(lo, hi) for _ in range(n)]
    return v


def distinct_ints(rng, n, lo=-1000, hi=1000):
    return rng.sample(range(lo, hi + 1), n)


def words(rng, n, alphabet='ab', maxlen=5, minlen=0):
    return [''.join(rng.choice(alphabet) for _ in range(rng.randint(minlen, maxlen)))
            for _ in range(n)]


def values(rng, n, kind):
    if kind == 'int':
        return ints(rng, n)
    if kind == 'bigint':
        unit = rng.choice((10**12, 2**53, 2**60, 2**63, 2**64, 10**30))
        return [x * unit + rng.choice((-1, 0, 1)) for x in ints(rng, n)]
    if kind == 'long':
        return [x * 10**12 + rng.choice((-1, 0, 1)) for x in ints(rng, n)]
    if kind == 'nat':
        return ints(rng, n, 0, rng.choice((1, 9, 10, 99, 100, 1000, 123456)))
    if kind == 'natural':
        if rng.random() < 0.5:
            return [int(rng.choice('123456789') + ''.join(rng.choice('0159') for _ in range(rng.randrange(1, 25))))
                    for _ in range(n)]
        top = rng.choice((2 ** 31, 2 ** 32, 10 ** 9, 10 ** 10, 2 ** 53, 2 ** 63, 10 ** 19, 10 ** 30))
        return [max(0, x + top) if rng.random() < 0.7 else abs(x) for x in ints(rng, n)]
    if kind == 'float':
        return [x / 4.0 for x in ints(rng, n)]
    if kind == 'str':
        return words(rng, n)
    if kind == 'tuple':
        return [(x % 7, i) for i, x in enumerate(ints(rng, n))]
    raise ValueError(kind)


DTYPES = {'int': int, 'long': int, 'bigint': int, 'nat': int, 'natural': int, 'float': float, 'str': str, 'tuple': tuple}


def read(a, n=None):
    return [a[i] for i in range(len(a) if n is None else n)]


def used(a):
    """What a dynamic array prints: '' for a hole."""
    return str(a)


def longish(rng, choices, factor=8, p=0.012):
    """One of the usual lengths, now and then a much longer one."""
    if rng.random() < p:
        return max(choices) * rng.randint(2, factor)
    return rng.choice(choices)


INF = float('inf')


def ordered(rng, span=30, kinds=('int', 'int', 'half', 'wide', 'huge', 'frac', 'str', 'tuple')):
    """The name of a totally ordered kind of values and a way to draw them."""
    from fractions import Fraction
    kind = rng.choice(kinds)
    draw = {
        'int': lambda: rng.randint(-span, span),
        'half': lambda: rng.choice([rng.randint(-span, span), rng.randint(-span, span) / 2.0]),
        'wide': lambda: rng.choice([-INF, INF, 0.0, 1, -1, 5e-324, rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)]),
        'huge': lambda: rng.choice([2 ** 53, 2 ** 63, 2 ** 64, 10 ** 30, -2 ** 63]) + rng.randint(-2, 2),
        'frac': lambda: Fraction(rng.randint(-span, span), rng.randint(1, 9)),
        'str': lambda: ''.join(rng.choice('abB') for _ in range(rng.randint(0, 4))),
        'tuple': lambda: (rng.randint(0, 3), rng.randint(-span, span)),
    }[kind]
    return kind, draw


class Thing(object):
    """An element equal to nothing but itself, and one that cannot be copied."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Thing(%d)' % self.n

    def __deepcopy__(self, memo):
        raise RuntimeError('elements are not to be copied')
    __copy__ = __reduce_ex__ = __deepcopy__


def payload(rng, serial):
    """Data to carry: mostly plain, sometimes falsy or comparable to nothing."""
    r = rng.random()
    if r < 0.08:
        return rng.choice([0, '', (), [], {}])
    if r < 0.2:
        return Thing(serial)
    return serial
