"""Subsequences and permutations."""
from .common import *   # noqa
import bisect
import itertools

ID = 'P04'
RULE = 'distinct (function, content, range, comparator) tuples'


def lcs_len(a, b):
    prev = [0] * (len(b) + 1)
    for x in a:
        cur = [0]
        for j, y in enumerate(b):
            cur.append(prev[j] + 1 if x == y else max(prev[j + 1], cur[j]))
        prev = cur
    return prev[-1]


def is_subseq(s, a):
    it = iter(a)
    return all(any(x == y for y in it) for x in s)


def sc_lcs(mon, rng, params):
    kind = rng.choice(['int', 'str', 'float'])
    m, n = size(rng, 9, 25), size(rng, 9, 25)
    if kind == 'str':
        a, b = words(rng, m, 'abc', 1, 1), words(rng, n, 'abc', 1, 1)
    else:
        k = rng.choice((1, 2, 4, 9))
        a = [rng.randint(0, k) for _ in range(m)]
        b = [rng.randint(0, k) for _ in range(n)]
        if kind == 'float':
            a, b = [x / 2.0 for x in a], [x / 2.0 for x in b]
    if rng.random() < 0.15:
        b = list(a)
    A, B = ODA(DTYPES[kind], list(a)), ODA(DTYPES[kind], list(b))
    mon.op('longest_common_subsequence', a, b)
    out = read(pds.longest_common_subsequence(A, B))
    mon.check(is_subseq(out, a) and is_subseq(out, b), 'LCS result is not a common subsequence',
              a=a, b=b, got=out)
    mon.eq(len(out), lcs_len(a, b), 'LCS result is not the longest', a=a, b=b, out=out)
    mon.eq((read(A), read(B)), (a, b), 'LCS changed its inputs')
    mon.case(('lcs', a, b), bool(a and b))


def sc_lis(mon, rng, params):
    kind = rng.choice(['int', 'int', 'float', 'str'])
    n = size(rng, 10, 60)
    a = values(rng, n, kind)
    if rng.random() < 0.02:
        # a long subsequence, disturbed here and there
        n = rng.randint(60, 300)
        a = [i + (rng.randint(-n, n) if rng.random() < 0.3 else 0) for i in range(n)]
        a = a if kind == 'int' else [x / 2.0 for x in a] if kind == 'float' else ['%05d' % (x + n) for x in a]
        mon.ev('long sequences')
    A = ODA(DTYPES[kind], list(a), **({'backend': CPP} if kind == 'int' and rng.random() < 0.2 else {}))
    mon.op('longest_increasing_subsequence', a)
    out = read(pds.longest_increasing_subsequence(A))
    mon.check(is_subseq(out, a), 'LIS result is not a subsequence', a=a, got=out)
    mon.check(all(out[i] < out[i + 1] for i in range(len(out) - 1)),
              'LIS result is not strictly increasing', a=a, got=out)
    tails = []
    for x in a:
        i = bisect.bisect_left(tails, x)
        tails[i:i + 1] = [x]
    mon.eq(len(out), len(tails), 'LIS result is not the longest', a=a, out=out)
    mon.eq(read(A), a, 'LIS changed its input')
    mon.case(('lis', a), bool(a))


def nxt(a, key):
    """Reference successor among the distinct arrangements of a."""
    a = list(a)
    i = len(a) - 2
    while i >= 0 and not key(a[i], a[i + 1]):
        i -= 1
    if i < 0:
        return False, a[::-1]
    j = len(a) - 1
    while not key(a[i], a[j]):
        j -= 1
    a[i], a[j] = a[j], a[i]
    a[i + 1:] = reversed(a[i + 1:])
    return True, a


def sc_perm(mon, rng, params):
    kind = rng.choice(['int', 'int', 'str', 'float'])
    n = max(1, size(rng, 7, 14))
    k = rng.choice((2, 3, 9))
    a = [rng.randint(0, k) for _ in range(n)]
    if rng.random() < 0.3:
        a = distinct_ints(rng, n)
    if rng.random() < 0.3:
        a.sort(reverse=rng.random() < 0.5)
    if kind == 'float':
        a = [x / 4.0 for x in a]
    elif kind == 'str':
        a = [chr(97 + x % 26) for x in a]
    start, end, kw = 0, n - 1, {}
    if rng.random() < 0.4:
        start = rng.randrange(n)
        end = rng.randrange(start, n)
        kw.update(start=start, end=end)
    lt, gt = (lambda x, y: x < y), (lambda x, y: x > y)
    comp = rng.choice([None, lt, gt])
    if comp:
        kw['comp'] = comp
    c = comp or lt
    seg = a[start:end + 1]
    A = ODA(DTYPES[kind], list(a), **({'backend': CPP} if kind == 'int' and rng.random() < 0.2 else {}))
    det = dict(a=a, start=start, end=end, comp=('gt' if comp is gt else 'lt'))
    mon.op('next_permutation', seg, det['comp'])
    ok, out = pds.next_permutation(A, **kw)
    mon.eq((bool(ok), read(out)), nxt(seg, c), 'next_permutation is wrong', **det)
    ok2, out2 = pds.prev_permutation(A, **kw)
    mon.op('prev_permutation', seg, det['comp'])
    mon.eq((bool(ok2), read(out2)), nxt(seg, lambda x, y: c(y, x)), 'prev_permutation is wrong', **det)
    mon.eq(read(A), a, 'the input array was changed')
    mon.check(out is not A and out2 is not A, 'the result is not a new array')
    kw2 = {'comp': comp} if comp else {}
    _, back = pds.prev_permutation(out, **kw2)
    mon.eq(read(back), seg, 'prev does not undo next', **det)
    mon.case(('perm', seg, det['comp']), n > 1)


def sc_cycle(mon, rng, params):
    """Stepping through a whole cycle meets every distinct arrangement once,
    in order."""
    n = rng.randint(1, 5)
    base = sorted(rng.randint(0, 3) for _ in range(n))
    want = sorted(set(itertools.permutations(base)))
    cur, seen = ODA(int, list(base)), []
    for _ in range(len(want)):
        seen.append(tuple(read(cur)))
        ok, cur = pds.next_permutation(cur)
        if not ok:
            break
    mon.op('cycle', base)
    mon.ev('arrangements visited', len(seen))
    mon.eq(seen, want, 'next_permutation does not enumerate the arrangements in order', base=base)
    mon.eq(read(cur), base, 'the cycle does not close', base=base)
    mon.case(('cycle', base))


SCENARIOS = {
    'common subsequences': {'fn': sc_lcs, 'quick': 3000, 'thorough': 80000},
    'increasing subsequences': {'fn': sc_lis, 'quick': 4000, 'thorough': 100000},
    'permutations': {'fn': sc_perm, 'quick': 5000, 'thorough': 150000},
    'permutation cycles': {'fn': sc_cycle, 'quick': 300, 'thorough': 3000},
}
REQUIRED = ['long sequences', 'arrangements visited']
