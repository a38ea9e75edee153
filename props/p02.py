"""Native sorts: the C++ and LLVM back ends."""
from .common import *   # noqa
from .p01 import COMPS, comps_for, make, judge
import sys

ID = 'P02'
RULE = ('distinct (algorithm, back end, container, content, range, comparator) '
        'tuples with a non-empty range')
NATIVE = ['quick_sort', 'bubble_sort', 'selection_sort', 'insertion_sort']
JIT = ['bubble_sort', 'selection_sort']


def one(mon, rng, name, backend, kind, container, comp_name, asan=False, order=None):
    n = size(rng, 12, 60, 0.12)
    vals = values(rng, n, kind)
    holes = []
    if rng.random() < 0.35 and n:
        holes = rng.sample(range(n), rng.randint(0, n if rng.random() < 0.2 else max(1, n // 3)))
    dynamic = container.startswith('doda')
    arr = make(rng, kind, vals, container, holes)
    before = read(arr)
    n = len(before)
    start, end, kw = 0, n - 1, {}
    if n and rng.random() < 0.5:
        start = rng.randrange(n)
        end = rng.randrange(start, n)
        if rng.random() < 0.08:
            start = rng.randint(1, n)
            end = start - 1
            mon.ev('empty range')
        kw.update(start=start, end=end)
    comp = COMPS[comp_name]
    if comp is not None:
        kw['comp'] = comp
    else:
        comp = COMPS['le']
    if name == 'quick_sort' and rng.random() < 0.4:
        kw['pick_pivot_element'] = rng.choice([
            lambda lo, hi, a: a[lo], lambda lo, hi, a: a[(lo + hi) // 2], lambda lo, hi, a: a[hi]])
        mon.ev('custom pivot')
    det = dict(before=before, kw={k: v for k, v in kw.items() if not callable(v)},
               comp=comp_name, container=container, kind=kind, backend=str(backend))
    mon.op(name + ('/cpp' if backend is CPP else '/llvm'), container, before, det['kw'], comp_name)
    rc = [sys.getrefcount(x) for x in before[:1]]
    r = getattr(pds, name)(arr, backend=backend, **kw)
    mon.check(r is arr, '%s did not return the array it sorted' % name, **det)
    if backend is LLVM:
        judge_values(mon, name, arr, before, start, end, det)
    else:
        judge(mon, name + ' (C++)', arr, before, start, end, comp, dynamic, det)
    if dynamic:
        cur = read(arr)
        el = vals[0] if vals else None
        if el is not None:
            arr.append(el)
            cur2 = read(arr)
            mon.check([x for x in cur2 if x is not None] == [x for x in cur if x is not None] + [el],
                      'append after %s lost or misplaced a value' % name, after=cur, appended=cur2, **det)
    mon.case((name, str(backend), container, before, start, end, comp_name), end >= start)
    mon.state((name, read(arr)))


def judge_values(mon, name, arr, before, start, end, det):
    """LLVM sorts copy the values out and back: equal values, not identical
    objects."""
    after = read(arr)
    seg = sorted(x for x in before[start:end + 1] if x is not None)
    want = before[:start] + seg + [None] * (end + 1 - start - len(seg)) + before[end + 1:]
    w, a = list(want), list(after)
    while w and w[-1] is None:
        w.pop()
    while a and a[-1] is None:
        a.pop()
    mon.eq(a, w, '%s (LLVM) left something else than the sorted range' % name, **det)
    mon.check(all(type(x) is type(y) for x, y in zip(a, w)),
              '%s (LLVM) changed the type of a value' % name, after=after, **det)
    mon.ev('LLVM results judged')


def sc_cpp(mon, rng, params):
    for name in NATIVE:
        kind = rng.choice(['int', 'int', 'float', 'str', 'tuple', 'bigint'])
        one(mon, rng, name, CPP, kind, rng.choice(['oda-cpp', 'oda-cpp', 'doda-cpp']),
            rng.choice(comps_for(kind)))


def sc_llvm(mon, rng, params):
    names = list(JIT)
    rng.shuffle(names)
    for name in names:
        kind = rng.choice(['int', 'int', 'float', 'long'])
        one(mon, rng, name, LLVM, kind, rng.choice(['oda', 'oda-cpp', 'doda', 'doda-cpp']), 'default')


def sc_llvm_dtype(mon, rng, params):
    """Explicit element type, the type limits, and rejected values."""
    name = rng.choice(JIT)
    dt = rng.choice(['int32', 'int64', 'float32', 'float64'])
    n = rng.randint(1, 12)
    if dt == 'int32':
        pool = [-2**31, 2**31 - 1, 0, -1, 1, 7]
    elif dt == 'int64':
        pool = [-2**63, 2**63 - 1, 0, -1, 1, 2**40]
    else:
        pool = [-2.5, 0.0, 1.5, 1024.25, -3.0, 0.5]
    vals = [rng.choice(pool) for _ in range(n)]
    t = int if dt.startswith('int') else float
    f = getattr(pds, name)
    if rng.random() < 0.5:
        holes = rng.sample(range(n), rng.choice([0, 1, n // 2, n]))
        container = rng.choice(['oda', 'oda-cpp', 'doda', 'doda-cpp'])
        arr = make(rng, 'int' if t is int else 'float', vals, container, holes)
        before = read(arr)
        start, end = 0, len(before) - 1
        if before and rng.random() < 0.5:
            start = rng.randrange(len(before))
            end = rng.randrange(start, len(before))
        mon.op(name + '/llvm', container, dt, before, start, end)
        mon.check(f(arr, backend=LLVM, dtype=dt, start=start, end=end) is arr, '%s did not return the array it sorted' % name)
        judge_values(mon, name, arr, before, start, end, dict(before=before, start=start, end=end, dtype=dt, container=container))
        if any(before[i] is None for i in range(start, end + 1)):
            mon.ev('holes with an explicit type')
    else:
        arr = ODA(t, list(vals), **({'backend': CPP} if rng.random() < 0.5 else {}))
        mon.op(name + '/llvm', dt, vals)
        f(arr, backend=LLVM, dtype=dt)
        mon.eq(read(arr), sorted(vals), '%s (LLVM, %s) did not sort' % (name, dt), values=vals)
    mon.case((name, dt, vals))
    if dt == 'int32':
        bad = ODA(int, vals + [2**31 + rng.randint(0, 5)])
        old = read(bad)
        mon.raises(OverflowError, lambda: f(bad, backend=LLVM, dtype=dt), '%s accepted a value outside int32' % name)
        mon.eq(read(bad), old, '%s changed the array before rejecting it' % name)
    if dt == 'int64' or rng.random() < 0.2:
        bad = ODA(int, [x for x in vals if type(x) is int] + [rng.choice([2**63, -2**63 - 1, 2**64, 2**64 + 5, 10**30])])
        old = read(bad)
        how = {'dtype': 'int64'} if rng.random() < 0.5 else {}
        mon.raises(OverflowError, lambda: f(bad, backend=LLVM, **how), '%s accepted a value outside int64' % name)
        mon.eq(read(bad), old, '%s changed the array before rejecting it' % name)
        mon.ev('values outside int64 refused')
    if rng.random() < 0.3:
        bad = ODA(t, list(vals))
        mon.raises(NotImplementedError, lambda: f(bad, backend=LLVM, comp=lambda u, v: u > v),
                   '%s (LLVM) accepted a comparator' % name)
        mon.raises(ValueError, lambda: f(bad, backend=LLVM, dtype='int7'),
                   '%s (LLVM) accepted an unknown dtype' % name)
        mon.eq(read(bad), vals, '%s changed the array before rejecting it' % name)


def sc_reject(mon, rng, params):
    name = rng.choice(NATIVE)
    bad = rng.choice([[3, 1, 2], (1, 2), 'abc', {1: 2}])
    mon.op('reject', name)
    mon.raises(TypeError, lambda: getattr(pds, name)(bad, backend=CPP),
               '%s (C++) accepted something that is not an array' % name)
    mon.case((name, repr(bad)))


SCENARIOS = {
    'C++ sorts': {'fn': sc_cpp, 'quick': 2500, 'thorough': 80000},
    'C++ sorts under ASan': {'fn': sc_cpp, 'quick': 240, 'thorough': 6000, 'flavour': 'asan'},
    'LLVM sorts': {'fn': sc_llvm, 'quick': 600, 'thorough': 15000},
    'LLVM element types': {'fn': sc_llvm_dtype, 'quick': 300, 'thorough': 6000},
    'rejected inputs': {'fn': sc_reject, 'quick': 40, 'thorough': 400},
}
REQUIRED = ['op:%s/cpp' % n for n in NATIVE] + ['op:%s/llvm' % n for n in JIT] + ['custom pivot', 'holes with an explicit type']
