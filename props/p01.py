"""In-place and copying sorts, Python implementation."""
from .common import *   # noqa
import contextlib
from .sched import schedule
import functools

ID = 'P01'
RULE = ('distinct (algorithm, container, content, range, comparator) tuples with at '
        'least one element in the range')

COMP_SORTS = ['merge_sort_parallel', 'brick_sort', 'brick_sort_parallel',
              'cocktail_shaker_sort', 'quick_sort', 'bubble_sort',
              'selection_sort', 'insertion_sort', 'shell_sort']
PLAIN_SORTS = ['heapsort', 'intro_sort', 'bucket_sort', 'radix_sort']
RETURNS = {'cocktail_shaker_sort', 'quick_sort', 'bubble_sort', 'selection_sort',
           'insertion_sort', 'shell_sort', 'intro_sort', 'bucket_sort', 'radix_sort'}
SUBRANGE = set(COMP_SORTS + PLAIN_SORTS)

COMPS = {
    'default': None,
    'le': lambda u, v: u <= v,
    'ge': lambda u, v: u >= v,
    'lt': lambda u, v: u < v,
    'gt': lambda u, v: u > v,
    'absle': lambda u, v: abs(u) <= abs(v),
    'firstle': lambda u, v: u[0] <= v[0],
    'firstgt': lambda u, v: u[0] > v[0],
    'lenle': lambda u, v: len(u) <= len(v),
}


def comps_for(kind):
    c = ['default', 'default', 'le', 'ge', 'lt', 'gt']
    if kind in ('int', 'bigint', 'float'):
        c.append('absle')
    if kind == 'tuple':
        c += ['firstle', 'firstgt']
    if kind == 'str':
        c.append('lenle')
    return c


def in_order(comp, a, b):
    """a may stand directly before b under the comparator: unless b has to go
    strictly before a."""
    return bool(comp(a, b)) or not comp(b, a)


def make(rng, kind, vals, container, holes):
    """Returns (array, logical content including holes)."""
    dt = DTYPES[kind]
    kw = {}
    if container.endswith('cpp'):
        kw['backend'] = CPP
    if container.startswith('oda'):
        a = ODA(dt, list(vals), **kw) if rng.random() < 0.7 or not vals else ODA(dt, len(vals), list(vals), **kw)
        for i in holes:
            a[i] = None
        return a
    if rng.random() < 0.4 and vals:
        a = DODA(dt, list(vals), **kw)
    else:
        a = DODA(dt, rng.choice((0, 0, 1, 4)), **kw)
        for v in vals:
            a.append(v)
    for i in holes:
        if i < len(a) and a[i] is not None:
            a.delete(i)
    return a


def judge(mon, name, arr, before, start, end, comp, dynamic, det):
    """The oracle: observes the whole array after the call."""
    n = len(before)
    after = read(arr)
    if not dynamic:
        mon.eq(len(after), n, '%s changed the length of the array' % name, **det)
    seg_b = [x for x in before[start:end + 1] if x is not None]
    seg_a = after[start:end + 1]
    holes = (end - start + 1) - len(seg_b)
    nn = [x for x in seg_a if x is not None]
    key = repr
    mon.eq(sorted(map(key, nn)), sorted(map(key, seg_b)),
           '%s is not a rearrangement of the range' % name, after=after, **det)
    if det['kind'] in ('tuple', 'bigint') and 'cpp' not in det['container']:
        mon.eq(sorted(map(id, nn)), sorted(map(id, seg_b)),
               '%s put other objects in place of the values' % name, after=after, **det)
    if holes:
        mon.ev('range with holes')
    mon.check(all(x is not None for x in seg_a[:len(seg_b)]),
              '%s left an empty slot before a value' % name, after=after, **det)
    bad = [(nn[i], nn[i + 1]) for i in range(len(nn) - 1) if not in_order(comp, nn[i], nn[i + 1])]
    mon.check(not bad, '%s left the range out of order' % name, after=after, bad=bad[:3], **det)
    tail_b = before[end + 1:]
    tail_a = after[end + 1:]
    if dynamic:
        while tail_b and tail_b[-1] is None:
            tail_b.pop()
        while tail_a and tail_a[-1] is None:
            tail_a.pop()
    same = (len(tail_a) == len(tail_b) and all(x is y for x, y in zip(tail_a, tail_b))
            and all(x is y for x, y in zip(before[:start], after[:start])))
    mon.check(same, '%s touched slots outside the range' % name, after=after, **det)
    mon.ev('ordered pairs judged', max(0, len(nn) - 1))


def one(mon, rng, name, kind, container, comp_name):
    n = size(rng, 14, 90, 0.12)
    vals = values(rng, n, kind)
    n_holes = 0
    if rng.random() < 0.35 and n:
        n_holes = rng.randint(0, n if rng.random() < 0.2 else max(1, n // 3))
    holes = rng.sample(range(n), n_holes)
    dynamic = container.startswith('doda')
    if name == 'intro_sort' and dynamic and n == 0:
        container, dynamic = 'oda', False        # known finding KF-INTRO-EMPTY
    arr = make(rng, kind, vals, container, holes)
    before = read(arr)
    n = len(before)
    kw = {}
    start, end = 0, n - 1
    if n and rng.random() < 0.5:
        start = rng.randrange(n)
        end = rng.randrange(start, n)
        if rng.random() < 0.08:
            start = rng.randint(1, n)
            end = start - 1
            mon.ev('empty range')
        if dynamic:
            # 'outside untouched' is observable on dynamic arrays too: the
            # array only shrinks when it is mostly empty
            pass
        kw['start'] = start
        kw['end'] = end
    elif rng.random() < 0.3:
        kw['start'] = 0
        kw['end'] = n - 1
    comp = COMPS[comp_name]
    if comp is not None:
        kw['comp'] = comp
    else:
        comp = COMPS['le']
    args = ()
    if 'parallel' in name:
        args = (rng.randint(1, 6),)
    if name == 'quick_sort' and rng.random() < 0.4:
        which = rng.randrange(3)
        pick = [lambda lo, hi, a: a[lo], lambda lo, hi, a: a[(lo + hi) // 2],
                lambda lo, hi, a: a[hi]][which]
        kw['pick_pivot_element'] = pick
        mon.ev('custom pivot')
    if name == 'intro_sort' and rng.random() < 0.7:
        kw['ins_threshold'] = rng.choice((1, 2, 3, 8, 16))
        if rng.random() < 0.6:
            kw['maxdepth'] = rng.choice((0, 1, 2, 5, 20))
    if rng.random() < 0.2 and name not in ('shell_sort', 'radix_sort'):
        kw['backend'] = PY
    det = dict(before=before, kw={k: v for k, v in kw.items() if not callable(v)}, comp=comp_name,
               container=container, kind=kind, args=args)
    mon.op(name, container, before, det['kw'], comp_name)
    with schedule(mon, rng) if 'parallel' in name and rng.random() < 0.5 else contextlib.nullcontext():
        r = getattr(pds, name)(arr, *args, **kw)
    if name in RETURNS:
        mon.check(r is arr, '%s did not return the array it sorted' % name, **det)
    judge(mon, name, arr, before, start, end, comp, dynamic, det)
    if dynamic:
        # the array stays usable: the next append lands behind the last value
        cur = read(arr)
        last = max([i for i, x in enumerate(cur) if x is not None] or [-1])
        mon.eq(len(list(reversed(arr))) if not container.endswith('cpp') else last + 1, last + 1,
               '%s left a wrong fill position' % name, after=cur, **det)
        mon.eq(arr._last_pos_filled, last, '%s left a wrong last position' % name, after=cur, **det)
        el = vals[0] if vals else None
        if el is not None:
            arr.append(el)
            cur2 = read(arr)
            mon.check([x for x in cur2 if x is not None] == [x for x in cur if x is not None] + [el],
                      'append after %s lost or misplaced a value' % name, after=cur, appended=cur2, **det)
            mon.ev('append after sort')
    mon.case((name, container, before, start, end, comp_name, str(det['kw'])), end >= start)
    mon.state((name, read(arr)))


def sc_comp(mon, rng, params):
    for name in COMP_SORTS:
        kind = rng.choice(['int', 'int', 'int', 'float', 'str', 'tuple', 'bigint'])
        container = rng.choice(['oda', 'oda', 'doda', 'oda-cpp', 'doda-cpp'])
        one(mon, rng, name, kind, container, rng.choice(comps_for(kind)))


def sc_plain(mon, rng, params):
    for name in PLAIN_SORTS:
        if name == 'radix_sort':
            kind = rng.choice(['nat', 'nat', 'natural'])
        elif name == 'bucket_sort':
            kind = rng.choice(['nat', 'int', 'bigint', 'natural'])
        else:
            kind = rng.choice(['int', 'int', 'float', 'str', 'tuple'])
        container = rng.choice(['oda', 'oda', 'doda', 'oda-cpp', 'doda-cpp'])
        one(mon, rng, name, kind, container, 'default')


def sc_counting(mon, rng, params):
    n = size(rng, 14, 90)
    kind = rng.choice(['nat', 'int'])
    vals = values(rng, n, 'int' if kind == 'int' else 'nat')
    if rng.random() < 0.3:
        off = rng.choice((10 ** 6, -10 ** 6, 10 ** 12, -2 ** 63, 2 ** 64))
        vals = [v + off for v in vals]
    holes = rng.sample(range(n), rng.randint(0, n if rng.random() < 0.2 else n // 2)) if rng.random() < 0.4 else []
    container = rng.choice(['oda', 'doda'])
    arr = make(rng, kind, vals, container, holes)
    before = read(arr)
    mon.op('counting_sort', container, before)
    out = pds.counting_sort(arr)
    want = sorted(x for x in before if x is not None)
    mon.check(out is not arr, 'counting_sort returned its input', before=before)
    mon.eq(read(out), want, 'counting_sort returned something else than the sorted values',
           before=before, container=container)
    mon.eq(read(arr), before, 'counting_sort changed its input', before=before)
    mon.check(type(out) is type(arr), 'counting_sort changed the array type')
    if container == 'doda':
        out.append(3)
        mon.eq([x for x in read(out) if x is not None], want + [3],
               'append after counting_sort lost a value', before=before)
    if not want:
        mon.ev('nothing to count')
    mon.case(('counting', container, before), len(want) > 1)


def sc_large(mon, rng, params):
    """Sizes beyond the small-integer and threshold special cases."""
    name = rng.choice(['merge_sort_parallel', 'quick_sort', 'shell_sort', 'heapsort',
                       'intro_sort', 'bucket_sort', 'radix_sort', 'counting_sort'])
    n = rng.randint(200, 700)
    if rng.random() < 0.25 and name != 'bucket_sort':
        n = rng.choice((1024, 2048, 4096)) + rng.randint(-2, 700)
        mon.ev('thousands of values')
    vals = [rng.randint(0, rng.choice((3, 300, 5000))) for _ in range(n)]
    arr = ODA(int, list(vals))
    mon.op(name, n)
    args = (rng.randint(1, 5),) if 'parallel' in name else ()
    out = getattr(pds, name)(arr, *args)
    got = read(out if name == 'counting_sort' else arr)
    mon.eq(got, sorted(vals), '%s did not sort %d values' % (name, n), values=vals)
    mon.case((name, vals))


SCENARIOS = {
    'comparison sorts': {'fn': sc_comp, 'quick': 1600, 'thorough': 40000, 'steps': 20000000},
    'sorts without comparator': {'fn': sc_plain, 'quick': 2000, 'thorough': 40000},
    'counting sort': {'fn': sc_counting, 'quick': 800, 'thorough': 15000},
    'large arrays': {'fn': sc_large, 'quick': 60, 'thorough': 1500, 'steps': 20000000},
}
REQUIRED = ['op:' + s for s in COMP_SORTS + PLAIN_SORTS + ['counting_sort']] + [
    'nothing to count', 'range with holes', 'custom pivot', 'ordered pairs judged', 'perturbed schedules',
    'thousands of values']


def _kf_intro_empty(mon):
    try:
        pds.intro_sort(DODA(int, 40))
    except IndexError:
        return True
    return False


PROBES = {'KF-INTRO-EMPTY': _kf_intro_empty}
