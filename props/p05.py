"""Parallel matrix multiplication."""
from .common import *   # noqa
from .sched import schedule

ID = 'P05'
RULE = 'distinct (matrices, thread count) tuples'


def mat(rng, r, c, kind):
    if kind == 'int':
        return [[rng.randint(-9, 9) for _ in range(c)] for _ in range(r)]
    if kind == 'big':
        return [[rng.randint(-10**20, 10**20) for _ in range(c)] for _ in range(r)]
    if kind == 'sparse':
        return [[rng.choice((0, 0, 0, 1, -1)) for _ in range(c)] for _ in range(r)]
    return [[rng.randint(-64, 64) / 8.0 for _ in range(c)] for _ in range(r)]


def sc(mon, rng, params):
    kind = rng.choice(['int', 'big', 'sparse', 'float'])
    p, q, r = (rng.randint(1, rng.choice((2, 5, 8))) for _ in range(3))
    if rng.random() < 0.03:
        # one long side
        sides = [rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 2)]
        sides[rng.randrange(3)] = rng.randint(200, 400)
        p, q, r = sides
        mon.ev('long side')
    a, b = mat(rng, p, q, kind), mat(rng, q, r, kind)
    if rng.random() < 0.25:
        q2 = rng.choice([x for x in range(1, 9) if x != q])
        b = mat(rng, q2, r, kind)
        mon.op('mismatch', p, q, q2, r)
        mon.raises(ValueError, lambda: pds.matrix_multiply_parallel(a, b, rng.randint(1, 6)),
                   'mismatching sizes were accepted', a=a, b=b)
        mon.case(('mismatch', p, q, q2, r))
        return
    threads = rng.randint(1, 9)
    a0, b0 = [list(x) for x in a], [list(x) for x in b]
    mon.op('multiply', p, q, r, kind)
    mode = rng.randrange(3)
    A, B = a, b
    if mode == 1:
        A, B = tuple(map(tuple, a)), tuple(map(tuple, b))
    elif mode == 2:
        t = float if kind == 'float' else int
        A = [ODA(t, list(x)) for x in a]
        B = [ODA(t, list(x)) for x in b]
    with schedule(mon, rng):
        got = pds.matrix_multiply_parallel(A, B, threads)
    want = [[sum(a[i][k] * b[k][j] for k in range(q)) for j in range(r)] for i in range(p)]
    mon.eq(got, want, 'the product is wrong', a=a, b=b, threads=threads)
    mon.eq((a, b), (a0, b0), 'the operands were changed')
    mon.ev('square' if p == q == r else 'rectangular')
    mon.ev('cells judged', p * r)
    mon.state((p, q, r, kind, threads))
    mon.case((a0, b0, threads))


SCENARIOS = {'products': {'fn': sc, 'quick': 2500, 'thorough': 60000}}
REQUIRED = ['long side', 'square', 'rectangular', 'op:mismatch', 'op:multiply', 'perturbed schedules']
