"""String search: every algorithm finds exactly the occurrences."""
from .common import *   # noqa

ID = 'P20'
RULE = 'distinct (text, query) pairs'
ALGS = ('kmp', 'rabin_karp', 'boyer_moore', 'z_function')


def _occ(text, q):
    if not q or not text:
        return []
    return [i for i in range(len(text) - len(q) + 1) if text[i:i + len(q)] == q]


def _judge(mon, text, q):
    want = _occ(text, q)
    mon.op('find', text[:200], q[:200])
    for alg in ALGS:
        got = pds.find(text, q, alg)
        mon.check(isinstance(got, DODA), 'find returns no dynamic array', type=type(got).__name__)
        pos = [got[i] for i in range(got._last_pos_filled + 1)]
        mon.eq(pos, want, 'find does not return exactly the starting positions', algorithm=alg, text=text[:300], query=q[:300])
        mon.eq(str(got), str([str(i) for i in want]), 'find returns a broken array', algorithm=alg)
    mon.ev('several matches' if len(want) > 1 else ('one match' if want else 'no match'))
    if any(b - a < len(q) for a, b in zip(want, want[1:])):
        mon.ev('overlapping matches')
    mon.case((text, q))
    mon.state((len(text), len(q), len(want)))


def sc_random(mon, rng, params):
    alpha = rng.choice(['a', 'ab', 'ab', 'abc', 'ab$', '$', 'abcdefghij', 'aā☃\U0001F600', ' \n\0', 'ABab'])
    n = longish(rng, [0, 1, 2, 5, 12, 30, 80, 200])
    text = ''.join(rng.choice(alpha) for _ in range(n))
    for _ in range(4):
        r = rng.random()
        if r < 0.5 and text:                 # a piece of the text, maybe changed a little
            i = rng.randrange(n)
            q = text[i:i + rng.choice([1, 2, 3, 5, 9, n])]
            if rng.random() < 0.4 and q:
                j = rng.choice([0, len(q) - 1, rng.randrange(len(q))])
                q = q[:j] + rng.choice(alpha) + q[j + 1:]
        else:
            q = ''.join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 3, 4, 8, n + 1])))
        _judge(mon, text, q)


def sc_periodic(mon, rng, params):
    """Periodic texts: long failure chains and overlapping matches; also in
    letters of which Python makes a new object at every look."""
    wide = {97: 0x4e2d, 98: 0x101, 99: 0x1F600} if rng.random() < 0.4 else {}
    unit = ''.join(rng.choice('ab') for _ in range(rng.randint(1, 5)))
    k = rng.randint(2, 14)
    text = unit * k
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 2)):
            j = rng.randrange(len(text))
            text = text[:j] + rng.choice('abc') + text[j + 1:]
    fib = rng.random() < 0.2
    if fib:
        a, b = 'a', 'ab'
        while len(b) < 90:
            a, b = b, b + a
        text = b
    q = text[:rng.randint(1, len(text))] if rng.random() < 0.4 else (unit * rng.randint(1, 4))[rng.randint(0, 1):]
    if rng.random() < 0.3:
        q = q + rng.choice('abc')
    if rng.random() < 0.2:
        q = rng.choice('abc') + q
    text, q = text.translate(wide), q.translate(wide)
    _judge(mon, text, q)
    _judge(mon, q, text)


def sc_collide(mon, rng, params):
    """Strings made to collide under polynomial hashes with base 257, and
    separator characters inside text and query."""
    base = 257
    a, b = rng.randint(300, 600), rng.randint(60, 120)
    x, y = chr(a) + chr(b), chr(a - base) + chr(b + 1)
    parts = [x, y, chr(b), '$', x + '$', y + y]
    text = ''.join(rng.choice(parts) for _ in range(rng.randint(1, 12)))
    q = ''.join(rng.choice(parts) for _ in range(rng.randint(1, 3)))
    _judge(mon, text, q)
    mon.ev('hostile text')


def sc_args(mon, rng, params):
    mon.raises(NotImplementedError, lambda: pds.find('abc', 'b', 'no_such_algorithm'), 'an unknown algorithm')
    n = rng.choice([1, 2, 10])
    _judge(mon, 'x' * n, 'x' * rng.randint(1, n + 1))


SCENARIOS = {
    'random': dict(fn=sc_random, quick=2500, thorough=100000),
    'periodic': dict(fn=sc_periodic, quick=1500, thorough=60000),
    'collide': dict(fn=sc_collide, quick=1500, thorough=60000),
    'args': dict(fn=sc_args, quick=40, thorough=400),
}
REQUIRED = ['several matches', 'one match', 'no match', 'overlapping matches', 'hostile text', 'rejected']
