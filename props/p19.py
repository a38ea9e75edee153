"""Trie against a set of strings."""
from .common import *   # noqa

ID = 'P19'
RULE = 'distinct operation histories'


def sc_trie(mon, rng, params):
    from pydatastructs import Trie
    alphabet = rng.choice(['ab', 'a', 'abc', 'abcdefgh', 'aäé漢\U0001F600', 'a \n\t', '.*$'])
    maxlen = rng.choice([2, 4, 8, 25])

    def word():
        live = list(m)
        r = rng.random()
        if live and r < 0.3:                 # extension or prefix of a stored word
            w = rng.choice(live)
            if rng.random() < 0.5:
                return w[:rng.randint(0, len(w))]
            return w + ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 3)))
        if live and r < 0.5:
            return rng.choice(live)
        return ''.join(rng.choice(alphabet) for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, maxlen)))

    t, m, hist = Trie(), set(), []

    def audit(qs):
        for q in qs:
            has = any(w.startswith(q) for w in m)
            mon.eq(t.is_inserted(q), q in m, 'is_inserted is wrong', string=q)
            if q or m:
                mon.eq(t.is_present(q), has or q == '', 'is_present is wrong for a prefix', string=q)
            mon.eq(sorted(t.strings_with_prefix(q)), sorted(w for w in m if w.startswith(q)),
                   'strings_with_prefix is wrong', prefix=q)
            mon.ev('query')
        # no dead branches, every node under its own character
        n, stack = 0, [(t.root, '')]
        paths = {''} | {w[:i + 1] for w in m for i in range(len(w))}
        while stack:
            node, p = stack.pop()
            n += 1
            mon.check(p in paths, 'the trie keeps a branch of no inserted string', path=p)
            mon.eq(bool(node.is_terminal), p in m, 'a node is marked wrongly', path=p)
            for ch in node._children:
                c = node.get_child(ch)
                mon.eq(c.char, ch, 'a child is stored under another character')
                stack.append((c, p + ch))
        mon.eq(n, len(paths), 'the trie lost a branch')
        mon.state(tuple(sorted(m)))

    p, mode = 0.6, rng.choice(['mixed', 'waves', 'mixed'])
    for step in range(longish(rng, [4, 12, 30, 60])):
        if mode == 'waves' and step % 8 == 0:
            p = rng.choice([0.95, 0.1])
        w = word()
        if rng.random() < p:
            mon.op('insert', w)
            hist.append('+' + w)
            mon.eq(t.insert(w), None, 'insert returned something')
            m.add(w)
        else:
            mon.op('delete', w)
            hist.append('-' + w)
            r = t.delete(w)
            if w in m:
                mon.eq(r, True, 'deleting an inserted string does not return True', string=w)
                if any(x != w and x.startswith(w) for x in m):
                    mon.ev('deleted a prefix of another string')
                if any(x != w and w.startswith(x) for x in m):
                    mon.ev('deleted an extension of another string')
            else:
                mon.eq(r, None, 'deleting a string that was not inserted does not return None', string=w)
                mon.ev('delete missing')
            m.discard(w)
        audit([w, w[:-1], word(), ''])
    audit([word() for _ in range(6)])
    mon.case(tuple(hist))


def sc_far(mon, rng, params):
    """Strings longer than the recursion limit."""
    from pydatastructs import Trie
    n = rng.randint(1100, 2500)
    base = ''.join(rng.choice('ab') for _ in range(n))
    cut = rng.choice([0, 1, n // 2, n - 1])
    words = {base, base[:cut] + 'c', base[:rng.randint(1, n - 1)], base[:cut] + 'd' * rng.choice([1, 1500])}
    t = Trie()
    order = list(words)
    rng.shuffle(order)
    for w in order:
        t.insert(w)
    live = set(words)
    for w in [None] + order:
        if w is not None:
            mon.eq(t.delete(w), True, 'deleting a long string')
            live.discard(w)
        for q in (base, base[:cut], base[:n - 1], base + 'a', base[:cut] + 'c'):
            mon.eq(t.is_inserted(q), q in live, 'is_inserted of a long string')
            if q and live:
                mon.eq(t.is_present(q), any(x.startswith(q) for x in live), 'is_present of a long string')
            mon.eq(sorted(t.strings_with_prefix(q)), sorted(x for x in live if x.startswith(q)), 'strings_with_prefix of long strings')
    mon.ev('long strings')
    mon.case((base, cut))


SCENARIOS = {'trie': dict(fn=sc_trie, quick=2500, thorough=100000),
             'far': dict(fn=sc_far, quick=40, thorough=600, steps=100000000)}
REQUIRED = ['long strings', 'query', 'delete missing', 'deleted a prefix of another string', 'deleted an extension of another string']
