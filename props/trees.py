"""Shared driver and structural monitors of the binary tree properties."""
from .common import *   # noqa

FAMILIES = ('BinarySearchTree', 'AVLTree', 'RedBlackTree', 'SplayTree', 'CartesianTree', 'Treap', 'SelfBalancingBinaryTree')
UNBALANCED = ('BinarySearchTree', 'SelfBalancingBinaryTree', 'CartesianTree')
COMPS = {'default': None,
         'explicit': lambda a, b: a < b,
         'reversed': lambda a, b: a > b,
         'last digit': lambda a, b: (str(a)[-1:], str(a)) < (str(b)[-1:], str(b))}


def less(comp):
    return COMPS[comp] or (lambda a, b: a < b)


class Key(object):
    """Sort key of a comparator."""
    def __init__(self, lt, k):
        self.lt, self.k = lt, k

    def __lt__(self, other):
        return self.lt(self.k, other.k)


def ordered(lt, keys):
    return sorted(keys, key=lambda k: Key(lt, k))


def key_maker(rng, kind=None, span=None):
    span = span or rng.choice([4, 12, 40, 400])
    kind = kind or rng.choice(['int', 'int', 'int', 'float', 'str', 'word', 'tuple'])
    mk = {'int': lambda: rng.randint(-span, span), 'float': lambda: rng.randint(-span, span) / 4.0,
          'str': lambda: 'k%d' % rng.randint(0, 2 * span), 'tuple': lambda: (rng.randint(0, 3), rng.randint(0, span)),
          'word': lambda: ''.join(rng.choice('ab') for _ in range(rng.randint(0, 4))),
          'nat': lambda: rng.randint(0, 2 * span)}[kind]
    return kind, mk


def audit_nodes(mon, t, lt, want, ostat=False, data=True, garbage=True):
    """Walks the links from the root: a proper search tree holding exactly
    `want` ({key: data}), with parent links and without unreachable nodes.
    Returns the in-order list of (index, node)."""
    arr = t.tree
    last = arr._last_pos_filled
    root = t.root_idx
    if not want:
        mon.check(arr[root] is not None and arr[root].key is None and arr[root].left is None and arr[root].right is None,
                  'an empty tree still shows nodes', root=root, tree=str(t))
        return []
    mon.check(0 <= root <= last and arr[root] is not None, 'root_idx is not a node', root=root, last=last)
    mon.check(arr[root].parent is None, 'the root has a parent', parent=arr[root].parent)
    order, seen = [], set()
    stack, cur = [], root
    while stack or cur is not None:
        if cur is not None:
            mon.check(0 <= cur <= last and arr[cur] is not None, 'a link leads to a cell without a node', index=cur)
            mon.check(cur not in seen, 'a node is linked twice', index=cur)
            seen.add(cur)
            for c in (arr[cur].left, arr[cur].right):
                if c is not None:
                    mon.check(0 <= c <= last and arr[c] is not None, 'a link leads to a cell without a node', index=c)
                    mon.eq(arr[c].parent, cur, 'a node does not know its parent', node=arr[c].key)
            stack.append(cur)
            cur = arr[cur].left
        else:
            cur = stack.pop()
            order.append((cur, arr[cur]))
            cur = arr[cur].right
    keys = [n.key for _, n in order]
    mon.eq(keys, ordered(lt, want), 'the tree does not hold exactly the inserted keys in order')
    if data:
        mon.eq([n.data for _, n in order], [want[k] for k in keys], 'the tree holds other data')
    if garbage:
        live = sum(1 for i in range(last + 1) if arr[i] is not None)
        mon.eq(live, len(want), 'nodes are left behind in the array of the tree')
        mon.eq(arr._num, len(want), 'the array of the tree miscounts its nodes')
    if ostat:
        sizes = {}
        for i in _post(arr, root):
            n = arr[i]
            sizes[i] = 1 + sum(sizes[c] for c in (n.left, n.right) if c is not None)
            mon.eq(n.size, sizes[i], 'the size of a subtree is wrong', key=n.key)
    mon.ev('tree audited')
    return order


def _post(arr, root):
    out, st = [], [root]
    while st:
        i = st.pop()
        out.append(i)
        st.extend(c for c in (arr[i].left, arr[i].right) if c is not None)
    return out[::-1]


def heights(arr, root):
    h = {None: -1}
    for i in _post(arr, root):
        h[i] = 1 + max(h[arr[i].left], h[arr[i].right])
    return h


def check_avl(mon, t):
    arr = t.tree
    h = heights(arr, t.root_idx)
    for i in h:
        if i is not None:
            mon.eq(arr[i].height, h[i], 'the recorded height of a node is wrong', key=arr[i].key)
            mon.check(abs(h[arr[i].left] - h[arr[i].right]) <= 1, 'a node is out of balance', key=arr[i].key,
                      left=h[arr[i].left], right=h[arr[i].right])
    mon.ev('avl audited')


def check_rb(mon, t):
    arr = t.tree
    mon.eq(arr[t.root_idx].color, 0, 'the root is not black')
    bh = {None: 0}
    for i in _post(arr, t.root_idx):
        n = arr[i]
        mon.check(n.color in (0, 1), 'a node has no colour', color=n.color)
        for c in (n.left, n.right):
            if n.color == 1 and c is not None:
                mon.eq(arr[c].color, 0, 'a red node has a red child', key=n.key)
        mon.eq(bh[n.left], bh[n.right], 'black heights differ', key=n.key)
        bh[i] = bh[n.left] + (1 - n.color)
    mon.ev('rb audited')


def check_heap(mon, t, prio=None):
    arr = t.tree
    for i in _post(arr, t.root_idx):
        n = arr[i]
        if prio is not None:
            mon.eq(n.priority, prio[n.key], 'a node has another priority', key=n.key)
        for c in (n.left, n.right):
            if c is not None:
                mon.check(n.priority <= arr[c].priority, 'heap order of the priorities is broken',
                          parent=(n.key, n.priority), child=(arr[c].key, arr[c].priority))
    mon.ev('heap audited')


def make(name, rng, comp, ostat, root=None, backend=None):
    cls = getattr(pds, name, None)
    if cls is None:
        from pydatastructs.trees import binary_trees as bt
        cls = getattr(bt, name)
    kw = {}
    if COMPS[comp] is not None:
        kw['comp'] = COMPS[comp]
    if ostat:
        kw['is_order_statistic'] = True
    if backend is not None:
        kw['backend'] = backend
    if root is not None:
        return cls(root[0], root[1], **kw)
    return cls(**kw)


class Driver(object):
    """Random insert / delete / search history against a dict model."""

    def __init__(self, mon, rng, name, comp='default', ostat=False, kind=None, span=None, backend=None, root_ok=True):
        self.mon, self.rng, self.name, self.comp, self.ostat = mon, rng, name, comp, ostat
        self.kind, self.mk = key_maker(rng, kind, span)
        self.lt = less(comp)
        self.serial = 0
        self.model, self.prio, self.hist = {}, {}, []
        self.cpp = backend is not None and backend != PY
        root = None
        if root_ok and rng.random() < 0.3:
            root = (self.mk(), self.value(False))
            self.model[root[0]] = root[1]
            self.prio[root[0]] = float('-inf')
            self.hist.append(('root', root[0]))
        self.t = make(name, rng, comp, ostat, root, backend)
        self.mode = rng.choice(['mixed', 'waves', 'grow', 'sawtooth'])
        self.p = {'mixed': 0.55, 'waves': 0.9, 'grow': 0.8, 'sawtooth': 0.95}[self.mode]
        self.run = rng.choice([None, None, 'up', 'down'])

    def value(self, none=True):
        self.serial += 1
        return None if none and self.rng.random() < 0.15 else payload(self.rng, self.serial)

    def key(self):
        if self.run and self.model and self.kind in ('int', 'nat') and self.rng.random() < 0.8:
            ks = self.model
            return max(ks) + 1 if self.run == 'up' else (min(ks) - 1 if self.kind == 'int' else self.mk())
        if self.model and self.rng.random() < 0.12:
            return self.rng.choice(list(self.model))
        return self.mk()

    def priority(self):
        rng = self.rng
        if not hasattr(self, 'pkind'):
            self.pkind = rng.choice(['few', 'natural', 'signed', 'signed', 'half', 'mixed'])
            self.mon.ev('priorities: ' + self.pkind)
        kind = self.pkind
        if kind == 'mixed':
            kind = rng.choice(['few', 'natural', 'signed', 'half', 'close'])
        if kind == 'few':
            return rng.randint(0, 3)
        if kind == 'natural':
            return rng.randint(0, 1000)
        if kind == 'signed':
            return rng.randint(-rng.choice([3, 100, 10**9]), 10)
        if kind == 'half':
            return rng.randint(-40, 40) / 4.0
        return rng.randint(-3, 3) + rng.randint(-2, 2) * 2.0**-40

    def insert(self, k=None):
        k = self.key() if k is None else k
        d = self.value()
        self.mon.op('insert', k, d)
        self.hist.append(('i', k))
        if k in self.model:
            self.mon.ev('reinsert')
        if self.name == 'CartesianTree':
            p = self.priority()
            self.prio[k] = p
            self.hist.append(p)
            self.t.insert(k, p, d)
        elif self.name == 'SplayTree' or d is not None:
            self.t.insert(k, d)
        else:
            self.t.insert(k)
        self.model[k] = d
        return k

    def delete(self, k=None):
        rng = self.rng
        if k is None:
            k = rng.choice(list(self.model)) if self.model and rng.random() < 0.9 else self.mk()
        self.mon.op('delete', k)
        self.hist.append(('d', k))
        r = self.t.delete(k)
        if k in self.model:
            self.mon.check(bool(r), 'delete of a present key does not report success', key=k, result=r)
            del self.model[k]
            self.prio.pop(k, None)
            self.mon.ev('deleted')
        else:
            self.mon.eq(r, None, 'delete of an absent key reports success', key=k)
            self.mon.ev('delete missing')
        return k

    def step(self, i):
        if self.mode == 'waves' and i % 12 == 0:
            self.p = self.rng.choice([0.95, 0.1])
        elif self.mode == 'sawtooth':
            if len(self.model) > 25:
                self.p = 0.03
            elif not self.model:
                self.p = 0.97
        if self.rng.random() < self.p:
            return 'insert', self.insert()
        return 'delete', self.delete()

    def search(self, k):
        t = self.t
        i = t.search(k)
        if k in self.model:
            self.mon.check(i is not None and t.tree[i] is not None and t.tree[i].key == k,
                           'search does not find a present key', key=k, got=i)
            self.mon.eq(t.tree[i].data, self.model[k], 'search finds other data', key=k)
        else:
            self.mon.eq(i, None, 'search finds an absent key', key=k)
        r = t.search(k, parent=True)
        self.mon.eq(r[0], i, 'search with parent finds another node')
        if k in self.model:
            self.mon.eq(r[1], t.tree[i].parent, 'search reports another parent', key=k)

    def audit(self, balance=True, **kw):
        o = audit_nodes(self.mon, self.t, self.lt, self.model, self.ostat, **kw)
        if self.rng.random() < 0.05:
            self.mon.eq(bool(self.t.is_order_statistic), self.ostat, 'is_order_statistic is not the flag given')
            a, b = self.mk(), self.mk()
            self.mon.eq(bool(self.t.comparator(a, b)), self.lt(a, b), 'the tree shows another comparator', a=a, b=b)
            self.mon.ev('attributes read')
        self.mon.state((self.name, tuple((i, n.key) for i, n in o)))
        if self.model and balance:
            if self.name == 'AVLTree':
                check_avl(self.mon, self.t)
            elif self.name == 'RedBlackTree':
                check_rb(self.mon, self.t)
            elif self.name == 'CartesianTree':
                check_heap(self.mon, self.t, self.prio)
            elif self.name == 'Treap':
                check_heap(self.mon, self.t)
        return o
