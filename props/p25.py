"""Binary trees of the C++ backend."""
from .common import *   # noqa
from . import trees as T
from . import p21, p22, p23, p24

ID = 'P25'
RULE = 'distinct (class, comparator, key kind, history) tuples'


def _cpp(fn):
    def sc(mon, rng, params):
        fn(mon, rng, params, backend=CPP)
    return sc


def _fam(factory, names=T.FAMILIES):
    def sc(mon, rng, params):
        factory(rng.choice(names), CPP)(mon, rng, params)
    return sc


class Boom(Exception):
    pass


def sc_errors(mon, rng, params):
    """A comparator that fails, and arguments that are no trees, no keys ..."""
    name = rng.choice(T.FAMILIES)
    cls = getattr(pds, name, None)
    if cls is None:
        from pydatastructs.trees import binary_trees as bt
        cls = getattr(bt, name)
    state = {'left': None, 'raised': 0}

    def comp(a, b):
        if state['left'] is not None:
            state['left'] -= 1
            if state['left'] < 0:
                state['raised'] += 1
                raise Boom(a, b)
        return a < b
    t = cls(comp=comp, backend=CPP)
    keys = rng.sample(range(100), rng.randint(2, 25))

    def ins(k):
        return t.insert(k, rng.randint(0, 9), k) if name == 'CartesianTree' else t.insert(k, k)
    for k in keys:
        ins(k)
    victim = rng.choice(keys)
    ops = {'insert': lambda: ins(1000), 'search': lambda: t.search(rng.choice(keys)),
           'search parent': lambda: t.search(1000, parent=True), 'delete': lambda: t.delete(victim),
           'lower': lambda: t.lower_bound(keys[0]), 'upper': lambda: t.upper_bound(keys[0])}
    if name == 'SplayTree':
        at = rng.choice(keys)
        far = [k + 1000 for k in keys]

        def other():
            u = cls(comp=comp, backend=CPP)
            for k in far:
                u.insert(k, k)
            return u
        tree2 = other()
        ops['split'] = lambda: t.split(at)
        ops['join'] = lambda: t.join(tree2)
        ops['join of an empty tree'] = lambda: cls(comp=comp, backend=CPP).join(tree2)
    for op in rng.sample(sorted(ops), 3):
        left = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30, 80])
        mon.op('failing', op, left)
        state['left'] = left
        state['raised'] = 0
        try:
            ops[op]()
            mon.eq(state['raised'], 0, 'an error of the comparator is lost', op=op)
            break                # the comparator was not needed that often
        except Boom:
            mon.eq(state['raised'], 1, 'the comparator is called after its error', op=op)
        except SystemError as e:
            mon.check(False, 'an error of the comparator breaks the error protocol of the interpreter', op=op, error=str(e)[:200])
        finally:
            state['left'] = None
        mon.ev('comparator error')
        mon.ev('comparator error in ' + op)
        if op in ('split', 'join of an empty tree'):
            # these move one element after the other
            there = {n.key: n.data for n in [t.tree[i] for i in range(t.tree._last_pos_filled + 1)]
                     if n is not None and n.key is not None}
            mon.check(all(k in keys for k in there) and (op != 'split' or all(k in there for k in keys if k <= at)),
                      'keys appear or disappear when %s fails' % op, there=sorted(there), keys=keys)
            T.audit_nodes(mon, t, lambda a, b: a < b, there)
            break
        there = {k: k for k in keys}
        if op in ('insert', 'delete') and t.tree._num != len(keys):
            # done, but not reported as done: the error came while the tree was splayed
            if op == 'insert':
                there[1000] = 1000
            else:
                del there[victim]
        T.audit_nodes(mon, t, lambda a, b: a < b, there)
        if len(there) != len(keys):
            break
    mon.raises(ValueError, lambda: cls(None, 5, backend=CPP), 'a root without a key')
    mon.case((name, tuple(keys)))


SCENARIOS = {
    'dictionary': dict(fn=_fam(p21.sc_one), quick=1200, thorough=50000),
    'large': dict(fn=_cpp(p21.sc_large), quick=48, thorough=2500, steps=30000000),
    'balance': dict(fn=_fam(p22.sc_balance, ('AVLTree', 'RedBlackTree', 'CartesianTree', 'Treap')), quick=800, thorough=40000),
    'drain': dict(fn=_cpp(p22.sc_drain), quick=500, thorough=25000),
    'splay': dict(fn=_cpp(p22.sc_splay), quick=700, thorough=30000),
    'amortized': dict(fn=_cpp(p22.sc_amortized), quick=16, thorough=800, steps=60000000),
    'queries': dict(fn=_fam(p23.sc_one), quick=900, thorough=40000),
    'many': dict(fn=_cpp(p23.sc_many), quick=32, thorough=1500, steps=60000000),
    'deep': dict(fn=_cpp(p23.sc_deep), quick=3, thorough=16, steps=60000000),
    'walk': dict(fn=_cpp(p24.sc_walk), quick=900, thorough=40000),
    'far': dict(fn=_cpp(p24.sc_far), quick=16, thorough=300, steps=100000000),
    'errors': dict(fn=sc_errors, quick=900, thorough=10000),
    'tall': dict(fn=_cpp(p21.sc_tall), quick=40, thorough=2500, steps=100000000),
    'tall under asan': dict(fn=_cpp(p21.sc_tall), quick=16, thorough=800, flavour='asan', steps=100000000),
    'dictionary under asan': dict(fn=_fam(p21.sc_one), quick=200, thorough=8000, flavour='asan'),
    'splay under asan': dict(fn=_cpp(p22.sc_splay), quick=200, thorough=6000, flavour='asan'),
    'queries under asan': dict(fn=_fam(p23.sc_one), quick=160, thorough=6000, flavour='asan'),
    'walk under asan': dict(fn=_cpp(p24.sc_walk), quick=160, thorough=6000, flavour='asan'),
    'errors under asan': dict(fn=sc_errors, quick=100, thorough=4000, flavour='asan'),
}
for _sc in SCENARIOS.values():
    _sc.setdefault('steps', 20000000)
REQUIRED = ['deep tree walked', 'tall tree', 'accesses measured', 'tree audited', 'avl audited', 'rb audited', 'heap audited', 'reinsert', 'deleted', 'delete missing',
            'emptied and refilled', 'long history', 'drained', 'split', 'join', 'order statistic', 'bound', 'lca',
            'deep tree', 'traversal', 'rejected', 'comparator error']
