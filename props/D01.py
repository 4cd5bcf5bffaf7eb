"""D01: data access policies"""
from vc.unit import unit, search
from uvm.dap.uvm_get_to_lock_dap import uvm_get_to_lock_dap
from uvm.dap.uvm_set_before_get_dap import uvm_set_before_get_dap
from uvm.dap.uvm_simple_lock_dap import uvm_simple_lock_dap

PROPERTY = {
 'title': 'A data access policy lets a value be set and read exactly when it may be',
 'statement': 'A value that locks when it is read can be set any number of times until it is first read, one with a lock whenever it is not locked, and one that must be set first always: then a read yields the value set last. Every other attempt to set is reported as one error and changes nothing. Reading before the first set is reported, or fails without a report if only tried, exactly for the policy that forbids it; a read changes nothing but the lock of the policy which locks.',
 'over': ['inputs', 'histories'],
 'text': 'values of any kind (none, zero and false included) and any history of operations on any number of holders',
 'why': 'tests set and read one value once',
 'files': ['src/uvm/dap/uvm_get_to_lock_dap.py', 'src/uvm/dap/uvm_set_before_get_dap.py', 'src/uvm/dap/uvm_simple_lock_dap.py'],
 'mech': [['uvm_get_to_lock_dap.set, get', 'src/uvm/dap/uvm_get_to_lock_dap.py'], ['uvm_set_before_get_dap.set, get, try_get', 'src/uvm/dap/uvm_set_before_get_dap.py'],
          ['uvm_simple_lock_dap.set, get, lock, unlock', 'src/uvm/dap/uvm_simple_lock_dap.py']],
 'note': 'each operation is proved from every state a holder can be in; a search runs long histories on several holders',
}

VALUES = [None, 0, False, '', 'x', (1,)]


def some(S, name):
    """a value: what kind of thing it is must not matter"""
    return S.int(name) if S.bool(name + 'i') else S.choice(name + 'v', VALUES)


def same(S, a, b):
    return a is b if b is None or isinstance(b, (bool, str, tuple)) else S.and_(a is not None, a == b)


class Locks:
    """get-to-lock: the value, or nothing, and whether it has been read"""
    make = uvm_get_to_lock_dap
    ops = ['set', 'get']

    def __init__(self):
        self.v, self.locked = None, False

    def set(self, v):
        if self.locked:
            return 1
        self.v = v
        return 0

    def get(self):
        self.locked = True
        return 0


class First:
    make = uvm_set_before_get_dap
    ops = ['set', 'get', 'try']

    def __init__(self):
        self.v, self.there = None, False

    def set(self, v):
        self.v, self.there = v, True
        return 0

    def get(self):
        return 0 if self.there else 1


class Lock:
    make = uvm_simple_lock_dap
    ops = ['set', 'get', 'lock', 'unlock', 'ask']

    def __init__(self):
        self.v, self.locked = None, False

    set = Locks.set

    def get(self):
        return 0


def step(S, d, m, op, v):
    """one operation on a holder, and what becomes of it"""
    told = len(S.reports)
    errs = 0
    if op == 'set':
        d.set(v)
        errs = m.set(v)
    elif op == 'get':
        got = d.get()
        errs = m.get()
        S.check('the value set last', same(S, got, m.v))
    elif op == 'try':
        out = []
        ok = d.try_get(out)
        S.check('succeeds exactly if it has been set', bool(ok) == m.there)
        S.check('and yields the value then', same(S, out[0], m.v) if m.there and len(out) == 1 else len(out) == 0)
    elif op == 'lock':
        d.lock()
        m.locked = True
    elif op == 'unlock':
        d.unlock()
        m.locked = False
    else:
        S.check('tells whether it is locked', bool(d.is_locked()) == m.locked)
    S.check('reported once, or not at all', len(S.reports) == told + errs and len(S.reports.errors) == len(S.reports))


def contract(name, M):
    def one(S):
        d, m = M.make('d01'), M()
        other, o = M.make('d01o'), M()
        step(S, other, o, 'set', 'other')
        # every state a holder can be in: nothing or a value which has replaced another, and the lock after each of them
        for k, op in enumerate([S.choice('op%d' % k, M.ops[:1] + [x for x in M.ops[1:] if k or x != 'ask']) for k in range(2)]):
            step(S, d, m, op, S.int('v1') if k else some(S, 'v0') if op == 'set' else None)
        op = S.choice('op', M.ops)
        step(S, d, m, op, some(S, 'v') if op == 'set' else None)
        step(S, d, m, 'get', None)
        step(S, other, o, 'get', None)
    one.__name__ = name
    return one


get_to_lock = unit('uvm_get_to_lock_dap.set', 'uvm_get_to_lock_dap.get')(contract('get_to_lock', Locks))
set_before_get = unit('uvm_set_before_get_dap.set', 'uvm_set_before_get_dap.get', 'uvm_set_before_get_dap.try_get')(contract('set_before_get', First))
simple_lock = unit('uvm_simple_lock_dap.set', 'uvm_simple_lock_dap.get', 'uvm_simple_lock_dap.lock', 'uvm_simple_lock_dap.unlock', 'uvm_simple_lock_dap.is_locked')(contract('simple_lock', Lock))


@search(runs=300)
def histories(S):
    M = S.choice('policy', [Locks, First, Lock])
    n = S.int('n', 1, 3)
    ds, ms = [M.make('d%d' % i) for i in range(n)], [M() for i in range(n)]
    for k in range(S.int('len', 0, 30)):
        i = S.int('i%d' % k, 0, n - 1)
        step(S, ds[i], ms[i], S.choice('op%d' % k, M.ops), some(S, 'v%d' % k))
