"""L01: queues are sequences, pools are insertion-ordered maps."""
from vc.unit import unit, search
from uvm.base.uvm_queue import UVMQueue
from uvm.base.uvm_pool import UVMPool, UVMObjectStringPool, UVMEventPool, UVMBarrierPool
from uvm.base.uvm_object import UVMObject

PROPERTY = {
 'title': 'Queue and pool containers behave as a sequence and an insertion-ordered map',
 'statement': 'A queue behaves as a sequence under every mix of push, pop, insert, delete, get, set, find and copy at any index, rejecting out-of-range indices without changing anything, and a copy is independent of its source. A pool behaves as a map that keeps insertion order: add, get, exists, num and delete affect exactly the named key, first/next and last/prev visit every key once in order, and pools of objects create one object per key on first use and return that same object from then on.',
 'over': ['inputs', 'histories'],
 'text': 'every queue length and content, every index (negative and past the end included), every operation history on pools',
 'why': 'tests use short fixed sequences; the boundary and frame (what else changed) behaviour is not asserted',
 'files': ['src/uvm/base/uvm_queue.py', 'src/uvm/base/uvm_pool.py'],
 'mech': [['UVMQueue operations', 'src/uvm/base/uvm_queue.py'], ['UVMPool, UVMObjectStringPool', 'src/uvm/base/uvm_pool.py']],
 'note': 'queue operations proved for unbounded content and index; pool histories are a bounded stand-in (random operation sequences against a reference map)',
}


def item(e):
    return e.int('v')


def mkq(S, minn=0):
    q = UVMQueue('q')
    L = S.list('q', item, minn=minn)
    if type(L) is list:
        for x in L:
            q.push_back(x)
        L = list(L)
        snap = lambda j: L[j]
        n = len(L)
    else:
        q.queue = L.copy()
        snap = lambda j: L[j]
        n = L.length()
    return q, n, snap


def frame(S, q, n, f, label):
    """content of q afterwards: length n, element j is f(j)"""
    S.check(label + ': length', q.size() == n)
    j = S.int('j', 0)
    S.require(j < n)
    S.check(label + ': content', q.get(j) == f(j))


@unit('UVMQueue.push_back')
def push_back(S):
    q, n, old = mkq(S)
    x = S.int('x')
    q.push_back(x)
    frame(S, q, n + 1, lambda j: old(j) if j < n else x, 'push_back')
    S.check('no report', len(S.reports) == 0)


@unit('UVMQueue.push_front')
def push_front(S):
    q, n, old = mkq(S)
    x = S.int('x')
    q.push_front(x)
    frame(S, q, n + 1, lambda j: x if j == 0 else old(j - 1), 'push_front')


@unit('UVMQueue.insert')
def insert(S):
    q, n, old = mkq(S)
    x, i = S.int('x'), S.int('i', cap=6)
    q.insert(i, x)
    if 0 <= i and i < n:
        frame(S, q, n + 1, lambda j: old(j) if j < i else (x if j == i else old(j - 1)), 'insert')
    else:
        S.check('out of range insert warns', len(S.reports.warnings) == 1)
        frame(S, q, n, old, 'rejected insert')


@unit('UVMQueue.delete')
def delete(S):
    q, n, old = mkq(S)
    i = S.int('i', cap=6)
    q.delete(i)
    if 0 <= i and i < n:
        frame(S, q, n - 1, lambda j: old(j) if j < i else old(j + 1), 'delete')
    elif i == -1:
        S.check('delete() empties', q.size() == 0)
    else:
        S.check('out of range delete warns', len(S.reports.warnings) == 1)
        frame(S, q, n, old, 'rejected delete')


@unit('UVMQueue.delete')
def delete_all(S):
    q, n, old = mkq(S)
    q.delete()
    S.check('delete() empties', q.size() == 0)
    x = S.int('x')
    q.push_back(x)
    S.check('usable afterwards', q.size() == 1 and q.get(0) == x)


@unit('UVMQueue.pop_front', 'UVMQueue.pop_back', 'UVMQueue.front', 'UVMQueue.back')
def pops(S):
    q, n, old = mkq(S, minn=1)
    S.check('front', q.front() == old(0))
    S.check('back', q.back() == old(n - 1))
    if S.bool('from_front'):
        S.check('pop_front', q.pop_front() == old(0))
        frame(S, q, n - 1, lambda j: old(j + 1), 'pop_front')
    else:
        S.check('pop_back', q.pop_back() == old(n - 1))
        frame(S, q, n - 1, old, 'pop_back')


@unit('UVMQueue.get', 'UVMQueue.size')
def get(S):
    q, n, old = mkq(S)
    i = S.int('i', cap=6)
    r = q.get(i)
    if 0 <= i and i < n:
        S.check('get returns the element', r == old(i))
        S.check('no report', len(S.reports) == 0)
    else:
        S.check('out of range get returns the default', r == 0)
        S.check('out of range get warns', len(S.reports.warnings) == 1)
    S.check('truth about length', len(q) == n if not S.symbolic else q.size() == n)


@unit('UVMQueue.do_copy')
def copy(S):
    q, n, old = mkq(S)
    r = UVMQueue('r')
    y = S.int('y')
    r.push_back(y)
    r.copy(q)
    frame(S, r, n, old, 'copy')
    r.push_back(y)
    r.push_front(y)
    frame(S, q, n, old, 'source of a copy')


@search(runs=3000)
def queue_history(S):
    r = S.rng
    q, m = UVMQueue('q'), []
    for k in range(S.int('n', 1, 40)):
        op = S.choice('op%d' % k, ['pb', 'pf', 'ins', 'del', 'popf', 'popb', 'set', 'clr', 'find', 'copy'])
        i = S.int('i%d' % k, -2, 8)
        if op == 'pb':
            q.push_back(k)
            m.append(k)
        elif op == 'pf':
            q.push_front(k)
            m.insert(0, k)
        elif op == 'ins':
            q.insert(i, k)
            if 0 <= i < len(m):
                m.insert(i, k)
        elif op == 'del':
            q.delete(i)
            if i == -1:
                m = []
            elif 0 <= i < len(m):
                del m[i]
        elif op == 'popf' and m:
            S.check('pop_front', q.pop_front() == m.pop(0))
        elif op == 'popb' and m:
            S.check('pop_back', q.pop_back() == m.pop())
        elif op == 'set' and 0 <= i < len(m):
            q[i] = k
            m[i] = k
        elif op == 'clr' and S.int('c%d' % k, 0, 5) == 0:
            q.delete()
            m = []
        elif op == 'find':
            p = lambda x: x % 3 == i % 3
            f = q.find_with(p)
            S.check('find_with', [f.get(j) for j in range(f.size())] == [x for x in m if p(x)])
            S.check('find_first_index', q.find_first_index(p) == next((j for j, x in enumerate(m) if p(x)), -1))
        elif op == 'copy':
            c = UVMQueue('c')
            c.copy(q)
            S.check('copy', [c.get(j) for j in range(c.size())] == m)
            q, c = c, q
            c.push_back(99)
            if c.size():
                c.pop_front()
        S.check('content', [q.get(j) for j in range(q.size())] == m and len(q) == len(m))
        S.check('indexing', [q[j] for j in range(len(m))] == m)
        S.check('front/back', (q.front(), q.back()) == ((m[0], m[-1]) if m else (None, None)))


class Obj(UVMObject):
    pass


@search(runs=3000)
def pool_history(S):
    kind = S.choice('kind', ['plain', 'T', 'string', 'event', 'barrier'])
    p = {'plain': lambda: UVMPool('p'), 'T': lambda: UVMPool('p', list), 'string': lambda: UVMObjectStringPool('p', Obj),
         'event': lambda: UVMEventPool('p'), 'barrier': lambda: UVMBarrierPool('p')}[kind]()
    m = {}
    strp = kind in ('string', 'event', 'barrier')
    for k in range(S.int('n', 1, 30)):
        op = S.choice('op%d' % k, ['add', 'get', 'del', 'clr', 'iter', 'riter', 'set'])
        key = S.choice('k%d' % k, ['a', 'b', 'c', 'd', ''])
        if op == 'add':
            v = Obj('o%d' % k)
            p.add(key, v)
            m[key] = v
        elif op == 'set':
            v = Obj('o%d' % k)
            p[key] = v
            m[key] = v
        elif op == 'get':
            v = p.get(key)
            if key in m:
                S.check('get returns the stored object', v is m[key])
            elif strp:
                S.check('a missing object is created with the key as name', v is not None and v.get_name() == key)
                m[key] = v
            elif kind == 'T':
                S.check('a missing value is created', v == [])
                m[key] = v
            else:
                S.check('a missing key yields nothing', v is None)
        elif op == 'del':
            w = len(S.reports)
            p.delete(key)
            if key not in m and strp:
                S.check('deleting a missing key warns', len(S.reports) == w + 1)
            m.pop(key, None)
        elif op == 'clr' and not strp and S.int('c%d' % k, 0, 3) == 0:
            p.delete()
            m = {}
        elif op == 'iter' and m:
            got = [p.first()]
            while p.has_next() and len(got) < 20:
                got.append(p.next())
            S.check('first/next visit every key once in insertion order', got == list(m))
        elif op == 'riter' and m:
            got = [p.last()]
            while p.has_prev() and len(got) < 20:
                got.append(p.prev())
            S.check('last/prev visit every key once in reverse order', got == list(m)[::-1])
        S.check('num', p.num() == len(m) and len(p) == len(m))
        S.check('keys', p.key_list() == list(m) and list(p.keys()) == list(m))
        S.check('exists', all(p.exists(x) == (x in m) and (x in p) == (x in m) for x in 'abcd'))
        S.check('values', all(p.get(x) is m[x] and p[x] is m[x] for x in m))
        S.check('has first/last', p.has_first() == bool(m) and p.has_last() == bool(m))
