"""B01: callbacks run in registration order, each enabled one exactly once."""
from vc.unit import unit, search
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
from uvm.base.uvm_callback import UVMCallback, UVMCallbacks, UVMCallbackIter, UVMCallbacksBase, UVMTypedCallbacks
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb, UVMReportCbIter, THROW
from uvm.base.uvm_report_object import UVMReportObject
from uvm.macros.uvm_callback_defines import (uvm_register_cb, uvm_do_callbacks, uvm_do_callbacks_async, uvm_do_obj_callbacks,
                                             uvm_do_obj_callbacks_async, uvm_do_callbacks_exit_on, uvm_do_obj_callbacks_exit_on)
from uvm.reg.uvm_reg_cbs import UVMRegCbs, UVMRegCbIter, UVMRegFieldCbIter, UVMMemCbIter

PROPERTY = {
 'title': 'Callbacks run in registration order, each enabled one exactly once',
 'statement': 'Invoking the callbacks of an object calls, in their registration order (prepended ones first), exactly the enabled callbacks of the requested kind registered on that object or for all objects, each once and with the given arguments; callbacks of other kinds, of other objects and disabled ones are never called. An early-exit invocation stops after the first callback that returns the requested value and returns it, otherwise returns the opposite. Registering a callback twice does not make it run twice, and forward and backward iteration visit the same callbacks in opposite orders.',
 'over': ['inputs', 'histories'],
 'text': 'every callback queue, enable pattern and iterator position; every registration history',
 'why': 'tests register two callbacks on one driver',
 'files': ['src/uvm/base/uvm_callback.py', 'src/uvm/macros/uvm_callback_defines.py', 'src/uvm/reg/uvm_reg_cbs.py'],
 'mech': [['UVMCallbacks.add/get_first/get_next/get_last/get_prev', 'src/uvm/base/uvm_callback.py'], ['uvm_do_obj_callbacks', 'src/uvm/macros/uvm_callback_defines.py']],
 'note': 'iterator steps proved for queues of any length and enable pattern; invocation macros proved for up to three callbacks; registration histories are a bounded search',
}


class Cb(UVMCallback):
    def __init__(self, name='cb', log=None):
        super().__init__(name)
        self.log, self.ret = log, 0

    def hit(self, *a):
        self.log.append((self, a))
        return self.ret

    async def ahit(self, *a):
        self.log.append((self, a))


class Cb2(Cb):
    pass


class Other(UVMCallback):
    def hit(self, *a):
        raise AssertionError('callback of another kind called')
    ahit = hit


class Obj(UVMObject):
    pass


class Obj2(UVMObject):
    pass


def mk(e):
    o = Cb('cb')
    o.m_enabled = e.bool('on')
    o.tag = e.int('tag')
    return o


def queue(S, obj):
    """an arbitrary callback queue on obj"""
    UVMCallbacks.get()
    L = S.list('q', mk)
    if S.symbolic:
        UVMCallbacks.m_base_inst.m_pool.add(obj, L)
    else:
        for k, c in enumerate(L):
            UVMCallbacks.add(obj, c)
    return L


def ln(L):
    return len(L) if type(L) is list else L.length()


@unit('UVMCallbacks.get_first', 'UVMCallbacks.m_get_q', 'UVMCallbackIter.first', 'UVMCallback.callback_mode', 'UVMCallback.is_enabled')
def first(S):
    S.stub(UVMCallbacksBase, 'm_tracing', False)
    o = Obj('o')
    L = queue(S, o)
    S.scan(L, lambda c: c.m_enabled)
    it = UVMCallbackIter(o, S.choice('cb', [Cb, None, UVMCallback]))
    c = it.first()
    S.check('found iff some callback is enabled', S.iff(c is not None, S.exists(L, lambda x: x.m_enabled)))
    S.check('iterator remembers it', it.get_cb() is c)
    if c is not None:
        j = it.m_i
        S.check('enabled', c.m_enabled)
        S.check('the callback at the iterator position', S.and_(0 <= j, j < ln(L), c.tag == L[j].tag))
        S.forall('no earlier enabled callback', L, lambda i, x: S.implies(i < j, S.not_(x.m_enabled)))


@unit('UVMCallbacks.get_last', 'UVMCallbackIter.last')
def last(S):
    S.stub(UVMCallbacksBase, 'm_tracing', False)
    o = Obj('o')
    L = queue(S, o)
    n = ln(L)
    S.scan(L, lambda c: c.m_enabled, at=lambda k: n - 1 - k)
    it = UVMCallbackIter(o, S.choice('cb', [Cb, None]))
    c = it.last()
    S.forall('nothing enabled unless found', L, lambda i, x: S.implies(c is None, S.not_(x.m_enabled)))
    if c is not None:
        j = it.m_i
        S.check('enabled', c.m_enabled)
        S.check('the callback at the iterator position', S.and_(0 <= j, j < n, c.tag == L[j].tag))
        S.forall('no later enabled callback', L, lambda i, x: S.implies(i > j, S.not_(x.m_enabled)))


def at(S, L, it):
    """iterator standing on an arbitrary position"""
    p = S.int('p', 0)
    S.require(p < ln(L))
    it.m_i = p
    return p


@unit('UVMCallbacks.get_next', 'UVMCallbackIter.next')
def next_(S):
    S.stub(UVMCallbacksBase, 'm_tracing', False)
    o = Obj('o')
    L = queue(S, o)
    it = UVMCallbackIter(o, S.choice('cb', [Cb, None]))
    p = at(S, L, it)
    S.scan(L, lambda c: c.m_enabled, at=lambda k: p + 1 + k)
    c = it.next()
    S.forall('nothing enabled follows unless found', L, lambda i, x: S.implies(S.and_(c is None, i > p), S.not_(x.m_enabled)))
    if c is not None:
        j = it.m_i
        S.check('enabled', c.m_enabled)
        S.check('the callback at the iterator position', S.and_(p < j, j < ln(L), c.tag == L[j].tag))
        S.forall('none skipped', L, lambda i, x: S.implies(S.and_(p < i, i < j), S.not_(x.m_enabled)))
    else:
        S.check('stays at the end', it.next() is None)


@unit('UVMCallbacks.get_prev', 'UVMCallbackIter.prev')
def prev(S):
    S.stub(UVMCallbacksBase, 'm_tracing', False)
    o = Obj('o')
    L = queue(S, o)
    it = UVMCallbackIter(o, S.choice('cb', [Cb, None]))
    p = at(S, L, it)
    S.scan(L, lambda c: c.m_enabled, at=lambda k: p - 1 - k)
    c = it.prev()
    S.forall('nothing enabled precedes unless found', L, lambda i, x: S.implies(S.and_(c is None, i < p), S.not_(x.m_enabled)))
    if c is not None:
        j = it.m_i
        S.check('enabled', c.m_enabled)
        S.check('the callback at the iterator position', S.and_(0 <= j, j < p, c.tag == L[j].tag))
        S.forall('none skipped', L, lambda i, x: S.implies(S.and_(j < i, i < p), S.not_(x.m_enabled)))


@unit('UVMCallback.callback_mode', 'UVMCallback.is_enabled')
def mode(S):
    S.stub(UVMCallbacksBase, 'm_tracing', S.bool('trace'))
    c = Cb('c')
    S.check('enabled at first', c.is_enabled())
    cur = True
    for k in range(2):
        on = S.choice('on%d' % k, [-1, 0, 1])
        r = c.callback_mode(on)
        S.check('returns the previous mode', bool(r) == cur)
        cur = cur if on == -1 else bool(on)
        S.check('mode', bool(c.is_enabled()) == cur)


MACROS = {'do': 0, 'obj': 0, 'async': 1, 'objasync': 1}


@unit('uvm_do_callbacks', 'uvm_do_obj_callbacks', 'uvm_do_callbacks_async', 'uvm_do_obj_callbacks_async', limit='up to three callbacks')
def invoke(S):
    """every enabled callback of the kind once, in order, with the arguments"""
    S.stub(UVMCallbacksBase, 'm_tracing', S.bool('trace'))
    o = Obj('o')
    log = []
    want = []
    for k in range(S.choice('n', [0, 1, 2, 3])):
        cls = S.choice('cls%d' % k, [Cb, Cb2, Other])
        c = cls('c%d' % k, log) if cls is not Other else Other('c%d' % k)
        if k and cls is not Other:
            c.m_enabled = S.bool('on%d' % k)
        UVMCallbacks.add(o, c)
        if cls is not Other:
            want.append(c)
    want = [c for c in want if c.m_enabled]
    which = S.choice('which', sorted(MACROS))
    a, b = S.int('a'), S.int('b')
    if which == 'do':
        uvm_do_callbacks(o, Cb, 'hit', a, b)
    elif which == 'obj':
        uvm_do_obj_callbacks(o, Cb, 'hit', a, b)
    elif which == 'async':
        S.run(uvm_do_callbacks_async(o, Cb, 'ahit', a, b))
    else:
        S.run(uvm_do_obj_callbacks_async(o, Cb, 'ahit', a, b))
    S.check('called in order', [c for c, _ in log] == want)
    for c, args in log:
        S.check('arguments', S.and_(len(args) == 2, args[0] == a, args[1] == b))


@unit('uvm_do_callbacks_exit_on', 'uvm_do_obj_callbacks_exit_on', limit='up to three callbacks')
def exit_on(S):
    S.stub(UVMCallbacksBase, 'm_tracing', S.bool('trace'))
    o = Obj('o')
    log = []
    val = S.choice('val', [0, 1])
    want, res = [], 1 - val
    for k in range(S.choice('n', [0, 1, 2, 3])):
        c = Cb('c%d' % k, log)
        c.ret = S.int('r%d' % k, 0, 2)
        c.m_enabled = S.bool('on%d' % k)
        UVMCallbacks.add(o, c)
        if c.m_enabled and res != val:
            want.append(c)
            if c.ret == val:
                res = val
    if S.bool('obj'):
        r = uvm_do_obj_callbacks_exit_on(o, Cb, 'hit', val, 5)
    else:
        r = uvm_do_callbacks_exit_on(o, Cb, 'hit', val, 5)
    S.check('stops at the first match', [c for c, _ in log] == want)
    S.check('result', r == res)


class Catch(UVMReportCatcher):
    def catch(self):
        return THROW


KINDS = [Cb, Cb2, Other, UVMRegCbs, Catch]


def members(regs, oi, kind):
    return [c for c in regs[oi] if isinstance(c, kind) and c.is_enabled()]


@search(runs=2500, weight=3)
def history(S):
    """registration histories with several objects, kinds and orders"""
    S.stub(UVMCallbacksBase, 'm_tracing', False)
    uvm_register_cb(Obj, Cb)
    objs = [Obj('o0'), Obj2('o1'), UVMReportObject('o2')]
    alls = []
    regs = {None: [], 0: [], 1: [], 2: []}
    own = set()
    for k in range(S.int('n', 0, 9)):
        if alls and S.int('again%d' % k, 0, 3) == 0:
            c = alls[S.int('w%d' % k, 0, len(alls) - 1)]
        else:
            kind = S.choice('k%d' % k, KINDS)
            c = kind('c%d' % k)
            alls.append(c)
        oi = S.choice('o%d' % k, [None, 0, 0, 1, 2])
        app = S.bool('p%d' % k)
        add = UVMReportCb.add if isinstance(c, Catch) and S.bool('rc%d' % k) else UVMCallbacks.add
        add(None if oi is None else objs[oi], c, UVM_APPEND if app else UVM_PREPEND)
        for x in [None, 0, 1, 2] if oi is None else [oi]:
            if c not in regs[x]:
                regs[x] = regs[x] + [c] if app else [c] + regs[x]
        if S.int('off%d' % k, 0, 3) == 0:
            c.callback_mode(S.choice('m%d' % k, [0, 0, 1]))
    for oi in (0, 1, 2, None):
        o = None if oi is None else objs[oi]
        for kind in KINDS:
            want = members(regs, oi, kind)
            it = UVMCallbackIter(o, kind)
            got, c = [], it.first()
            while c is not None and len(got) < 20:
                got.append(c)
                c = it.next()
            S.check('forward', got == want, (oi, kind.__name__, [c.get_name() for c in got], [c.get_name() for c in want]))
            got, c = [], it.last()
            while c is not None and len(got) < 20:
                got.append(c)
                c = it.prev()
            S.check('backward', got == want[::-1])
        for itc, kind in ((UVMRegCbIter, UVMRegCbs), (UVMRegFieldCbIter, UVMRegCbs), (UVMMemCbIter, UVMRegCbs), (UVMReportCbIter, UVMReportCatcher)):
            it = itc(o)
            got, c = [], it.first()
            while c is not None and len(got) < 20:
                got.append(c)
                c = it.next()
            S.check('typed iterator', got == members(regs, oi, kind))
        it = UVMCallbackIter(o)
        got, c = [], it.first()
        while c is not None and len(got) < 20:
            got.append(c)
            c = it.next()
        S.check('any kind', got == members(regs, oi, UVMCallback))
    for c in alls:
        if isinstance(c, Catch):
            first = [x for x in members(regs, None, Catch) if x.get_name() == c.get_name()]
            S.check('catchers are found by name', UVMReportCatcher.get_report_catcher(c.get_name()) is (first[0] if first else None))
