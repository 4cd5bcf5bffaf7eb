"""E01: events and barriers."""
from vc.unit import unit, search
from cocotb.triggers import Timer
from uvm.base.uvm_event import UVMEvent
from uvm.base.uvm_barrier import UVMBarrier
from uvm.base.uvm_pool import UVMEventPool, UVMBarrierPool
from uvm.base import uvm_event as UE

PROPERTY = {
 'title': 'Events and barriers release exactly the processes that wait for them',
 'statement': 'A process that waits for the trigger of an event goes on at the next trigger after its call, never because of an earlier one; a wait for a persistent trigger is also satisfied by a trigger in the same time step, and a wait for the on or off state returns at once in that state and otherwise when the event next comes to it, however briefly. Every callback of an event is asked once, in order, before a trigger; if one objects nothing changes, and otherwise each is told afterwards; a reset without wakeup releases nobody and forgets the trigger. A barrier holds processes until their number reaches the threshold and then releases all of them, with auto-reset off stays open until it is reset, and releases them when the threshold is lowered to their number.',
 'over': ['inputs', 'schedules', 'histories'],
 'text': 'every state of an event or barrier, any number of callbacks and waiters; sequences of triggers, resets and waits by several processes',
 'why': 'whether a wait sees a trigger depends on the order of the calls in one time step and on the history of the event',
 'files': ['src/uvm/base/uvm_event.py', 'src/uvm/base/uvm_barrier.py'],
 'mech': [['UVMEventBase.wait_trigger, wait_ptrigger, wait_on, wait_off, reset, cancel', 'src/uvm/base/uvm_event.py'], ['UVMEvent.trigger, add_callback, delete_callback', 'src/uvm/base/uvm_event.py'], ['UVMBarrier.wait_for, reset, set_threshold, set_auto_reset, cancel', 'src/uvm/base/uvm_barrier.py']],
 'note': 'a trigger is proved for any list of callbacks; waits for one or two operations from any state; a barrier for one operation with any counts; longer histories of several processes are a bounded search',
}


class St:
    pass


# ---------------------------------------------------------------- trigger
@unit('UVMEvent.trigger')
def trigger(S):
    """any number of callbacks"""
    ev = UVMEvent('e')
    st = St()
    st.pre, st.post, st.done = 0, 0, 0
    ev.num_waiters = nw = S.int('nw', 0)
    ev.trigger_data = old = S.int('old')
    data = S.int('data')

    class Cb:
        def pre_trigger(self, e, d):
            S.check('asked in order, with event and data', S.and_(st.pre == self.i, e is ev, d == data))
            S.check('asked before the trigger', S.and_(st.post == 0, not ev.m_event.fired))
            st.pre = st.pre + 1
            return self.veto

        def post_trigger(self, e, d):
            S.check('told in order, with event and data', S.and_(st.post == self.i, e is ev, d == data))
            st.post = st.post + 1

    def make(e):
        c = Cb()
        c.i, c.veto = e.idx, e.bool('veto')
        return c
    L = S.list('cbs', make, maxn=6)
    n = len(L) if type(L) is list else L.length()
    ev.callbacks.queue = L
    S.root('st', st)
    veto = S.exists(L, lambda c: c.veto)
    ev.trigger(data)
    S.check('every callback was asked', st.pre == n)
    S.check('triggers exactly if nobody objects', S.iff(ev.m_event.fired, S.not_(veto)))
    if veto:
        S.check('nobody is told', st.post == 0)
        S.check('nothing changes', S.and_(ev.trigger_data == old, ev.num_waiters == nw, ev.is_off(), not ev.is_on()))
    else:
        S.check('everybody is told', st.post == n)
        S.check('triggered', S.and_(ev.get_trigger_data() == data, ev.get_num_waiters() == 0, ev.is_on(), not ev.is_off()))


# ---------------------------------------------------------------- waits
OPS = ['trigger', 'vetoed', 'reset', 'wakeup', 'cancel', 'wait', 'time']
WAITS = ['trigger', 'ptrigger', 'on', 'off']


class Veto:
    veto = False

    def pre_trigger(self, e, d):
        return self.veto

    def post_trigger(self, e, d):
        pass


def wait_of(ev, kind):
    if kind == 'trigger':
        return ev.wait_trigger()
    if kind == 'ptrigger':
        return ev.wait_ptrigger()
    return ev.wait_on() if kind == 'on' else ev.wait_off()


def make_wait(kind):
    def f(S):
        ev = UVMEvent('e')
        cb = Veto()
        ev.add_callback(cb)
        now = 1
        early = S.choice('early', ['never', 'before', 'now', 'now, then off', 'before, then off'])
        done = []

        async def other():
            await ev.wait_trigger()

        async def one():
            await wait_of(ev, kind)
            done.append(1)

        def op(o):
            n = ev.get_num_waiters()
            st = (ev.is_on(), ev.get_trigger_time(), ev.get_trigger_data())
            if o == 'trigger':
                d = S.int('data')
                ev.trigger(d)
                n = 0
                S.check('data of the trigger', ev.get_trigger_data() == d)
                S.check('on', ev.is_on() and not ev.is_off())
            elif o == 'vetoed':
                cb.veto = True
                ev.trigger(7)
                cb.veto = False
                S.check('no effect', st == (ev.is_on(), ev.get_trigger_time(), ev.get_trigger_data()))
            elif o in ('reset', 'wakeup'):
                ev.reset(o == 'wakeup')
                n = 0
                S.check('off', ev.is_off() and not ev.is_on())
            elif o == 'cancel':
                ev.cancel()
                n = S.ite(n > 0, n - 1, 0)
            S.check('number of waiters', ev.get_num_waiters() == n)

        async def main():
            if early in ('before', 'before, then off'):
                ev.trigger(1)
            if early == 'before, then off':
                ev.reset(False)
            await Timer(now)
            if early in ('now', 'now, then off'):
                ev.trigger(1)
            if early == 'now, then off':
                ev.reset(False)
            ev.num_waiters = S.int('nw', 0)
            n = ev.get_num_waiters()
            import cocotb
            cocotb.start_soon(one())
            await Timer(0)
            at_once = (kind == 'ptrigger' and early == 'now' or kind == 'on' and early in ('before', 'now')
                       or kind == 'off' and early not in ('before', 'now'))
            S.check('at once exactly if it is so', bool(done) == at_once)
            S.check('counted while it waits', ev.get_num_waiters() == (n if at_once else n + 1))
            if at_once:
                return
            lost = False
            for k in (1, 2):
                o = S.choice('op%d' % k, OPS)
                if o == 'time':
                    await Timer(1)
                elif o == 'wait':
                    cocotb.start_soon(other())
                else:
                    op(o)
                await Timer(0)
                if kind in ('trigger', 'ptrigger'):
                    rel = o in ('trigger', 'wakeup') and not lost
                    lost = lost or o == 'reset'
                elif kind == 'on':
                    rel = o == 'trigger'
                else:
                    rel = o in ('reset', 'wakeup')
                S.check('released exactly by what it waits for', bool(done) == rel)
                if rel:
                    return
        S.simulate(main())
    f.__name__ = f.__qualname__ = 'wait_' + kind
    return f


for _k in WAITS:
    unit('UVMEventBase.wait_' + _k, 'UVMEvent.trigger', 'UVMEventBase.reset', 'UVMEventBase.cancel', limit='two operations after the wait')(make_wait(_k))


@unit('UVMEvent.add_callback', 'UVMEvent.delete_callback', limit='three callbacks')
def callbacks(S):
    ev = UVMEvent('e')
    cbs = [Veto() for _ in range(3)]
    warned = []
    S.stub(UE, 'uvm_warning', lambda *a: warned.append(a[0]))
    want = []
    for k in range(4):
        i = S.choice('cb%d' % k, [0, 1, 2])
        c = cbs[i]
        o = S.choice('op%d' % k, ['append', 'prepend', 'delete'])
        nw = len(warned)
        if o == 'delete':
            ev.delete_callback(c)
            S.check('an unknown one is reported', (len(warned) > nw) == (c not in want))
            want = [x for x in want if x is not c]
        else:
            ev.add_callback(c, o == 'append')
            S.check('a known one is reported', (len(warned) > nw) == (c in want))
            if c not in want:
                want = want + [c] if o == 'append' else [c] + want
        S.check('list of callbacks', [ev.callbacks.get(j) for j in range(ev.callbacks.size())] == want)


# ---------------------------------------------------------------- barriers
def make_barrier(op):
    def f(S):
        th = S.int('threshold', 0, cap=4)
        b = UVMBarrier('b', th)
        n = S.int('n', 0, cap=4)                  # processes that wait, one of them for real
        opened = S.bool('open')
        auto = S.bool('auto')
        b.set_auto_reset(1 if auto else 0)
        done, new = [], []

        async def waiter(l):
            await b.wait_for()
            l.append(1)

        async def main():
            import cocotb
            if opened:
                S.require(S.and_(n == 0, S.not_(auto)))
                b.at_threshold = 1
            else:
                S.require(S.or_(n == 0, n < th))
                if n > 0:
                    cocotb.start_soon(waiter(done))
                    await Timer(0)
                    S.check('it waits', S.and_(not done, b.get_num_waiters() == 1))
                    b.num_waiters = b.m_event.num_waiters = n
            if op == 'wait':
                cocotb.start_soon(waiter(new))
                later = []
                together = S.bool('together')     # another one comes in the same time step
                if together:
                    cocotb.start_soon(waiter(later))
                await Timer(0)
                if together:
                    now = S.or_(opened, S.and_(n + 1 >= th, S.or_(S.not_(auto), th <= 1)), S.and_(n + 1 < th, n + 2 >= th))
                    S.check('the second one of a time step', S.iff(len(later) == 1, now))
                    return
                if opened:
                    S.check('an open barrier lets it pass', S.and_(len(new) == 1, b.get_num_waiters() == 0))
                    cocotb.start_soon(waiter(new))
                    await Timer(0)
                    S.check('it stays open', len(new) == 2)
                elif n + 1 >= th:
                    S.check('the last one and the others go on', S.and_(len(new) == 1, S.implies(n > 0, len(done) == 1)))
                    S.check('none is left', b.get_num_waiters() == 0)
                    cocotb.start_soon(waiter(later))
                    await Timer(0)
                    S.check('open afterwards exactly without auto-reset', S.iff(len(later) == 1, S.or_(S.not_(auto), th <= 1)))
                else:
                    S.check('all wait', S.and_(not new, not done, b.get_num_waiters() == n + 1))
            elif op == 'threshold':
                t2 = S.int('t2', 0)
                b.set_threshold(t2)
                await Timer(0)
                S.check('new threshold', b.get_threshold() == t2)
                S.check('released exactly if they are enough', S.implies(n > 0, S.iff(len(done) == 1, t2 <= n)))
                S.check('number that waits', b.get_num_waiters() == S.ite(t2 <= n, 0, n))
            elif op == 'reset':
                w = S.choice('wakeup', [0, 1])
                b.reset(w)
                await Timer(0)
                S.check('reset releases if it is to', S.implies(n > 0, (len(done) == 1) == bool(w)))
                S.check('none is left', b.get_num_waiters() == 0)
                cocotb.start_soon(waiter(new))
                await Timer(0)
                S.check('closed again', S.iff(len(new) == 1, th <= 1))
                if not new:
                    b.reset(1)
                    await Timer(0)
                    S.check('later waiters are not lost', S.and_(len(new) == 1, S.implies(n > 0, (len(done) == 1) == bool(w))))
            elif op == 'auto':
                b.set_auto_reset(S.choice('value', [0, 1]))
                await Timer(0)
                S.check('nobody is released', S.and_(not done, b.get_num_waiters() == n))
                cocotb.start_soon(waiter(new))
                await Timer(0)
                S.check('closed', S.iff(len(new) == 1, n + 1 >= th))
            elif op == 'cancel':
                b.cancel()
                await Timer(0)
                S.check('one fewer is counted', b.get_num_waiters() == S.ite(n > 0, n - 1, 0))
                S.check('nobody is released', not done)
        S.simulate(main())
    f.__name__ = f.__qualname__ = 'barrier_' + op
    return f


for _k, _fn in [('wait', 'wait_for'), ('threshold', 'set_threshold'), ('reset', 'reset'), ('auto', 'set_auto_reset'), ('cancel', 'cancel')]:
    unit('UVMBarrier.' + _fn, 'UVMBarrier.m_trigger')(make_barrier(_k))


# ---------------------------------------------------------------- histories
@search(runs=3000, weight=2)
def histories(S):
    """several waiters and drivers; each wait against the log of what happened after it"""
    ev = UVMEventPool('p').get('e') if S.choice('pool', [0, 1]) else UVMEvent('e')
    cbs = [Veto() for _ in range(S.int('ncb', 0, 2))]
    for c in cbs:
        ev.add_callback(c)
    from vc.minisim import SIM
    log, waits = [], []
    num = [0]

    def do(o, k):
        if o == 'trigger':
            ev.trigger(k)
            num[0] = 0
        elif o == 'vetoed':
            if not cbs:
                return
            c = cbs[k % len(cbs)]
            c.veto = True
            ev.trigger(k)
            c.veto = False
            return
        elif o in ('reset', 'wakeup'):
            ev.reset(o == 'wakeup')
            num[0] = 0
        elif o == 'cancel':
            ev.cancel()
            num[0] = max(0, num[0] - 1)
        log.append((SIM.now, o, k))
        S.check('number of waiters', ev.get_num_waiters() == num[0])
        last = [x for x in log if x[1] in ('trigger', 'reset', 'wakeup')]
        S.check('on exactly after a trigger', ev.is_on() == bool(last and last[-1][1] == 'trigger') == (not ev.is_off()))
        trg = [x for x in log if x[1] == 'trigger']
        S.check('data of the last trigger', ev.get_trigger_data() == (trg[-1][2] if trg else None))

    async def driver(d):
        for k in range(S.int('len%d' % d, 0, 4)):
            dt = S.int('dt%d_%d' % (d, k), 0, 2)
            if dt:
                await Timer(dt)
            do(S.choice('op%d_%d' % (d, k), ['trigger', 'trigger', 'vetoed', 'reset', 'wakeup', 'cancel']), 10 * d + k)

    async def waiter(w):
        for k in range(S.int('wl%d' % w, 1, 3)):
            dt = S.int('wt%d_%d' % (w, k), 0, 2)
            if dt:
                await Timer(dt)
            kind = S.choice('wk%d_%d' % (w, k), WAITS + ['data'])
            r = [kind, len(log), SIM.now, None, None]
            waits.append(r)
            last = [x for x in log if x[1] in ('trigger', 'reset', 'wakeup')]
            trig = bool(last and last[-1][1] == 'trigger')
            at_once = {'ptrigger': trig and last[-1][0] == SIM.now, 'on': trig, 'off': not trig}.get(kind, False)
            if not at_once:
                num[0] += 1
            r.append(at_once)
            if kind == 'data':
                got = await ev.wait_trigger_data()
                trg = [x for x in log if x[1] == 'trigger']
                S.check('data for the waiter', got == (trg[-1][2] if trg else None))
            else:
                await wait_of(ev, kind)
            r[3], r[4] = SIM.now, len(log)
    procs = [driver(d) for d in range(S.int('nd', 1, 2))] + [waiter(w) for w in range(S.int('nw', 1, 3))]
    S.shuffle('order', procs)
    S.simulate(*procs)
    for kind, p, t, done, upto, at_once in waits:
        rel = None
        if at_once:
            rel = t
        else:
            for x in log[p:]:
                if kind in ('trigger', 'ptrigger', 'data'):
                    if x[1] in ('trigger', 'wakeup'):
                        rel = x[0]
                        break
                    if x[1] == 'reset':
                        break
                elif kind == 'on' and x[1] == 'trigger' or kind == 'off' and x[1] in ('reset', 'wakeup'):
                    rel = x[0]
                    break
        S.check('wait for %s ends exactly when it should' % kind, done == rel, (t, done, rel, log[p:], log[:p]))


@search(runs=1500)
def barriers(S):
    """rounds of processes at a barrier against a count"""
    b = UVMBarrierPool('p').get('b') if S.choice('pool', [0, 1]) else UVMBarrier('b')
    th = [S.int('th', 1, 4)]
    b.set_threshold(th[0])
    auto = S.choice('auto', [1, 1, 0])
    b.set_auto_reset(auto)
    inside, opened = [], [False]
    out = {}

    def release():
        for i in inside:
            out[i] = 'released'
        del inside[:]
    passed = {}

    async def proc(p):
        for k in range(S.int('n%d' % p, 1, 3)):
            dt = S.int('dt%d_%d' % (p, k), 0, 2)
            if dt:
                await Timer(dt)
            me = (p, k)
            if not opened[0]:
                inside.append(me)
                if len(inside) >= th[0]:
                    release()
                    opened[0] = not auto
            else:
                out[me] = 'released'
            await b.wait_for()
            passed[me] = 1
            S.check('goes on only when released', out.get(me) == 'released')

    async def control():
        for k in range(S.int('nc', 0, 2)):
            await Timer(S.int('ct%d' % k, 1, 3))
            o = S.choice('co%d' % k, ['threshold', 'reset', 'wakeup'])
            if o == 'threshold':
                th[0] = S.int('th%d' % k, 1, 4)
                b.set_threshold(th[0])
                if th[0] <= len(inside):
                    release()
                    opened[0] = False
            else:
                b.reset(int(o == 'wakeup'))
                if o == 'wakeup':
                    release()
                else:
                    for i in inside:
                        out[i] = 'lost'
                    del inside[:]
                opened[0] = False
            S.check('number that waits', b.get_num_waiters() == len(inside))
    procs = [proc(p) for p in range(S.int('np', 1, 4))] + [control()]
    S.shuffle('order', procs)
    S.simulate(*procs)
    S.check('all that were released went on, the others wait', set(passed) == set(i for i in out if out[i] == 'released'))
    S.check('number that waits', b.get_num_waiters() == len(inside))
