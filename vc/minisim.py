"""A small cooperative scheduler standing in for cocotb's (which needs an HDL simulator): FIFO ready
queue, virtual integer time (fs), read-write phase when a time step is quiet.  Installed over
cocotb.triggers / cocotb.start_soon before uvm is imported."""
import heapq
from collections import deque

UNITS = {'fs': 1, 'ps': 10**3, 'ns': 10**6, 'us': 10**9, 'ms': 10**12, 's': 10**15, 'step': 1, 'sec': 10**15}


class Stuck(Exception):
    pass


class Sim:
    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 0
        self.ready = deque()
        self.heap = []
        self.rw = []
        self.ro = []
        self.next_step = []
        self.seq = 0
        self.tasks = []
        self.errors = []
        self.cur = None
        self.running = False
        self.steps = 0

    def start(self, coro, name=''):
        if isinstance(coro, Task):
            return coro
        t = Task(coro, name)
        self.tasks.append(t)
        self.ready.append((t, None))
        return t

    def at(self, dt, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + dt, self.seq, fn))

    def step(self, t, v):
        if t.finished:
            return
        old, self.cur = self.cur, t
        try:
            t.waiting = None
            trig = t.coro.send(v) if not t.exc_in else t.coro.throw(t.exc_in)
            t.exc_in = None
        except StopIteration as e:
            t.finish(e.value)
            return
        except BaseException as e:
            t.fail(e)
            return
        finally:
            self.cur = old
        if t.finished:
            return
        if not hasattr(trig, 'prime'):
            raise Stuck('task awaits something that is not a trigger: %r' % (trig,))
        t.waiting = trig
        trig.prime(lambda val, t=t, trig=trig: self.wake(t, trig, val))

    def wake(self, t, trig, val):
        if t.waiting is trig and not t.finished:
            t.waiting = None
            self.ready.append((t, val))

    def run(self, max_steps=200000, until=None, stop=None):
        """run to quiescence; -> 'idle' | 'time' | 'stop'"""
        self.running = True
        try:
            n = 0
            while True:
                while self.ready:
                    t, v = self.ready.popleft()
                    self.step(t, v)
                    n += 1
                    self.steps = n
                    if self.errors:
                        raise self.errors.pop(0)
                    if n > max_steps:
                        raise Stuck('no quiescence after %d steps (time %d)' % (max_steps, self.now))
                    if stop is not None and stop():
                        return 'stop'
                if self.rw:
                    l, self.rw = self.rw, []
                    for f in l:
                        f()
                    continue
                if self.ro:
                    l, self.ro = self.ro, []
                    for f in l:
                        f()
                    continue
                if not self.heap:
                    if self.next_step:
                        l, self.next_step = self.next_step, []
                        self.now += 1
                        for f in l:
                            f()
                        continue
                    return 'idle'
                t0 = self.heap[0][0]
                if until is not None and t0 > until:
                    self.now = until
                    return 'time'
                self.now = t0
                l, self.next_step = self.next_step, []
                for f in l:
                    f()
                while self.heap and self.heap[0][0] == t0:
                    heapq.heappop(self.heap)[2]()
        finally:
            self.running = False


SIM = Sim()


class Trig:
    def __await__(self):
        v = yield self
        return v

    def prime(self, cb):
        raise NotImplementedError

    def unprime(self):
        pass


class NullTrigger(Trig):
    def __init__(self, name=''):
        pass

    def prime(self, cb):
        # one pass through the ready queue
        SIM.ready.append((_Call(lambda: cb(self)), None))


class _Call:
    """pseudo task in the ready queue"""
    finished = False
    exc_in = None
    waiting = None

    def __init__(self, fn):
        self.fn = fn
        self.coro = self

    def send(self, v):
        self.fn()
        raise StopIteration

    def finish(self, v):
        pass

    def fail(self, e):
        raise e


class Timer(Trig):
    def __init__(self, time=None, units='step', unit=None, **k):
        if time is None:
            time = k.get('time_ps', 0)
        u = (unit or units or 'step').lower()
        self.dt = int(time * UNITS[u])
        if self.dt < 0:
            raise ValueError('negative Timer')

    def prime(self, cb):
        SIM.at(self.dt, lambda: cb(self))


class ReadWrite(Trig):
    def prime(self, cb):
        SIM.rw.append(lambda: cb(self))


class ReadOnly(Trig):
    def prime(self, cb):
        SIM.ro.append(lambda: cb(self))


class NextTimeStep(Trig):
    def prime(self, cb):
        SIM.next_step.append(lambda: cb(self))


class Event:
    def __init__(self, name=None):
        self.name = name
        self.waiters = []
        self.fired = False
        self.data = None

    def set(self, data=None):
        self.fired = True
        self.data = data
        l, self.waiters = self.waiters, []
        for w, cb in l:
            cb(w)

    def wait(self):
        if self.fired:
            return NullTrigger()
        return _EvWait(self)

    def clear(self):
        self.fired = False

    def is_set(self):
        return self.fired


class _EvWait(Trig):
    def __init__(self, ev):
        self.ev = ev

    def prime(self, cb):
        self.ev.waiters.append((self, cb))


class Lock:
    def __init__(self, name=None):
        self.name, self._locked, self.q = name, False, deque()

    @property
    def locked(self):
        return self._locked

    def acquire(self):
        return _Acq(self)

    def release(self):
        if not self._locked:
            raise RuntimeError('release of an unlocked lock')
        if self.q:
            w, cb = self.q.popleft()
            cb(w)
        else:
            self._locked = False

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class _Acq(Trig):
    def __init__(self, l):
        self.l = l

    def prime(self, cb):
        if not self.l._locked:
            self.l._locked = True
            SIM.ready.append((_Call(lambda: cb(self)), None))
        else:
            self.l.q.append((self, cb))


def trigger_of(x):
    if isinstance(x, Task):
        return Join(x)
    if hasattr(x, 'prime'):
        return x
    if hasattr(x, 'send'):
        return Join(SIM.start(x))
    raise TypeError('not a trigger: %r' % (x,))


class Combine(Trig):
    def __init__(self, *ts):
        self.ts = [trigger_of(t) for t in ts]

    def prime(self, cb):
        left = [len(self.ts)]
        if not self.ts:
            SIM.ready.append((_Call(lambda: cb(self)), None))
            return

        def one(v):
            left[0] -= 1
            if left[0] == 0:
                cb(self)
        for t in self.ts:
            t.prime(one)


class First(Trig):
    def __init__(self, *ts):
        self.ts = [trigger_of(t) for t in ts]
        if not self.ts:
            raise ValueError('First() of nothing')

    def prime(self, cb):
        done = [False]

        def one(v):
            if not done[0]:
                done[0] = True
                cb(v)
        for t in self.ts:
            t.prime(one)


class Join(Trig):
    def __init__(self, t):
        self.t = t

    def prime(self, cb):
        self.t.joined = True
        if self.t.finished:
            SIM.ready.append((_Call(lambda: cb(self.t.value)), None))
        else:
            self.t.cbs.append(cb)

    @property
    def retval(self):
        return self.t.value


class Task(Trig):
    def __init__(self, coro, name=''):
        if not hasattr(coro, 'send'):
            raise TypeError('start_soon() of %r' % (coro,))
        self.coro, self.name = coro, name
        self.finished = False
        self.killed = False
        self.value = None
        self.cbs = []
        self.waiting = None
        self.exc_in = None
        self.error = None

    def prime(self, cb):
        Join(self).prime(cb)

    def join(self):
        return Join(self)

    def done(self):
        return self.finished

    @property
    def _finished(self):
        return self.finished

    def result(self):
        if self.error is not None:
            raise self.error
        return self.value

    def finish(self, v):
        self.finished = True
        self.value = v
        l, self.cbs = self.cbs, []
        for cb in l:
            cb(v)

    def fail(self, e):
        self.finished = True
        self.error = e
        SIM.errors.append(e)

    def kill(self):
        if self.finished:
            return
        self.killed = True
        if SIM.cur is self:
            self.finish(None)
            return
        self.waiting = None
        try:
            self.coro.close()
        except RuntimeError:
            pass
        self.finish(None)
    cancel = kill


def get_sim_time(units='step', unit=None):
    u = UNITS[(unit or units).lower()]
    return SIM.now if u == 1 else (SIM.now // u if SIM.now % u == 0 else SIM.now / u)


class _Simulator:
    @staticmethod
    def is_running():
        return True

    @staticmethod
    def get_simulator_product():
        return 'minisim'

    @staticmethod
    def get_simulator_version():
        return '1'


def install():
    import cocotb
    import cocotb.triggers as T
    import cocotb.utils as U
    for c in (Timer, Event, NullTrigger, ReadWrite, ReadOnly, NextTimeStep, Combine, First, Lock, Join):
        setattr(T, c.__name__, c)
    cocotb.start_soon = SIM.start
    cocotb.fork = SIM.start
    cocotb.start = SIM.start
    U.get_sim_time = get_sim_time
    U.simulator = _Simulator()
    cocotb.SIM_NAME, cocotb.SIM_VERSION = 'minisim', '1'
    if not getattr(cocotb, 'plusargs', None):
        cocotb.plusargs = {}
    if getattr(cocotb, 'argv', None) is None:
        cocotb.argv = []
