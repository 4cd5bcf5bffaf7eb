"""Contract units.  A unit is one function u(S): it builds an arbitrary pre-state through S,
calls the real code, and states the contract with S.require / S.check.  The same unit runs
  - symbolically (SymS): every obligation is discharged by z3 for all inputs, and
  - concretely (ConS): on the untouched code under plain CPython, for replay of counterexamples
    and as a bounded stand-in search."""
import collections
import random
import traceback


COMMON_ASSUMPTIONS = [
    'Python ints are mathematical integers; float division is modelled as exact below 2^53 and unspecified above',
    'report entry points (uvm_error/warning/info/fatal and uvm_report_*) are replaced by recorders that return normally (fatal: raise)',
    'texts of messages are not specified',
    'attribute access, calls, exceptions and class machinery are executed by CPython itself on proxy objects',
]


class Discard(BaseException):
    pass


class Failure(Exception):
    pass


class Unit:
    def __init__(self, fn, functions=(), bound=3, runs=200, symbolic=True, concrete=True, timeout=None, trusted=(), search=False, weight=1, limit=None):
        self.limit = limit       # stated bound of a unit that enumerates shapes
        self.weight = weight
        self.fn = fn
        self.name = fn.__name__
        self.functions = list(functions)
        self.bound = bound
        self.runs = runs
        self.symbolic = symbolic
        self.concrete = concrete
        self.timeout = timeout
        self.trusted = list(trusted)
        self.search = search


def unit(*functions, **kw):
    def deco(fn):
        u = Unit(fn, functions, **kw)
        fn.__globals__.setdefault('UNITS', []).append(u)
        return fn
    return deco


def search(**kw):
    """a bounded stand-in: concrete only"""
    return unit(symbolic=False, search=True, **kw)


class Reports(list):
    tainted = False

    def n(self):
        return list.__len__(self)

    def taint(self):
        self.tainted = True

    def known(self):
        if self.tainted:
            from .engine import Unsupported
            raise Unsupported('reports issued in a loop')

    def __len__(self):
        self.known()
        return list.__len__(self)

    def __iter__(self):
        self.known()
        return list.__iter__(self)

    def __getitem__(self, i):
        self.known()
        return list.__getitem__(self, i)

    def __eq__(self, o):
        self.known()
        return list.__eq__(self, o)

    def __bool__(self):
        self.known()
        return list.__len__(self) > 0

    def sev(self, *names):
        return [r for r in self if r[0] in names]

    @property
    def errors(self):
        return self.sev('error', 'fatal')

    @property
    def warnings(self):
        return self.sev('warning')


class FatalReport(Exception):
    """raised by the stand-in for a fatal report (the real one ends the simulation)"""


class Base:
    symbolic = False
    bounded = None

    def stub(self, obj, attr, val):
        """replace obj.attr for the duration of the unit (callee contract)"""
        had = attr in vars(obj)
        old = vars(obj).get(attr)
        setattr(obj, attr, val)
        self.undo.append((obj, attr, had, old))

    def cleanup(self):
        for obj, attr, had, old in reversed(self.undo):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self.undo = []

    def new(self, cls, **attrs):
        """instance without running __init__: the unit states the whole state"""
        o = object.__new__(cls)
        BARE[id(o)] = o
        for k, v in attrs.items():
            o.__dict__[k] = v
        return o

    def run(self, coro):
        """drive a coroutine whose awaits are all stubbed"""
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        coro.close()
        self.blocked()

    def blocked(self):
        raise Failure('coroutine blocked')

    @property
    def sim(self):
        """fresh scheduler"""
        from . import minisim
        if self.__dict__.get('_sim') is None:
            minisim.SIM.reset()
            self._sim = minisim.SIM
        return self._sim

    def simulate(self, *coros, until=None, max_steps=200000):
        sim = self.sim
        ts = [sim.start(c) for c in coros]
        self.sim_end = sim.run(max_steps=max_steps, until=until)
        return ts

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False


class ConS(Base):
    """concrete mode"""

    def __init__(self, rng, given=None, size=4):
        self.rng = rng
        self.given = given or {}
        self.vals = {}
        self.fails = []
        self.reports = Reports()
        self.undo = []
        self.size = size
        self.checks = 0

    def _v(self, name, gen):
        if name in self.vals:
            return self.vals[name]
        v = self.given[name] if name in self.given else gen()
        self.vals[name] = v
        return v

    def int(self, name, lo=None, hi=None, cap=None):
        """cap: sampling limit of the concrete mode only"""
        r = self.rng

        def gen():
            hi_ = hi
            if cap is not None and (hi is None or hi > cap):
                hi_ = cap
            return rnd(lo, hi_)

        def rnd(lo, hi):
            l = lo if lo is not None else (-40 if hi is None or hi > -40 else hi - 40)
            h = hi if hi is not None else max(l, 0) + r.choice([1, 3, 8, 40, 300, 1 << 20, 1 << 70])
            if h < l:
                raise Discard()
            x = r.random()
            if x < 0.2:
                return l
            if x < 0.3:
                return h
            if x < 0.7:
                return r.randint(l, min(h, l + 8))
            return r.randint(l, h)
        v = self._v(name, gen)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Discard()
        return v

    def bits(self, name, width=None):
        r = self.rng
        w = width if width is not None else r.choice([1, 4, 8, 33, 70])

        def gen():
            x = r.random()
            if w <= 0:
                return 0
            if x < 0.15:
                return 0
            if x < 0.3:
                return (1 << w) - 1
            if x < 0.4:
                return 1 << r.randrange(w)
            return r.getrandbits(w)
        v = self._v(name, gen)
        if width is not None:
            v &= (1 << width) - 1
        return v

    def bool(self, name):
        return self._v(name, lambda: self.rng.random() < 0.5)

    def choice(self, name, opts):
        i = self._v(name, lambda: self.rng.randrange(len(opts)))
        if not 0 <= i < len(opts):
            raise Discard()
        return opts[i]

    def str(self, name, alphabet='ab.', maxlen=4, minlen=0):
        def gen():
            return ''.join(self.rng.choice(alphabet) for _ in range(self.rng.randint(minlen, maxlen)))
        v = self._v(name, gen)
        return v

    def list(self, name, make, maxn=None, minn=0, post=None, pure=False):
        n = self._v(name + '.len', lambda: self.rng.randint(minn, maxn if maxn is not None else self.size))
        if n > 40:
            raise Discard()
        return [make(ConElem(self, '%s[%d]' % (name, i), i)) for i in range(n)]

    def map(self, name, keys, make, sample=None):
        """dict with arbitrary content; sample: keys the concrete mode draws from"""
        r = self.rng
        dom = sample or (['a', 'b', 'c', 'ab', ''] if keys == 'str' else [0, 1, 2, 3, 7])
        ks = self._v(name, lambda: [k for k in dom if r.random() < 0.5])
        return CMap((k, make(ConElem(self, '%s{%s}' % (name, k), i))) for i, k in enumerate(ks))

    def has(self, m, k):
        return k in m.base

    def at(self, m, k):
        return m.base[k]

    def require(self, c):
        if not c:
            raise Discard()

    def check(self, label, c, info=None):
        self.checks += 1
        if not c:
            self.fails.append((label, '' if info is None else str(info)))

    def forall(self, label, lst, fn):
        for i, e in enumerate(lst):
            self.check(label, fn(i, e), 'index %d' % i)

    def forall_range(self, label, n, fn):
        for i in range(n):
            self.check(label, fn(i), 'index %d' % i)

    def assume_forall(self, lst, fn):
        for i, e in enumerate(lst):
            self.require(fn(i, e))

    def implies(self, a, b):
        return (not a) or bool(b() if callable(b) else b)

    def and_(self, *x): return all(x)
    def or_(self, *x): return any(x)
    def not_(self, x): return not x
    def ite(self, c, a, b): return a if c else b
    def iff(self, a, b): return bool(a) == bool(b)
    def bit(self, v, i): return (v >> i) & 1 == 1 if i >= 0 else False

    def bitwise(self, width, fn):
        """the integer whose bit i (0<=i<width) is fn(i)"""
        return sum(1 << i for i in range(width) if fn(i))

    def pick(self, name, lo, hi):
        """an arbitrary index in [lo,hi) (universal)"""
        return self.int(name, lo, hi - 1)

    def template(self, fn):
        pass

    def empty(self):
        """an empty list to be filled in loops"""
        return []

    def progress(self, new):
        pass

    def after_first(self, v):
        pass

    def grows(self, per, new):
        pass

    def root(self, name, o):
        pass

    def long_loops(self, forks=2):
        pass

    def lists(self):
        pass

    def fold_or(self, lst, fn):
        r = 0
        for e in lst:
            r |= fn(e)
        return r

    def snap(self, lst):
        """the elements a list has now"""
        return list(lst)

    def packed(self, lst, w, fn=lambda x: x):
        """the integer whose w-bit digits are the elements, first lowest"""
        r = 0
        for i, e in enumerate(lst):
            r |= (fn(e) & ((1 << w) - 1)) << (w * i)
        return r

    def exists(self, lst, fn, upto=None):
        return any(fn(e) for e in lst[:upto])

    def placed(self, lst, lo, size, val):
        r = 0
        for i in range(len(lst)):
            for j in range(i):
                self.require(lo(lst[i]) + size(lst[i]) <= lo(lst[j]) or lo(lst[j]) + size(lst[j]) <= lo(lst[i]))
            r |= (val(lst[i]) & ((1 << size(lst[i])) - 1)) << lo(lst[i])
        return r

    def count(self, lst, fn):
        return sum(1 for e in lst if fn(e))

    def fold(self, lst, fn, init):
        for e in lst:
            init = fn(e, init)
        return init

    def filtered(self, lst, pred, new):
        return [new(i) for i, e in enumerate(lst) if pred(e)]

    def mapped(self, lst, fn):
        return [fn(e) for e in lst]

    def first_max(self, lst, key):
        m = 0
        for i in range(1, len(lst)):
            if key(lst[i]) > key(lst[m]):
                m = i
        return m

    def last_match(self, lst, pred, val):
        return max([i for i, e in enumerate(lst) if pred(e)], default=-1)

    def scan(self, lst, fn, both=True, at=None):
        pass

    def fact(self, name, fn):
        pass

    def shuffle(self, name, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self.int('%s.%d' % (name, i), 0, i)
            lst[i], lst[j] = lst[j], lst[i]

    def cover(self, name):
        pass

    def fork(self, c):
        return bool(c)

    def length(self, l):
        return len(l)


class CMap(dict):
    def __init__(self, it):
        dict.__init__(self, it)
        self.base = dict(self)


class ConElem:
    def __init__(self, S, pre, i):
        self.S, self.pre, self.idx = S, pre, i

    def int(self, n, *a, **k): return self.S.int(self.pre + '.' + n, *a, **k)
    def bits(self, n, *a, **k): return self.S.bits(self.pre + '.' + n, *a, **k)
    def bool(self, n): return self.S.bool(self.pre + '.' + n)
    def choice(self, n, o): return self.S.choice(self.pre + '.' + n, o)
    def str(self, n, *a, **k): return self.S.str(self.pre + '.' + n, *a, **k)
    def new(self, cls, **a): return self.S.new(cls, **a)


def harness_error(e):
    """the unit itself (or one of its stand-in objects) lacks an attribute: nothing is said about the code"""
    o = getattr(e, 'obj', None)
    t = o if isinstance(o, type) else type(o)
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and '/props/' in tb.tb_frame.f_code.co_filename:
        return True
    return o is not None and t.__module__.startswith(('props', 'vc.')) and not constructed(o, t)


BARE = {}


def constructed(o, t):
    """a user's object: of a subclass of a class of the library, whose constructor has run, so that what the library keeps in
    its objects is there"""
    if t is o or id(o) in BARE or not any(c.__module__.startswith('uvm.') for c in t.__mro__):
        return False
    own = [c for c in t.__mro__ if c.__module__.startswith(('props', 'vc.'))]
    return all('__new__' not in c.__dict__ and '__getattr__' not in c.__dict__ for c in own) and \
        all('__init__' in c.__dict__['__init__'].__code__.co_names for c in own if '__init__' in c.__dict__)


def run_concrete(u, rng, given=None, size=4):
    """-> (status, S); status in ok/discard/fail"""
    S = ConS(rng, given, size)
    BARE.clear()
    env = ENV
    if env is not None:
        env.enter(S)
    try:
        u.fn(S)
    except Discard:
        return 'discard', S
    except (MemoryError, OverflowError):
        return 'discard', S
    except AttributeError as e:
        if harness_error(e):
            S.fails = []
            S.harness = ''.join(traceback.format_exception(e))[-800:]
            return 'harness', S
        S.fails.append(('no exception', ''.join(traceback.format_exception(e))[-1500:]))
    except RecursionError as e:
        S.fails.append(('no exception', 'RecursionError ' + str(e)))
    except Exception as e:
        S.fails.append(('no exception', ''.join(traceback.format_exception(e))[-1500:]))
    finally:
        S.cleanup()
        if env is not None:
            env.leave(S)
    return ('fail' if S.fails else 'ok'), S


ENV = None


class Env:
    """report functions and cocotb triggers of the verified process"""
    NAMES = ('uvm_report_error', 'uvm_report_warning', 'uvm_report_info', 'uvm_report_fatal',
             'uvm_error', 'uvm_warning', 'uvm_info', 'uvm_fatal', 'uvm_report_enabled')

    def __init__(self):
        self.S = None
        self.orig = []

    def patch(self, methods=False):
        """replace the global report entry points in every loaded uvm module by recorders"""
        import sys
        from uvm.base import uvm_globals as g
        from uvm.macros import uvm_message_defines as m
        reps = {}

        def rec(sev, fatal=False):
            def f(id_='', msg='', *a, **k):
                if self.S is not None:
                    self.S.reports.append((sev, id_, msg))
                if fatal:
                    raise FatalReport('%s: %s' % (id_, msg))
            f.vc_stub = True
            return f
        for mod in (g, m):
            for sev in ('error', 'warning', 'info', 'fatal'):
                for pre in ('uvm_report_', 'uvm_'):
                    fn = mod.__dict__.get(pre + sev)
                    if fn is not None:
                        reps[id(fn)] = rec(sev, sev == 'fatal')
        en = g.__dict__.get('uvm_report_enabled')
        if en is not None:
            def enabled(*a, **k):
                return getattr(self.S, 'report_enabled', False)
            reps[id(en)] = enabled
        dbg = g.__dict__.get('uvm_debug')
        if dbg is not None:
            reps[id(dbg)] = lambda *a, **k: None
        self.keep = []
        for name, mod in list(sys.modules.items()):
            if not (name == 'uvm' or name.startswith('uvm.')) or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                r = reps.get(id(v))
                if r is not None and callable(v):
                    self.keep.append((mod, k, v))
                    setattr(mod, k, r)
        from uvm.base.uvm_report_object import UVMReportObject as R

        def method(f):
            def m(o, *a, **k):
                return f(*a, **k)
            m.vc_stub = True
            return m
        for sev in ('error', 'warning', 'info', 'fatal') if methods else ():
            n = 'uvm_report_' + sev
            if n in vars(R):
                self.keep.append((R, n, vars(R)[n]))
                setattr(R, n, method(rec(sev, sev == 'fatal')))

        if methods == 'all':
            self.keep.append((R, 'uvm_report', vars(R)['uvm_report']))

            def uvm_report(o, sev, id_, msg, *a, **k):
                if self.S is not None:
                    self.S.reports.append((sev, id_, msg) + a)
            uvm_report.vc_stub = True
            R.uvm_report = uvm_report

    def unpatch(self):
        for mod, k, v in self.keep:
            setattr(mod, k, v)
        self.keep = []

    def snapshot(self):
        """library state reachable from class attributes and module globals (counters, registries,
        singletons and what hangs off them): put back after every path / case"""
        import sys
        import types
        from collections import deque
        snap, objs, clss = [], [], []
        seen = set()
        todo = []

        def uvm_obj(o):
            return type(o).__module__.startswith('uvm') and isinstance(getattr(o, '__dict__', None), dict)

        def visit(v):
            if isinstance(v, (list, dict, deque, set)) or uvm_obj(v):
                if id(v) not in seen and not isinstance(v, (type, types.FunctionType, types.ModuleType)):
                    seen.add(id(v))
                    todo.append(v)
        for name, mod in list(sys.modules.items()):
            if not (name == 'uvm' or name.startswith('uvm.')) or mod is None:
                continue
            for g, c in list(vars(mod).items()):
                if g.startswith('__'):
                    continue
                if not isinstance(c, type):
                    if not isinstance(c, types.ModuleType):
                        visit(c)
                    continue
                if id(c) in seen or not c.__module__.startswith('uvm'):
                    continue
                seen.add(id(c))
                clss.append((c, set(vars(c))))
                for k, v in list(vars(c).items()):
                    if k.startswith('__') or isinstance(v, (types.FunctionType, staticmethod, classmethod, property)):
                        continue
                    snap.append((c, k, v))
                    visit(v)
        while todo:
            v = todo.pop()
            if isinstance(v, (list, deque, set)):
                objs.append((v, list(v)))
                for x in list(v):
                    visit(x)
            elif isinstance(v, dict):
                its = list(dict.items(v))
                objs.append((v, its))
                for k, x in its:
                    visit(k)
                    visit(x)
            if uvm_obj(v):
                d = v.__dict__
                objs.append((d, list(dict.items(d))))
                for x in list(d.values()):
                    visit(x)
        self.snap, self.objs, self.clss = snap, objs, clss

    def restore(self):
        for c, keys in self.clss:
            if len(vars(c)) != len(keys):
                for k in [k for k in vars(c) if k not in keys and not k.startswith('__')]:
                    delattr(c, k)
        for c, k, v in self.snap:
            if c.__dict__.get(k) is not v:
                setattr(c, k, v)
        for v, cont in self.objs:
            if isinstance(v, dict):
                if getattr(v, 'entries', None) is not None:
                    v.entries = None
                    dict.clear(v)
                    dict.update(v, dict(cont))
                elif dict.__len__(v) != len(cont) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(dict.items(v), cont)):
                    if isinstance(v, collections.OrderedDict):
                        collections.OrderedDict.clear(v)
                        for k, x in cont:
                            collections.OrderedDict.__setitem__(v, k, x)
                    else:
                        dict.clear(v)
                        dict.update(v, dict(cont))
            elif isinstance(v, set):
                if v != set(cont):
                    v.clear()
                    v.update(cont)
            elif len(v) != len(cont) or any(a is not b for a, b in zip(v, cont)):
                if isinstance(v, list):
                    list.__setitem__(v, slice(None), cont)
                else:
                    v.clear()
                    v.extend(cont)

    def enter(self, S):
        self.S = S
        if not hasattr(self, 'snap'):
            self.snapshot()

    def leave(self, S):
        self.S = None
        self.restore()
