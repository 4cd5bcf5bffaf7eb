"""Path-enumerating verification-condition engine for Python.

The code under contract is the real source of /repo, loaded through vc.loader.
Symbolic inputs are proxy objects; every data-dependent branch forks the path,
every path is enumerated by deterministic re-execution, and every obligation
becomes one validity query to z3:   path-condition => obligation.
No input, integer width or container length is bounded unless S.bounded is set.
"""
import sys
import time
import z3

z3.set_param('smt.random_seed', 1)

INT = z3.IntSort()
BOOL = z3.BoolSort()


class PathEnd(BaseException):
    """This path is finished (cut at a loop head, infeasible, or fully checked)."""


class Unsupported(BaseException):
    """The engine cannot represent this operation: the unit is undecided."""


class OutOfBudget(BaseException):
    pass


C = None   # the current Ctx


class Obl:
    __slots__ = ('name', 'n', 'ok', 'fail', 'unknown', 'model', 'time', 'kind')

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.n = self.ok = self.fail = self.unknown = 0
        self.model = None
        self.time = 0.0


class Ctx:
    def __init__(self, deadline, qtimeout=4000, max_paths=20000):
        self.deadline = deadline
        self.qtimeout = qtimeout
        self.max_paths = max_paths
        self.obls = {}
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.covers = {}
        self.loops = {}        # persistent loop info (per unit)
        self.wcut = set()      # while loops to be cut
        self.no_while_cut = False
        self.forks = 0
        self.bounded = None
        self.functions = set()
        self.restart = False
        self.imprecise = []
        self.active = False

    # ---- path management
    def begin(self, decisions):
        self.decisions = decisions
        self.pos = 0
        self.pc = []
        self.alts = []
        self.n = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.qtimeout)
        self.inputs = []
        self.cut = False
        self.cut_vals = None
        self.ax = []
        self.elem_hooks = []
        self.bases = []
        self.quiet = 0
        self.approx = []
        self.cut_depth = 0

    path_keys = False

    def explore(self, fn):
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths:
                raise OutOfBudget('paths')
            if time.time() > self.deadline:
                raise OutOfBudget('time')
            d = stack.pop()
            self.begin(d)
            try:
                fn()
            except PathEnd:
                pass
            self.paths += 1
            stack.extend(self.alts)
            if self.restart:
                return

    def fresh(self, base):
        k = self.n.get(base, 0)
        self.n[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pc.append(f)
        self.solver.add(f)

    def sat(self, *fs, timeout=None):
        if time.time() > self.deadline:
            raise OutOfBudget('time')
        t = time.time()
        self.queries += 1
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*fs)
        if timeout:
            self.solver.set('timeout', self.qtimeout)
        self.solver_time += time.time() - t
        return r

    def branch(self, cond):
        """decide a symbolic condition; forks the path"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.Not(cond)
        if self.quiet:                # under a quantifier: no fork, only what holds for every element
            if self.sat(neg, timeout=1500) == z3.unsat:
                return True
            if self.sat(cond, timeout=1500) == z3.unsat:
                return False
            raise Unsupported('fork under a quantifier')
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d is None:
                raise RuntimeError('bad decision')
            self.assume(cond if d else neg)
            return d
        rt = self.sat(cond, timeout=1500)
        if rt == z3.unsat:
            d = False
        else:
            rf = self.sat(neg, timeout=1500)
            if rf == z3.unsat:
                d = True
            else:
                d = True
                self.alts.append(self.decisions[:self.pos] + [False])
        self.decisions = self.decisions[:self.pos] + [d]
        self.pos += 1
        self.assume(cond if d else neg)
        return d

    def split(self, n):
        """n-way nondeterministic choice (0..n-1)"""
        if n == 1:
            return 0
        v = z3.Int(self.fresh('split'))
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        self.assume(v == n - 1)
        return n - 1

    def feasible(self):
        return self.sat() != z3.unsat

    # ---- obligations
    def prove(self, name, f, kind='post', with_model=True):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name, kind)
        o.n += 1
        t = time.time()
        if f is True:
            if o.ok == 0 and o.fail == 0 and o.unknown == 0:
                # make sure that the path is not vacuous
                if not self.feasible():
                    o.n -= 1
                    return True
            o.ok += 1
            return True
        if f is False:
            f = z3.BoolVal(False)
        r = self.sat(z3.Not(f))
        if r == z3.unknown:
            r, _ = self.retry(z3.Not(f))
        o.time += time.time() - t
        if r == z3.unsat:
            o.ok += 1
            return True
        if r == z3.sat:
            o.fail += 1
        else:
            o.unknown += 1
        if o.model is None and with_model:
            o.model = self.small_model(z3.Not(f))
        return False

    def retry(self, f):
        s = z3.SolverFor('ALL')
        s.set('timeout', self.qtimeout * 2)
        s.add(*self.pc)
        s.add(f)
        self.queries += 1
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r, s

    def small_model(self, f):
        """a model of pc & f with small inputs if there is one -> dict name->value"""
        for bound in (8, 70, None):
            fs = [f]
            if bound is not None:
                for inp in self.inputs:
                    fs.extend(inp.small(bound))
            s = z3.Solver()
            s.set('timeout', self.qtimeout)
            s.add(*self.pc)
            r = s.check(*fs)
            if r == z3.sat:
                try:
                    m = s.model()
                    return {i.name: i.value(m) for i in self.inputs}
                except (z3.Z3Exception, Unsupported, ValueError, OverflowError):
                    return None
        return None


def raw(x):
    """z3 term of a bool-like"""
    if isinstance(x, SymBool):
        return x.z
    if x is True or x is False:
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def is_sym(x):
    return type(x) in (SymBool, SymInt, BitInt, SymStr, Poison)


class Proxy:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported('hash of %s' % type(self).__name__)

    def __reduce__(self):
        raise Unsupported('pickle')


class Poison(Proxy):
    """a variable whose value the engine does not know"""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def _u(self, *a, **k):
        raise Unsupported('use of unknown value ' + self.why)

    def __getattr__(self, n):
        raise Unsupported('use of unknown value ' + self.why)


for _n in ('add radd sub rsub mul rmul and rand or ror xor rxor eq ne lt le gt ge bool len iter '
           'getitem setitem call contains lshift rshift invert neg int index str format').split():
    setattr(Poison, '__%s__' % _n, Poison._u)


class SymBool(Proxy):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return C.branch(self.z)

    def _i(self):
        return SymInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.And(self.z, raw(o)))
        if o == 0 and isinstance(o, int):
            return 0
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Or(self.z, raw(o)))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.z, raw(o)))
        raise Unsupported('bool xor')
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.z == raw(o))
        if isinstance(o, int):
            return self._i() == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Proxy.__hash__

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return (1 if self else 0) << o
    def __rshift__(self, o): return (1 if self else 0) >> o
    def __rlshift__(self, o): return o << (1 if self else 0)
    def __rrshift__(self, o): return o >> (1 if self else 0)
    def __neg__(self): return -self._i()
    def __index__(self): return 1 if self else 0
    def __invert__(self): return ~(1 if self else 0)
    def __str__(self): return '<sym>'
    def __format__(self, s): return '<sym>'
    __repr__ = __str__


def mkbool(z):
    if isinstance(z, bool):
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def not_(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    return not x


def and_(*xs):
    return mkbool(z3.And(*[raw(x) for x in xs])) if any(is_sym(x) for x in xs) else all(xs)


def or_(*xs):
    return mkbool(z3.Or(*[raw(x) for x in xs])) if any(is_sym(x) for x in xs) else any(xs)


def zint(x):
    """z3 Int term or None"""
    t = type(x)
    if t is SymInt:
        return x.z
    if t is bool or t is int:
        return z3.IntVal(int(x))
    if t is SymBool:
        return x._i().z
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, int) and t is not BitInt:
        return z3.IntVal(int(x))
    return None


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


class SymInt(Proxy):
    """unbounded mathematical integer (Python int)"""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return C.branch(self.z != 0)

    def _cmp(self, o, f):
        if isinstance(o, float) and type(o) is float:
            if o == int(o):
                o = int(o)
            else:
                raise Unsupported('float compare')
        z = zint(o)
        if z is None:
            return NotImplemented
        return mkbool(f(self.z, z))

    def __eq__(self, o):
        if type(o) is BitInt:
            return o == self
        z = zint(o)
        if z is None:
            if type(o) is float:
                return self._cmp(o, lambda a, b: a == b)
            return False
        return mkbool(self.z == z)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Proxy.__hash__

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f):
        z = zint(o)
        if z is None:
            if type(o) is float and o == int(o):
                z = z3.IntVal(int(o))
            else:
                if type(o) in (BitInt, float):
                    raise Unsupported('arith SymInt/%s' % type(o).__name__)
                return NotImplemented
        return mkint(f(self.z, z))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is list and len(o) == 1:
            from .containers import VList
            return VList(z3.simplify(z3.If(self.z > 0, self.z, z3.IntVal(0))), lambda j: o[0])
        if type(o) in (list, str, tuple):
            raise Unsupported('sequence repeat')
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return mkint(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o): return _fdiv(self, o)
    def __rfloordiv__(self, o): return _fdiv(o, self)
    def __mod__(self, o): return _fmod(self, o)
    def __rmod__(self, o):
        if isinstance(o, str):
            return '<sym>'
        return _fmod(o, self)

    def __divmod__(self, o):
        return (_fdiv(self, o), _fmod(self, o))

    def __truediv__(self, o): return Ratio(self, o)
    def __rtruediv__(self, o): return Ratio(o, self)

    def __pow__(self, o):
        if type(o) is int and 0 <= o < 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('pow')

    def __rpow__(self, o):
        if o == 2:
            return 1 << self
        raise Unsupported('pow')

    def __lshift__(self, o):
        if type(o) is int:
            return self * (1 << o)
        return as_bits(self) << o

    def __rlshift__(self, o):
        if type(o) is int and o == 0:
            return 0
        return as_bits(o) << self

    def __rshift__(self, o):
        if type(o) is int:
            return _fdiv(self, 1 << o)
        raise Unsupported('SymInt >> sym')

    def __rrshift__(self, o):
        return as_bits(o) >> self

    def _mask(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return _fmod(self, o + 1)
        if type(o) is int and o < 0 and ((-o) & (-o - 1)) == 0:
            return self - _fmod(self, -o)
        if type(o) is BitInt and o.ones is not None:
            return NotImplemented
        raise Unsupported('SymInt & general mask')

    def __and__(self, o): return self._mask(o)
    __rand__ = __and__

    def _bw(self, o):
        if type(o) is int and o == 0:
            return self
        raise Unsupported('bitwise op on SymInt')
    __or__ = __ror__ = __xor__ = __rxor__ = _bw

    def __invert__(self): return mkint(-self.z - 1)

    def __index__(self): return concretize(self)
    def __int__(self): return concretize(self)
    def __str__(self): return '<sym>'
    def __format__(self, s): return '<sym>'
    __repr__ = __str__

    def bit_length(self):
        raise Unsupported('bit_length')


def concretize(x):
    """case split on the value of a symbolic int that has finitely many values"""
    for _ in range(70):
        if C.pos < len(C.decisions):
            # replay: values are recorded through the same queries
            pass
        s = C.solver
        if C.sat() != z3.sat:
            raise PathEnd()
        v = s.model().eval(x.z, model_completion=True).as_long()
        lo = v
        # canonical choice: smallest non-negative feasible value first
        for cand in range(0, 70):
            if C.sat(x.z == cand) != z3.unsat:
                lo = cand
                break
        if C.branch(x.z == lo):
            return lo
    raise Unsupported('concretization of an unbounded integer')


def _fdiv(a, b):
    za, zb = zint(a), zint(b)
    if za is None or zb is None:
        if type(a) is BitInt and type(b) is int and b > 0 and b & (b - 1) == 0:
            return a >> (b.bit_length() - 1)
        raise Unsupported('//')
    if C.branch(zb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if C.branch(zb > 0):
        return mkint(za / zb)
    return mkint((-za) / (-zb))


def _fmod(a, b):
    za, zb = zint(a), zint(b)
    if za is None or zb is None:
        raise Unsupported('%')
    if C.branch(zb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if C.branch(zb > 0):
        return mkint(za % zb)
    return mkint(-((-za) % (-zb)))


class Ratio(Proxy):
    """a/b on ints: an IEEE double.  int() of it is exact for 0<=a<2^53, 0<b<2^53;
    outside that range the rounded value is left unspecified (any integer)."""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b
        if zint(a) is None or zint(b) is None:
            raise Unsupported('float')
        if C.branch(zint(b) == 0):
            raise ZeroDivisionError('division by zero')

    @property
    def __class__(self):
        return float

    def trunc(self):
        za, zb = zint(self.a), zint(self.b)
        lim = 1 << 53
        if C.branch(z3.And(za >= 0, za < lim, zb > 0, zb < lim)):
            return mkint(za / zb)
        if C.branch(z3.And(za < 0, za > -lim, zb > 0, zb < lim)):
            return mkint(-((-za) / zb))
        C.approx.append('int/float division beyond 2^53')
        return SymInt(z3.Int(C.fresh('float')))

    def __add__(self, o):
        # exact when the divisor is a power of two (trunc checks the 2^53 range of the sum)
        if type(o) is int and type(self.b) is int and self.b > 0 and self.b & (self.b - 1) == 0:
            return Ratio(self.a + o * self.b, self.b)
        raise Unsupported('float arithmetic')
    __radd__ = __add__

    def __sub__(self, o):
        return self + -o if type(o) is int else self._u()

    def _u(self, *a):
        raise Unsupported('float arithmetic')
    __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = _u
    __bool__ = __truediv__ = __rtruediv__ = __eq__ = __ne__ = __hash__ = __index__ = _u

    def __str__(self): return '<sym>'
    def __format__(self, s): return '<sym>'
    __repr__ = __str__


# ---------------------------------------------------------------- bit vectors of unbounded width
def _const_bits(c):
    if c < 0:
        g = _const_bits(~c)
        return lambda i: z3.Not(g(i))
    if c == 0:
        return lambda i: z3.BoolVal(False)
    if c & (c + 1) == 0:
        n = c.bit_length()
        return lambda i: i < n
    bs = [k for k in range(c.bit_length()) if c >> k & 1]
    if len(bs) > 200:
        raise Unsupported('wide constant')
    return lambda i: z3.Or(*[i == b for b in bs])


def as_bits(x):
    t = type(x)
    if t is BitInt:
        return x
    if t is SymBool:
        z = x.z
        return BitInt(lambda i: z3.And(i == 0, z), neg=False)
    if t in (int, bool) or (isinstance(x, int) and t is not SymInt):
        x = int(x)
        b = BitInt(_const_bits(x), neg=x < 0)
        b.const = x
        if x >= 0 and x & (x + 1) == 0:
            b.ones = z3.IntVal(x.bit_length())
        if x > 0 and x & (x - 1) == 0:
            b.pow2 = z3.IntVal(x.bit_length() - 1)
        return b
    if t is SymInt:
        raise Unsupported('SymInt used as bits')
    return None


class BitInt(Proxy):
    """an unbounded two's complement integer given by its bit predicate f(i), i >= 0.
    neg: True/False when the sign is known, None otherwise (sign = bits are eventually 1)."""
    __slots__ = ('f', 'neg', 'const', 'ones', 'pow2', 'cache')

    def __init__(self, f, neg=None):
        self.f = f
        self.neg = neg
        self.const = self.ones = self.pow2 = None
        self.cache = {}

    @property
    def __class__(self):
        return int

    def bit(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return self.f(i)

    def _qv(self):
        return z3.Int(C.fresh('q'))

    def iszero(self):
        q = self._qv()
        b = z3.simplify(self.f(q))
        if z3.is_false(b):
            return z3.BoolVal(True)
        return z3.ForAll([q], z3.Implies(q >= 0, z3.Not(b)))

    def nonzero_branch(self):
        return z3.Not(self.iszero())

    def __bool__(self):
        if self.const is not None:
            return bool(self.const)
        if self.pow2 is not None:
            return True
        z = self.iszero()
        r = C.branch(z3.Not(z))
        if r:   # skolem witness for the solver
            w = z3.Int(C.fresh('wit'))
            C.assume(z3.And(w >= 0, self.f(w)))
        return r

    def _bin(self, o, f, neg):
        b = as_bits(o)
        if b is None:
            return NotImplemented
        a = self
        r = BitInt(lambda i: f(a.f(i), b.f(i)), neg(a.neg, b.neg) if a.neg is not None and b.neg is not None else None)
        return r

    def __and__(self, o):
        b = as_bits(o)
        if b is None:
            return NotImplemented
        if b.const == 0 or self.const == 0:
            return 0
        if b.const == -1:
            return self
        r = self._bin(b, lambda x, y: z3.And(x, y), lambda p, q: p and q)
        if self.neg is False or b.neg is False:
            r.neg = False
        return r

    def __or__(self, o):
        b = as_bits(o)
        if b is None:
            return NotImplemented
        if b.const == 0:
            return self
        if self.const == 0:
            return o
        r = self._bin(b, lambda x, y: z3.Or(x, y), lambda p, q: p or q)
        if self.neg is True or b.neg is True:
            r.neg = True
        return r

    def __xor__(self, o):
        b = as_bits(o)
        if b is None:
            return NotImplemented
        if b.const == 0:
            return self
        return self._bin(b, lambda x, y: z3.Xor(x, y), lambda p, q: p != q)
    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        a = self
        return BitInt(lambda i: z3.Not(a.f(i)), None if a.neg is None else not a.neg)

    def __lshift__(self, o):
        n = zint(o)
        if n is None:
            raise Unsupported('<< by bits')
        if not C.quiet and C.branch(n < 0):
            raise ValueError('negative shift count')
        a = self
        r = BitInt(lambda i: z3.And(i >= n, a.f(i - n)), a.neg)
        if a.pow2 is not None:
            r.pow2 = z3.simplify(a.pow2 + n)
        return r

    def __rshift__(self, o):
        n = zint(o)
        if n is None:
            raise Unsupported('>> by bits')
        if not C.quiet and C.branch(n < 0):
            raise ValueError('negative shift count')
        a = self
        return BitInt(lambda i: a.f(i + n), a.neg)

    def __rlshift__(self, o): raise Unsupported('<< by bits')
    def __rrshift__(self, o): raise Unsupported('>> by bits')

    def __sub__(self, o):
        if type(o) is int and o == 1 and self.pow2 is not None:
            n = self.pow2
            r = BitInt(lambda i: i < n, False)
            r.ones = n
            return r
        if type(o) is int and o == 0:
            return self
        b = as_bits(o) if type(o) is not SymInt else None
        if self.ones is not None and b is not None:
            # (2^n-1) - b is a complement when 0 <= b < 2^n
            q = self._qv()
            n = self.ones
            if b.neg is False and C.branch(z3.ForAll([q], z3.Implies(q >= n, z3.Not(b.f(q))))):
                return BitInt(lambda i: z3.And(i < n, z3.Not(b.f(i))), False)
        raise Unsupported('BitInt -')

    def __rsub__(self, o):
        if type(o) is int and o == -1:
            return ~self
        b = as_bits(o) if type(o) is int else None
        if b is not None:
            return b - self
        raise Unsupported('- BitInt')

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        if type(o) is int and o == 1 and self.ones is not None:
            n = self.ones
            r = BitInt(lambda i: i == n, False)
            r.pow2 = n
            return r
        b = as_bits(o) if type(o) is not SymInt else None
        if b is not None:
            # disjoint addition is OR
            q = self._qv()
            if C.branch(z3.ForAll([q], z3.Implies(q >= 0, z3.Not(z3.And(self.f(q), b.f(q)))))):
                return self | b
        raise Unsupported('BitInt +')
    __radd__ = __add__

    def __neg__(self):
        if self.pow2 is not None:
            n = self.pow2
            return BitInt(lambda i: i >= n, True)
        raise Unsupported('- BitInt')

    def __mul__(self, o):
        b = as_bits(o) if type(o) is not SymInt else None
        if b is not None and b.pow2 is not None:
            return self << SymInt(b.pow2)
        if type(o) is int and o == 0:
            return 0
        if self.pow2 is not None:
            return as_bits(o) << SymInt(self.pow2)
        raise Unsupported('BitInt *')
    __rmul__ = __mul__

    def __mod__(self, o):
        b = as_bits(o) if type(o) is not SymInt else None
        if b is not None and b.pow2 is not None:
            return self & (b - 1)
        raise Unsupported('BitInt %')

    def __rmod__(self, o):
        if isinstance(o, str):
            return '<sym>'
        raise Unsupported('%')

    def __floordiv__(self, o):
        b = as_bits(o) if type(o) is not SymInt else None
        if b is not None and b.pow2 is not None:
            return self >> SymInt(b.pow2)
        raise Unsupported('BitInt //')

    def __truediv__(self, o): raise Unsupported('BitInt /')
    __rtruediv__ = __rfloordiv__ = __truediv__

    def eqz(self, o):
        b = as_bits(o)
        q = self._qv()
        f = z3.simplify(self.f(q) == b.f(q))
        if z3.is_true(f):
            return f
        return z3.ForAll([q], z3.Implies(q >= 0, f))

    def __eq__(self, o):
        if type(o) is SymInt:
            raise Unsupported('BitInt == SymInt')
        b = as_bits(o)
        if b is None:
            return False
        if b is self:
            return True
        if self.neg is not None and b.neg is not None and self.neg != b.neg:
            return False
        r = mkbool(self.eqz(b))
        return r

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Proxy.__hash__

    def _lt0(self):
        if self.neg is None:
            raise Unsupported('sign of bits')
        return self.neg

    def __lt__(self, o):
        if type(o) is int and o == 0:
            return self._lt0()
        b = as_bits(o) if type(o) is not SymInt else None
        if b is not None and self.neg is False and b.pow2 is not None:
            q = self._qv()
            return mkbool(z3.ForAll([q], z3.Implies(q >= b.pow2, z3.Not(self.f(q)))))
        if b is not None and self.neg is False and b.const is not None and b.const <= 0:
            return False
        if self.pow2 is not None and b is not None and b.neg is False:
            # 2^n < b  <=> some bit >= n set and b != 2^n
            return and_(not_(b < self), not_(b == self))
        raise Unsupported('BitInt <')

    def __ge__(self, o): return not_(self < o)

    def __le__(self, o):
        if type(o) is int:
            if o == -1:
                return self._lt0()
            if o == 0 and self.neg is False:
                return self == 0
            return self < o + 1
        b = as_bits(o) if type(o) is not SymInt else None
        if b is not None and b.ones is not None and self.neg is False:
            q = self._qv()
            return mkbool(z3.ForAll([q], z3.Implies(q >= b.ones, z3.Not(self.f(q)))))
        if b is not None and self.ones is not None and b.neg is False:
            return or_(not_(b <= self), b == self)
        if b is not None and self.pow2 is not None and b.neg is False:
            return not_(b < self)
        raise Unsupported('BitInt <=')

    def __gt__(self, o): return not_(self <= o)

    def __index__(self):
        if self.const is not None:
            return self.const
        raise Unsupported('index of bits')
    __int__ = __index__

    def __str__(self): return '<sym>'
    def __format__(self, s): return '<sym>'
    __repr__ = __str__

    def bit_length(self):
        if self.const is not None:
            return self.const.bit_length()
        if self.neg is None:
            raise Unsupported('bit_length')
        z = z3.BoolVal(self.neg)
        L, q = z3.Int(C.fresh('blen')), self._qv()
        C.assume(z3.And(L >= 0, z3.ForAll([q], z3.Implies(q >= L, self.f(q) == z)), z3.Implies(L > 0, self.f(L - 1) != z)))
        if not self.neg:
            return SymInt(L)
        q = self._qv()          # the length of the magnitude: one more for the negated powers of two
        return SymInt(z3.If(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L), z3.Not(self.f(q)))), L + 1, L))


# ---------------------------------------------------------------- strings
class SymStr(Proxy):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return str

    def __bool__(self):
        return C.branch(z3.Length(self.z) != 0)

    def __eq__(self, o):
        z = zstr(o)
        if z is None:
            return False
        return mkbool(self.z == z)

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Proxy.__hash__

    def __add__(self, o):
        z = zstr(o)
        if z is None:
            return NotImplemented
        return mkstr(z3.Concat(self.z, z))

    def __radd__(self, o):
        z = zstr(o)
        if z is None:
            return NotImplemented
        return mkstr(z3.Concat(z, self.z))

    def __len__(self):
        raise Unsupported('native len of SymStr')

    def length(self):
        return mkint(z3.Length(self.z))

    def __contains__(self, o):
        return C.branch(z3.Contains(self.z, zstr(o)))

    def startswith(self, o):
        return mkbool(z3.PrefixOf(zstr(o), self.z))

    def endswith(self, o):
        return mkbool(z3.SuffixOf(zstr(o), self.z))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('str slice')
            n = z3.Length(self.z)
            def norm(v, d):
                if v is None:
                    return d
                z = zint(v)
                return z3.If(z < 0, z3.If(z + n < 0, z3.IntVal(0), z + n), z3.If(z > n, n, z))
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
            return mkstr(z3.SubString(self.z, a, z3.If(b > a, b - a, z3.IntVal(0))))
        z = zint(i)
        n = z3.Length(self.z)
        if C.branch(z < 0):
            z = z + n
        if C.branch(z3.Or(z < 0, z >= n)):
            raise IndexError('string index out of range')
        return mkstr(z3.SubString(self.z, z, z3.IntVal(1)))

    def __iter__(self):
        raise Unsupported('iterate SymStr')

    def __str__(self): return '<symstr>'
    def __format__(self, s): return '<symstr>'
    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr('', n):
            raise AttributeError(n)
        raise Unsupported('SymStr.' + n)

    def __mod__(self, o): raise Unsupported('str %')
    def __lt__(self, o): return mkbool(self.z < zstr(o))
    def __gt__(self, o): return mkbool(zstr(o) < self.z)
    def __le__(self, o): return mkbool(self.z <= zstr(o))
    def __ge__(self, o): return mkbool(zstr(o) <= self.z)


def zstr(x):
    if type(x) is SymStr:
        return x.z
    if isinstance(x, str):
        return z3.StringVal(x)
    return None


def mkstr(z):
    z = z3.simplify(z)
    if z3.is_string_value(z):
        return z.as_string()
    return SymStr(z)
