"""symbolic mode of a unit"""
import time
import traceback
import z3
from . import engine as E
from . import containers as K
from . import unit as U
from .engine import SymInt, SymBool, BitInt, SymStr, Unsupported, PathEnd, OutOfBudget, zint, mkint, mkbool, raw, is_sym


class Inp:
    def __init__(self, name, value, small=None):
        self.name, self._v, self._s = name, value, small

    def value(self, m):
        return self._v(m)

    def small(self, b):
        return self._s(b) if self._s else []


def mval(m, z):
    return m.eval(z, model_completion=True)


def mint(m, z):
    return mval(m, z).as_long()


def mtrue(m, z):
    return z3.is_true(mval(m, z))


def mbits(m, f, w, cap=300):
    n = mint(m, w) if w is not None else cap
    if n > cap:
        raise Unsupported('wide model')
    v = 0
    for i in range(max(n, 0)):
        if mtrue(m, f(z3.IntVal(i))):
            v |= 1 << i
    return v


class SymS(U.Base):
    symbolic = True

    def __init__(self, bounded=None):
        self.bounded = bounded
        self.reports = U.Reports()
        E.C.reports = self.reports
        self.undo = []
        E.C.roots = {}
        E.C.templates = []
        E.C.lists = False
        E.C.facts = []
        E.C.active = True
        self.memo = {}

    # ---- inputs
    def int(self, name, lo=None, hi=None, cap=None):
        if name in self.memo:
            return self.memo[name]
        v = z3.Int(name)
        self._rng(v, lo, hi)
        E.C.inputs.append(Inp(name, lambda m: mint(m, v), lambda b: [v <= b + (lo if type(lo) is int else 0), v >= -b]))
        r = self.memo[name] = SymInt(v)
        return r

    def _rng(self, v, lo, hi):
        if lo is not None:
            E.C.assume(v >= zint(lo))
        if hi is not None:
            E.C.assume(v <= zint(hi))

    def bits(self, name, width=None):
        if name in self.memo:
            return self.memo[name]
        F = z3.Function(name, E.INT, E.BOOL)
        r = self._bits(lambda i: F(i), width)
        w = zint(width) if width is not None else None
        E.C.inputs.append(Inp(name, lambda m: mbits(m, lambda i: F(i), w)))
        self.memo[name] = r
        return r

    def _bits(self, F, width):
        if width is None:
            # finite non-negative integer: bits vanish above some bound
            w = z3.Int(E.C.fresh('w'))
            E.C.assume(w >= 0)
        else:
            w = zint(width)
        # the range fact is built into the predicate: no quantifier needed
        return BitInt(lambda i: z3.And(i < w, F(i)), False)

    def bool(self, name):
        if name in self.memo:
            return self.memo[name]
        v = z3.Bool(name)
        E.C.inputs.append(Inp(name, lambda m: mtrue(m, v)))
        r = self.memo[name] = SymBool(v)
        return r

    def choice(self, name, opts):
        v = z3.Int(name)
        E.C.assume(z3.And(v >= 0, v < len(opts)))
        E.C.inputs.append(Inp(name, lambda m: mint(m, v)))
        for i in range(len(opts) - 1):
            if E.C.branch(v == i):
                return opts[i]
        return opts[-1]

    def str(self, name, alphabet='ab.', maxlen=None, minlen=0):
        v = z3.String(name)
        if minlen:
            E.C.assume(z3.Length(v) >= minlen)
        if alphabet == 'ab.':
            pass
        E.C.inputs.append(Inp(name, lambda m: mval(m, v).as_string()))
        return SymStr(v)

    def list(self, name, make, maxn=None, minn=0, post=None, pure=False):
        n = z3.Int(name + '.len')
        E.C.inputs.append(Inp(name + '.len', lambda m: mint(m, n), lambda b: [n <= min(b, 4)]))
        E.C.assume(n >= minn)
        if self.bounded is not None or maxn is not None:
            b = self.bounded if self.bounded is not None else maxn
            if maxn is not None:
                E.C.maxn = max(getattr(E.C, 'maxn', 0) or 0, maxn)
            if maxn is not None:
                b = min(b, maxn)
            E.C.assume(n <= b)
            for c in range(minn, b + 1):
                if c == b or E.C.branch(n == c):
                    out = []
                    for i in range(c):
                        o = make(CElem(self, '%s[%d]' % (name, i), i))
                        out.append(o)
                    return out
        base = ListBase(self, name, make, n, post, pure)
        E.C.bases.append(base)
        l = K.VList(n, base.get, name)
        l.base = base
        return l

    def map(self, name, keys, make, present=None):
        """arbitrary (unbounded) map from str / int keys; make(elem) builds a value from its attributes"""
        ks = z3.StringSort() if keys == 'str' else E.INT
        F = z3.Function(name + '.has', ks, E.BOOL)
        base = MapBase(self, name, ks, make)

        def has(k):
            z = zkey(k, ks)
            return F(z) if z is not None else z3.BoolVal(False)

        def fetch(k):
            z = zkey(k, ks)
            base.touched.append(z)
            return base.make(MElem(base, z))

        class I:
            def __init__(self):
                self.name = name

            def value(self, m):
                out, attrs = [], {}
                for z in base.asked:
                    if mtrue(m, F(z)):
                        k = mval(m, z).as_string() if ks != E.INT else mint(m, z)
                        if k not in out:
                            out.append(k)
                            for n, ev in base.attrs.items():
                                attrs['%s{%s}.%s' % (name, k, n)] = ev(m, z)
                return {'__map__': out, 'attrs': attrs}

            def small(self, b):
                return []
        E.C.inputs.append(I())

        def present_(k):
            z = zkey(k, ks)
            if z is not None:
                base.asked.append(z)
            return has(k)
        d = K.VDict()
        d._assoc()
        d.sym = K.SymMap(present_, fetch)
        d.base = base
        return d

    def has(self, m, k):
        """specification view: is k a key of the initial map"""
        b = m.base
        z = zkey(k, b.ks)
        b.asked.append(z)
        return mkbool(z3.Function(b.name + '.has', b.ks, E.BOOL)(z))

    def at(self, m, k):
        b = m.base
        return b.make(MElem(b, zkey(k, b.ks)))

    # ---- contract language
    def require(self, c):
        E.C.assume(raw(c) if is_sym(c) or isinstance(c, z3.ExprRef) else bool(c))
        if is_sym(c) and E.C.sat(timeout=1500) == z3.unsat:
            raise PathEnd()

    def check(self, label, c, info=None):
        f = raw(c) if is_sym(c) or isinstance(c, z3.ExprRef) else bool(c)
        E.C.prove(label, f)

    def forall(self, label, lst, fn):
        if type(lst) is K.VList:
            if not E.C.branch(lst._len > 0):
                return
            i = z3.Int(E.C.fresh('all'))
            E.C.assume(z3.And(i >= 0, i < lst._len))
            self.check(label, fn(mkint(i), lst._get(i)))
        else:
            for i, e in enumerate(lst):
                self.check(label, fn(i, e))

    def forall_range(self, label, n, fn):
        if is_sym(n):
            if not E.C.branch(zint(n) > 0):
                return
            i = z3.Int(E.C.fresh('all'))
            E.C.assume(z3.And(i >= 0, i < zint(n)))
            self.check(label, fn(mkint(i)))
        else:
            for i in range(n):
                self.check(label, fn(i))

    def implies(self, a, b):
        if callable(b):
            if is_sym(a):
                return b() if a else True
            return (not a) or b()
        if is_sym(a) or is_sym(b):
            return mkbool(z3.Implies(raw(a), raw(b)))
        return (not a) or b

    def and_(self, *x): return E.and_(*x)
    def or_(self, *x): return E.or_(*x)
    def not_(self, x): return E.not_(x)

    def ite(self, c, a, b):
        if not is_sym(c):
            return a if c else b
        za, zb = zint(a), zint(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return mkbool(z3.If(raw(c), raw(a), raw(b)))
        if za is not None and zb is not None:
            return mkint(z3.If(raw(c), za, zb))
        return a if c else b

    def iff(self, a, b):
        return mkbool(raw(a) == raw(b))

    def bit(self, v, i):
        b = E.as_bits(v)
        z = zint(i)
        return mkbool(z3.And(z >= 0, b.f(z)))

    def bitwise(self, width, fn):
        w = zint(width) if width is not None else None
        return BitInt(lambda i: z3.And(i >= 0, raw(fn(SymInt(i))), (i < w) if w is not None else z3.BoolVal(True)), False)

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi - 1)

    def template(self, fn):
        E.C.templates.append(lambda k, v0: fn(mkint(z3.simplify(k)), v0))

    def empty(self):
        return K.VList(z3.IntVal(0), None, 'new')

    def progress(self, new):
        """candidate loop value of a list: positions already visited hold new(j), the others their initial value"""
        def t(k, v0):
            if type(v0) is not K.VList:
                raise TypeError('not a list')
            kk = mkint(k)
            return K.VList(v0._len, lambda j: self.ite(mkint(j) < kk, new(mkint(j)), v0._get(j)))
        E.C.templates.append(t)

    def after_first(self, v):
        """candidate loop value of a local: v from the second iteration on"""
        E.C.templates.append(lambda k, v0: self.ite(mkint(k) > 0, v, v0))

    def grows(self, per, new):
        """candidate loop value of a list: every iteration appended `per` elements, the j-th appended one is new(j)"""
        def t(k, v0):
            if type(v0) is list:
                v0 = K.VList(z3.IntVal(0), None).__radd__(v0)
            if type(v0) is not K.VList:
                raise TypeError('not a list')
            n0 = v0._len

            def get(j):
                if E.C.branch(j < n0):
                    return v0._get(j)
                return new(mkint(z3.simplify(j - n0)))
            return K.VList(z3.simplify(n0 + k * zint(per)), get)
        E.C.templates.append(t)

    def root(self, name, o):
        E.C.roots[name] = o

    def long_loops(self, forks=2):
        """cut a while loop as soon as it has forked that often"""
        E.C.forks = forks

    def lists(self):
        """empty lists created from here on can hold any number of elements"""
        E.C.lists = True

    # ---- specification folds over lists
    def fold_or(self, lst, fn, upto=None):
        if type(lst) is not K.VList:
            r = 0
            for e in lst:
                r = r | fn(e)
            return r
        base = lst.base
        q = z3.Int(E.C.fresh('qj'))

        def acc(k):
            def bit(b):
                return z3.Exists([q], z3.And(q >= 0, q < k, E.as_bits(base.q(fn, q)).f(b)))
            return BitInt(bit, False)
        E.C.templates.append(lambda k, v0: acc(k))
        return acc(base.n)

    def snap(self, lst):
        """the elements a list has now"""
        if type(lst) is not K.VList:
            return list(lst)
        get = lst._get

        class Snap:
            def __getitem__(self, i):
                return get(zint(i))
        return Snap()

    def packed(self, lst, w, fn=lambda x: x):
        """the integer whose w-bit digits are the elements, first lowest"""
        if type(lst) is not K.VList:
            return U.ConS.packed(self, lst, w, fn)
        base = lst.base

        def acc(k):
            def bit(b):
                return z3.And(b >= 0, b < w * k, E.as_bits(base.q(fn, b / w)).f(b % w))
            return BitInt(bit, False)
        E.C.templates.append(lambda k, v0: acc(zint(k)))
        return acc(base.n)

    def exists(self, lst, fn, upto=None):
        if type(lst) is not K.VList:
            return E.or_(*[fn(e) for e in lst[:upto]]) if lst else False
        base = lst.base
        q = z3.Int(E.C.fresh('qe'))
        return mkbool(z3.Exists([q], z3.And(q >= 0, q < (base.n if upto is None else zint(upto)), raw(base.q(fn, q)))))

    def placed(self, lst, lo, size, val):
        """the integer whose bits lo..lo+size-1 are those of val, for every element, the others 0: a specification function
        given by its recurrence. Precondition: the ranges do not overlap; that a bit is set only where an element lies,
        hence not where the next one will lie, are lemmas proved by induction where it is used"""
        if type(lst) is not K.VList:
            return U.ConS.placed(self, lst, lo, size, val)
        C, base = E.C, lst.base
        R = z3.Function(C.fresh('placed_' + lst.name), E.INT, E.INT, z3.BoolSort())
        l, n = (lambda i: zint(base.q(lo, i))), (lambda i: zint(base.q(size, i)))
        p, q, b = z3.Int(C.fresh('qa')), z3.Int(C.fresh('qb')), z3.Int(C.fresh('b'))
        here = lambda i, b: z3.And(b >= l(i), b < l(i) + n(i))
        apart = lambda p, q: z3.Or(l(p) + n(p) <= l(q), l(q) + n(q) <= l(p))
        rec = lambda k, b: R(k + 1, b) == z3.If(here(k, b), E.as_bits(base.q(val, k)).f(b - l(k)), R(k, b))
        inside = lambda k, b: z3.Implies(R(k, b), z3.Exists([q], z3.And(q >= 0, q < k, here(q, b))))
        k0, b0 = z3.Int(C.fresh('k0')), z3.Int(C.fresh('b0'))
        first = z3.ForAll([b], z3.Not(R(0, b)))
        self.check('lemma: no bit is set outside of the ranges',
                   mkbool(z3.And(z3.Implies(first, inside(z3.IntVal(0), b0)),
                                 z3.Implies(z3.And(k0 >= 0, inside(k0, b0), rec(k0, b0)), inside(k0 + 1, b0)))))
        self.check('lemma: the next range is still empty',
                   mkbool(z3.Implies(z3.And(k0 >= 0, inside(k0, b0), here(k0, b0), z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < k0), apart(p, k0)))),
                                     z3.Not(R(k0, b0)))))
        C.assume(first)

        def at(k):
            m = z3.simplify(k - 1)
            C.assume(z3.Implies(k > 0, z3.ForAll([b], R(k, b) == z3.If(here(m, b), E.as_bits(base.q(val, m)).f(b - l(m)), R(m, b)), patterns=[R(k, b)])))
            C.assume(z3.Implies(k < base.n, z3.ForAll([b], z3.Implies(here(k, b), z3.Not(R(k, b))), patterns=[R(k, b)])))

        def acc(k):
            k = z3.simplify(zint(k))
            at(k)
            at(z3.simplify(k + 1))
            return BitInt(lambda b: R(k, b), False)
        C.templates.append(lambda k, v0: acc(k) if type(v0) is int and v0 == 0 else None)
        return acc(base.n)

    def count(self, lst, fn):
        """number of elements satisfying fn (specification function with its defining recurrence)"""
        if type(lst) is not K.VList:
            r = 0
            for e in lst:
                r = r + self.ite(fn(e), 1, 0)
            return r
        base = lst.base
        F = z3.Function(E.C.fresh('count_' + lst.name), E.INT, E.INT)
        E.C.assume(F(0) == 0)

        def at(k):
            E.C.assume(z3.Implies(k > 0, F(k) == F(k - 1) + z3.If(raw(base.q(fn, k - 1)), z3.IntVal(1), z3.IntVal(0))))
            return F(k)
        E.C.templates.append(lambda k, v0: mkint(zint(v0) + at(z3.simplify(k))) if isinstance(v0, int) else v0)
        return mkint(at(base.n))

    def fold(self, lst, fn, init):
        """fn(element, accumulated so far) over all elements: a specification function with its defining recurrence"""
        if type(lst) is not K.VList:
            for e in lst:
                init = fn(e, init)
            return init
        base = lst.base
        F = z3.Function(E.C.fresh('fold_' + lst.name), E.INT, E.INT)
        E.C.assume(F(0) == zint(init))

        def at(k):
            E.C.assume(z3.Implies(k > 0, F(k) == zint(base.q(lambda e: fn(e, mkint(F(k - 1))), k - 1))))
            return F(k)
        E.C.templates.append(lambda k, v0: mkint(at(zint(k))) if isinstance(v0, (int, SymInt)) and not isinstance(v0, bool) else v0)
        return mkint(at(base.n))

    def filtered(self, lst, pred, new):
        """the list of new(i) for the positions i whose element satisfies pred, in order: given by its length, and by
        the position of its j-th element, with their defining recurrences; also a candidate value of a list which a loop fills"""
        if type(lst) is not K.VList:
            return [new(i) for i, e in enumerate(lst) if pred(e)]
        base = lst.base
        F = z3.Function(E.C.fresh('len_' + lst.name), E.INT, E.INT)
        P = z3.Function(E.C.fresh('pos_' + lst.name), E.INT, E.INT)
        E.C.assume(F(0) == 0)

        def at(k):
            p = raw(base.q(pred, k - 1))
            E.C.assume(z3.Implies(k > 0, z3.And(F(k) == F(k - 1) + z3.If(p, z3.IntVal(1), z3.IntVal(0)), F(k - 1) >= 0, F(k - 1) < k,
                                                z3.Implies(p, P(F(k - 1)) == k - 1))))
            return F(k)

        def value(k, v0):
            if type(v0) is list:
                v0 = K.VList(z3.IntVal(0), None).__radd__(v0)
            if type(v0) is not K.VList:
                raise TypeError('not a list')
            n0 = v0._len
            m = at(z3.simplify(zint(k)))

            def get(j):
                if E.C.branch(j < n0):
                    return v0._get(j)
                p = P(z3.simplify(j - n0))
                E.C.assume(z3.Implies(z3.And(j - n0 >= 0, j - n0 < m), z3.And(p >= 0, p < zint(k), raw(base.q(pred, p)))))
                return new(mkint(p))
            return K.VList(z3.simplify(n0 + m), get)
        E.C.templates.append(value)
        return value(base.n, K.VList(z3.IntVal(0), None))

    def mapped(self, lst, fn):
        """the list of fn(element)"""
        if type(lst) is not K.VList:
            return [fn(e) for e in lst]
        return K.VList(lst._len, lambda j: fn(lst._get(j)))

    def first_max(self, lst, key):
        """index of the first element of the largest key of a nonempty list: a specification function defined
        by its recurrence; that it is the first maximum is a lemma proved by induction where it is used"""
        if type(lst) is not K.VList:
            m = 0
            for i in range(1, len(lst)):
                if key(lst[i]) > key(lst[m]):
                    m = i
            return m
        C, base = E.C, lst.base
        M = z3.Function(C.fresh('argmax_' + lst.name), E.INT, E.INT)
        p = lambda j: zint(base.q(key, j))
        j = z3.Int(C.fresh('j'))

        def inv(k):
            return z3.And(M(k) >= 0, M(k) < k,
                          z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.And(p(j) <= p(M(k)), z3.Implies(j < M(k), p(j) < p(M(k)))))))

        def rec(k):
            return M(k + 1) == z3.If(p(k) > p(M(k)), k, M(k))
        k0 = z3.Int(C.fresh('k0'))
        self.check('lemma: the recurrence finds the first maximum',
                   mkbool(z3.Implies(z3.And(k0 >= 1, M(1) == 0, z3.Implies(k0 > 1, inv(k0)), rec(k0)),
                                     z3.And(inv(1), inv(k0 + 1)))))

        def at(k):
            C.assume(z3.And(M(1) == 0, z3.Implies(k >= 1, z3.And(inv(k), rec(k))), z3.Implies(k >= 2, z3.And(inv(k - 1), rec(k - 1)))))
            return M(k)

        def elem(z, v0):
            return mkint(p(z)) if isinstance(v0, (int, SymInt)) and not isinstance(v0, bool) else base.get(z)

        def from0(k, v0):
            return v0 if C.branch(k <= 0) else elem(at(z3.simplify(k)), v0)
        C.templates.append(lambda k, v0: elem(at(z3.simplify(k + 1)), v0))
        C.templates.append(from0)
        C.templates.append(lambda k, v0: mkint(at(z3.simplify(k + 1))) if isinstance(v0, (int, SymInt)) else v0)
        C.facts.append(('once', lambda j: z3.BoolVal(False)))
        return mkint(at(base.n))

    def last_match(self, lst, pred, val):
        """index of the last element satisfying pred, or -1: a specification function defined by its recurrence; that
        it is the last match is a lemma proved by induction where it is used; candidate loop value: val of that element"""
        if type(lst) is not K.VList:
            m = -1
            for i in range(len(lst)):
                m = self.ite(pred(lst[i]), i, m)
            return m
        C, base = E.C, lst.base
        M = z3.Function(C.fresh('last_' + lst.name), E.INT, E.INT)
        p = lambda j: raw(base.q(pred, j))
        j = z3.Int(C.fresh('j'))

        def inv(k):
            return z3.And(M(k) >= -1, M(k) < k, z3.Implies(M(k) >= 0, p(M(k))),
                          z3.ForAll([j], z3.Implies(z3.And(j > M(k), j >= 0, j < k), z3.Not(p(j)))))

        def rec(k):
            return M(k + 1) == z3.If(p(k), k, M(k))
        k0 = z3.Int(C.fresh('k0'))
        self.check('lemma: the recurrence finds the last match',
                   mkbool(z3.Implies(z3.And(k0 >= 0, M(0) == -1, inv(k0), rec(k0)), z3.And(inv(z3.IntVal(0)), inv(k0 + 1)))))

        def at(k):
            C.assume(z3.And(M(0) == -1, z3.Implies(k >= 0, z3.And(inv(k), rec(k))), z3.Implies(k >= 1, z3.And(inv(k - 1), rec(k - 1)))))
            return M(k)

        def t(k, v0):
            z = at(z3.simplify(k))
            if not isinstance(v0, (int, SymInt)):
                raise TypeError('not a number')
            return mkint(z3.If(z >= 0, zint(base.q(val, z)), zint(v0)))
        C.templates.append(t)
        return mkint(at(base.n))

    def scan(self, lst, fn, both=True, at=None):
        """candidate loop facts: all elements seen so far (do not) satisfy fn; at: iteration -> index"""
        if type(lst) is not K.VList:
            return
        base = lst.base
        ix = (lambda j: j) if at is None else (lambda j: zint(at(mkint(j))))
        for nm, g in (('not', lambda j: z3.Not(raw(base.q(fn, j)))), ('all', lambda j: raw(base.q(fn, j))))[:2 if both else 1]:
            if at is None:
                E.C.facts.append((nm, g))
            else:
                E.C.facts.append((nm, lambda j, g=g: g(ix(j)), g, ix))

    def fact(self, name, fn):
        """candidate loop fact: fn(j) held in every iteration j so far"""
        E.C.facts.append((name, lambda j: raw(fn(mkint(j)))))

    def cover(self, name):
        c = E.C.covers
        if not c.get(name):
            c[name] = E.C.sat(timeout=3000) == z3.sat

    def fork(self, c):
        return bool(c)

    def length(self, l):
        return l.length() if hasattr(l, 'length') and type(l) is not list else len(l)

    def blocked(self):
        raise Unsupported('coroutine suspended on an unmodelled trigger')


def zkey(k, ks):
    if ks == E.INT:
        return zint(k)
    if type(k) is SymStr:
        return k.z
    return z3.StringVal(k) if type(k) is str else None


class MapBase:
    def __init__(self, S, name, ks, make):
        self.S, self.name, self.ks, self.make = S, name, ks, make
        self.touched, self.asked, self.attrs = [], [], {}


class MElem:
    """attributes of the value under a key as uninterpreted functions of the key"""

    def __init__(self, base, z):
        self.base, self.S, self.z = base, base.S, z
        self.idx = None

    def _f(self, n, sort):
        return z3.Function('%s{}.%s' % (self.base.name, n), self.base.ks, sort)

    def int(self, n, lo=None, hi=None, cap=None):
        F = self._f(n, E.INT)
        self.S._rng(F(self.z), lo, hi)
        self.base.attrs[n] = lambda m, z: mint(m, F(z))
        return mkint(F(self.z))

    def bool(self, n):
        F = self._f(n, E.BOOL)
        self.base.attrs[n] = lambda m, z: mtrue(m, F(z))
        return mkbool(F(self.z))

    def str(self, n, *a, **k):
        F = self._f(n, z3.StringSort())
        self.base.attrs[n] = lambda m, z: mval(m, F(z)).as_string()
        return SymStr(F(self.z))

    def bits(self, n, width=None):
        F = z3.Function('%s{}.%s' % (self.base.name, n), self.base.ks, E.INT, E.BOOL)
        z = self.z
        self.base.attrs[n] = lambda m, zz: mbits(m, lambda b: F(zz, b), None, 64)
        return self.S._bits(lambda b: F(z, b), width)

    def choice(self, n, opts):
        F = self._f(n, E.INT)
        t = F(self.z)
        E.C.assume(z3.And(t >= 0, t < len(opts)))
        self.base.attrs[n] = lambda m, z: mint(m, F(z))
        for i in range(len(opts) - 1):
            if E.C.branch(t == i):
                return opts[i]
        return opts[-1]

    def new(self, cls, **a):
        return self.S.new(cls, **a)


class CElem(U.ConElem):
    pass


class SElem:
    """attributes of list element idx as uninterpreted functions of the index"""

    def __init__(self, base, idx):
        self.base, self.S, self.z = base, base.S, idx
        self.idx = mkint(idx)

    def _uf(self, n, *sorts):
        return z3.Function('%s.%s' % (self.base.name, n), *sorts)

    def int(self, n, lo=None, hi=None, cap=None):
        F = self._uf(n, E.INT, E.INT)
        t = F(self.z)
        if not self.base.is_quiet:
            self.S._rng(t, lo, hi)
        self.base.attr(n, lambda m, i: mint(m, F(i)), lambda b, i: [F(i) <= b + (lo if type(lo) is int else 0), F(i) >= -b])
        return mkint(t)

    def bits(self, n, width=None):
        F = self._uf(n, E.INT, E.INT, E.BOOL)
        z = self.z
        w = zint(width) if width is not None else None
        self.base.attr(n, lambda m, i: mbits(m, lambda b: F(i, b), None, 64))
        if self.base.is_quiet and width is None:
            return BitInt(lambda b: F(z, b), False)
        return self.S._bits(lambda b: F(z, b), width)

    def bool(self, n):
        F = self._uf(n, E.INT, E.BOOL)
        self.base.attr(n, lambda m, i: mtrue(m, F(i)))
        return mkbool(F(self.z))

    def choice(self, n, opts):
        F = self._uf(n, E.INT, E.INT)
        t = F(self.z)
        if self.base.is_quiet:
            raise Unsupported('choice under a quantifier')
        E.C.assume(z3.And(t >= 0, t < len(opts)))
        self.base.attr(n, lambda m, i: mint(m, F(i)), lambda b, i: [F(i) >= 0, F(i) < len(opts)])
        for i in range(len(opts) - 1):
            if E.C.branch(t == i):
                return opts[i]
        return opts[-1]

    def str(self, n, *a, **k):
        F = self._uf(n, E.INT, z3.StringSort())
        self.base.attr(n, lambda m, i: mval(m, F(i)).as_string())
        return SymStr(F(self.z))

    def new(self, cls, **a):
        return self.S.new(cls, **a)


class ListBase:
    def __init__(self, S, name, make, n, post, pure):
        self.S, self.name, self.make, self.n, self.post, self.pure = S, name, make, n, post, pure
        self.cache = []
        self.cuts = []
        self.attrs = set()
        self.inv = []
        self.is_quiet = False

    def quiet(self, z):
        """the element at index z as a pure term (z may be a bound variable): no assumption is added"""
        self.is_quiet = True
        n = len(E.C.pc)
        try:
            return self.make(SElem(self, z))
        finally:
            self.is_quiet = False

    def q(self, fn, z):
        C = E.C
        C.quiet += 1
        try:
            return fn(self.quiet(z))
        finally:
            C.quiet -= 1

    def attr(self, n, ev, small=None):
        if n in self.attrs:
            return
        self.attrs.add(n)
        base = self

        class I:
            name = '%s[*].%s' % (base.name, n)

            def value(self, m):
                k = mint(m, base.n)
                if k > 12:
                    raise Unsupported('long model list')
                return [ev(m, z3.IntVal(i)) for i in range(k)]

            def small(self, b):
                if small is None:
                    return []
                r = []
                for i in range(4):
                    r += small(b, z3.IntVal(i))
                return r
        E.C.inputs.append(I())

    def build(self, z):
        o = self.make(SElem(self, z))
        d = getattr(o, '__dict__', None)
        if d is not None and type(o) not in (K.VList,) and not is_sym(o):
            try:
                o.__dict__['_vc_elem'] = (self.name, z)
            except TypeError:
                pass
        return o

    def get(self, z):
        z = z3.simplify(z)
        if self.pure:
            return self.build(z)
        for t, o in self.cache:
            if t.eq(z):
                return o
        for t, o in self.cache:
            if E.C.branch(t == z):
                return o
        o = self.build(z)
        for k, post in self.cuts:
            if E.C.branch(z < k):
                post(o)
        if hasattr(o, '__dict__') and not is_sym(o) and type(o) is not K.VList:
            o.__dict__['_vc_start'] = K.elem_state(o)
        self.cache.append((z, o))
        for f in self.inv:
            f(self, z, o)
        return o

    def expected(self, z):
        o = self.build(z)
        for k, post in self.cuts[:-1]:
            if E.C.branch(z < k):
                post(o)
        self.post(o)
        return K.elem_state(o)

    def cut(self, k):
        for t, o in self.cache:
            if E.C.branch(t < k):
                self.post(o)
        self.cuts.append((k, self.post))


def run_symbolic(u, deadline, bounded=None, max_paths=20000):
    """-> dict result"""
    r = run_symbolic1(u, deadline, bounded, max_paths, False)
    if r['status'] == 'unsupported' and ('loop-carried' in r['reason'] or 'loop modifies' in r['reason']):
        # one loop reached on several paths may need a different invariant on each of them
        r2 = run_symbolic1(u, deadline, bounded, max_paths, True)
        if r2['status'] == 'ok':
            return r2
    return r


def run_symbolic1(u, deadline, bounded, max_paths, path_keys):
    ctx = E.Ctx(deadline, max_paths=max_paths)
    ctx.path_keys = path_keys
    res = {'unit': u.name, 'bounded': bounded, 'status': 'ok', 'reason': ''}
    t0 = time.time()
    exc = []

    def body():
        S = SymS(bounded)
        if U.ENV is not None:
            U.ENV.enter(S)
        try:
            u.fn(S)
            ctx.covers['end'] = ctx.covers.get('end', False) or ctx.feasible()
        except (PathEnd, Unsupported, OutOfBudget):
            raise
        except U.Discard:
            raise PathEnd()
        except z3.Z3Exception as e:
            if __import__("os").environ.get("VC_DEBUG"):
                traceback.print_exc()
            raise Unsupported("z3: %s" % e)
        except Exception as e:
            if isinstance(e, AttributeError) and U.harness_error(e):
                raise Unsupported('stand-in object: %s' % e)
            tb = ''.join(traceback.format_exception(e))[-1800:]
            if 'SymStr' in str(e) or 'VList' in str(e) or 'SymInt' in str(e) or 'BitInt' in str(e) or 'SymBool' in str(e):
                raise Unsupported('engine limit: %s' % e)
            if ctx.feasible():
                exc.append(tb)
                ctx.prove('no exception', False, kind='safety')
        finally:
            S.cleanup()
            if U.ENV is not None:
                U.ENV.leave(S)
    old = E.C
    E.C = ctx
    try:
        for attempt in range(300 if path_keys else 80):
            ctx.obls = {}
            ctx.restart = False
            ctx.explore(body)
            if not ctx.restart:
                break
        else:
            res['status'], res['reason'] = 'unsupported', 'invariant inference did not converge'
    except Unsupported as e:
        import os
        res['status'], res['reason'] = 'unsupported', str(e)
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    except OutOfBudget as e:
        res['status'], res['reason'] = 'budget', str(e)
    except RecursionError as e:
        res['status'], res['reason'] = 'unsupported', 'recursion'
    finally:
        E.C = old
    if bounded is None and getattr(ctx, 'maxn', None):
        res['maxn'] = ctx.maxn
    res['paths'] = ctx.paths
    res['queries'] = ctx.queries
    res['solver_s'] = round(ctx.solver_time, 3)
    res['wall_s'] = round(time.time() - t0, 3)
    res['covers'] = ctx.covers
    res['loops'] = len(ctx.loops)
    res['inv'] = getattr(ctx, 'inv_checked', 0)
    res['exc'] = exc[:2]
    res['obls'] = [{'name': o.name, 'n': o.n, 'ok': o.ok, 'fail': o.fail, 'unknown': o.unknown, 'model': flat(o.model)}
                   for o in ctx.obls.values()]
    if res['status'] == 'ok' and not res['obls']:
        res['status'], res['reason'] = 'vacuous', 'no obligations'
    elif res['status'] == 'ok' and not ctx.covers.get('end') and not exc:
        res['status'], res['reason'] = 'vacuous', 'end of unit unreachable'
    return res


def flat(m):
    if m is None:
        return None
    out = {}
    for k, v in m.items():
        if '[*].' in k:
            a, b = k.split('[*].')
            for i, x in enumerate(v):
                out['%s[%d].%s' % (a, i, b)] = x
        elif isinstance(v, dict) and '__map__' in v:
            out[k] = v['__map__']
            out.update(v['attrs'])
        else:
            out[k] = v
    return out
