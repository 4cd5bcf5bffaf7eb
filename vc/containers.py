"""Unbounded symbolic containers and the loop rule (arbitrary-iteration cut with
inferred invariants)."""
import sys
import types
import z3
from . import engine as E
from .engine import (SymInt, SymBool, BitInt, SymStr, Poison, Unsupported, PathEnd, zint, mkint, mkbool,
                     raw, as_bits, is_sym)

UNBOUND = Poison('(unbound local)')


class Restart(PathEnd):
    pass


def same(a, b):
    """value equality used for loop candidates and frames: returns True/False/z3 formula.
    objects: identity; scalars: equality; lists: pointwise"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is Poison or tb is Poison:
        return False
    if ta is VList or tb is VList or isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)):
            return False
        la, lb = raw_len(a), raw_len(b)
        if type(la) is int and type(lb) is int:
            if la != lb:
                return False
            return conj([same(a[i], b[i]) for i in range(la)])
        if not E.C.branch(zint(la) == zint(lb)):
            return False
        if type(la) is int or type(lb) is int:
            n = la if type(la) is int else lb
            return conj([same(a[i], b[i]) for i in range(n)])
        i = z3.Int(E.C.fresh('sk'))
        E.C.assume(z3.And(i >= 0, i < zint(la)))
        return same(a._get(i), b._get(i))
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        if isinstance(a, bool) != isinstance(b, bool):
            pass
        try:
            return raw_(a == b)
        except Unsupported:
            return False
    if isinstance(a, str) and isinstance(b, str):
        return raw_(a == b)
    if ta is tb and ta in (float, type(None), bytes):
        return a == b
    if ta is tb and isinstance(a, dict):
        if type(a) is VDict and a.sym is b.sym and list(map(id, a.entries or ())) == list(map(id, b.entries or ())) and a.sym:
            return True
        try:
            if len(a) != len(b):
                return False
            return conj([same(x, y) for x, y in zip(a.items(), b.items())])
        except Unsupported:
            return False
    return False


def raw_(x):
    if isinstance(x, SymBool):
        return x.z
    if x is NotImplemented:
        return False
    return bool(x)


def conj(xs):
    r = []
    for x in xs:
        if x is False:
            return False
        if x is not True:
            r.append(x)
    if not r:
        return True
    return z3.And(*r)


def raw_len(x):
    if type(x) is VList:
        return mkint(x._len)
    return len(x)


class VList:
    """a list of symbolic length.  _get(i: z3 Int) -> element proxy; value semantics via closures"""

    def __init__(self, length, get, name='list', post=None, elem_eq=None):
        self._len = length if not isinstance(length, int) else z3.IntVal(length)
        self._get = get
        self.name = name
        self.version = 0
        self.base = None
        self.templates = []      # loop value templates: fn(k) -> value
        self.post = post

    @property
    def __class__(self):
        return list

    def __bool__(self):
        return E.C.branch(self._len != 0)

    def __len__(self):
        v = mkint(self._len)
        if isinstance(v, int) and type(v) is int:
            return v
        return E.concretize(v)

    def length(self):
        return mkint(self._len)

    def decode(self, *a):
        """the characters of these bytes, as far as a specification looks at them"""
        return self

    def _norm(self, i, what='index'):
        z = zint(i)
        if z is None:
            raise Unsupported('list index')
        if E.C.branch(z < 0):
            z = z3.simplify(z + self._len)
        if E.C.branch(z3.Or(z < 0, z >= self._len)):
            raise IndexError('list index out of range')
        return z3.simplify(z)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice step')
            def nm(v, d):
                if v is None:
                    return d
                z = zint(v)
                if E.C.branch(z < 0):
                    z = z + self._len
                    if E.C.branch(z < 0):
                        z = z3.IntVal(0)
                if E.C.branch(z > self._len):
                    z = self._len
                return z
            a, b = nm(i.start, z3.IntVal(0)), nm(i.stop, self._len)
            if E.C.branch(b < a):
                b = a
            g = self._get
            return VList(z3.simplify(b - a), lambda j: g(z3.simplify(j + a)), self.name + '[:]')
        return self._get(self._norm(i))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        z = self._norm(i)
        g = self._get
        self._get = lambda j: v if E.C.branch(j == z) else g(j)
        self.version += 1

    def __delitem__(self, i):
        self.pop(i)

    def append(self, v):
        self.insert(mkint(self._len), v)

    def insert(self, i, v):
        z = zint(i)
        if E.C.branch(z < 0):
            z = z + self._len
            if E.C.branch(z < 0):
                z = z3.IntVal(0)
        if E.C.branch(z > self._len):
            z = self._len
        z = z3.simplify(z)
        g, n = self._get, self._len

        def get(j):
            if E.C.branch(j == z):
                return v
            if E.C.branch(j < z):
                return g(j)
            return g(z3.simplify(j - 1))
        self._get = get
        self._len = z3.simplify(n + 1)
        self.version += 1

    def pop(self, i=-1):
        z = self._norm(i)
        g, n = self._get, self._len
        v = g(z)

        def get(j):
            if E.C.branch(j < z):
                return g(j)
            return g(z3.simplify(j + 1))
        self._get = get
        self._len = z3.simplify(n - 1)
        self.version += 1
        return v

    def clear(self):
        self._len = z3.IntVal(0)
        self._get = None
        self.version += 1

    def extend(self, o):
        if type(o) is VList:
            g, n = self._get, self._len
            og, on = o._get, o._len
            self._get = lambda j: g(j) if E.C.branch(j < n) else og(z3.simplify(j - n))
            self._len = z3.simplify(n + on)
            self.version += 1
        else:
            for x in o:
                self.append(x)

    def copy(self):
        r = VList(self._len, self._get, self.name, self.post)
        r.templates = self.templates
        r.base = self.base
        return r

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        r = VList(z3.IntVal(len(o)), lambda j: o[E.concretize(SymInt(j))])
        r.extend(self)
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __eq__(self, o):
        r = same(self, o)
        return mkbool(r) if not isinstance(r, bool) else r

    def __ne__(self, o):
        return E.not_(self == o)
    __hash__ = None

    def __iter__(self):
        raise Unsupported('native iteration of a symbolic list')

    def __reversed__(self):
        g, n = self._get, self._len
        return VList(n, lambda j: g(z3.simplify(n - 1 - j)), 'rev ' + self.name)

    def index(self, v):
        """specification of list.index for lists whose elements are pairwise different"""
        c = getattr(self, 'contains', None)
        if c is None:
            raise Unsupported('list.index')
        r = c(v)
        if r is None:
            raise ValueError('not in list')
        return mkint(r)

    def remove(self, v):
        self.pop(self.index(v))

    def __contains__(self, v):
        c = getattr(self, 'contains', None)
        if c is None:
            raise Unsupported('in symbolic list')
        return c(v) is not None

    def __str__(self): return '<symlist>'
    def __format__(self, s): return '<symlist>'
    __repr__ = __str__

    def __getattr__(self, n):
        if n.startswith('__') or n in ('contains',):
            raise AttributeError(n)
        raise Unsupported('VList.' + n)


class VRange:
    def __init__(self, *a):
        if len(a) == 1:
            a = (0,) + a
        self.a, self.b = a[0], a[1]
        self.s = a[2] if len(a) > 2 else 1
        if self.s not in (1, -1) or type(self.s) is not int:
            raise Unsupported('range step')

    def as_list(self):
        a, b, s = zint(self.a), zint(self.b), self.s
        if a is None or b is None:
            raise Unsupported('range of bits')
        d = b - a if s == 1 else a - b
        n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        return VList(n, lambda j: mkint(a + j if s == 1 else a - j), 'range')

    def length(self):
        return self.as_list().length()

    def __iter__(self):
        raise Unsupported('native iteration of a symbolic range')

    def __contains__(self, v):
        z, a, b = zint(v), zint(self.a), zint(self.b)
        return E.C.branch(z3.And(z >= a, z < b) if self.s == 1 else z3.And(z <= a, z > b))

    def __getitem__(self, i):
        return self.as_list()[i]

    def __reversed__(self):
        l = self.as_list()
        return l.__reversed__()


def mkrange(*a):
    if all(type(x) in (int, bool) for x in a):
        return range(*a)
    return VRange(*a)


class VDict(dict):
    """dict literal of the verified code.  Native until a symbolic key is used; then an
    association list compared with == (forks).  `sym`: optional unbounded symbolic base."""
    sym = None
    entries = None

    def __init__(self, *a, **k):
        dict.__init__(self)
        if a:
            src = a[0]
            it = src.items() if isinstance(src, dict) else src
            for kk, vv in it:
                self[kk] = vv
        for kk in k:
            self[kk] = k[kk]

    def _assoc(self):
        if self.entries is None:
            self.entries = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, k):
        for e in self.entries:
            if keq(e[0], k):
                return e
        if self.sym is not None:
            return self.sym.fetch(self, k)
        return None

    def __getitem__(self, k):
        if self.entries is None:
            if not symkey(k):
                return dict.__getitem__(self, k)
            self._assoc()
        e = self._find(k)
        if e is None or e[1] is DELETED:
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        if self.entries is None:
            if not symkey(k):
                return dict.__setitem__(self, k, v)
            self._assoc()
        e = self._find(k)
        if e is None:
            self.entries.append([k, v])
        elif e[1] is DELETED:
            if self.sym is None:
                self.entries.remove(e)
                self.entries.append([k, v])
            else:
                e[1] = v
        else:
            e[1] = v

    def __delitem__(self, k):
        if self.entries is None:
            if not symkey(k):
                return dict.__delitem__(self, k)
            self._assoc()
        e = self._find(k)
        if e is None or e[1] is DELETED:
            raise KeyError(k)
        if self.sym is None:
            for i, x in enumerate(self.entries):
                if x is e:
                    del self.entries[i]
                    break
        else:
            e[1] = DELETED
            self.sym.removed += 1

    def __contains__(self, k):
        if self.entries is None:
            if not symkey(k):
                return dict.__contains__(self, k)
            self._assoc()
        e = self._find(k)
        return e is not None and e[1] is not DELETED

    def get(self, k, d=None):
        return self[k] if k in self else d

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def _noiter(self):
        if self.sym is not None:
            raise Unsupported('iterate symbolic dict')

    def __iter__(self):
        if self.entries is None:
            return dict.__iter__(self)
        self._noiter()
        return iter([e[0] for e in self.entries])

    def __len__(self):
        if self.entries is None:
            return dict.__len__(self)
        self._noiter()
        return len(self.entries)

    def length(self):
        if self.sym is not None:
            return self.sym.length(self)
        return len(self)

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym.length(self) != 0)
        return len(self) > 0

    def keys(self):
        if self.entries is None:
            return dict.keys(self)
        return list(iter(self))

    def values(self):
        if self.entries is None:
            return dict.values(self)
        self._noiter()
        return [e[1] for e in self.entries]

    def items(self):
        if self.entries is None:
            return dict.items(self)
        self._noiter()
        return [tuple(e) for e in self.entries]

    def clear(self):
        dict.clear(self)
        if self.entries is not None:
            self.entries = []
        self.sym = None

    def copy(self):
        r = VDict()
        if self.entries is None:
            for k in dict.keys(self):
                dict.__setitem__(r, k, dict.__getitem__(self, k))
        else:
            r.entries = [list(e) for e in self.entries]
            r.sym = self.sym
        return r

    def update(self, o=(), **k):
        for kk, v in (o.items() if isinstance(o, dict) else o):
            self[kk] = v
        for kk in k:
            self[kk] = k[kk]

    def popitem(self):
        ks = list(self.keys())
        return ks[-1], self.pop(ks[-1])

    def __eq__(self, o):
        if self.entries is None and not (type(o) is VDict and o.entries is not None):
            return dict.__eq__(self, o)
        r = same(self, o)
        return mkbool(r) if not isinstance(r, bool) else r

    def __ne__(self, o):
        return E.not_(self == o)

    __hash__ = None


class _Del:
    pass


DELETED = _Del()


class SymMap:
    """unbounded symbolic base of a VDict: present(key)->z3 Bool, make(key)->value"""

    def __init__(self, present, make, count=None):
        self.present, self.make = present, make
        self.count = count
        self.removed = 0

    def fetch(self, d, k):
        e = [k, self.make(k) if E.C.branch(self.present(k)) else DELETED]
        d.entries.append(e)
        return e

    def length(self, d):
        raise Unsupported('len of symbolic dict')


def symkey(k):
    if is_sym(k):
        return True
    if type(k) is tuple:
        return any(symkey(x) for x in k)
    return False


def keq(a, b):
    if a is b:
        return True
    return bool(a == b)


# ------------------------------------------------------------------ loops
class LoopInfo:
    def __init__(self):
        self.dead = set()        # dropped candidates: (var, candidate name)
        self.reports = False     # the body reports something
        self.heap = set()        # discovered heap locations modified in the body
        self.kinds = {}
        self.elem_mod = set()    # names of the lists whose elements the body changes


def snapshot(frame_locals, limit=3000):
    """{path: (holder, attr, value)} of the instance attributes reachable from the locals"""
    out = {}
    seen = set()
    q = [(n, v) for n, v in sorted(frame_locals.items())]
    q += [('$' + n, v) for n, v in E.C.roots.items()] if getattr(E.C, 'roots', None) else []
    while q:
        path, o = q.pop(0)
        if id(o) in seen or len(out) > limit:
            continue
        if isinstance(o, (int, str, float, bool, type(None), type, types.ModuleType, types.FunctionType,
                          types.MethodType, types.BuiltinFunctionType)):
            continue
        t = type(o)
        if t is VList:
            seen.add(id(o))
            out[path + '.$vl'] = (o, '$vl', (o.copy(), o.version))
            continue
        if t.__module__.startswith(('vc.', 'z3')) and t is not VDict:
            continue
        seen.add(id(o))
        if t is VDict:
            if o.entries is None:
                for i, (k, v) in enumerate(dict.items(o)):
                    q.append(('%s{%d}' % (path, i), v))
                out[path + '.$items'] = (o, '$items', tuple(dict.items(o)))
            else:
                out[path + '.$items'] = (o, '$items', tuple(tuple(e) for e in o.entries))
                for i, e in enumerate(o.entries):
                    q.append(('%s{%d}' % (path, i), e[1]))
            continue
        if t is list or t is tuple or t is set:
            if t is list:
                out[path + '.$len'] = (o, '$len', len(o))
            for i, v in enumerate(o):
                if i < 200:
                    if t is list:
                        out['%s[%d]' % (path, i)] = (o, i, v)
                    q.append(('%s[%d]' % (path, i), v))
            continue
        if t is dict:
            out[path + '.$items'] = (o, '$items', tuple(o.items()))
            for i, (k, v) in enumerate(o.items()):
                q.append(('%s{%d}' % (path, i), v))
            continue
        d = getattr(o, '__dict__', None)
        if d is None or t.__module__.startswith(('asyncio', 'threading', 'logging')):
            continue
        if getattr(o, '_vc_elem', None) is not None and not getattr(o, '_vc_root', False):
            continue     # elements of symbolic lists have their own rule
        for k, v in sorted(d.items()):
            if k.startswith('_vc_'):
                continue
            out[path + '.' + k] = (o, k, v)
            q.append((path + '.' + k, v))
    return out


def elem_state(o):
    """attribute state of a list element object"""
    return {k: (v, v.version) if type(v) is VList else v for k, v in o.__dict__.items() if not k.startswith('_vc_')}


def _cur(o, attr):
    if type(attr) is int:
        return o[attr] if attr < len(o) else UNBOUND
    if attr == '$vl':
        return o
    if attr.startswith('$'):
        return None
    return o.__dict__.get(attr, UNBOUND)


GLOBALS = []
EXTRA = {}


def global_state():
    """(class, attribute) of the data attributes of the library's classes: loops may change them too"""
    if not GLOBALS:
        seen = set()
        for name, mod in sorted(sys.modules.items()):
            if not (name == 'uvm' or name.startswith('uvm.')) or mod is None:
                continue
            for c in list(vars(mod).values()):
                if isinstance(c, type) and c.__module__.startswith('uvm') and id(c) not in seen:
                    seen.add(id(c))
                    for a, v in list(vars(c).items()):
                        if not a.startswith('__') and not callable(v) and not isinstance(v, (classmethod, staticmethod, property)):
                            GLOBALS.append((c, a))
    return GLOBALS


def snapshot_globals(out):
    have = {id(h) for h, a, v in out.values() if type(h) in (list, dict, VList, VDict)}
    for c, a in global_state():
        v = c.__dict__.get(a, UNBOUND)
        p = '@%s.%s' % (c.__name__, a)
        out[p] = (c, a, v)
        if id(v) in have:
            continue
        t = type(v)
        if t is VList:
            out[p + '.$vl'] = (v, '$vl', (v.copy(), v.version))
        elif t is VDict:
            out[p + '.$items'] = (v, '$items', tuple(dict.items(v)) if v.entries is None else tuple(tuple(e) for e in v.entries))
        elif t is list:
            out[p + '.$len'] = (v, '$len', len(v))
            if len(v) < 50:
                for i, x in enumerate(v):
                    out['%s[%d]' % (p, i)] = (v, i, x)
        elif t is dict:
            out[p + '.$items'] = (v, '$items', tuple(v.items()))
    return out


class LoopCut:
    def __init__(self, lst, site, names, tnames):
        self.lst, self.site, self.names, self.tnames = lst, site, names, tnames
        self.state = 0
        self.n = lst._len
        self.get = lst._get
        self.version = lst.version

    def __iter__(self):
        return self

    COUNTED = True

    def cands(self, var, v0):
        """candidate value functions e(k) for a loop carried location"""
        C = E.C
        out = [('same', lambda k: v0)]
        if type(v0) in (int, SymInt, bool, SymBool):
            z = zint(v0)
            out.append(('inc', lambda k: mkint(z + k)))
            out.append(('dec', lambda k: mkint(z - k)))
        for i, t in enumerate(self.lst.templates + getattr(C, 'templates', [])):
            out.append(('t%d' % i, lambda k, t=t: t(k, v0)))
        return out

    def __next__(self):
        C = E.C
        fr = sys._getframe(1)
        loc = dict(fr.f_locals)
        if self.state == 0:
            nm = C.n.get('loop' + self.site, 0)
            C.n['loop' + self.site] = nm + 1
            self.key = (self.site, nm)
            if C.path_keys:      # invariants per way of reaching the loop
                self.key += (tuple(C.decisions[:C.pos]),)
            info = self.info = C.loops.setdefault(self.key, LoopInfo())
            self.init = {}
            for n in self.names:
                self.init[n] = loc.get(n, UNBOUND)
            snap = snapshot_globals(snapshot(loc))
            self.snap0 = snap
            if info.reports:
                C.reports.taint()
            k = z3.Int(C.fresh('k'))
            self.k = k
            # arbitrary iteration state
            C.assume(z3.And(k >= 0, k <= self.n) if self.COUNTED else k >= 0)
            self.cand_now = {}
            vals = {}
            for n in self.names:         # a rebound list must not be shared: the cut replaces it by a new object
                v = self.init[n]
                if type(v) is VList and (any(x is v for m, x in loc.items() if m != n)
                                         or any(x[2] is v for x in snap.values())):
                    self.shared = getattr(self, 'shared', set()) | {n}
            for n in self.names:
                vals[n] = self.choose('L:' + n, self.init[n], k)
                if n in getattr(self, 'shared', ()) and vals[n] is not self.init[n]:
                    raise Unsupported('loop rebinds a shared list')
            for p in sorted(info.heap):
                if p not in snap:
                    raise Unsupported('loop modifies a location created in it: ' + p)
                o, attr, v = snap[p]
                if attr == '$vl':
                    nv = self.choose('H:' + p, v[0], k)
                    o.version += 1
                    if type(nv) is Poison:
                        o._len = z3.Int(C.fresh('hvlen'))
                        C.assume(o._len >= 0)
                        o._get = lambda j, nv=nv: nv
                    elif type(nv) is VList:
                        o._len, o._get = nv._len, nv._get
                    else:
                        o._len, o._get = z3.IntVal(len(nv)), VList.__radd__(VList(0, None), list(nv))._get
                    continue
                if type(attr) is str and attr.startswith('$'):
                    raise Unsupported('loop modifies container ' + p)
                nv = self.choose('H:' + p, v, k)
                if type(attr) is int:
                    o[attr] = nv
                elif isinstance(o, type):
                    setattr(o, attr, nv)
                else:
                    o.__dict__[attr] = nv
            for j, fact in enumerate(getattr(C, 'facts', [])):
                if ('fact', j) not in info.dead:
                    q = z3.Int(C.fresh('qf'))
                    if len(fact) == 2:
                        C.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), fact[1](q))))
                    else:                     # (name, f over iterations, f over indices, iteration -> index)
                        a, b = fact[3](z3.IntVal(0)), fact[3](k)
                        C.assume(z3.ForAll([q], z3.Implies(z3.Or(z3.And(a <= q, q < b), z3.And(b < q, q <= a)), fact[2](q))))
            iterate = not self.COUNTED or C.branch(k < self.n)
            if not iterate:
                C.assume(k == self.n)
            # elements before k are processed
            for base in C.bases:
                if base.name in self.info.elem_mod:
                    if base.post is None:
                        raise Unsupported('loop changes list elements (no element contract)')
                    if not self.COUNTED:
                        raise Unsupported('while loop changes list elements')
                    base.cut(k)
            C.cut_vals = [vals[n] for n in self.names]
            C.cut = True
            if iterate:
                self.state = 1
                v = self.get(k)
                for base in C.bases:
                    for z, o in base.cache:
                        if '_vc_start' in getattr(o, '__dict__', ()):
                            o.__dict__['_vc_start'] = elem_state(o)
                C.cut_depth += 1
                self.snap1 = snapshot_globals(snapshot(loc))
                self.nreports = C.reports.n()
                # locals to be havocked are not in loc yet: their heap is covered by snap
                return v
            self.state = 2
            C.cut_vals = C.cut_vals + [Poison('(loop target after the loop)')] * len(self.tnames)
            raise StopIteration
        if self.state == 1:
            info = self.info
            if self.lst.version != self.version:
                raise Unsupported('list changed while iterated')
            k1 = z3.simplify(self.k + 1)
            restart = False
            # heap discovery
            snap2 = snapshot({n: v for n, v in loc.items() if n not in self.names and n not in self.tnames})
            for p, (o, attr, v) in self.snap1.items():
                root = p.split('.')[0].split('[')[0].split('{')[0]
                if root in self.names or root in self.tnames:
                    continue
                cur = _cur(o, attr)
                if attr == '$items':
                    cur = tuple(dict.items(o)) if getattr(o, 'entries', None) is None else tuple(tuple(e) for e in o.entries)
                    ch = not (len(cur) == len(v) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(cur, v)))
                elif attr == '$len':
                    ch = len(o) != v
                elif attr == '$vl':
                    ch = o.version != v[1]
                else:
                    ch = cur is not v
                    if ch and p not in info.heap:
                        s = same(cur, v)
                        if s is True or (s is not False and C.sat(z3.Not(s)) == z3.unsat):
                            ch = False
                if ch and p not in info.heap:
                    info.heap.add(p)
                    restart = True
            if C.reports.n() != self.nreports and not info.reports:
                info.reports = True          # what was reported in a loop is not known after it
                restart = True
            # elements: only the one at index k may change, and it must end as its contract says
            for base in C.bases:
                for z, o in base.cache:
                    st0 = getattr(o, '__dict__', {}).get('_vc_start')
                    if st0 is None:
                        continue
                    st = elem_state(o)
                    ch = [a for a in set(st) | set(st0) if not self._same_now(st.get(a, UNBOUND), st0.get(a, UNBOUND))]
                    mod = base.name in info.elem_mod
                    if not ch and not mod:
                        continue
                    at_k = C.sat(z != self.k) == z3.unsat
                    if ch and not at_k:
                        raise Unsupported('loop changes a list element other than the current one')
                    if ch and not mod:
                        info.elem_mod.add(base.name)
                        restart = True
                    elif mod and at_k:
                        exp = base.expected(self.k)
                        for a in sorted(set(st) | set(exp)):
                            if not self._same_now(st.get(a, UNBOUND), exp.get(a, UNBOUND)):
                                raise Unsupported('element contract %s not established by loop body' % a)
            if restart:
                C.restart = True
                raise Restart()
            for n in self.names:
                if not self.keep('L:' + n, loc.get(n, UNBOUND), k1):
                    restart = True
            for p in sorted(info.heap):
                o, attr, v = self.snap1[p]
                if not self.keep('H:' + p, _cur(o, attr), k1):
                    restart = True
            for j, fact in enumerate(getattr(C, 'facts', [])):
                f = fact[1]
                if ('fact', j) not in info.dead and C.sat(z3.Not(f(self.k))) != z3.unsat:
                    info.dead.add(('fact', j))
                    restart = True
            if restart:
                C.restart = True
                raise Restart()
            C.inv_checked = getattr(C, 'inv_checked', 0) + 1
            raise PathEnd()
        raise StopIteration

    def _same_now(self, a, b):
        if type(a) is tuple and len(a) == 2 and type(a[0]) is VList:
            return type(b) is tuple and a[0] is b[0] and a[1] == b[1]
        s = same(a, b)
        if isinstance(s, bool):
            return s
        return E.C.sat(z3.Not(s)) == z3.unsat

    def choose(self, var, v0, k):
        """value of location var at iteration k under the surviving candidates"""
        C = E.C
        cs = [(nm, f) for nm, f in self.cands(var, v0) if (var, nm) not in self.info.dead]
        restart = False
        alive = []
        for nm, f in cs:
            if nm == 'same':
                alive.append((nm, f))
                continue
            try:
                v = f(z3.IntVal(0))
            except (Unsupported, TypeError, AttributeError, ValueError):
                v = Poison('failed candidate')
            if type(v) is Poison or v is None and v0 is not None:
                s = False
            else:
                s = same(v, v0)
            if s is True or (s is not False and C.sat(z3.Not(s)) == z3.unsat):
                alive.append((nm, f))
            else:
                self.info.dead.add((var, nm))
                restart = True
        if restart:
            C.restart = True
            raise Restart()
        self.cand_now[var] = alive
        if alive:
            v = self.try_cand(var, alive[0], k)
            # the state satisfies every surviving candidate (Houdini)
            for nm, f in alive[1:]:
                q = same(v, self.try_cand(var, (nm, f), k))
                if q is False:
                    self.info.dead.add((var, nm))
                    C.restart = True
                    raise Restart()
                if q is not True:
                    C.assume(q)
            return v
        return self.havoc(var, v0, k)

    def try_cand(self, var, cand, k):
        try:
            return cand[1](k)
        except Unsupported:          # not an expression the engine can form: not a candidate
            self.info.dead.add((var, cand[0]))
            E.C.restart = True
            raise Restart()

    def havoc(self, var, v0, k):
        C = E.C
        kind = self.info.kinds.get(var)
        if kind == 'int':
            return SymInt(z3.Int(C.fresh('hv_' + var)))
        if kind == 'bool':
            return SymBool(z3.Bool(C.fresh('hv_' + var)))
        return Poison('(loop-carried %s)' % var)

    def keep(self, var, v, k1):
        C = E.C
        ok = True
        alive = self.cand_now[var]
        for nm, f in alive[:1] if False else alive:
            try:
                e = f(k1)
            except (Unsupported, TypeError, AttributeError, ValueError):
                e = UNBOUND
            s = same(v, e)
            if not (s is True or (s is not False and C.sat(z3.Not(s)) == z3.unsat)):
                self.info.dead.add((var, nm))
                ok = False
        t = type(v)
        kind = 'bool' if t in (bool, SymBool) else 'int' if t in (int, SymInt) else 'other'
        old = self.info.kinds.get(var)
        if old is None:
            self.info.kinds[var] = kind
        elif old != kind:
            self.info.kinds[var] = 'other'
            if old != 'other':
                ok = ok and not (not alive)
        return ok


class WhileIter:
    """a while loop: unrolled as long as it is short, and cut at an arbitrary iteration when it is not"""
    LIMIT = 200
    FORKS = 12

    def __init__(self, site, names):
        self.n = self.forked = 0
        self.pos = None
        self.cut = None
        C = E.C
        if C is not None and C.active:
            nm = C.n.get('while' + site, 0)
            C.n['while' + site] = nm + 1
            self.key = (site, nm)
            if self.key in C.wcut:
                self.cut = WhileCut(site, names)

    def __iter__(self):
        return self if self.cut is None else self.cut

    def __next__(self):
        self.n += 1
        C = E.C
        if C is not None and C.active:
            if self.pos is not None and C.pos > self.pos:
                self.forked += 1
            self.pos = C.pos
            if self.n > self.LIMIT or self.forked > (C.forks or self.FORKS):
                if C.quiet or not (C.bases or C.templates) or C.no_while_cut:
                    raise Unsupported('while loop bound')
                C.wcut.add(self.key)
                C.restart = True
                raise Restart()
        return None


class _Endless:
    templates = []
    version = 0
    _len = None
    _get = staticmethod(lambda k: None)


class WhileCut(LoopCut):
    """the loop rule for a while loop: the invariant is assumed at an arbitrary iteration, the code itself tests
    its condition there, and the invariant is checked after one execution of the body"""
    COUNTED = False

    def __init__(self, site, names):
        LoopCut.__init__(self, _Endless, 'w' + site, names, ())
