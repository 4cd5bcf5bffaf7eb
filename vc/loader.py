"""Loads /repo/src/uvm for symbolic execution: the real source, parsed on every run and
rewritten mechanically.  The rewriting replaces syntax that CPython does not dispatch to
objects (is, in, f-strings, dict displays, iteration of for/while) by calls with the same
meaning on ordinary values.  Nothing is dropped."""
import ast
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import engine as E
from . import containers as K
from .engine import Unsupported

REPO_SRC = os.environ.get('VC_SRC', '/repo/src')


class NameCollector(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.decl = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.decl |= set(n.names)
    visit_Nonlocal = visit_Global


def stored(nodes):
    c = NameCollector()
    for n in nodes:
        c.visit(n)
    return sorted(c.names - c.decl - {'_', '*'})


def V(name):
    return ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr=name, ctx=ast.Load())


def call(name, *args):
    return ast.Call(func=V(name), args=list(args), keywords=[])


class T(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.fn = []
        self.loopno = 0

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        old, self.loopno = self.loopno, 0
        self.generic_visit(n)
        self.loopno = old
        self.fn.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def site(self):
        self.loopno += 1
        return '%s.%s#%d' % (self.mod, '.'.join(self.fn), self.loopno)

    def hv(self, names):
        tgt = ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())
        body = [ast.Assign(targets=[tgt], value=call('hv'))] if names else [ast.Expr(call('hv'))]
        return ast.If(test=V('cut'), body=body, orelse=[])

    def visit_For(self, n):
        site = self.site()
        infn = bool(self.fn)
        names = stored(n.body)
        tn = [x for x in stored([n.target]) if x not in names]
        names = [x for x in names if True]
        self.generic_visit(n)
        if not infn:
            return n
        n.iter = call('iter_', n.iter, ast.Constant(site), ast.Constant(tuple(names)), ast.Constant(tuple(tn)))
        # names that are also loop targets are re-assigned by the target itself
        tset = set(stored([n.target]))
        body_names = names
        if tset & set(names):
            # rare: the body assigns the target; keep the freshly bound element
            n.body = [ast.If(test=V('cut'), body=[ast.Expr(call('overlap'))], orelse=[])] + n.body
        n.body = [self.hv(body_names)] + n.body
        n.orelse = [self.hv(body_names + tn)] + n.orelse
        return n

    def visit_While(self, n):
        site = self.site()
        names = stored(n.body)
        self.generic_visit(n)
        if n.orelse or not self.fn:
            return n
        test = n.test
        pre = []
        if not (isinstance(test, ast.Constant) and test.value):
            pre = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[])]
        return ast.For(target=ast.Name(id='__w', ctx=ast.Store()),
                       iter=call('while_', ast.Constant(site), ast.Constant(tuple(names))),
                       body=[self.hv(names)] + pre + n.body, orelse=[], lineno=n.lineno)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        op, l, r = n.ops[0], n.left, n.comparators[0]
        m = {ast.Is: 'is_', ast.IsNot: 'isnot', ast.In: 'in_', ast.NotIn: 'notin'}.get(type(op))
        if m is None:
            return n
        if m in ('is_', 'isnot') and isinstance(r, ast.Constant) and r.value is None:
            return n     # proxies are never None
        return ast.copy_location(call(m, l, r), n)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)], ctx=ast.Load())
        return ast.copy_location(call('mkdict', pairs), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if n.elts or not self.fn or not isinstance(n.ctx, ast.Load):
            return n
        return ast.copy_location(call('mklist'), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'bytearray' and not n.args and not n.keywords and self.fn:
            return ast.copy_location(call('mkbytes'), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                parts.append(v.value)
            else:
                parts.append(ast.JoinedStr(values=[v]))
        return ast.copy_location(call('fstr', *parts), n)

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        return n


class VC:
    """run-time support for the rewritten code"""
    NotImplemented = NotImplemented

    @property
    def cut(self):
        return E.C is not None and E.C.cut

    def hv(self):
        E.C.cut = False
        v, E.C.cut_vals = E.C.cut_vals, None
        return v

    def overlap(self):
        raise Unsupported('loop body assigns its target')

    def iter_(self, it, site, names, tnames):
        if isinstance(it, K.VRange):
            it = it.as_list()
        if type(it) is K.VList:
            n = E.mkint(it._len)
            if type(n) is int:
                g = it._get
                return [g(E.z3.IntVal(i)) for i in range(n)]
            return K.LoopCut(it, site, names, tnames)
        return it

    def while_(self, site, names):
        return K.WhileIter(site, names)

    def is_(self, a, b):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta in (E.SymBool, E.SymInt, E.SymStr, E.BitInt, E.Poison) or tb in (E.SymBool, E.SymInt, E.SymStr, E.BitInt, E.Poison):
            if b is None or a is None:
                if ta is E.Poison or tb is E.Poison:
                    raise Unsupported('unknown value')
                return False
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, bool) != isinstance(b, bool):
                return False
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            if isinstance(a, int) and isinstance(b, int):
                return a == b      # small ints and enums
            return False
        return False

    def isnot(self, a, b):
        return E.not_(self.is_(a, b))

    def in_(self, a, c):
        tc = type(c)
        if tc is E.SymStr or (isinstance(c, str) and type(a) is E.SymStr):
            return E.mkbool(E.z3.Contains(E.zstr(c), E.zstr(a)))
        if E.is_sym(a) and tc in (list, tuple, set, frozenset, dict):
            for x in c:
                if a == x:
                    return True
            return False
        return a in c

    def notin(self, a, c):
        return E.not_(self.in_(a, c))

    def mklist(self):
        """an empty list display; a unit may ask for lists which can hold symbolic ones"""
        if E.C is not None and getattr(E.C, 'lists', False):
            return K.VList(E.z3.IntVal(0), None, 'new')
        return []

    def mkbytes(self):
        r = self.mklist()
        return bytearray() if type(r) is list else r

    def mkdict(self, pairs):
        return K.VDict(pairs)

    def fstr(self, *parts):
        r = ''
        for p in parts:
            if type(p) is E.SymStr:
                r = r + p
            else:
                r = r + format(p)
        return r


vc = VC()


def v_len(x):
    t = type(x)
    if t in (K.VList, K.VRange, E.SymStr, K.VDict):
        return x.length()
    if type(getattr(t, '__len__', None)) is types.FunctionType and t.__module__.startswith('uvm.'):
        return t.__len__(x)       # a user-defined length may be symbolic
    return len(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


def v_int(*a, **k):
    if a:
        x = a[0]
        t = type(x)
        if t in (E.SymInt, E.BitInt):
            return x
        if t is E.SymBool:
            return x._i()
        if t is E.Ratio:
            return x.trunc()
        if t in (E.SymStr, E.Poison):
            raise Unsupported('int() of ' + t.__name__)
        if len(a) > 1 and type(x) is E.SymStr:
            raise Unsupported('int(str)')
    return int(*a, **k)


def v_bool(x=False):
    t = type(x)
    if t is E.SymBool:
        return x
    if t is E.SymInt:
        return E.mkbool(x.z != 0)
    return bool(x)


def v_str(*a, **k):
    if a:
        t = type(a[0])
        if t is E.SymStr:
            return a[0]
        if t in (E.SymInt, E.BitInt, E.SymBool):
            return E.SymStr(E.z3.String(E.C.fresh('str')))
    return str(*a, **k)


def v_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in (E.SymInt, E.BitInt):
            return int
        if t is E.SymBool:
            return bool
        if t is E.SymStr:
            return str
        if t is K.VList:
            return list
        return t
    return type(*a)


def v_min(*a, **k):
    if len(a) > 1 and any(type(x) is E.SymInt for x in a):
        r = a[0]
        for x in a[1:]:
            r = E.mkint(E.z3.If(E.zint(x) < E.zint(r), E.zint(x), E.zint(r)))
        return r
    return min(*a, **k)


def v_max(*a, **k):
    if len(a) > 1 and any(type(x) is E.SymInt for x in a):
        r = a[0]
        for x in a[1:]:
            r = E.mkint(E.z3.If(E.zint(x) > E.zint(r), E.zint(x), E.zint(r)))
        return r
    return max(*a, **k)


def v_abs(x):
    return abs(x)


def v_enumerate(x, start=0):
    if isinstance(x, K.VRange):
        x = x.as_list()
    if type(x) is K.VList:
        n = E.mkint(x._len)
        g = x._get
        r = K.VList(x._len, lambda j: (E.mkint(j + start), g(j)), 'enum ' + x.name)
        r.base, r.templates = x.base, x.templates
        return r
    return enumerate(x, start)


def v_zip(*xs, **k):
    if any(type(x) is K.VList for x in xs):
        raise Unsupported('zip of symbolic lists')
    return zip(*xs, **k)


def v_reversed(x):
    if type(x) in (K.VList, K.VRange):
        r = x.__reversed__()
        return r
    return reversed(x)


def v_list(*a):
    if a and type(a[0]) is K.VList:
        return a[0].copy()
    if a and isinstance(a[0], K.VRange):
        return a[0].as_list()
    return list(*a)


def v_print(*a, **k):
    pass


def v_any(x):
    if type(x) is K.VList:
        raise Unsupported('any')
    for e in x:
        if e:
            return True
    return False


def v_all(x):
    if type(x) is K.VList:
        raise Unsupported('all')
    for e in x:
        if not e:
            return False
    return True


def v_sum(x, start=0):
    r = start
    for e in x:
        r = r + e
    return r


def v_hex(x):
    if E.is_sym(x):
        return '<sym>'
    return hex(x)


def v_divmod(a, b):
    return (a // b, a % b)


def v_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def _cls_shadow(fn, real):
    """callable that still works in isinstance(x, int) / class bases / annotations"""
    class M(type):
        def __call__(cls, *a, **k):
            return fn(*a, **k)

        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __eq__(cls, o):
            return o is real or o is cls

        def __ne__(cls, o):
            return not (o is real or o is cls)

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __or__(cls, o):
            return real | o

        def __ror__(cls, o):
            return o | real

        def __getitem__(cls, i):
            return real[i]
    return M(real.__name__, (), {})


B = dict(builtins.__dict__)
B.update(len=v_len, min=v_min, max=v_max, enumerate=v_enumerate, reversed=v_reversed, zip=v_zip, print=v_print,
         range=mkr if (mkr := K.mkrange) else None, any=v_any, all=v_all, sum=v_sum, hex=v_hex, bin=v_hex, oct=v_hex,
         divmod=v_divmod, __vc__=vc)
B['int'] = _cls_shadow(v_int, int)
B['bool'] = _cls_shadow(v_bool, bool)
B['str'] = _cls_shadow(v_str, str)
B['list'] = _cls_shadow(v_list, list)
B['dict'] = _cls_shadow(lambda *a, **k: K.VDict(*a, **k), dict)


_types = {B['int']: int, B['bool']: bool, B['str']: str, B['list']: list, B['dict']: dict}


def v_isinstance(x, c):
    if isinstance(c, tuple):
        for y in c:
            if v_isinstance(x, y):
                return True
        return False
    return isinstance(x, _types.get(c, c))


B['isinstance'] = v_isinstance


class _Type(type):
    pass


B['type'] = type      # class statements and 1-argument type() on proxies: see v_type1


def _fix_type(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1:
            n.func = V('type1')
    return tree


VC.type1 = staticmethod(v_type)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = T(fullname).visit(tree)
        tree = _fix_type(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        code = self.get_code(module.__name__)
        module.__dict__['__builtins__'] = B
        exec(code, module.__dict__)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'uvm' and not name.startswith('uvm.'):
            return None
        rel = os.path.join(REPO_SRC, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(rel + '/__init__.py'):
            f = rel + '/__init__.py'
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[rel])
        f = rel + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install(symbolic):
    sys.dont_write_bytecode = True
    vs = '/opt/venv/lib/python3.12/site-packages'
    if os.path.isdir(vs) and vs not in sys.path:
        sys.path.append(vs)
    if symbolic:
        sys.meta_path.insert(0, Finder)
    else:
        sys.path.insert(0, REPO_SRC)


def dicts():
    """collections.OrderedDict of the library -> the dict proxy (which keeps insertion order)"""
    import collections
    import types
    from .containers import VDict
    ns = types.SimpleNamespace(**{k: v for k, v in vars(collections).items() if not k.startswith('__')})
    ns.OrderedDict = VDict
    for name, mod in list(sys.modules.items()):
        if (name == 'uvm' or name.startswith('uvm.')) and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is collections:
                    setattr(mod, k, ns)
                elif v is collections.OrderedDict:
                    setattr(mod, k, VDict)
