"""C01: copying, cloning and comparing of objects."""
from vc.unit import unit, search
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_comparer import UVMComparer
from uvm.base.uvm_object_globals import (UVM_DEFAULT, UVM_ALL_ON, UVM_COPY, UVM_NOCOPY, UVM_COMPARE, UVM_NOCOMPARE, UVM_REFERENCE, UVM_DEEP, UVM_LOW, UVM_NONE,
                                         UVM_DEFAULT_POLICY, UVM_INFO, UVM_WARNING, UVM_PRINT)
from uvm.macros.uvm_object_defines import (uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int, uvm_field_string, uvm_field_object, uvm_object_utils)

PROPERTY = {
 'title': 'Copies equal their original and are independent; compare finds every difference',
 'statement': 'Copying or cloning an object copies every field of its class and its base classes, as their flags say: values as they are, nested objects as copies unless they are declared as references, and nothing else; the original does not change, a later change of either does not show in the other, and objects which refer to each other are copied as such. Comparing is true exactly when the types agree (if types are checked) and every field that takes part in comparison is equal, in nested objects too; each difference is counted once, and as many as the policy allows are reported, whatever the type of the field or whether one side is missing. Numbers are compared in exactly the bits asked for, and objects by identity under the reference policy.',
 'over': ['inputs'],
 'text': 'all numbers and sizes; class hierarchies with any flags, and graphs of objects with any values',
 'why': 'tests clone one flat object and compare two numbers; differing strings, missing objects, inherited fields and cycles are never compared or copied',
 'files': ['src/uvm/base/uvm_object.py', 'src/uvm/base/uvm_comparer.py', 'src/uvm/macros/uvm_object_defines.py'],
 'mech': [['UVMObject.copy, clone, compare', 'src/uvm/base/uvm_object.py'], ['UVMComparer.compare_field, compare_field_int, compare_field_real, compare_string, compare_object, print_msg, print_msg_object', 'src/uvm/base/uvm_comparer.py'],
          ['uvm_field_utils_start, uvm_field_*', 'src/uvm/macros/uvm_object_defines.py']],
 'note': 'comparison of numbers is proved for all values and sizes; fields of a class and its base for all values and flags; graphs of objects and random class hierarchies are a bounded search. An object of the right-hand side which is reached twice must stand for the same object both times, as in the standard',
}
PATCH_METHODS = 'all'
LIM = 1 << 40


def container():
    c = UVMObject._m_uvm_status_container
    while c.scope.depth():
        c.scope.m_stack.clear()
    c.scope.m_arg = ''
    return c


# ---------------------------------------------------------------- the comparer
def number(S, name):
    v = S.bits(name, None)
    return ~v if S.bool(name + '.neg') else v


def comparer(S):
    c = UVMComparer()
    c._vc_root = True
    c.result = S.int('result', 0)
    c.show_max = S.int('show_max', 0)
    c.miscompares = ''
    container()
    return c


def counted(S, c, r0, same, ret, name):
    """a difference counts once and is reported up to the limit"""
    S.check('equal exactly if it is', S.iff(bool(ret), same))
    S.check('a difference is counted once', c.result == S.ite(same, r0, r0 + 1))
    S.check('and reported up to the limit', S.iff(len(S.reports) == 1, S.and_(S.not_(same), r0 < c.show_max)))
    S.check('at most one report', len(S.reports) <= 1)


@unit('UVMComparer.compare_field', 'UVMComparer.compare_field_int', 'UVMComparer.print_msg')
def field(S):
    S.report_enabled = True
    c = comparer(S)
    r0 = c.result
    a, b = number(S, 'a'), number(S, 'b')
    n = S.int('size', 0, LIM, cap=80)
    same = S.bitwise(n, lambda i: S.bit(a, i)) == S.bitwise(n, lambda i: S.bit(b, i))
    ret = c.compare_field('f', a, b, n) if S.bool('any') else c.compare_field_int('f', a, b, n)
    counted(S, c, r0, same, ret, 'f')


@unit('UVMComparer.compare_string', 'UVMComparer.compare_field_real')
def text(S):
    S.report_enabled = True
    c = comparer(S)
    r0 = c.result
    if S.bool('string'):
        a, b = S.str('a'), S.str('b')
        same = a == b
        ret = c.compare_string('f', a, b)
    else:
        a, b = S.int('x'), S.int('y')
        same = a == b
        ret = c.compare_field_real('f', a, b)
    counted(S, c, r0, same, ret, 'f')


# ---------------------------------------------------------------- fields of a class and its base
FLAGS = [UVM_DEFAULT, UVM_ALL_ON, UVM_ALL_ON | UVM_NOCOPY, UVM_ALL_ON | UVM_NOCOMPARE, UVM_COPY, UVM_COMPARE, UVM_PRINT, UVM_DEFAULT | UVM_REFERENCE]


def copies(m):
    return bool(m & UVM_COPY) and not m & UVM_NOCOPY


def compares(m):
    return bool(m & UVM_COMPARE) and not m & UVM_NOCOMPARE


def make_class(name, base, fields, hook=False):
    """fields: [(name, kind, flags)]; hook: an attribute handled in do_copy and do_compare"""
    def init(self, nm='o'):
        base.__init__(self, nm)
        for f, k, m in fields:
            setattr(self, f, {'int': 0, 'str': '', 'obj': None, 'list': (), 'real': 0.5, 'none': None}[k])
        if hook:
            self.hooked = 0
    ns = {'__init__': init}
    if hook:
        def do_copy(self, rhs):
            base.do_copy(self, rhs)
            self.hooked = rhs.hooked

        def do_compare(self, rhs, comparer):
            r = base.do_compare(self, rhs, comparer)
            return bool(r) and self.hooked == rhs.hooked
        ns['do_copy'], ns['do_compare'] = do_copy, do_compare
    T = type(name, (base,), ns)
    if fields is None:
        uvm_object_utils(T)
        return T
    uvm_object_utils_begin(T)
    for f, k, m in fields:
        {'str': uvm_field_string, 'obj': uvm_field_object}.get(k, uvm_field_int)(f, m)
    uvm_object_utils_end(T)
    return T


NO = [0]


def fresh(name):
    NO[0] += 1
    return '%s%d' % (name, NO[0])


def pair(S, kinds):
    """a base class, a derived one and another derived one, with one field each"""
    fl = [S.choice('flags%d' % i, FLAGS) for i in range(2)]
    B = make_class(fresh('C01Base'), UVMObject, [('b', kinds[0], fl[0])])
    D = make_class(fresh('C01Der'), B, [('d', kinds[1], fl[1])], hook=True)
    O = make_class(fresh('C01Oth'), B, [('o', 'int', UVM_DEFAULT)])
    return B, D, O, fl


def mkfields(kinds):
    def val(S, kind, nm):
        return S.bits(nm, None) if kind == 'int' else S.str(nm)

    def f(S):
        B, D, O, fl = pair(S, kinds)
        container()
        x = D('x')
        x.b, x.d, x.hooked = [val(S, k, 'x' + n) for k, n in zip(kinds + ['int'], 'bdh')]
        keep = x.b, x.d, x.hooked
        how = S.choice('how', ['clone', 'copy', 'base', 'other', 'compare'])
        if how == 'clone':
            y = x.clone()
            S.check('of its type, with its name, another object', type(y) is D and y.get_name() == 'x' and y is not x)
            S.check('copied as the flags say', S.and_(y.b == (x.b if copies(fl[0]) else B().b), y.d == (x.d if copies(fl[1]) else D().d), y.hooked == x.hooked))
        elif how == 'copy':
            y = D('y')
            y.b, y.d, y.hooked = [val(S, k, 'y' + n) for k, n in zip(kinds + ['int'], 'bdh')]
            old = y.b, y.d
            y.copy(x)
            S.check('copied as the flags say', S.and_(y.b == (x.b if copies(fl[0]) else old[0]), y.d == (x.d if copies(fl[1]) else old[1]), y.hooked == x.hooked))
            S.check('the name stays', y.get_name() == 'y')
        elif how == 'base':
            y = B('y')
            y.copy(x)
            S.check('the fields of the base', y.b == (x.b if copies(fl[0]) else B().b))
            S.check('no fields of the derived class', not hasattr(y, 'd'))
            z = y.clone()
            S.check('a base object is copied on its own', z.b == (y.b if copies(fl[0]) else B().b))
        elif how == 'other':
            y = O('x')
            y.b = val(S, kinds[0], 'yb')
            c = UVMComparer()
            c.show_max = 9
            S.check('objects of different types differ', not y.compare(x, c))
            c.check_type = 0
            S.check('nor without their fields', not y.compare(x, c))
            z = B('z')
            z.b = y.b
            S.check('base objects compare on their own', bool(z.compare(x, c)) == (not compares(fl[0]) or bool(x.b == z.b)))
        else:
            y = D('other name')
            y.b, y.d, y.hooked = [val(S, k, 'y' + n) for k, n in zip(kinds + ['int'], 'bdh')]
            c = UVMComparer()
            c.show_max = 9
            d1 = S.and_(compares(fl[0]), S.not_(x.b == y.b))
            d2 = S.and_(compares(fl[1]), S.not_(x.d == y.d))
            r = x.compare(y, c)
            S.check('equal exactly if the fields are', S.iff(bool(r), S.and_(S.not_(d1), S.not_(d2), x.hooked == y.hooked)))
            S.check('each difference counts once', c.result == S.ite(d1, 1, 0) + S.ite(d2, 1, 0))
            r = x.compare(y)
            S.check('with the default policy as well', S.iff(bool(r), S.and_(S.not_(d1), S.not_(d2), x.hooked == y.hooked)))
            S.check('not equal to nothing', not x.compare(None, c))
        S.check('the original stays', S.and_(x.b == keep[0], x.d == keep[1], x.hooked == keep[2]))
    f.__name__ = f.__qualname__ = 'fields_%s_%s' % tuple(kinds)
    return f


for _k in (['int', 'int'], ['str', 'int'], ['str', 'str']):
    unit('UVMObject.copy', 'UVMObject.clone', 'UVMObject.compare', 'uvm_field_utils_start', limit='one field in a class and one in its base')(mkfields(_k))


# ---------------------------------------------------------------- graphs
def layout(S, tag, depth):
    n = S.int(tag + '.n', 0, 3)
    return [(tag + 'f%d' % i, S.choice('%s.k%d' % (tag, i), ['int', 'str', 'obj', 'obj', 'list', 'real', 'none']), S.choice('%s.m%d' % (tag, i), [UVM_DEFAULT] * 4 + FLAGS))
            for i in range(n)]


def all_fields(T):
    out = []
    for c in reversed(T.__mro__):
        out += CLS.get(c, [])
    return out


CLS = {}


def classes(S):
    CLS.clear()
    out = []
    for i in range(S.int('classes', 1, 4)):
        fs = layout(S, 'c%d' % i, 0)
        base = UVMObject
        if out:
            p = S.int('base%d' % i, -1, len(out) - 1)
            base = out[p] if p >= 0 else UVMObject
        T = make_class(fresh('C01Cls'), base, fs)
        CLS[T] = fs
        out.append(T)
    return out


def values(S, o, objs, q):
    for f, k, m in all_fields(type(o)):
        if k == 'int':
            v = S.choice('%s.%s' % (q, f), [0, 1, -1, 1 << 70, -(1 << 65), 5, True])
        elif k == 'str':
            v = S.choice('%s.%s' % (q, f), ['', 'a', 'A', 'ä', 'a '])
        elif k == 'real':
            v = S.choice('%s.%s' % (q, f), [0.5, -1.0, 1e30, 3])
        elif k == 'list':
            v = [S.int('%s.%s.%d' % (q, f, i), 0, 2) for i in range(S.int('%s.%s.n' % (q, f), 0, 2))]
        elif k == 'none':
            v = S.choice('%s.%s' % (q, f), [None, None, 3, 'x'])
        else:
            i = S.int('%s.%s' % (q, f), -1, len(objs) - 1)
            v = objs[i] if i >= 0 else None
        setattr(o, f, v)


def snapshot(objs):
    return [(type(o), o.get_name(), [(f, list(v) if isinstance(v, list) else v) for f, k, m in all_fields(type(o)) for v in [getattr(o, f)]]) for o in objs]


@search(runs=4000, weight=2)
def copying(S):
    """graphs of objects, with cycles, and their clones"""
    container()
    cl = classes(S)
    objs = [S.choice('t%d' % i, cl)('o%d' % i) for i in range(S.int('objs', 1, 4))]
    for i, o in enumerate(objs):
        values(S, o, objs, 'o%d' % i)
    before = snapshot(objs)
    r = S.choice('root', objs)
    c = r.clone()
    S.check('originals stay', snapshot(objs) == before)

    def check(x, y, path, active):
        S.check('type and name of a copy', type(x) is type(y) and x.get_name() == y.get_name(), path)
        S.check('a copy is another object', x is not y and all(y is not o for o in objs), path)
        for f, k, m in all_fields(type(x)):
            a, b = getattr(x, f), getattr(y, f)
            if not copies(m):
                S.check('fields which are not copied keep their initial value', b == getattr(type(x)(), f), (path, f))
            elif isinstance(a, UVMObject):
                if m & UVM_REFERENCE:
                    S.check('references are copied as such', a is b, (path, f))
                elif id(a) in active:
                    S.check('cycles are copied as such', b is active[id(a)], (path, f))
                else:
                    check(a, b, path + [f], dict(active, **{}) | {id(a): b})
            else:
                S.check('values are copied', a == b and type(a) is type(b), (path, f))
                S.check('arrays are not shared', not isinstance(a, list) or a is not b, (path, f))
    check(r, c, [], {id(r): c})
    S.check('nothing is left over', not UVMObject.uvm_global_copy_map)
    # changes of the copy do not show in the original
    for f, k, m in all_fields(type(c)):
        v = getattr(c, f)
        if isinstance(v, list):
            v.append(99)
        elif isinstance(v, UVMObject) and copies(m) and not m & UVM_REFERENCE:
            for g, k2, m2 in all_fields(type(v)):
                if k2 == 'int':
                    setattr(v, g, 12345)
    S.check('the copy is independent', snapshot(objs) == before)


def differences(x, y, seen, check_type, ref):
    """how many differences a full comparison counts"""
    n = 0
    if y is None:
        return 1
    if id(y) in seen:
        return 0 if seen[id(y)] is x else 1
    if check_type and type(x) is not type(y):
        n += 1
    seen[id(y)] = x
    for f, k, m in all_fields(type(x)):
        if not compares(m):
            continue
        if not hasattr(y, f):
            n += 1
            continue
        a, b = getattr(x, f), getattr(y, f)
        if a == b:
            continue
        if isinstance(a, UVMObject) and isinstance(b, UVMObject) and not ref:
            n += differences(a, b, seen, check_type, ref)
        else:
            n += 1
    return n


@search(runs=4000, weight=2)
def comparing(S):
    """two graphs of objects with few differences"""
    S.report_enabled = True
    container()
    cl = classes(S)
    k = S.int('objs', 1, 3)
    types = [S.choice('t%d' % i, cl) for i in range(k)]
    one = [T('o%d' % i) for i, T in enumerate(types)]
    for i, o in enumerate(one):
        values(S, o, one, 'o%d' % i)
    if S.choice('same', [1, 1, 1, 0]):
        two = [(T if S.int('other%d' % i, 0, 9) else S.choice('ot%d' % i, cl))('o%d' % i) for i, T in enumerate(types)]
        for i, o in enumerate(two):
            for f, kd, m in all_fields(type(o)):
                v = getattr(one[i], f, None)
                if isinstance(v, UVMObject):
                    v = two[[x is v for x in one].index(True)]
                if not S.int('d%d%s' % (i, f), 0, 7):
                    v = S.choice('v%d%s' % (i, f), [0, 'z', None, 2.5, [7], two[0]])
                setattr(o, f, list(v) if isinstance(v, list) else v)
    else:
        two = one
    i = S.int('i', 0, k - 1)
    c = UVMComparer()
    c.show_max = S.choice('show', [1000, 1, 2, 0])
    c.check_type = S.choice('ct', [1, 1, 0])
    c.policy = S.choice('policy', [UVM_DEFAULT_POLICY, UVM_DEFAULT_POLICY, UVM_REFERENCE])
    c.sev, c.verbosity = S.choice('sev', [UVM_INFO, UVM_WARNING]), S.choice('verb', [UVM_LOW, UVM_NONE])
    before = snapshot(one + two)
    want = differences(one[i], two[i], {}, c.check_type, c.policy == UVM_REFERENCE)
    r = one[i].compare(two[i], c)
    S.check('equal exactly if nothing differs', bool(r) == (want == 0), (r, want, c.miscompares))
    if c.show_max == 1000:
        S.check('every difference is counted', c.result == want, (c.result, want, c.miscompares))
        S.check('and described', c.miscompares.count('lhs ') + c.miscompares.count('no such field') >= want, c.miscompares)
    msgs = [x for x in S.reports if x[1] == 'MISCMP']
    S.check('reported as the policy says', len(msgs) == min(c.result, c.show_max) and all(x[0] == c.sev and x[3] == c.verbosity for x in msgs), (len(msgs), c.result))
    S.check('nothing is changed', snapshot(one + two) == before)
    S.check('the next comparison starts anew', bool(one[i].compare(one[i], c)) and c.result == 0 and c.miscompares == '')
