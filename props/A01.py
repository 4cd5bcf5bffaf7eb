"""A01: factory overrides."""
from vc.unit import unit, search
from uvm.base import uvm_factory as FM
from uvm.base.uvm_factory import UVMDefaultFactory, UVMFactoryOverride, UVMObjectWrapper
from uvm.base import uvm_registry as RG
from uvm.base.uvm_registry import UVMComponentRegistry, UVMObjectRegistry
from uvm.base.uvm_queue import UVMQueue

PROPERTY = {
 'title': 'The factory creates the type the overrides in force ask for',
 'statement': 'A request by type or by name creates, with the requested name and parent, the type found by following overrides from the requested type: at each step the earliest instance override whose path matches, else the type override of that type, a later type override replacing an earlier one unless told not to, until none applies. A cycle of overrides is reported and ends the search. A name which is neither registered nor overridden is reported and creates nothing, and an override by name does not change what its names stand for.',
 'over': ['inputs', 'configurations', 'histories'],
 'text': 'every number of overrides of a type; every chain over four types',
 'why': 'tests use one override at a time',
 'files': ['src/uvm/base/uvm_factory.py', 'src/uvm/base/uvm_registry.py'],
 'mech': [['UVMDefaultFactory.find_override_by_type, find_override_by_name, set_type_override_by_*, set_inst_override_by_type, create_*', 'src/uvm/base/uvm_factory.py'], ['UVMComponentRegistry.create, UVMObjectRegistry.create', 'src/uvm/base/uvm_registry.py']],
 'note': 'one step of the search proved for any number of overrides; chains and histories enumerated with two settings and searched with more; paths are those where whole and partial matches of patterns agree',
}


class Ty(UVMObjectWrapper):
    def __init__(self, n, i=-1): self.n, self.i, self.made = n, i, []
    def get_type_name(self): return self.n
    def create_object(self, name=''):
        o = Made(self, name, None)
        return o
    def create_component(self, name, parent):
        return Made(self, name, parent)


class Made:
    def __init__(self, ty, name, parent): self.ty, self.name, self.parent = ty, name, parent
    def get_type_name(self): return self.ty.n


def factory(types=()):
    f = UVMDefaultFactory()
    for t in types:
        f.register(t)
    return f


class Entry(UVMFactoryOverride):
    """an override of a list: of the requested type or of another, with or without a matching path"""
    def __init__(self, req, other, m, p, i):
        self.req, self.other, self.m, self.p = req, other, m, p
        self.ovrd_type, self.ovrd_type_name, self.selected, self.used = Ty('d', i), 'd', False, 0

    @property
    def orig_type(self): return self.req if self.m else self.other
    @property
    def orig_type_name(self): return self.orig_type.n
    @property
    def full_inst_path(self): return 'top.a' if self.p else 'zz'


@unit('UVMDefaultFactory.find_override_by_type')
def step_type(S):
    f, req, other = factory(), Ty('r'), Ty('x')
    q = S.list('q', lambda e: Entry(req, other, e.bool('m'), True, e.idx))
    S.scan(q, lambda e: e.m)
    f.m_type_overrides = q
    n = S.length(q)
    r = f.find_override_by_type(req, 'top.a')
    S.check('no report', not S.reports.errors)
    if r is req:
        S.forall('no override of the type', q, lambda i, e: S.not_(e.m))
        return
    S.check('one of the overrides', S.and_(r.i >= 0, r.i < n))
    S.check('of the type', q[r.i].m)
    S.forall('the first', q, lambda i, e: S.implies(i < r.i, S.not_(e.m)))


@unit('UVMDefaultFactory.find_override_by_type', 'UVMDefaultFactory.find_override_by_name')
def step_inst(S):
    req, other = Ty('r'), Ty('x')
    f = factory([req])
    top = Ty('t')
    if S.bool('typed'):
        f.m_type_overrides.append(UVMFactoryOverride(full_inst_path='*', orig_type=req, ovrd_type=top))
    typed = len(f.m_type_overrides) > 0
    q = S.list('q', lambda e: Entry(req, other, True, e.bool('p'), e.idx))
    n = S.length(q)
    S.scan(q, lambda e: e.p)
    qc = UVMQueue()
    qc.queue = q
    f.m_inst_override_queues[req] = qc
    path = S.choice('path', ['top.a', ''])
    if S.bool('byname'):
        r = f.find_override_by_name('r', path)
        r = req if r is None else r
    else:
        r = f.find_override_by_type(req, path)
    S.check('no report', not S.reports.errors)
    if path == '' or r is req or r is top:
        S.check('else the type override', r is (top if typed else req))
        if path != '':
            S.forall('no instance override matches', q, lambda i, e: S.not_(e.p))
        return
    S.check('one of the overrides', S.and_(r.i >= 0, r.i < n))
    S.check('which matches', q[r.i].p)
    S.forall('the first', q, lambda i, e: S.implies(i < r.i, S.not_(e.p)))


NAMES = ['A', 'B', 'C']
PATHS = ['top.a', '*', 'top.*', 'zz']


class Model:
    def __init__(self, names):
        self.names, self.types, self.inst = list(names), {}, []

    def type_(self, a, b, replace):
        if replace or a not in self.types:
            self.types[a] = b

    def inst_(self, a, b, path):
        self.inst.append((a, b, path))

    def find(self, a, path):
        """-> (name or None, loop)"""
        seen, cur = [], a
        while True:
            if cur in seen:
                return cur, True
            nxt = None
            if path != '':
                for o, b, p in self.inst:
                    if o == cur and (p == path or p == '*' or p == 'top.*' and path.startswith('top.')):
                        nxt = b
                        break
            if nxt is None:
                nxt = self.types.get(cur)
            if nxt is None:
                return (cur if cur in self.names else None), False
            seen.append(cur)
            cur = nxt


def history(S, n, names, extra=()):
    ty = {k: Ty(k) for k in names}
    f = factory(ty.values())
    m = Model(names)
    for i in range(n):
        kind = S.choice('k%d' % i, ['type', 'name', 'inst', 'reg'] if extra else ['type', 'name', 'inst'])
        if kind == 'reg':           # the type of an unregistered name is registered
            if 'X' not in ty:
                ty['X'] = Ty('X')
                f.register(ty['X'])
                m.names.append('X')
                names = m.names
            continue
        a = S.choice('a%d' % i, list(names) + (list(extra) if kind == 'name' and 'X' not in names else []))
        b = S.choice('b%d' % i, [k for k in names if k != a])
        if kind == 'inst':
            p = S.choice('p%d' % i, ['top.a', '*', 'zz'])
            f.set_inst_override_by_type(ty[a], ty[b], p)
            m.inst_(a, b, p)
        else:
            rep = S.bool('r%d' % i)
            if kind == 'type':
                f.set_type_override_by_type(ty[a], ty[b], rep)
            else:
                f.set_type_override_by_name(a, b, rep)
            m.type_(a, b, rep)
    return f, m, ty


def ask(S, f, m, ty, a, tag=''):
    path = S.choice('path' + tag, ['top', 'other', ''])
    name = S.choice('name' + tag, ['a', 'b']) if path != '' or S.bool('named' + tag) else ''
    full = name if path == '' else path + '.' + name
    want, loop = m.find(a, full)
    how = S.choice('how' + tag, ['obj', 'objname', 'comp', 'compname']) if a in ty else S.choice('how2' + tag, ['objname', 'compname'])
    parent = Ty('parent')
    if how == 'obj':
        o = f.create_object_by_type(ty[a], path, name)
    elif how == 'objname':
        o = f.create_object_by_name(a, path, name)
    elif how == 'comp':
        o = f.create_component_by_type(ty[a], path, name, parent)
    else:
        o = f.create_component_by_name(a, path, name, parent)
    S.check('a cycle is reported', (len(S.reports.errors) > 0) == loop)
    if want is None:
        S.check('nothing, and a report', o is None and len(S.reports.warnings) > 0)
        return
    S.check('created', o is not None)
    S.check('the type', o.ty is ty[want])
    S.check('name and parent', o.name == name and o.parent is (parent if 'comp' in how else None))


@unit('UVMDefaultFactory.set_type_override_by_type', 'UVMDefaultFactory.set_type_override_by_name', 'UVMDefaultFactory.set_inst_override_by_type', 'UVMDefaultFactory.create_object_by_type', 'UVMDefaultFactory.create_object_by_name', 'UVMDefaultFactory.create_component_by_type', 'UVMDefaultFactory.create_component_by_name', limit='one override, three types')
def one(S):
    f, m, ty = history(S, 1, NAMES, ['X'])
    ask(S, f, m, ty, S.choice('req', NAMES + ['X', 'Y']))


@unit('UVMDefaultFactory.find_override_by_type', 'UVMDefaultFactory.find_override_by_name', limit='two overrides, three types, by type or by name')
def two(S):
    f, m, ty = history(S, 2, NAMES)
    a = 'A'
    S.stub(UVMDefaultFactory, 'debug_create_by_type', lambda *k: None)
    path = 'top.a'
    want, loop = m.find(a, path)
    if S.bool('byname'):
        r = f.find_override_by_name(a, path)
        r = ty[a] if r is None else r
    else:
        r = f.find_override_by_type(ty[a], path)
    S.check('the type', r is ty[want])
    S.check('a cycle is reported', (len(S.reports.errors) > 0) == loop)


@unit('UVMDefaultFactory.set_type_override_by_type', 'UVMDefaultFactory.set_type_override_by_name', 'UVMDefaultFactory.register', limit='three overrides, a type which is registered late')
def late(S):
    ty = {k: Ty(k) for k in NAMES}
    f = factory(ty.values())
    m = Model(NAMES)

    def other(i):
        if S.bool('other%d' % i):
            f.set_type_override_by_type(ty['B'], ty['C'], False)
            m.type_('B', 'C', False)
    other(0)
    b = S.choice('b', ['A', 'B'])
    f.set_type_override_by_name('X', b)
    m.type_('X', b, True)
    other(1)
    ty['X'] = Ty('X')
    f.register(ty['X'])
    m.names.append('X')
    c, rep = S.choice('c', NAMES), S.bool('rep')
    how = S.choice('again', ['no', 'type', 'name'])
    if how == 'type':
        f.set_type_override_by_type(ty['X'], ty[c], rep)
    elif how == 'name':
        f.set_type_override_by_name('X', c, rep)
    if how != 'no':
        m.type_('X', c, rep)
    want, loop = m.find('X', 'top.a')
    o = f.create_object_by_type(ty['X'], 'top', 'a') if S.bool('bytype') else f.create_object_by_name('X', 'top', 'a')
    S.check('the type', o is not None and o.ty is ty[want])
    S.check('no report', not S.reports.errors and not S.reports.warnings)


@search(runs=400, weight=3)
def many(S):
    names = ['A', 'B', 'C', 'D']
    f, m, ty = history(S, S.int('n', 1, 8), names, ['X'])
    for j in range(3):
        del S.reports[:]
        ask(S, f, m, ty, S.choice('req%d' % j, names + ['X', 'Y']), str(j))
        if S.bool('dbg%d' % j):
            f.debug_create_by_type(ty['A'], 'top', 'a')


class CA:
    def __init__(self, name, parent=None): self.name, self.parent = name, parent
    def get_type_name(self): return 'T'


class CB(CA):
    pass


class Par:
    def __init__(self, n): self.n = n
    def get_full_name(self): return self.n


@unit('UVMComponentRegistry.create', 'UVMObjectRegistry.create', 'UVMComponentRegistry.set_type_override', 'UVMComponentRegistry.set_inst_override', limit='two classes')
def registry(S):
    f = UVMDefaultFactory()
    S.stub(RG, 'get_factory', lambda: f)
    comp = S.bool('comp')
    R = UVMComponentRegistry if comp else UVMObjectRegistry
    for d in ('registry_db', 'registered', 'comps' if comp else 'objs'):
        S.stub(R, d, {})
    same = S.bool('same')
    a = R(CA, 'CA')
    b = R(CB, 'CA' if same else 'CB')
    over = S.choice('over', ['no', 'type', 'inst']) if not same else 'no'
    inst = S.choice('inst', ['c', ''])
    rel = S.choice('rel', [Par('top'), None])
    if over == 'type':
        a.set_type_override(b, S.bool('rep'))
    elif over == 'inst':
        if rel is None and inst == '':
            inst = 'top.c'
        a.set_inst_override(b, inst, rel)
    par = S.choice('par', [Par('top'), None])
    ctx = S.choice('ctx', ['', 'top', 'other'])
    o = a.create('c', par, ctx)
    at = (ctx + '.c') if ctx else (par.n + '.c') if par else 'c'
    want = CA
    if over == 'type':
        want = CB
    elif over == 'inst':
        full = inst if rel is None else rel.n if inst == '' else rel.n + '.' + inst
        if at == full:
            want = CB
        elif full in at:
            return
    S.check('the class', type(o) is want)
    S.check('the name', o.name == 'c')
    S.check('the parent', o.parent is (par if comp else None))
    S.check('the other class', type(b.create('d', None)) is CB)
