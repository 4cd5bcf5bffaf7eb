"""K01: configuration and resource database."""
import re
from vc.unit import unit, search
from uvm.base import uvm_config_db as CD
from uvm.base.uvm_config_db import UVMConfigDb
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.base.uvm_resource import UVMResource, UVMResourceBase, UVMResourcePool, NAME_OVERRIDE, PRI_HIGH, PRI_LOW
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_pool import UVMPool
from uvm.comps.uvm_agent import UVMAgent
from uvm.base.uvm_object_globals import UVM_ALL_ON
from uvm.macros.uvm_object_defines import uvm_component_utils_begin, uvm_component_utils_end, uvm_field_int

PROPERTY = {
 'title': 'A configuration lookup finds the setting of the highest precedence',
 'statement': 'A lookup yields the value of the matching setting with the highest precedence, among equals the one set last: settings made while building count the more the higher in the hierarchy they are made, setting the same target again replaces the value and counts as the latest, and without a match the lookup fails and yields nothing. Fields applied automatically and the activity of an agent follow the same rule. A resource in the pool is found by every lookup of its name from a matching scope, in the order given by overriding and search priority, and reading and writing it by name reaches that resource.',
 'over': ['inputs', 'configurations', 'histories'],
 'text': 'every number of resources, precedence and value; histories of settings and lookups over a hierarchy',
 'why': 'tests make one or two settings and look them up once',
 'files': ['src/uvm/base/uvm_config_db.py', 'src/uvm/base/uvm_resource.py', 'src/uvm/base/uvm_resource_db.py', 'src/uvm/base/uvm_component.py', 'src/uvm/comps/uvm_agent.py'],
 'mech': [['UVMConfigDb.set, get', 'src/uvm/base/uvm_config_db.py'], ['UVMResourcePool.set, lookup_name, get_highest_precedence, sort_by_precedence, set_priority_queue', 'src/uvm/base/uvm_resource.py'], ['UVMComponent.apply_config_settings', 'src/uvm/base/uvm_component.py']],
 'note': 'choice of the highest precedence and changes of search priority proved for queues of any length; histories of three settings proved for all values and depths, longer ones searched; scopes are limited to those where whole and partial matches agree (see known findings)',
}


class Ctx:
    def __init__(self, name, depth): self.name, self.depth = name, depth
    def get_full_name(self): return self.name
    def get_depth(self): return self.depth


class Phase:
    def __init__(self, name): self.name = name
    def get_name(self): return self.name


class Top(Ctx):
    m_current_phase = None


class Cs:
    def __init__(self, top): self.top = top
    def get_root(self): return self.top


def fresh(S):
    S.stub(UVMResourcePool, 'rp', None)
    S.stub(UVMConfigDb, 'm_rsc', {})
    S.stub(UVMConfigDb, 'm_waiters', {})
    S.stub(CD.UVMConfigDbOptions, 'ready', True)
    S.stub(CD.UVMConfigDbOptions, 'tracing', False)
    top = Top('', 0)
    S.stub(UVMCoreService, 'get', classmethod(lambda cls: Cs(top)))
    return top


class Rsc(UVMResource):
    """a resource as the pool sees it"""
    def __init__(self, p, i): self.precedence, self.i = p, i
    def get_name(self): return 'n'


@unit('UVMResource.get_highest_precedence', 'UVMResourcePool.get_highest_precedence')
def highest(S):
    q = S.list('q', lambda e: Rsc(e.int('p'), e.idx))
    pick = UVMResource.get_highest_precedence if S.bool('cls') else UVMResourcePool().get_highest_precedence
    n = S.length(q)
    m = S.first_max(q, lambda e: e.precedence)
    r = pick(q)
    if r is None:
        S.check('nothing only from nothing', n == 0)
        return
    S.check('the first of the highest precedence', S.and_(n > 0, r.i == m))


class One(UVMResource):
    """a resource in a pool, told apart by identity"""
    def __init__(self, i=-1, p=0): self.i, self.precedence = i, p
    def get_name(self): return 'n'
    def get_type_handle(self): return 't'
    def match_scope(self, s): return True


@unit('UVMResourcePool.set_priority_queue', 'UVMResourcePool.set_priority_name', 'UVMResource.set_priority')
def priority(S):
    fresh(S)
    q = S.list('q', lambda e: One(e.idx))
    n = S.length(q)
    at = S.pick('at', 0, n)
    r = q[at]
    S.scan(q, lambda e: e.i == at)
    rp = UVMResourcePool.get()
    rp.rtab.add('n', q)
    pri = S.choice('pri', [PRI_HIGH, PRI_LOW])
    rp.set_priority_name(r, pri)
    q2 = rp.rtab.get('n')
    S.check('as many', S.length(q2) == n)
    S.check('no error', not S.reports.errors)
    if pri == PRI_HIGH:
        S.forall('moved to the front', q2, lambda j, e: e.i == S.ite(j == 0, at, S.ite(j <= at, j - 1, j)))
    else:
        S.forall('moved to the end', q2, lambda j, e: e.i == S.ite(j == n - 1, at, S.ite(j < at, j, j + 1)))


@unit('UVMResourcePool.set')
def pooled(S):
    fresh(S)
    rp = UVMResourcePool.get()
    q = S.list('q', lambda e: One(e.idx))
    n = S.length(q)
    if n > 0:
        rp.rtab.add('n', q)
    r = One()
    over = S.bool('over')
    rp.set(r, NAME_OVERRIDE if over else False)
    q2 = rp.rtab.get('n')
    S.check('one more', S.length(q2) == n + 1)
    S.forall('placed', q2, lambda j, e: e.i == S.ite(over, j - 1, S.ite(j == n, -1, j)))


SC = ['top.a', 'top.b', '*', 'top.*']
AT = ['top.a', 'top.b', 'other']


def match(sc, at):
    return sc == '*' or sc == at or (sc == 'top.*' and at != 'other')


@unit('UVMResourcePool.lookup_name', 'UVMResourcePool.get_by_name', 'UVMResourceBase.match_scope', 'UVMResource.set', 'UVMResource.set_override', 'UVMResourcePool.sort_by_precedence', limit='three resources of one name')
def looked_up(S):
    fresh(S)
    rp = UVMResourcePool.get()
    model = []
    for i in range(S.choice('n', [1, 2, 3])):
        r = UVMResource('x', S.choice('s%d' % i, ['top.a', 'top.b', '*']))
        r.write(S.int('v%d' % i))
        r.precedence = S.int('p%d' % i)
        if S.bool('o%d' % i):
            r.set_override()
            model.insert(0, r)
        else:
            r.set()
            model.append(r)
    at = S.choice('at', ['top.a', 'other'])
    want = [r for r in model if match({'top\\.a': 'top.a', 'top\\.b': 'top.b', '.*': '*'}[r.get_scope()], at)]
    got = rp.lookup_name(at, 'x', None, False)
    S.check('found in order', len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    S.check('not by another name', len(rp.lookup_name(at, 'y', None, False)) == 0)
    best = rp.get_by_name(at, 'x', None, False)
    if not want:
        S.check('none', best is None)
        return
    k = [i for i, r in enumerate(want) if r is best]
    S.check('one of them', len(k) == 1)
    for i, r in enumerate(want):
        S.check('highest', r.precedence < best.precedence if i < k[0] else r.precedence <= best.precedence)
    q = UVMResourcePool.sort_by_precedence(want)
    S.check('sorted, all there', len(q) == len(want) and all(any(a is b for b in q) for a in want))
    ix = [[i for i, b in enumerate(want) if b is a][0] for a in q]
    for i in range(len(q) - 1):
        S.check('sorted', S.or_(q[i].precedence > q[i + 1].precedence, S.and_(q[i].precedence == q[i + 1].precedence, ix[i] < ix[i + 1])))


def settings(S, top, n):
    """settings by a context of a symbolic depth, with or without a build phase -> [(seq, precedence, inst, value)]"""
    cs = {}
    model = {}
    for i in range(n):
        inst = S.choice('i%d' % i, ['a', '*'])
        who = S.choice('w%d' % i, ['top', 'tb'])
        if who not in cs:
            cs[who] = Ctx(who, S.int('d' + who, 0, 999))
        build = S.bool('b%d' % i)
        top.m_current_phase = Phase('build' if build else 'run')
        v = S.int('v%d' % i)
        full = who + '.' + inst
        UVMConfigDb.set(cs[who], inst, 'x', v)
        model[full, who] = (i, 1000 - cs[who].depth if build else 1000, v)
    return model


@unit('UVMConfigDb.set', 'UVMConfigDb.get', 'UVMConfigDb.exists', limit='three settings of one field by two components')
def configured(S):
    top = fresh(S)
    model = settings(S, top, S.choice('n', [1, 2, 3]))
    at = S.choice('at', ['top.a', 'top.z'])
    m = [x for (full, w), x in model.items() if full == at or full.endswith('*') and at.startswith(full[:-1])]
    out = []
    rel = S.choice('rel', [0, 1, 2]) if len(model) < 2 else 2
    if rel == 0:
        ok = UVMConfigDb.get(None, at, 'x', out)
    elif rel == 1:
        ok = UVMConfigDb.get(Ctx(at, 1), '', 'x', out)
    else:
        ok = UVMConfigDb.get(Ctx(at.split('.')[0], 1), at.split('.')[1], 'x', out)
    S.check('found', bool(ok) == (len(m) > 0))
    S.check('exists', UVMConfigDb.exists(None, at, 'x') == (len(m) > 0))
    if not m:
        S.check('nothing', out == [])
        return
    S.check('one value', len(out) == 1)
    for i, p, v in m:
        best = S.and_(*[S.or_(p > q, S.and_(p == q, i >= j)) for j, q, w in m])
        S.check('the highest, the latest', S.implies(best, out[0] == v))
    S.check('of the field only', not UVMConfigDb.get(None, at, 'y', []))


class Res(UVMResourceDb):
    pass


@unit('UVMResourceDb.set', 'UVMResourceDb.read_by_name', 'UVMResourceDb.write_by_name', 'UVMResource.write', 'UVMResource.read', limit='two resources, one write')
def by_name(S):
    fresh(S)
    m = []
    for i in range(S.choice('n', [1, 2])):
        sc, v = S.choice('s%d' % i, ['top.a', '*']), S.int('v%d' % i)
        UVMResourceDb.set(sc, 'x', v)
        m.append([sc, v])
    at = S.choice('at', ['top.a', 'other'])
    hit = [x for x in m if match(x[0], at)]
    nv = S.int('new')
    ro = S.bool('ro')
    if ro and hit:
        UVMResourceDb.get_by_name(at, 'x').set_read_only()
    ok = UVMResourceDb.write_by_name(at, 'x', nv)
    S.check('written if found', bool(ok) == bool(hit))
    if hit and not ro:
        hit[0][1] = nv
    S.check('a read only resource is reported', (len(S.reports.errors) == 1) == bool(ro and hit))
    for a in ('top.a', 'other'):
        h = [x for x in m if match(x[0], a)]
        out = []
        ok = UVMResourceDb.read_by_name(a, 'x', out)
        S.check('read', bool(ok) == bool(h) and len(out) == (1 if h else 0))
        if h:
            S.check('value', out[0] == h[0][1])


class Fields(UVMComponent):
    pass


uvm_component_utils_begin(Fields)
uvm_field_int('x', UVM_ALL_ON)
uvm_field_int('y', UVM_ALL_ON)
uvm_component_utils_end(Fields)


def applied(S, top, c, n):
    model = settings(S, top, n)
    return [x for (full, w), x in model.items() if full == 'top.a' or full == 'top.*']


def best_of(S, label, m, got):
    for i, p, v in m:
        S.check(label, S.implies(S.and_(*[S.or_(p > q, S.and_(p == q, i >= j)) for j, q, w in m]), got == v))


@unit('UVMComponent.apply_config_settings', 'UVMResourcePool.lookup_scope', limit='two settings of one field')
def automatic(S):
    top = fresh(S)
    c = S.new(Fields, m_name='top.a', x=-1, y=-1, print_config_matches=False)
    m = applied(S, top, c, S.choice('n', [0, 1, 2]))
    c.apply_config_settings()
    S.check('other fields kept', c.y == -1)
    if not m:
        S.check('kept', c.x == -1)
    best_of(S, 'the highest, the latest', m, c.x)


@unit('UVMAgent.build_phase', limit='two settings of the activity')
def agent(S):
    top = fresh(S)
    a = S.new(UVMAgent, m_name='top.a', is_active=1, print_config_matches=False)
    S.stub(UVMComponent, 'build_phase', lambda self, phase: None)
    cs, model = {}, {}
    for i in range(S.choice('n', [0, 1, 2])):
        who, inst = S.choice('w%d' % i, ['top', 'tb']), S.choice('i%d' % i, ['a', '*', 'z'])
        if who not in cs:
            cs[who] = Ctx(who, S.int('d' + who, 0, 999))
        build = S.bool('b%d' % i)
        top.m_current_phase = Phase('build' if build else 'run')
        v = S.int('v%d' % i)
        UVMConfigDb.set(cs[who], inst, 'is_active', v)
        model[who, inst] = (i, 1000 - cs[who].depth if build else 1000, v)
    a.build_phase(None)
    m = [x for (w, i), x in model.items() if w == 'top' and i != 'z']
    if not m:
        S.check('active unless set', a.get_is_active() == 1)
    best_of(S, 'the highest, the latest', m, a.get_is_active())


@search(runs=150, weight=2)
def history(S):
    """settings and lookups over a hierarchy against a model"""
    top = fresh(S)
    names = ['', 'top', 'top.a', 'top.a.b']
    ctx = {n: Ctx(n, 0 if n == '' else n.count('.') + 1) for n in names}
    insts = ['top.a', 'top.a.b', '*', 'top.*', 'top.a.*', 'other']
    fs = ['x', 'y']
    sets = {}
    for i in range(S.int('n', 1, 25)):
        kind = S.choice('k%d' % i, ['set', 'set', 'get'])
        f = S.choice('f%d' % i, fs)
        if kind == 'set':
            w = S.choice('w%d' % i, names)
            inst = S.choice('i%d' % i, ['', 'a', '*', 'a.b', 'a.*'])
            full = w if inst == '' else inst if w == '' else w + '.' + inst
            if full == '' or any(under(full, a) != whole(full, a) for a in ('top.a', 'top.a.b')):
                continue           # see known findings
            build = S.bool('b%d' % i)
            top.m_current_phase = Phase('build') if build else None
            v = S.int('v%d' % i)
            UVMConfigDb.set(ctx[w], inst, f, v)
            sets[w, full, f] = (1000 - ctx[w].depth if build else 1000, i, v)
        else:
            at = S.choice('a%d' % i, ['top.a', 'top.a.b'])
            hit = sorted((x for (w, full, g), x in sets.items() if g == f and under(full, at)), key=lambda x: x[:2])
            out = []
            ok = UVMConfigDb.get(None, at, f, out)
            S.check('found', bool(ok) == bool(hit))
            S.check('value', out == ([hit[-1][2]] if hit else []))


def rex(full):
    return full.replace('.', '\\.').replace('*', '.*')


def under(full, at):
    return re.search(rex(full), at) is not None


def whole(full, at):
    return re.fullmatch(rex(full), at) is not None


@search(runs=60)
def plain(S):
    """a scope which is a plain name"""
    fresh(S)
    names = ['top', 'top.a', 'top.a.b', 'top.ab', 'a', 'b.top.a', 'top.b']
    s, at = S.choice('s', names), S.choice('at', names)
    v = S.int('v')
    UVMConfigDb.set(None, s, 'x', v)
    out = []
    ok = UVMConfigDb.get(None, at, 'x', out)
    if s == at:
        S.check('a name matches itself', ok and out == [v])
    elif s in at:
        S.check('a name which contains the name of the scope does not match', not ok)
    else:
        S.check('another name does not match', not ok)
