"""T01: TLM connections reach exactly the connected implementations."""
import uvm.tlm1.uvm_ports as P
import uvm.tlm1.uvm_exports as X
import uvm.tlm1.uvm_imps as I
from vc.unit import unit, search
from uvm.base.uvm_port_base import UVMPortBase, UVMPortComponent
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object_globals import UVM_PORT, UVM_EXPORT, UVM_IMPLEMENTATION
from uvm.tlm1.uvm_analysis_port import UVMAnalysisPort, UVMAnalysisExport, UVMAnalysisImp
from uvm.tlm2.uvm_tlm2_ports import UVMTLMBTransportPort, UVMTLMNbTransportFwPort, UVMTLMNbTransportBwPort
from uvm.tlm2.uvm_tlm2_exports import UVMTLMBTransportExport, UVMTLMNbTransportFwExport, UVMTLMNbTransportBwExport
from uvm.tlm2.uvm_tlm2_imps import UVMTLMBTransportImp, UVMTLMNbTransportFwImp, UVMTLMNbTransportBwImp

PROPERTY = {
 'title': 'A TLM port reaches exactly the implementations it is connected to',
 'statement': 'After bindings are resolved a port or export reaches exactly the set of implementations connected to it through any chain or sharing of ports and exports, each once and in connection order; a call through it arrives at the implementation exactly once with the same arguments and comes back with its result, and an analysis write reaches every subscriber once, in that order. A connection to nothing, to itself, from an implementation, from an export to a port, or to a provider whose interface lacks a method the port offers is rejected with an error and changes nothing; every other connection is accepted. A port whose number of implementations lies outside its minimum and maximum is reported as an error when bindings are resolved, and asking for an implementation index out of range warns and yields nothing.',
 'over': ['inputs', 'configurations'],
 'text': 'every connection graph, interface mask, size bound and index; every pair of TLM-1 port and provider types',
 'why': 'tests connect one port to one implementation of the same kind',
 'files': ['src/uvm/base/uvm_port_base.py', 'src/uvm/tlm1/uvm_analysis_port.py', 'src/uvm/tlm1/uvm_tlm_imps.py', 'src/uvm/tlm1/uvm_ports.py', 'src/uvm/tlm1/uvm_exports.py', 'src/uvm/tlm1/uvm_imps.py', 'src/uvm/macros/uvm_tlm_defines.py', 'src/uvm/tlm2/uvm_tlm2_imps.py'],
 'mech': [['UVMPortBase.connect, resolve_bindings, get_if', 'src/uvm/base/uvm_port_base.py'], ['interface masks', 'src/uvm/macros/uvm_tlm_defines.py'], ['call forwarding', 'src/uvm/tlm1/uvm_tlm_imps.py'], ['analysis broadcast', 'src/uvm/tlm1/uvm_analysis_port.py']],
 'note': 'connect, size bounds and index checks proved for all masks, kinds, bounds and indices; random connection graphs and the finite table of port types are bounded stand-ins',
}


def record_comp(S):
    for sev in ('error', 'warning', 'info', 'fatal'):
        S.stub(UVMPortComponent, 'uvm_report_' + sev, (lambda sev: lambda self, id_='', msg='', *a, **k: S.reports.append((sev, id_, msg)))(sev))


class Comp:
    """stand-in for the component behind a port: names and reports only"""

    def __init__(self, S, name):
        self.S, self.name = S, name

    def get_name(self): return self.name
    def get_full_name(self): return self.name
    def get_type_name(self): return 'comp'
    def get_parent(self): return None
    def uvm_report_error(self, i, m='', *a, **k): self.S.reports.append(('error', i, m))
    def uvm_report_warning(self, i, m='', *a, **k): self.S.reports.append(('warning', i, m))
    def uvm_report_info(self, i, m='', *a, **k): self.S.reports.append(('info', i, m))


def port(S, name, kind, lo=0, hi=-1, mask=0):
    return S.new(UVMPortBase, m_port_type=kind, m_min_size=lo, m_max_size=hi, m_comp=Comp(S, name), m_resolved=False,
                 m_imp_list={}, m_if_mask=mask, m_def_index=0, m_provided_by={}, m_provided_to={}, m_if=None, m_imp=None)


@unit('UVMPortBase.connect')
def connect(S):
    kinds = [UVM_PORT, UVM_EXPORT, UVM_IMPLEMENTATION]
    w = S.int('w', 0, cap=40)
    ka, kb = S.choice('ka', kinds), S.choice('kb', kinds)
    ma, mb = S.bits('ma', w), S.bits('mb', w)
    a, b = port(S, 'a', ka, mask=ma), port(S, 'b', kb, mask=mb)
    other = port(S, 'o', UVM_IMPLEMENTATION)
    a.m_provided_by['o'] = other
    other.m_provided_to['a'] = a
    i = S.pick('i', 0, w) if not S.symbolic or True else 0
    how = S.choice('how', ['ok', 'null', 'self'])
    a.connect({'ok': b, 'null': None, 'self': a}[how])
    lacks = (mb & ma) != ma
    bad = S.or_(how != 'ok', ka == UVM_IMPLEMENTATION, ka == UVM_EXPORT and kb == UVM_PORT, lacks)
    if bad:
        S.check('rejected with an error', len(S.reports.errors) == 1)
        S.check('a rejected connection changes nothing', list(a.m_provided_by) == ['o'] and b.m_provided_to == {} and a.m_provided_to == {} and b.m_provided_by == {})
    else:
        S.check('accepted without an error', len(S.reports.errors) == 0)
        S.check('both ends know each other', list(a.m_provided_by.items()) == [('o', other), ('b', b)] and list(b.m_provided_to.items()) == [('a', a)])
        S.check('an accepted interface offers every method of the port', S.implies(S.bit(ma, i), lambda: S.bit(mb, i)))


SHAPES = [[], [[0]], [[0], [1]], [[0], [1], [2]], [[0, 1]], [[0, 1], [1]], [[1], [0, 1]], [[0], [0]], [[2, 0, 1]], [[0, 1], [2, 1]], [[], [0]]]


@unit('UVMPortBase.resolve_bindings', 'UVMPortBase.m_add_list', 'UVMPortBase.get_if', limit='eleven connection shapes of up to three implementations')
def sizes(S):
    """a port bound to implementations and to exports that share them"""
    shape = S.choice('shape', SHAPES)
    lo, hi = S.int('lo', 0), S.int('hi', -1)
    p = port(S, 'p', S.choice('k', [UVM_PORT, UVM_EXPORT]), lo, hi)
    all_ = [port(S, 'c%d.imp' % k, UVM_IMPLEMENTATION) for k in range(3)]
    imps = []
    deep = S.bool('deep')
    for k, sub in enumerate(shape):
        for i in sub:
            if all_[i] not in imps:
                imps.append(all_[i])
        if len(sub) == 1 and not deep:
            p.m_provided_by['c%d.imp' % sub[0]] = all_[sub[0]]
        else:
            x = port(S, 'x%d' % k, UVM_EXPORT)
            for i in sub:
                x.m_provided_by['c%d.imp' % i] = all_[i]
            p.m_provided_by['x%d' % k] = x
    n = len(imps)
    p.resolve_bindings()
    S.check('size', p.size() == n)
    want = S.or_(n < lo, S.and_(hi != -1, n > hi))
    if want:
        S.check('a size outside the bounds is an error', len(S.reports.errors) >= 1)
    else:
        S.check('a size within the bounds is not an error', len(S.reports.errors) == 0)
    S.check('default implementation', p.m_if is (imps[0] if imps else None))
    e0, w0 = len(S.reports.errors), len(S.reports.warnings)
    i = S.int('i')
    r = p.get_if(i)
    if S.and_(0 <= i, i < n):
        S.check('implementation by index', S.or_(*[S.and_(i == k, r is imps[k]) for k in range(n)]))
        S.check('no warning', len(S.reports.warnings) == w0)
    else:
        S.check('out of range yields nothing', r is None)
        S.check('out of range warns', len(S.reports.warnings) == w0 + 1)
    p.resolve_bindings()
    S.check('resolving twice reports nothing new', len(S.reports.errors) == e0 and p.size() == n)


class Sink(UVMComponent):
    pass


class Imp(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.calls = []

    def write(self, t):
        self.calls.append(('write', t))


@search(runs=2500, weight=2)
def graph(S):
    """random DAG of analysis ports/exports/imps over random hierarchy"""
    record_comp(S)
    top = Sink('t01_top', None)
    order = []
    np, nx, ni = S.int('np', 1, 4), S.int('nx', 0, 4), S.int('ni', 1, 5)
    imps, exps, ports = [], [], []
    for k in range(ni):
        c = Imp('c%d' % k, top)
        imps.append(UVMAnalysisImp('imp', c))
    for k in range(nx):
        exps.append(UVMAnalysisExport('x%d' % k, Sink('xc%d' % k, top)))
    for k in range(np):
        ports.append(UVMAnalysisPort('p%d' % k, Sink('pc%d' % k, top)))
    allp = ports + exps + imps
    by = {id(x): [] for x in allp}
    for k in range(S.int('ne', 0, 14)):
        a = S.int('a%d' % k, 0, len(allp) - 1)
        b = S.int('b%d' % k, 0, len(allp) - 1)
        if a >= b and not (a == b) and a < np + nx:
            a, b = b, a       # keep the graph acyclic
        A, B = allp[a], allp[b]
        n = len(S.reports.errors)
        A.connect(B)
        ok = a != b and a < np + nx and not (np <= a < np + nx and b < np)
        S.check('accepted or rejected', (len(S.reports.errors) == n) == ok)
        if ok and B not in by[id(A)]:
            by[id(A)].append(B)

    def reach(x):
        if x in imps:
            return [x]
        out = []
        for y in by[id(x)]:
            for z in reach(y):
                if z not in out:
                    out.append(z)
        return out
    perm = list(range(len(allp)))
    for i in range(len(perm)):
        j = S.int('perm%d' % i, i, len(perm) - 1)
        perm[i], perm[j] = perm[j], perm[i]
    for i in perm:
        allp[i].m_comp.resolve_bindings()
    for x in allp:
        want = reach(x)
        S.check('exactly the connected implementations in order', [x.get_if(i) for i in range(x.size())] == want)
    nf = len(S.reports.errors)
    log = []
    for k, im in enumerate(imps):
        im.m_imp.write = (lambda k: lambda t: log.append((k, t)))(k)
    for n, x in enumerate(ports + exps):
        del log[:]
        t = object()
        x.write(t)
        S.check('each subscriber gets each item once in order', [(k, y is t) for k, y in log] == [(imps.index(z), True) for z in reach(x)])
    for x in allp:
        got = {}
        x.get_connected_to(got)
        S.check('get_connected_to', [c.get_port() for c in got.values()] == by[id(x)])
        back = {}
        x.get_provided_to(back)
        S.check('get_provided_to', {id(c.get_port()) for c in back.values()} == {id(y) for y in allp if x in by[id(y)]})


METHODS = {'put': ['put', 'try_put', 'can_put'], 'get': ['get', 'try_get', 'can_get'], 'peek': ['peek', 'try_peek', 'can_peek'],
           'transport': ['transport', 'nb_transport']}
SHAPE = {'Put': ['put'], 'Get': ['get'], 'Peek': ['peek'], 'GetPeek': ['get', 'peek'], 'Master': ['put', 'get', 'peek'],
         'Slave': ['put', 'get', 'peek'], 'Transport': ['transport']}
BLOCKING = {'put', 'get', 'peek', 'transport'}
EXPALIAS = {'BlockingSlave': 'uvm_blocking_slave_export'}


def methods(speed, shape):
    out = set()
    for f in SHAPE[shape]:
        for m in METHODS[f]:
            if speed == '' or (m in BLOCKING) == (speed == 'Blocking'):
                out.add(m)
    return out


TABLE = [(sp, sh) for sp in ('Blocking', 'NonBlocking', '') for sh in SHAPE]


def cls(mod, sp, sh, kind):
    c = getattr(mod, 'UVM' + sp + sh + kind, None)
    return c if c is not None else getattr(mod, EXPALIAS[sp + sh])


class Impl(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.calls = []
        for m in ['put', 'get', 'peek', 'transport']:
            setattr(self, m, self.mk(m, True))
        for m in ['try_put', 'can_put', 'try_get', 'can_get', 'try_peek', 'can_peek', 'nb_transport']:
            setattr(self, m, self.mk(m, False))
        for m in ['nb_transport_fw', 'nb_transport_bw']:
            setattr(self, m, self.mk(m, False))
        self.b_transport = self.mk('b_transport', True)

    def mk(self, m, task):
        async def t(*a):
            from cocotb.triggers import Timer
            self.calls.append((m, a))
            await Timer(3, 'NS')
            self.calls.append((m, 'done'))
        self.token = object()

        def f(*a):
            self.calls.append((m, a))
            return self.token
        return t if task else f


ARGS = {'put': 1, 'get': 1, 'peek': 1, 'transport': 2, 'try_put': 1, 'try_get': 1, 'try_peek': 1, 'can_put': 0, 'can_get': 0,
        'can_peek': 0, 'nb_transport': 2, 'b_transport': 2, 'nb_transport_fw': 3, 'nb_transport_bw': 3}


def call_through(S, port, meths, impl, label):
    for m in sorted(meths):
        del impl.calls[:]
        args = tuple([k] for k in range(ARGS[m]))
        r = getattr(port, m)(*args)
        if m in BLOCKING or m == 'b_transport':
            done = []

            async def go():
                await r
                done.append(list(impl.calls))
            S.simulate(go())
            S.check('a blocking call returns when the implementation does', done == [[(m, args), (m, 'done')]], label + m)
        else:
            S.check('the result comes back', r is impl.token, label + m)
            S.check('one call', len(impl.calls) == 1, label + m)
        S.check('the call arrives with its arguments', impl.calls and impl.calls[0][0] == m and len(impl.calls[0][1]) == len(args)
                and all(x is y for x, y in zip(impl.calls[0][1], args)), label + m)


@search(runs=1500, weight=2)
def table(S):
    """every TLM-1 port type against every provider type, directly and through an export"""
    record_comp(S)
    (sp, sh), (sq, th) = S.choice('port', TABLE), S.choice('prov', TABLE)
    mode = S.choice('mode', ['imp', 'export', 'port', 'viaexport'])
    same = S.bool('same')
    if same:
        sq, th = sp, sh
    top = Sink('t01_tab', None)
    impl = Impl('impl', top)
    A, B = Sink('a', top), Sink('b', top)
    p = cls(P, sp, sh, 'Port')('p', A)
    have, need = methods(sq, th), methods(sp, sh)
    role = lambda s: s if s in ('Master', 'Slave') else ''
    ok = need <= have and role(sh) in ('', role(th))
    if mode == 'port':
        prov = cls(P, sq, th, 'Port')('q', B)
        p.connect(prov)
    else:
        prov = cls(I, sq, th, 'Imp')('i', impl)
        if mode in ('export', 'viaexport'):
            x = cls(X, sq, th, 'Export')('x', B)
            x.connect(prov)
            S.check('an export takes its own implementation', len(S.reports.errors) == 0)
            p.connect(x)
        else:
            p.connect(prov)
    S.check('accepted exactly when every method is provided', (len(S.reports.errors) == 0) == ok, '%s%s to %s%s' % (sp, sh, sq, th))
    if ok and mode != 'port':
        for y in ([x] if mode != 'imp' else []) + [p, prov]:
            y.resolve_bindings()
        S.check('sizes are fine', len(S.reports.errors) == 0)
        call_through(S, p, need, impl, '%s%s.' % (sp, sh))
        if mode == 'viaexport':
            call_through(S, x, have, impl, 'export %s%s.' % (sq, th))


@search(runs=200)
def tlm2(S):
    record_comp(S)
    top = Sink('t01_tlm2', None)
    impl = Impl('impl', top)
    A, B = Sink('a', top), Sink('b', top)
    tri = [(UVMTLMBTransportPort, UVMTLMBTransportExport, UVMTLMBTransportImp, 'b_transport'),
           (UVMTLMNbTransportFwPort, UVMTLMNbTransportFwExport, UVMTLMNbTransportFwImp, 'nb_transport_fw'),
           (UVMTLMNbTransportBwPort, UVMTLMNbTransportBwExport, UVMTLMNbTransportBwImp, 'nb_transport_bw')]
    a, b = S.int('a', 0, 2), S.int('b', 0, 2)
    p, x, i = tri[a][0]('p', A), tri[b][1]('x', B), tri[b][2]('i', impl)
    x.connect(i)
    p.connect(x)
    S.check('accepted exactly when the interfaces agree', (len(S.reports.errors) == 0) == (a == b))
    if a == b:
        for y in (p, x, i):
            y.resolve_bindings()
        call_through(S, p, [tri[a][3]], impl, 'tlm2 ')
