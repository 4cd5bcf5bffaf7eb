"""H01: per-object report settings: the most specific one wins."""
from vc.unit import unit, search
from uvm.base.uvm_report_handler import UVMReportHandler
from uvm.base.uvm_report_object import UVMReportObject
from uvm.base.uvm_report_server import UVMReportServer
from uvm.base.uvm_report_message import UVMReportMessage
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_pool import UVMPool
from uvm.base.uvm_object_globals import *

PROPERTY = {
 'title': 'The most specific report setting (verbosity, action, file, severity) wins',
 'statement': 'For every report issued by an object, its verbosity limit, action and output file are those set for its exact severity and id if any, else for its id, else for its severity (action and file), else the default of the object, and each setter changes the outcome for exactly the reports it names. A severity override for the severity and id, or else for the severity, is applied before action and file are looked up. A report is processed exactly when its verbosity does not exceed the limit, the hierarchical setters act as if called on the component and each of its descendants and nowhere else, and resetting restores the defaults for everything.',
 'over': ['inputs', 'configurations'],
 'text': 'every combination of settings present, every severity, id, verbosity, action and file',
 'why': 'tests set one or two knobs; precedence among layers and what a setter leaves alone are not covered',
 'files': ['src/uvm/base/uvm_report_handler.py', 'src/uvm/base/uvm_report_object.py', 'src/uvm/base/uvm_component.py'],
 'mech': [['UVMReportHandler lookups and setters', 'src/uvm/base/uvm_report_handler.py'], ['UVMReportObject.uvm_report', 'src/uvm/base/uvm_report_object.py'], ['hierarchical setters', 'src/uvm/base/uvm_component.py']],
 'note': 'lookups, setters, overrides, filtering and reset proved for arbitrary unbounded setting tables; hierarchical setters are a bounded stand-in over random trees. When overrides exist for the id but not for this severity, either reading of precedence is accepted',
}
SEVS = [UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_FATAL]


def val(e):
    return e.int('v')


def fillpool(S, pool, name, keys='str'):
    m = S.map(name, keys, val)
    if S.symbolic:
        pool.pool = m
    else:
        for k in m:
            pool.add(k, m[k])
    return m


class State:
    """a handler with arbitrary settings for the severities that matter to the unit"""

    def __init__(self, S, kind, sevs):
        self.S = S
        h = self.h = UVMReportHandler('h')
        self.idm = fillpool(S, {'v': h.id_verbosities, 'a': h.id_actions, 'f': h.id_file_handles}[kind], 'byid')
        two = {'v': h.severity_id_verbosities, 'a': h.severity_id_actions, 'f': h.severity_id_file_handles}[kind]
        self.two = {}
        for s in sevs:
            if s not in self.two:
                self.two[s] = None
                if S.bool('pool%d' % s):
                    two[s] = UVMPool()
                    self.two[s] = fillpool(S, two[s], 'both%d' % s)
        self.default = S.int('default')
        self.sev = {}
        if kind == 'v':
            h.set_verbosity_level(self.default)
        if kind == 'f':
            h.set_default_file(self.default)
        if kind in 'af':
            for s in sevs:
                self.sev[s] = S.int('sev%d' % s)
                (h.set_severity_action if kind == 'a' else h.set_severity_file)(s, self.sev[s])

    def chain(self, s, i):
        """settings that apply, most specific first: [(present, value)]"""
        S, r = self.S, []
        if self.two[s] is not None:
            r.append((S.has(self.two[s], i), lambda: S.at(self.two[s], i)))
        r.append((S.has(self.idm, i), lambda: S.at(self.idm, i)))
        if self.sev:
            r.append((True, lambda: self.sev[s]))
        else:
            r.append((True, lambda: self.default))
        return r

    def first(self, s, i, ok=lambda v: True):
        for p, v in self.chain(s, i):
            if p:
                x = v()
                if ok(x):
                    return x
        return self.default


def sevid(S, n):
    return S.choice('s' + n, SEVS), S.str('i' + n, alphabet='ab', maxlen=2)


@unit('UVMReportHandler.get_verbosity_level')
def verbosity(S):
    s, i = sevid(S, '')
    st = State(S, 'v', [s])
    S.check('most specific verbosity', st.h.get_verbosity_level(s, i) == st.first(s, i))


@unit('UVMReportHandler.get_action')
def action(S):
    s, i = sevid(S, '')
    st = State(S, 'a', [s])
    S.check('most specific action', st.h.get_action(s, i) == st.first(s, i))


@unit('UVMReportHandler.get_file_handle', 'UVMReportHandler.get_severity_id_file')
def file(S):
    s, i = sevid(S, '')
    st = State(S, 'f', [s])
    S.check('most specific file', st.h.get_file_handle(s, i) == st.first(s, i, lambda v: v != 0))


GET = {'v': 'get_verbosity_level', 'a': 'get_action', 'f': 'get_severity_id_file'}


def setter(S, kind, names):
    """a setter changes exactly the reports it names (through the object's methods)"""
    s, i = sevid(S, '')
    s2, i2 = sevid(S, '2')
    st = State(S, kind, [s, s2])
    h = st.h
    o = S.new(UVMReportObject, m_rh=h)
    v = S.int('v')
    # the state after the setter, by the precedence rule
    which = S.choice('which', list(names))
    both2 = [(st.two[s2], 0)] if st.two[s2] is not None else []
    has2 = S.has(st.two[s2], i2) if both2 else False
    hasid = S.has(st.idm, i2)
    old = getattr(h, GET[kind])(s2, i2)
    meth = getattr(o, 'set_report_' + names[which])
    if which == 'both':
        meth(s, i, v)
        hit = S.and_(s == s2, i == i2)
    elif which == 'id':
        meth(i, v)
        hit = S.and_(i == i2, S.not_(has2))
    elif which == 'sev':
        meth(s, v)
        hit = S.and_(s == s2, S.not_(has2), S.not_(hasid))
    else:
        meth(v)
        hit = S.and_(S.not_(has2), S.not_(hasid), not st.sev)
    new = getattr(h, GET[kind])(s2, i2)
    if hit:
        S.check(which + ' setter takes effect', new == v)
    else:
        S.check(which + ' setter leaves other reports alone', new == old)


@unit('UVMReportHandler.set_severity_id_verbosity', 'UVMReportHandler.set_id_verbosity', 'UVMReportHandler.set_verbosity_level',
      'UVMReportObject.set_report_severity_id_verbosity', 'UVMReportObject.set_report_id_verbosity', 'UVMReportObject.set_report_verbosity_level')
def set_verbosity(S):
    setter(S, 'v', {'both': 'severity_id_verbosity', 'id': 'id_verbosity', 'default': 'verbosity_level'})


@unit('UVMReportHandler.set_severity_id_action', 'UVMReportHandler.set_id_action', 'UVMReportHandler.set_severity_action',
      'UVMReportObject.set_report_severity_id_action', 'UVMReportObject.set_report_id_action', 'UVMReportObject.set_report_severity_action')
def set_action(S):
    setter(S, 'a', {'both': 'severity_id_action', 'id': 'id_action', 'sev': 'severity_action'})


@unit('UVMReportHandler.set_severity_id_file', 'UVMReportHandler.set_id_file', 'UVMReportHandler.set_severity_file', 'UVMReportHandler.set_default_file',
      'UVMReportObject.set_report_severity_id_file', 'UVMReportObject.set_report_id_file', 'UVMReportObject.set_report_severity_file')
def set_file(S):
    setter(S, 'f', {'both': 'severity_id_file', 'id': 'id_file', 'sev': 'severity_file', 'default': 'default_file'})


class Server:
    def __init__(self):
        self.got = []

    def process_report_message(self, m):
        self.got.append(m)


@unit('UVMReportHandler.process_report_message', 'UVMReportHandler.set_severity_override', 'UVMReportHandler.set_severity_id_override',
      'UVMReportObject.uvm_report', 'UVMReportObject.uvm_process_report_message', 'UVMReportObject.uvm_report_enabled')
def process(S):
    """filtering, severity override, then action and file of the overridden severity"""
    s, i = sevid(S, '')
    h = UVMReportHandler('h')
    o = S.new(UVMReportObject, m_rh=h)
    srv = Server()
    S.stub(UVMReportServer, 'get_server', classmethod(lambda cls: srv))
    acts = {x: S.int('act%d' % x) for x in SEVS}
    files = {x: S.int('file%d' % x, 1) for x in SEVS}
    for x in SEVS:
        h.set_severity_action(x, acts[x])
        h.set_severity_file(x, files[x])
    i2, n2 = S.str('oi', alphabet='ab', maxlen=2), S.choice('on', SEVS)
    s2 = s if S.bool('os') else SEVS[(SEVS.index(s) + 1) % 4]
    idover = S.bool('idover')
    if idover:
        o.set_report_severity_id_override(s2, i2, n2)
    sevover = S.bool('sevover')
    n3 = SEVS[(SEVS.index(n2) + 2) % 4]
    s3 = s if S.bool('qs') else SEVS[(SEVS.index(s) + 3) % 4]
    if sevover:
        o.set_report_severity_override(s3, n3)
    lim, vb = S.int('limit'), S.int('verbosity', 0)
    o.set_report_verbosity_level(lim)
    o.uvm_report(s, i, 'text', vb, 'f.py', 7, 'ctx')
    if vb > lim:
        S.check('above the limit: not processed', len(srv.got) == 0)
        return
    S.check('within the limit: processed once', len(srv.got) == 1)
    m = srv.got[0]
    if S.and_(idover, i2 == i, s2 == s):
        want = [n2]
    elif sevover and s3 == s:
        want = [n3, s] if S.and_(idover, i2 == i) else [n3]
    else:
        want = [s]
    f = m.get_severity()
    S.check('severity after overrides', f in want)
    S.check('action of that severity', m.get_action() == acts[f])
    S.check('file of that severity', m.get_file() == files[f])
    S.check('content', S.and_(m.get_id() == i, m.get_message() == 'text', m.get_verbosity() == vb, m.get_filename() == 'f.py',
                              m.get_line() == 7, m.get_context() == 'ctx'))
    S.check('origin', m.get_report_object() is o and m.get_report_handler() is h)


@unit('UVMReportObject.uvm_report_info', 'UVMReportObject.uvm_report_warning', 'UVMReportObject.uvm_report_error', 'UVMReportObject.uvm_report_fatal',
      'UVMReportObject.uvm_report')
def entry(S):
    """the four entry points: severity, default verbosity, filter by the (severity, id) limit"""
    k = S.choice('k', [0, 1, 2, 3])
    name = ['info', 'warning', 'error', 'fatal'][k]
    sev, dflt = SEVS[k], [UVM_MEDIUM, UVM_MEDIUM, UVM_LOW, UVM_NONE][k]
    i = S.str('i', alphabet='ab', maxlen=2)
    st = State(S, 'v', [sev])
    o = S.new(UVMReportObject, m_rh=st.h)
    got = []
    S.stub(st.h, 'process_report_message', got.append)
    how = S.choice('how', ['named', 'generic', 'explicit'])
    if how == 'named':
        getattr(o, 'uvm_report_' + name)(i, 'm')
        vb = dflt
    elif how == 'generic':
        o.uvm_report(sev, i, 'm')
        vb = dflt
    else:
        vb = S.int('vb', 0)
        getattr(o, 'uvm_report_' + name)(i, 'm', vb)
    lim = st.first(sev, i)
    S.check('enabled tells whether it is processed', S.iff(o.uvm_report_enabled(vb, sev, i), vb <= lim))
    if vb <= lim:
        S.check('processed once', len(got) == 1)
        S.check('severity', got[0].get_severity() == sev)
        S.check('id', got[0].get_id() == i)
        S.check('verbosity', got[0].get_verbosity() == vb)
    else:
        S.check('filtered', len(got) == 0)


@unit('UVMReportHandler.initialize', 'UVMReportObject.reset_report_handler')
def reset(S):
    s, i = sevid(S, '')
    kind = S.choice('kind', ['v', 'a', 'f'])
    st = State(S, kind, SEVS[:1] if s == SEVS[0] else [s])
    h = st.h
    o = S.new(UVMReportObject, m_rh=h)
    o.set_report_severity_override(s, UVM_FATAL)
    o.set_report_severity_id_override(s, i, UVM_FATAL)
    o.reset_report_handler()
    S.check('verbosity', h.get_verbosity_level(s, i) == UVM_MEDIUM)
    S.check('action', h.get_action(s, i) == {UVM_INFO: UVM_DISPLAY, UVM_WARNING: UVM_DISPLAY, UVM_ERROR: UVM_DISPLAY | UVM_COUNT,
                                             UVM_FATAL: UVM_DISPLAY | UVM_EXIT}[s])
    S.check('file', h.get_file_handle(s, i) == 0)
    srv = Server()
    S.stub(UVMReportServer, 'get_server', classmethod(lambda cls: srv))
    o.uvm_report(s, i, 'm', 0)
    S.check('overrides are gone', srv.got[0].get_severity() == s)


@unit('UVMReportHandler.__init__')
def defaults(S):
    s, i = sevid(S, '')
    h = UVMReportHandler('h')
    S.check('verbosity', h.get_verbosity_level(s, i) == UVM_MEDIUM)
    S.check('action', h.get_action(s, i) == {UVM_INFO: UVM_DISPLAY, UVM_WARNING: UVM_DISPLAY, UVM_ERROR: UVM_DISPLAY | UVM_COUNT,
                                             UVM_FATAL: UVM_DISPLAY | UVM_EXIT}[s])
    S.check('file', h.get_file_handle(s, i) == 0)


class C(UVMComponent):
    pass


@search(runs=1200, weight=2)
def hierarchy(S):
    """hierarchical setters over random trees"""
    cs = [C('h01_top', None)]
    par = {0: None}
    for k in range(1, S.int('n', 1, 7)):
        par[k] = S.int('par%d' % k, 0, k - 1)
        cs.append(C('c%d' % k, cs[par[k]]))

    def below(k, root):
        while k is not None:
            if k == root:
                return True
            k = par[k]
        return False
    model = [{'v': {}, 'a': {}, 'f': {}} for _ in cs]
    ids = ['x', 'y']
    for q in range(S.int('ops', 1, 8)):
        r = S.int('r%d' % q, 0, len(cs) - 1)
        s, i, v = S.choice('s%d' % q, SEVS), S.choice('i%d' % q, ids), S.int('v%d' % q, 1, 500)
        op = S.choice('op%d' % q, ['id_verbosity', 'severity_id_verbosity', 'verbosity_level', 'severity_action', 'id_action', 'severity_id_action',
                                   'default_file', 'severity_file', 'id_file', 'severity_id_file'])
        hier = S.bool('hier%d' % q)
        kind = {'verbosity': 'v', 'level': 'v', 'action': 'a', 'file': 'f'}[op.split('_')[-1]]
        key = {'severity_id': ('b', s, i), 'id': ('i', i), 'severity': ('s', s)}.get(op.rsplit('_', 1)[0], ('d',))
        if op == 'verbosity_level':
            key = ('d',)
        args = {'b': (s, i), 'i': (i,), 's': (s,), 'd': ()}[key[0]] + (v,)
        getattr(cs[r], 'set_report_' + op + ('_hier' if hier else ''))(*args)
        for k in range(len(cs)):
            if k == r or (hier and below(k, r)):
                model[k][kind][key] = v
    for k, c in enumerate(cs):
        for s in SEVS:
            for i in ids:
                m = model[k]['v']
                S.check('verbosity', c.get_report_verbosity_level(s, i) == m.get(('b', s, i), m.get(('i', i), m.get(('d',), UVM_MEDIUM))))
                m = model[k]['a']
                d = {UVM_INFO: UVM_DISPLAY, UVM_WARNING: UVM_DISPLAY, UVM_ERROR: UVM_DISPLAY | UVM_COUNT, UVM_FATAL: UVM_DISPLAY | UVM_EXIT}[s]
                S.check('action', c.get_report_action(s, i) == m.get(('b', s, i), m.get(('i', i), m.get(('s', s), d))))
                m = model[k]['f']
                S.check('file', c.get_report_file_handle(s, i) == m.get(('b', s, i), m.get(('i', i), m.get(('s', s), m.get(('d',), 0)))))
