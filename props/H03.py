"""H03: report catchers see every report in registration order and decide its fate."""
from vc.unit import unit, search
from uvm.base.uvm_report_object import UVMReportObject
from uvm.base.uvm_report_server import UVMReportServer
from uvm.base.uvm_report_message import UVMReportMessage
from uvm.base.uvm_report_catcher import UVMReportCatcher, UVMReportCb, THROW, CAUGHT, UNKNOWN_ACTION
from uvm.base.uvm_object_globals import *
from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND

PROPERTY = {
 'title': 'Report catchers run in order and alone decide what becomes of a report',
 'statement': 'Every issued report is offered to each enabled catcher in registration order until one catches it; a caught report goes no further and is not issued, and every other report goes on with exactly the changes the catchers made. A catcher that changes the severity gets the default action of the new severity, unless an action was set explicitly or was not the default; caught and demoted reports are counted under their original severity. Reports issued by a catcher are executed once without being caught themselves, and the debug modes restore every field (extra elements included) or ignore catching.',
 'over': ['inputs', 'histories'],
 'text': 'every catcher list, catcher behaviour, severity, action and action table',
 'why': 'the one catcher test has one catcher and one report shape',
 'files': ['src/uvm/base/uvm_report_catcher.py', 'src/uvm/base/uvm_report_message.py'],
 'mech': [['UVMReportCatcher.process_all_report_catchers', 'src/uvm/base/uvm_report_catcher.py'], ['UVMReportCatcher.process_report_catcher', 'src/uvm/base/uvm_report_catcher.py'], ['UVMReportMessage.do_copy', 'src/uvm/base/uvm_report_message.py']],
 'note': 'severities, actions and action tables arbitrary; catcher lists up to three in the proofs, up to six in the search',
}
SEVS = [UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_FATAL]


class Srv:
    """report server contract: composes and executes"""

    def __init__(self):
        self.done = []

    def compose_report_message(self, m, name=''):
        return 'C:' + m.get_message()

    def execute_report_message(self, m, text):
        self.done.append((m, m.get_severity(), m.get_id(), m.get_message(), m.get_action(), text))


class Obj(UVMReportObject):
    """report object contract: an arbitrary action table"""

    def __init__(self, table, by_id=None):
        super().__init__('ro')
        self.table, self.by_id = table, by_id or {}

    def get_report_action(self, severity, id):
        if id in self.by_id:
            return self.by_id[id]
        return self.table[severity]

    def get_report_file_handle(self, severity, id):
        return 7


class C(UVMReportCatcher):
    def __init__(self, name, log, ret=THROW, sev=None, act=None, extra=None):
        super().__init__(name)
        self.log, self.ret, self.sev, self.act, self.extra = log, ret, sev, act, extra

    def catch(self):
        self.log.append(self)
        if self.act is not None:
            self.set_action(self.act)
        if self.sev is not None:
            self.set_severity(self.sev)
        if self.extra is not None:
            self.extra(self)
        return self.ret


def clean(S):
    S.stub(UVMReportCatcher, 'm_debug_flags', 0)
    S.stub(UVMReportCatcher, 'in_catcher', 0)


def msg(ro, srv, sev, act, id='ID'):
    m = UVMReportMessage('m')
    m.set_report_message(sev, id, 'text', 0, '', 0, '')
    m.set_report_object(ro)
    m.set_report_handler(ro.get_report_handler())
    m.set_report_server(srv)
    m.set_action(act)
    return m


def counters():
    c = UVMReportCatcher
    return {('caught', UVM_FATAL): c.m_caught_fatal, ('caught', UVM_ERROR): c.m_caught_error, ('caught', UVM_WARNING): c.m_caught_warning,
            ('demoted', UVM_FATAL): c.m_demoted_fatal, ('demoted', UVM_ERROR): c.m_demoted_error, ('demoted', UVM_WARNING): c.m_demoted_warning}


@unit('UVMReportCatcher.process_all_report_catchers', 'UVMReportCatcher.process_report_catcher', limit='up to three catchers')
def order(S):
    """which catchers run, in which order, and what is returned"""
    clean(S)
    srv, log = Srv(), []
    ro = Obj({s: S.int('a%d' % s, 0, 127) for s in SEVS})
    n = S.choice('n', [0, 1, 2, 3])
    cs = []
    for k in range(n):
        c = C('c%d' % k, log, ret=S.choice('r%d' % k, [THROW, CAUGHT]))
        on = S.bool('on%d' % k)
        if not on:
            c.callback_mode(0)
        UVMReportCb.add(None, c)
        cs.append((c, on))
    sev = S.choice('sev', [UVM_INFO, UVM_ERROR])
    act = S.int('act', 0, 127)
    m = msg(ro, srv, sev, act)
    c0 = counters()
    r = UVMReportCatcher.process_all_report_catchers(m)
    want, thrown = [], True
    for c, on in cs:
        if on and thrown:
            want.append(c)
            thrown = c.ret != CAUGHT
    S.check('catchers run in order until one catches', log == want)
    S.check('caught reports are reported as caught', bool(r) == thrown)
    S.check('report unchanged', S.and_(m.get_severity() == sev, m.get_action() == act, m.get_id() == 'ID', m.get_message() == 'text'))
    c1 = counters()
    for key in c0:
        S.check('caught count', c1[key] == c0[key] + (1 if key == ('caught', sev) and not thrown else 0))
    S.check('nothing executed', srv.done == [])


@unit('UVMReportCatcher.process_all_report_catchers', 'UVMReportCatcher.process_report_catcher', 'UVMReportCatcher.set_severity', 'UVMReportCatcher.set_action',
      'UVMReportCatcher.get_severity')
def severity(S):
    """one catcher that may change severity and action"""
    clean(S)
    srv, log = Srv(), []
    t = {s: S.int('a%d' % s, 0, 127) for s in SEVS}
    ro = Obj(t, {'ID': S.int('id_action', 0, 127)})
    sev, new = S.choice('sev', SEVS), S.choice('new', SEVS)
    act = S.int('act', 0, 127)
    setit = S.bool('setit')
    to = S.int('to', 0, 127)
    c = C('c', log, ret=S.choice('r', [THROW, CAUGHT]), sev=new, act=to if setit else None)
    UVMReportCb.add(None, c)
    m = msg(ro, srv, sev, act)
    c0 = counters()
    r = UVMReportCatcher.process_all_report_catchers(m)
    S.check('severity is the one the catcher chose', m.get_severity() == new)
    if setit:
        S.check('an explicit action stays', m.get_action() == to)
    elif sev == new:
        S.check('action unchanged', m.get_action() == act)
    else:
        S.check('default action follows the severity', m.get_action() == S.ite(act == t[sev], t[new], act))
    S.check('caught', bool(r) == (c.ret == THROW))
    c1 = counters()
    for key in c0:
        k, s = key
        S.check('counted', c1[key] == c0[key] + (1 if s == sev and (c.ret == CAUGHT if k == 'caught' else new < sev) else 0))


@unit('UVMReportCatcher.process_all_report_catchers', limit='two catchers')
def two(S):
    """two catchers that both change severity; the second sees what the first left"""
    clean(S)
    srv, log = Srv(), []
    t = {s: S.int('a%d' % s, 0, 127) for s in SEVS}
    ro = Obj(t, {'ID': S.int('id_action', 0, 127)})
    sev = S.choice('sev', [UVM_FATAL, UVM_ERROR])
    act = S.int('act', 0, 127)
    new = [S.choice('n%d' % k, [None, UVM_INFO, UVM_FATAL]) for k in range(2)]
    setit = [S.bool('s%d' % k) for k in range(2)]
    to = [S.int('to%d' % k, 0, 127) for k in range(2)]
    seen = []
    for k in range(2):
        UVMReportCb.add(None, C('c%d' % k, log, THROW, new[k], to[k] if setit[k] else None))
    cs = log
    m = msg(ro, srv, sev, act)
    c0 = counters()
    UVMReportCatcher.process_all_report_catchers(m)
    s, a = sev, act
    for k in range(2):
        p = s
        if new[k] is not None:
            s = new[k]
        if setit[k]:
            a = to[k]
        elif s != p:
            a = S.ite(a == t[p], t[s], a)
    S.check('severity', m.get_severity() == s)
    S.check('action', m.get_action() == a)
    c1 = counters()
    for key in c0:
        S.check('demotions are counted once, against the original severity', c1[key] == c0[key] + (1 if key == ('demoted', sev) and s < sev else 0))


@unit('UVMReportCatcher.get_client', 'UVMReportCatcher.get_context', 'UVMReportCatcher.set_message', 'UVMReportCatcher.set_verbosity', 'UVMReportCatcher.set_id',
      'UVMReportCatcher.set_context', 'UVMReportCatcher.get_verbosity', 'UVMReportCatcher.get_fname', 'UVMReportCatcher.get_line')
def access(S):
    """getters show the report, setters change exactly one field"""
    clean(S)
    srv, log = Srv(), []
    ro = Obj({s: 0 for s in SEVS})
    m = msg(ro, srv, UVM_ERROR, S.int('act', 1, 127))
    F = {'severity': UVM_ERROR, 'id': S.str('id', alphabet='ab', maxlen=2), 'message': S.str('msg', alphabet='ab', maxlen=2), 'verbosity': S.int('verb'), 'fname': 'f.py',
         'line': S.int('line', 0), 'context': 'CTX', 'action': m.get_action()}
    m.set_report_message(F['severity'], F['id'], F['message'], F['verbosity'], F['fname'], F['line'], F['context'])
    which = S.choice('which', ['none', 'severity', 'id', 'message', 'verbosity', 'context', 'action'])
    new = {'severity': UVM_INFO, 'id': 'NEWID', 'message': 'newmsg', 'verbosity': S.int('nv'), 'context': 'CTX2', 'action': S.int('na', 0, 127)}

    def look(c):
        for k in F:
            S.check('catcher sees ' + k, getattr(c, 'get_' + k)() == F[k])
        S.check('catcher sees the client', c.get_client() is ro)
        S.check('catcher sees the elements', c.get_element_container() is m.get_element_container())
        if which != 'none':
            getattr(c, 'set_' + which)(new[which])
    UVMReportCb.add(None, C('c', log, THROW, extra=look))
    UVMReportCatcher.process_all_report_catchers(m)
    got = {'severity': m.get_severity(), 'id': m.get_id(), 'message': m.get_message(), 'verbosity': m.get_verbosity(), 'fname': m.get_filename(),
           'line': m.get_line(), 'context': m.get_context(), 'action': m.get_action()}
    for k in F:
        if k == 'action' and which == 'severity':
            continue
        S.check('field ' + k, got[k] == (new[k] if k == which else F[k]))
    S.check('client kept', m.get_report_object() is ro)
    S.check('server kept', m.get_report_server() is srv)


@unit('UVMReportCatcher.process_all_report_catchers', 'UVMReportCatcher.process_report_catcher', 'UVMReportMessage.do_copy', 'UVMReportMessageElementContainer.do_copy')
def debug(S):
    """DO_NOT_CATCH and DO_NOT_MODIFY"""
    clean(S)
    srv, log = Srv(), []
    t = {s: S.int('a%d' % s, 0, 127) for s in SEVS}
    ro = Obj(t)
    act = S.int('act', 0, 127)
    m = msg(ro, srv, UVM_ERROR, act)
    v0 = S.int('v0')
    line = S.int('line', 0)
    m.set_report_message(UVM_ERROR, 'ID', 'text', v0, 'f.py', line, 'CTX')
    val = S.int('val')
    ne = S.choice('ne', [0, 1, 2])
    for k in range(ne):
        m.add('e%d' % k, val + k, UVM_LOG + k)
    fl = S.choice('fl', [0, 1, 2, 3])

    def meddle(c):
        c.set_verbosity(S.int('v1'))
        c.set_id('OTHER')
        c.set_message('changed')
        c.set_context('CTX2')
        c.add_int('more', 5, 8, 0)
    ret = S.choice('ret', [THROW, CAUGHT])
    c1 = C('c1', log, ret, UVM_INFO, S.int('to', 0, 127), meddle)
    last = []
    c2 = C('c2', log, THROW, extra=lambda c: last.append((c.get_severity(), c.get_id(), c.get_message(), c.get_verbosity(), c.get_context(), c.get_action())))
    UVMReportCb.add(None, c1)
    UVMReportCb.add(None, c2)
    UVMReportCatcher.debug_report_catcher(fl)
    r = UVMReportCatcher.process_all_report_catchers(m)
    nc, nm = bool(fl & UVMReportCatcher.DO_NOT_CATCH), bool(fl & UVMReportCatcher.DO_NOT_MODIFY)
    caught = ret == CAUGHT and not nc
    S.check('catching is ignored in that mode only', bool(r) == (not caught))
    S.check('next catcher runs', log == ([c1] if caught else [c1, c2]))
    if nm:
        S.check('every field restored', S.and_(m.get_severity() == UVM_ERROR, m.get_action() == act, m.get_verbosity() == v0, m.get_line() == line))
        S.check('texts restored', (m.get_id(), m.get_message(), m.get_filename(), m.get_context()) == ('ID', 'text', 'f.py', 'CTX'))
        S.check('origin kept', m.get_report_object() is ro and m.get_report_server() is srv)
        if last:
            S.check('the next catcher sees the restored report', S.and_(last[0][0] == UVM_ERROR, last[0][3] == v0, last[0][5] == act))
    else:
        S.check('changes stay', m.get_id() == 'OTHER' and m.get_message() == 'changed' and m.get_context() == 'CTX2')
    es = m.get_element_container().get_elements()
    k = ne + (0 if nm else 1)
    S.check('number of elements', len(es) == k)
    for j in range(ne):
        S.check('elements', S.and_(es[j].get_name() == 'e%d' % j, es[j].get_val() == val + j, es[j].get_action() == UVM_LOG + j))


@unit('UVMReportMessage.do_copy', 'UVMReportMessageElementContainer.do_copy', 'UVMReportMessageElementContainer.delete', 'UVMReportMessageElementContainer.add')
def copying(S):
    """copies of a report are equal and independent"""
    ro, ro2 = Obj({}), Obj({})
    a, b = UVMReportMessage('a'), UVMReportMessage('b')
    v, l, act = S.int('v'), S.int('l'), S.int('act')
    a.set_report_message(UVM_WARNING, 'ID', 'text', v, 'f.py', l, 'CTX')
    a.set_action(act)
    a.set_file(3)
    a.set_report_object(ro)
    b.set_report_object(ro2)
    n, k = S.choice('n', [0, 1, 2]), S.choice('k', [0, 1, 3])
    x = S.int('x')
    for j in range(n):
        a.add('e%d' % j, x + j, j)
    for j in range(k):
        b.add('old%d' % j, 0)
    how = S.choice('how', ['copy', 'clone'])
    if how == 'copy':
        b.copy(a)
    else:
        b = a.clone()
    S.check('fields', S.and_(b.get_severity() == UVM_WARNING, b.get_verbosity() == v, b.get_line() == l, b.get_action() == act, b.get_file() == 3))
    S.check('texts', (b.get_id(), b.get_message(), b.get_filename(), b.get_context()) == ('ID', 'text', 'f.py', 'CTX'))
    S.check('origin', b.get_report_object() is ro)
    eb = b.get_element_container()
    S.check('elements copied', eb.size() == n)
    for j in range(n):
        e = eb.get_elements()[j]
        S.check('element', S.and_(e.get_name() == 'e%d' % j, e.get_val() == x + j, e.get_action() == j))
    a.add('later', 1)
    if n:
        a.get_element_container().get_elements()[0].set_val(x + 100)
        S.check('copy is independent', eb.get_elements()[0].get_val() == x)
        d = S.choice('d', list(range(n)))
        eb.delete(d)
        S.check('one element deleted', [e.get_name() for e in eb.get_elements()] == ['e%d' % j for j in range(n) if j != d])
    S.check('source keeps its elements', a.get_element_container().size() == n + 1)


@unit('UVMReportCatcher.uvm_report', 'UVMReportCatcher.uvm_process_report_message', 'UVMReportCatcher.issue', 'UVMReportCatcher.uvm_report_error',
      'UVMReportCatcher.uvm_report_info', 'UVMReportCatcher.uvm_report_warning', 'UVMReportCatcher.uvm_report_fatal')
def nested(S):
    """reports issued while catching"""
    S.report_enabled = True
    clean(S)
    srv, log = Srv(), []
    t = {s: S.int('a%d' % s, 0, 127) for s in SEVS}
    ro = Obj(t)
    act = S.int('act', 0, 127)
    m = msg(ro, srv, UVM_ERROR, act)
    how = S.choice('how', ['error', 'warning', 'info', 'fatal', 'issue', 'bad'])

    def say(c):
        if how == 'issue':
            c.issue()
        elif how != 'bad':
            getattr(c, 'uvm_report_' + how)('NID', 'nested', UVM_NONE, 'g.py', 3, '', 1)
    c1 = C('c1', log, UNKNOWN_ACTION if how == 'bad' else THROW, extra=say)
    UVMReportCb.add(None, c1)
    r = UVMReportCatcher.process_all_report_catchers(m)
    S.check('outer report goes on', bool(r))
    S.check('catcher ran once', log == [c1])
    s = {'error': UVM_ERROR, 'warning': UVM_WARNING, 'info': UVM_INFO, 'fatal': UVM_FATAL, 'issue': UVM_ERROR, 'bad': UVM_ERROR}[how]
    a = act if how == 'issue' else t[s]
    S.check('executed exactly when it has an action', S.iff(a != 0, len(srv.done) == 1))
    S.check('at most once', len(srv.done) <= 1)
    if srv.done:
        d = srv.done[0]
        S.check('severity and action', S.and_(d[1] == s, d[4] == a))
        if how == 'issue':
            S.check('the report itself', d[0] is m)
        else:
            S.check('a report of its own', d[0] is not m)
            if how != 'bad':
                S.check('id and text', d[2] == 'NID' and d[3] == 'nested')
        S.check('text composed exactly when shown', S.iff((a & (UVM_LOG | UVM_DISPLAY)) != 0, d[5] != ''))
    S.check('outer report unchanged', S.and_(m.get_severity() == UVM_ERROR, m.get_action() == act, m.get_message() == 'text'))


@search(runs=1500, weight=2)
def history(S):
    """typewide and per-object catchers on real report objects"""
    clean(S)
    from uvm.base.uvm_coreservice import UVMCoreService
    srv = UVMReportServer('srv')
    cs = UVMCoreService.get()
    old = cs.get_report_server()
    cs.set_report_server(srv)
    ex = []
    S.stub(srv, 'execute_report_message', lambda m, t: ex.append((m.get_severity(), m.get_message(), m.get_action())))
    try:
        objs = [UVMReportObject('o%d' % k) for k in range(2)]
        log = []
        regs = {None: [], 0: [], 1: []}
        fresh = {0: True, 1: True}
        for k in range(S.int('n', 0, 6)):
            c = C('c%d' % k, log, S.choice('r%d' % k, [THROW, THROW, CAUGHT]), S.choice('s%d' % k, [None, None] + SEVS))
            w = S.choice('w%d' % k, [None, 0, 1])
            app = S.bool('p%d' % k)
            UVMReportCb.add(None if w is None else objs[w], c, UVM_APPEND if app else UVM_PREPEND)
            if w is not None and not regs[w]:
                regs[w] = list(regs[None])
            for x in ([w] if w is not None else [None] + [y for y in (0, 1) if regs[y]]):
                if app:
                    regs[x] = regs[x] + [c]
                else:
                    regs[x] = [c] + regs[x]
            if S.bool('off%d' % k):
                c.callback_mode(0)
        for j in range(S.int('m', 1, 6)):
            o = S.int('o%d' % j, 0, 1)
            sev = S.choice('v%d' % j, SEVS)
            del log[:], ex[:]
            c0 = counters()
            objs[o].uvm_report(sev, 'ID', 't%d' % j, 0)
            want, thrown, s = [], True, sev
            for c in regs[o] or regs[None]:
                if c.is_enabled() and thrown:
                    want.append(c)
                    if c.sev is not None:
                        s = c.sev
                    thrown = c.ret != CAUGHT
            S.check('catchers in order', log == want, ([c.get_name() for c in log], [c.get_name() for c in want]))
            S.check('issued unless caught', [e[:2] for e in ex] == ([(s, 't%d' % j)] if thrown else []))
            c1 = counters()
            for (k, x) in c0:
                S.check('counted', c1[k, x] - c0[k, x] == int(x == sev and ((not thrown) if k == 'caught' else s < sev)))
    finally:
        cs.set_report_server(old)
