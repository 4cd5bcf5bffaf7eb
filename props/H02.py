"""H02: the report server counts, shows and acts on every report exactly as its action says."""
import io
from vc.unit import unit, search
from uvm.base.uvm_report_handler import UVMReportHandler
from uvm.base.uvm_report_object import UVMReportObject
from uvm.base.uvm_report_server import UVMReportServer
from uvm.base.uvm_report_message import UVMReportMessage
from uvm.base.uvm_report_catcher import UVMReportCatcher
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import *

PROPERTY = {
 'title': 'Every report is counted, shown, logged and acted on once, as its action says',
 'statement': 'Each report that survives the catchers with some action adds exactly one to the count of its severity and of its id and to no other, is printed once when displayed and written once to its file when logged, counts towards the quit limit when its action counts and a limit is set, ends the run when its action says so or the limit is reached, and stops by raising when its action says stop; a report with no action does none of this. Printed text carries the severity, id, message, originator and, when given, file, line and context. Counter setters store what they are given (negatives become zero), a quit limit marked not overridable stays, the listed severities and ids are exactly those counted, and the summary states those counts.',
 'over': ['inputs', 'histories'],
 'text': 'every action mask, severity, id, counter state and quit limit; every sequence of reports',
 'why': 'tests count a handful of reports with default actions',
 'files': ['src/uvm/base/uvm_report_server.py'],
 'mech': [['UVMReportServer.execute_report_message', 'src/uvm/base/uvm_report_server.py'], ['counters and quit limit', 'src/uvm/base/uvm_report_server.py'], ['compose_report_message', 'src/uvm/base/uvm_report_server.py']],
 'note': 'execution, counters and limit proved for arbitrary unbounded count tables and all action masks; report histories and text composition are a bounded stand-in',
}
SEVS = [UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_FATAL]


class Root:
    def __init__(self):
        self.died = 0

    def die(self):
        self.died += 1


def val(e):
    return e.int('c', 0)


def mkserver(S, arbitrary_ids=True):
    srv = UVMReportServer('srv')
    sev = {}
    for s in SEVS:
        sev[s] = S.int('n%d' % s, 0)
        srv.set_severity_count(s, sev[s])
    if not arbitrary_ids:
        out = []
        srv.set_logger(out.append)
        return srv, sev, None, out
    ids = S.map('ids', 'str', val)
    if S.symbolic:
        srv.m_id_count.pool = ids
    else:
        for k in ids:
            srv.set_id_count(k, ids[k])
    out = []
    srv.set_logger(out.append)
    return srv, sev, ids, out


def idcount(S, ids, i):
    if ids is None:
        return 0
    if S.has(ids, i):
        return S.at(ids, i)
    return 0


class F:
    def __init__(self, closed=False):
        self.w, self.closed = [], closed

    def write(self, t):
        self.w.append(t)


@unit('UVMReportServer.execute_report_message', 'UVMReportServer.incr_severity_count', 'UVMReportServer.incr_id_count',
      'UVMReportServer.is_quit_count_reached', 'UVMReportServer.incr_quit_count', 'UVMReportServer.f_display')
def execute(S):
    """every action mask"""
    _execute(S, [S.bool(x) for x in ('disp', 'log', 'count', 'exit', 'stop')] + [False], False)


@unit('UVMReportServer.execute_report_message', 'UVMReportServer.incr_severity_count', 'UVMReportServer.incr_id_count')
def execute_counts(S):
    """every severity, id and count table"""
    _execute(S, S.choice('acts', [(True,) + (False,) * 5, (False, False, True, False, False, False), (False,) * 5 + (True,)]), True)


def _execute(S, acts, counts):
    srv, sev, ids, out = mkserver(S, counts)
    root = Root()
    cs = UVMCoreService.get()
    S.stub(cs, 'get_root', lambda: root)
    disp, log, count, exit_, stop, hook = acts
    a = (UVM_DISPLAY if disp else 0) | (UVM_LOG if log else 0) | (UVM_COUNT if count else 0) | (UVM_EXIT if exit_ else 0) \
        | (UVM_STOP if stop else 0) | (UVM_CALL_HOOK if hook else 0)
    quit, limit = S.int('quit', 0), S.int('limit', 0)
    srv.set_max_quit_count(limit)
    srv.set_quit_count(quit)
    s, i = S.choice('s', SEVS if counts else SEVS[2:3]), S.str('i', alphabet='ab', maxlen=2) if counts else 'X'
    kind = S.choice('file', ['none', 'open', 'closed'])
    f = 0 if kind == 'none' else F(kind == 'closed')
    m = UVMReportMessage('m')
    m.set_report_message(s, i, 'text', 0, '', 0, '')
    m.set_action(a)
    m.set_file(f)
    raised = False
    try:
        srv.execute_report_message(m, 'TEXT')
    except AttributeError:
        raise
    except Exception:
        raised = True
    s2, i2 = (S.choice('s2', SEVS), S.str('i2', alphabet='ab', maxlen=2)) if counts else (s, i)
    S.check('severity count', srv.get_severity_count(s2) == sev[s2] + (1 if s2 == s else 0))
    S.check('id count', srv.get_id_count(i2) == idcount(S, ids, i2) + (1 if i2 == i else 0))
    shown = (1 if disp else 0) + (1 if log and kind == 'none' else 0) + (1 if log and kind == 'closed' else 0)
    S.check('printed', len(out) == shown and all('TEXT' in t for t in out))
    if f != 0:
        S.check('logged', f.w == (['TEXT\n'] if log and kind == 'open' else []))
    counted = S.and_(count, limit != 0)
    S.check('quit count', srv.get_quit_count() == (quit + 1 if counted else quit))
    reached = S.and_(counted, quit + 1 >= limit)
    S.check('ends the run', root.died == (1 if S.or_(exit_, reached) else 0))
    S.check('stop raises', raised == stop)
    S.check('limit unchanged', srv.get_max_quit_count() == limit)


@unit('UVMReportServer.process_report_message')
def process(S):
    srv, sev, ids, out = mkserver(S)
    cs = UVMCoreService.get()
    S.stub(cs, 'get_report_server', lambda: srv)
    i = S.str('i', alphabet='ab', maxlen=2)
    s = S.choice('s', SEVS)
    a = S.choice('a', [UVM_NO_ACTION, UVM_DISPLAY, UVM_LOG, UVM_CALL_HOOK])
    passed = S.bool('passed')
    seen = []
    S.stub(UVMReportCatcher, 'process_all_report_catchers', staticmethod(lambda m: seen.append(m) or (1 if passed else 0)))
    comp = []
    S.stub(srv, 'compose_report_message', lambda m, *x: comp.append(m) or 'C')
    ex = []
    S.stub(srv, 'execute_report_message', lambda m, t: ex.append((m, t)))
    m = UVMReportMessage('m')
    m.set_report_message(s, i, 'text', 0, '', 0, '')
    m.set_action(a)
    srv.process_report_message(m)
    S.check('catchers see the report once', len(seen) == 1 and seen[0] is m)
    go = passed and a != UVM_NO_ACTION
    S.check('executed exactly when not caught and with an action', len(ex) == (1 if go else 0))
    if go:
        S.check('the same report', ex[0][0] is m)
        S.check('composed text', ex[0][1] == ('C' if a in (UVM_DISPLAY, UVM_LOG) else ''))
    S.check('server recorded in the report', m.get_report_server() is srv)


@unit('UVMReportServer.set_max_quit_count', 'UVMReportServer.get_max_quit_count', 'UVMReportServer.set_quit_count', 'UVMReportServer.reset_quit_count')
def limits(S):
    srv = UVMReportServer('srv')
    a, b, c = S.int('a'), S.int('b'), S.int('c')
    o1, o2 = S.bool('o1'), S.bool('o2')
    z = lambda x: S.ite(x < 0, 0, x)
    srv.set_max_quit_count(a, bool(o1))
    S.check('limit stored', srv.get_max_quit_count() == z(a))
    srv.set_max_quit_count(b, bool(o2))
    S.check('a limit that is not overridable stays', srv.get_max_quit_count() == (z(b) if o1 else z(a)))
    srv.set_quit_count(c)
    S.check('quit count stored', srv.get_quit_count() == z(c))
    S.check('reached', S.iff(srv.is_quit_count_reached(), srv.get_quit_count() >= srv.get_max_quit_count()))
    srv.incr_quit_count()
    S.check('quit count incremented', srv.get_quit_count() == z(c) + 1)
    srv.reset_quit_count()
    S.check('quit count reset', srv.get_quit_count() == 0)


@unit('UVMReportServer.set_severity_count', 'UVMReportServer.set_id_count', 'UVMReportServer.get_severity_count', 'UVMReportServer.get_id_count',
      'UVMReportServer.reset_severity_counts')
def setters(S):
    srv, sev, ids, out = mkserver(S)
    s, s2 = S.choice('s', SEVS), S.choice('s2', SEVS)
    i, i2 = S.str('i', alphabet='ab', maxlen=2), S.str('i2', alphabet='ab', maxlen=2)
    v = S.int('v')
    z = S.ite(v < 0, 0, v)
    op = S.choice('op', ['sev', 'id', 'reset'])
    if op == 'sev':
        srv.set_severity_count(s, v)
    elif op == 'id':
        srv.set_id_count(i, v)
    else:
        srv.reset_severity_counts()
    S.check('severity counts', srv.get_severity_count(s2) == (0 if op == 'reset' else z if op == 'sev' and s == s2 else sev[s2]))
    S.check('id counts', srv.get_id_count(i2) == (z if S.and_(op == 'id', i == i2) else idcount(S, ids, i2)))


@search(runs=1500, weight=2)
def history(S):
    """report sequences through objects with random actions"""
    srv = UVMReportServer('srv')
    cs = UVMCoreService.get()
    old = cs.get_report_server()
    root = Root()
    S.stub(cs, 'get_root', lambda: root)
    cs.set_report_server(srv)
    out = []
    srv.set_logger(out.append)
    try:
        sev = {s: 0 for s in SEVS}
        ids = {}
        quit, limit = 0, S.int('limit', 0, 4)
        srv.set_max_quit_count(limit)
        srv.show_terminator = S.bool('term')
        srv.show_verbosity = S.bool('verb')
        objs = [UVMReportObject('obj%d' % k) for k in range(2)]
        files = [io.StringIO(), io.StringIO()]
        acts = {}
        for k, o in enumerate(objs):
            for s in SEVS:
                a = UVM_NO_ACTION
                for bit in (UVM_DISPLAY, UVM_LOG, UVM_COUNT):
                    if S.bool('a%d%d%d' % (k, s, bit)):
                        a |= bit
                if S.int('x%d%d' % (k, s), 0, 5) == 0:
                    a |= UVM_EXIT
                o.set_report_severity_action(s, a)
                acts[k, s] = a
            if S.bool('f%d' % k):
                o.set_report_default_file(files[k])
                acts[k, 'f'] = files[k]
        for n in range(S.int('n', 1, 10)):
            k, s = S.int('k%d' % n, 0, 1), S.choice('s%d' % n, SEVS)
            i = S.choice('i%d' % n, ['A', 'B', 'C'])
            fn, ctx = S.choice('fn%d' % n, ['', 'file.py']), S.choice('ctx%d' % n, ['', 'CTX'])
            del out[:]
            d0, w0 = root.died, [f.getvalue() for f in files]
            objs[k].uvm_report(s, i, 'msg%d' % n, 0, fn, 17, ctx)
            a = acts[k, s]
            want, lw = 0, ''
            if a:
                sev[s] += 1
                ids[i] = ids.get(i, 0) + 1
                f = acts.get((k, 'f'))
                want = (1 if a & UVM_DISPLAY else 0) + (1 if a & UVM_LOG and f is None else 0)
                die = bool(a & UVM_EXIT)
                if a & UVM_COUNT and limit:
                    quit += 1
                    die = die or quit >= limit
                S.check('ends the run', root.died - d0 == int(die))
                name = {UVM_INFO: 'UVM_INFO', UVM_WARNING: 'UVM_WARNING', UVM_ERROR: 'UVM_ERROR', UVM_FATAL: 'UVM_FATAL'}[s]
                texts = list(out)
                if f is not None:
                    new = f.getvalue()[len(w0[k]):]
                    S.check('logged once', bool(new) == bool(a & UVM_LOG) and new.count('msg%d' % n) == int(bool(a & UVM_LOG)))
                    if new:
                        texts.append(new.rstrip('\n'))
                for t in texts:
                    S.check('text', t.startswith(name) and '[%s]' % i in t and 'msg%d' % n in t and 'obj%d' % k in t)
                    if fn:
                        S.check('text has file and line', 'file.py(17)' in t)
                    if ctx:
                        S.check('text has the context', '@@CTX' in t)
                    S.check('terminator', t.endswith('-' + name) == srv.show_terminator)
            S.check('printed', len(out) == want)
            S.check('other files untouched', all(f.getvalue() == w for j, (f, w) in enumerate(zip(files, w0)) if j != k or not a & UVM_LOG))
            S.check('severity counts', all(srv.get_severity_count(x) == sev[x] for x in SEVS))
            S.check('id counts', all(srv.get_id_count(x) == ids.get(x, 0) for x in 'ABC'))
            S.check('quit count', srv.get_quit_count() == quit)
            if S.int('q%d' % n, 0, 3) == 0:
                q, q2 = [], []
                srv.get_severity_set(q)
                srv.get_id_set(q2)
                S.check('listed severities', sorted(q) == sorted(SEVS))
                S.check('listed ids', sorted(q2) == sorted(ids))
        S.stub(UVMReportCatcher, 'summarize', staticmethod(lambda: None))
        t = srv.get_summary_string()
        for s, nm in zip(SEVS, ['UVM_INFO', 'UVM_WARNING', 'UVM_ERROR', 'UVM_FATAL']):
            S.check('summary states severity counts', '%s : %d\n' % (nm, sev[s]) in t)
        for i in 'ABC':
            S.check('summary states id counts', ('[%s] %d\n' % (i, ids.get(i, 0)) in t) == (i in ids))
        S.check('summary states the quit count', ('Quit count : %d of %d\n' % (quit, limit) in t) == (limit != 0))
    finally:
        cs.set_report_server(old)
