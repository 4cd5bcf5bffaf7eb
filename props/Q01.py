"""Q01: mailbox and TLM FIFOs: exactly-once, in-order, bounded delivery."""
from vc.unit import unit, search
from uvm.base.uvm_mailbox import UVMMailbox
from uvm.tlm1.uvm_tlm_fifos import UVMTLMFIFO, UVMTLMAnalysisFIFO
from uvm.tlm1.uvm_tlm_req_rsp import UVMTLMReqRspChannel
from uvm.base.uvm_component import UVMComponent
from cocotb.triggers import Timer

PROPERTY = {
 'title': 'Mailboxes and TLM FIFOs deliver every item exactly once, in order, within bounds',
 'statement': 'Every item accepted by a mailbox, TLM FIFO or request/response channel comes out exactly once and in the order accepted; a bounded one never holds more than its bound, a put on a full one and a get or peek on an empty one block until room or an item appears and then complete, and non-blocking calls succeed exactly when there is room or an item and otherwise change nothing. Peeking leaves the content alone, the size, used, empty and full queries tell the truth, and flush empties the FIFO. Each item put or taken is broadcast exactly once on the put or get analysis port, in order.',
 'over': ['inputs', 'schedules', 'histories'],
 'text': 'every content length and bound; every interleaving of producers and consumers reachable by the generated schedules',
 'why': 'tests use one producer, one consumer and fixed timing; ordering and blocking with several waiters depend on the schedule',
 'files': ['src/uvm/base/uvm_mailbox.py', 'src/uvm/tlm1/uvm_tlm_fifos.py', 'src/uvm/tlm1/uvm_tlm_fifo_base.py', 'src/uvm/tlm1/uvm_tlm_req_rsp.py', 'src/uvm/tlm1/uvm_tlm_imps.py'],
 'mech': [['UVMMailbox.put/get/peek/try_*', 'src/uvm/base/uvm_mailbox.py'], ['UVMTLMFIFO, UVMTLMAnalysisFIFO', 'src/uvm/tlm1/uvm_tlm_fifos.py'], ['UVMTLMReqRspChannel', 'src/uvm/tlm1/uvm_tlm_req_rsp.py']],
 'note': 'each operation proved for any content and bound up to its first suspension; interleavings of several processes are a bounded stand-in: random process mixes on a scheduler standing in for cocotb against a reference queue',
}


def item(e):
    return e.int('v')


class Rec:
    def __init__(self):
        self.got = []

    def write(self, t):
        self.got.append(t)


def fill(S, m, minn=0):
    L = S.list('q', item, minn=minn)
    if type(L) is list:
        for x in L:
            m.m_queue.push_back(x)
        L = list(L)
        n = len(L)
    else:
        m.m_queue.queue = L.copy()
        n = L.length()
    return n, (lambda j: L[j])


def step(coro):
    """run to completion or to the first suspension"""
    try:
        coro.send(None)
    except StopIteration as e:
        return True, e.value
    coro.close()
    return False, None


def content(S, m, n, f, label):
    S.check(label + ': number of items', m.num() == n)
    j = S.int('j', 0)
    S.require(j < n)
    S.check(label + ': content', m.m_queue.get(j) == f(j))


def queries(S, f, fifo, b, n):
    if fifo:
        S.check('used afterwards', f.used() == n)
        S.check('empty afterwards', S.iff(f.is_empty(), n == 0))
        S.check('full afterwards', S.iff(f.is_full(), S.and_(b != 0, n == b)))
        S.check('can_get afterwards', S.iff(f.can_get(), n > 0))
        S.check('can_peek afterwards', S.iff(f.can_peek(), n > 0))
    S.check('can_put afterwards', S.iff(f.can_put(), S.or_(b == 0, n < b)))


def mkbox(S, fifo):
    """mailbox or FIFO in an arbitrary reachable state"""
    b = S.int('bound', 0, cap=6)
    if fifo:
        f = S.new(UVMTLMFIFO, m=UVMMailbox(b), m_size=b, m_pending_blocked_gets=0, put_ap=Rec(), get_ap=Rec())
        m = f.m
    else:
        f = m = UVMMailbox(b)
    n, old = fill(S, m)
    S.require(S.or_(b == 0, n <= b))
    return f, m, b, n, old


def no_cast(S, f, fifo, put=None, got=None):
    if fifo:
        S.check('put broadcast', len(f.put_ap.got) == (0 if put is None else 1) and (put is None or f.put_ap.got[0] == put[0]))
        S.check('get broadcast', len(f.get_ap.got) == (0 if got is None else 1) and (got is None or f.get_ap.got[0] == got[0]))


def u_put(S, fifo):
    f, m, b, n, old = mkbox(S, fifo)
    x = S.int('x')
    room = S.or_(b == 0, n < b)
    if S.bool('blocking'):
        done, _ = step(f.put(x))
    else:
        done = f.try_put(x)
    if room:
        S.check('put succeeds when there is room', bool(done))
        no_cast(S, f, fifo, put=[x])
        content(S, m, n + 1, lambda j: old(j) if j < n else x, 'put')
        queries(S, f, fifo, b, n + 1)
    else:
        S.check('put does not succeed on a full one', not done)
        no_cast(S, f, fifo)
        content(S, m, n, old, 'refused put')


def u_get(S, fifo):
    f, m, b, n, old = mkbox(S, fifo)
    z = S.int('z')
    out = [z]
    if S.bool('blocking'):
        if S.bool('with_list'):
            done, r = step(f.get(out))
        else:
            done, r = step(f.get())
            if done:
                out.append(r)
        if done:
            S.check('returned item', r == out[-1])
    else:
        done = f.try_get(out)
    if n > 0:
        S.check('get succeeds when there is an item', bool(done))
        S.check('one item is handed out', len(out) == 2 and out[0] == z)
        S.check('oldest item', out[1] == old(0))
        no_cast(S, f, fifo, got=[old(0)])
        content(S, m, n - 1, lambda j: old(j + 1), 'get')
        queries(S, f, fifo, b, n - 1)
    else:
        S.check('get does not succeed on an empty one', not done and len(out) == 1)
        no_cast(S, f, fifo)
        content(S, m, n, old, 'refused get')


def u_peek(S, fifo):
    f, m, b, n, old = mkbox(S, fifo)
    z = S.int('z')
    out = [z]
    if S.bool('blocking'):
        if S.bool('with_list'):
            done, r = step(f.peek(out))
        else:
            done, r = step(f.peek())
            if done:
                out.append(r)
        if done:
            S.check('returned item', r == out[-1])
    else:
        done = f.try_peek(out)
    if n > 0:
        S.check('peek succeeds when there is an item', bool(done))
        S.check('one item is shown', len(out) == 2 and out[0] == z)
        S.check('oldest item', out[1] == old(0))
    else:
        S.check('peek does not succeed on an empty one', not done and len(out) == 1)
    no_cast(S, f, fifo)
    content(S, m, n, old, 'peek')
    queries(S, f, fifo, b, n)


@unit('UVMMailbox.put', 'UVMMailbox.try_put', 'UVMMailbox.can_put', 'UVMMailbox.num')
def mailbox_put(S):
    u_put(S, False)


@unit('UVMMailbox.get', 'UVMMailbox.try_get', 'UVMMailbox.can_get')
def mailbox_get(S):
    u_get(S, False)


@unit('UVMMailbox.peek', 'UVMMailbox.try_peek')
def mailbox_peek(S):
    u_peek(S, False)


@unit('UVMTLMFIFO.put', 'UVMTLMFIFO.try_put')
def fifo_put(S):
    u_put(S, True)


@unit('UVMTLMFIFO.get', 'UVMTLMFIFO.try_get')
def fifo_get(S):
    u_get(S, True)


@unit('UVMTLMFIFO.peek', 'UVMTLMFIFO.try_peek')
def fifo_peek(S):
    u_peek(S, True)


@unit('UVMTLMFIFO.size', 'UVMTLMFIFO.used', 'UVMTLMFIFO.is_empty', 'UVMTLMFIFO.is_full', 'UVMTLMFIFO.can_put',
      'UVMTLMFIFO.can_get', 'UVMTLMFIFO.can_peek')
def fifo_queries(S):
    f, m, b, n, old = mkbox(S, True)
    S.check('size', f.size() == b)
    S.check('used', f.used() == n)
    S.check('is_empty', S.iff(f.is_empty(), n == 0))
    S.check('is_full', S.iff(f.is_full(), S.and_(b != 0, n == b)))
    S.check('can_put', S.iff(f.can_put(), S.or_(b == 0, n < b)))
    S.check('can_get', S.iff(f.can_get(), n > 0))
    S.check('can_peek', S.iff(f.can_peek(), n > 0))
    content(S, m, n, old, 'query')


@unit('UVMTLMAnalysisFIFO.write')
def analysis_write(S):
    f = S.new(UVMTLMAnalysisFIFO, m=UVMMailbox(0), m_size=0, m_pending_blocked_gets=0, put_ap=Rec(), get_ap=Rec())
    n, old = fill(S, f.m)
    x = S.int('x')
    f.write(x)
    no_cast(S, f, True, put=[x])
    content(S, f.m, n + 1, lambda j: old(j) if j < n else x, 'write')


# ---------------------------------------------------------------- schedules
class Top(UVMComponent):
    pass


def mk(S, kind, b):
    top = Top('q01_top', None)
    if kind == 'mailbox':
        return UVMMailbox(b), None, None
    f = UVMTLMFIFO('f', top, b) if kind == 'fifo' else UVMTLMAnalysisFIFO('f', top)
    pa, ga = Rec(), Rec()
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp

    class Sub(UVMComponent):
        pass
    sp, sg = Sub('sp', top), Sub('sg', top)
    sp.write, sg.write = pa.write, ga.write
    ip, ig = UVMAnalysisImp('imp', sp), UVMAnalysisImp('imp', sg)
    f.put_ap.connect(ip)
    f.get_ap.connect(ig)
    for p in (f.put_ap, f.get_ap, ip, ig, f.put_export, f.get_peek_export):
        p.resolve_bindings()
    if kind == 'afifo':
        f.analysis_export.resolve_bindings()
    return f, pa, ga


@search(runs=2500, weight=3)
def processes(S):
    """several blocking producers / consumers / peekers with random delays"""
    kind = S.choice('kind', ['mailbox', 'fifo', 'fifo', 'afifo'])
    b = S.int('b', 0, 3) if kind != 'afifo' else 0
    f, pa, ga = mk(S, kind, b)
    log = []           # accepted, in order; delivered, in order
    acc, dlv = [], []
    used = (lambda: f.num()) if kind == 'mailbox' else (lambda: f.used())
    pend = {}

    def audit(where):
        S.check('never above the bound', b == 0 or used() <= b, where)
        S.check('used is what was accepted and not delivered', used() == len(acc) - len(dlv), where)

    async def prod(pid, plan):
        for k, (dt, op) in enumerate(plan):
            if dt:
                await Timer(dt, 'NS')
            x = (pid, k)
            if op == 0:
                pend[pid] = 'put'
                await f.put(x)
                pend.pop(pid)
                acc.append(x)
            elif op == 1:
                room = b == 0 or used() < b
                r = f.try_put(x)
                S.check('try_put succeeds exactly when there is room', bool(r) == room)
                if r:
                    acc.append(x)
            else:
                if kind == 'afifo':
                    f.analysis_export.write(x)
                    acc.append(x)
            audit('prod')

    async def cons(pid, plan):
        for k, (dt, op) in enumerate(plan):
            if dt:
                await Timer(dt, 'NS')
            if op == 0:
                pend[pid] = 'get'
                out = []
                if pid % 2:
                    await f.get(out)
                    S.check('one item per get', len(out) == 1)
                    x = out[-1]
                else:
                    x = await f.get()
                pend.pop(pid)
                dlv.append(x)
            elif op == 1:
                have = used() > 0
                out = []
                r = f.try_get(out)
                S.check('try_get succeeds exactly when there is an item', bool(r) == have and len(out) == int(have))
                if r:
                    dlv.append(out[0])
            elif op == 2:
                pend[pid] = 'peek'
                out = []
                n0 = len(dlv)
                await f.peek(out)
                pend.pop(pid)
                S.check('peek shows one item', len(out) == 1)
                S.check('peek shows the oldest item', len(dlv) < len(acc) and out[0] == acc[len(dlv)] or out[0] not in dlv)
            elif op == 3:
                have = used() > 0
                out = []
                r = f.try_peek(out)
                S.check('try_peek succeeds exactly when there is an item', bool(r) == have and len(out) == int(have))
                if out:
                    S.check('try_peek shows the oldest item', out[0] == acc[len(dlv)])
            elif op == 4 and kind != 'mailbox':
                rest = acc[len(dlv):]
                if 'get' in pend.values():
                    continue
                f.flush()
                S.check('flush empties', f.used() == 0 and f.is_empty())
                dlv.extend(rest)
            audit('cons')
    np, nc = S.int('np', 1, 3), S.int('nc', 1, 3)
    procs = []
    for p in range(np):
        procs.append((p, prod(p, [(S.int('pd%d_%d' % (p, k), 0, 2), S.choice('po%d_%d' % (p, k), [0, 0, 0, 1, 2])) for k in range(S.int('pn%d' % p, 0, 5))])))
    for c in range(nc):
        procs.append((10 + c, cons(10 + c, [(S.int('cd%d_%d' % (c, k), 0, 2), S.choice('co%d_%d' % (c, k), [0, 0, 0, 1, 2, 3, 4])) for k in range(S.int('cn%d' % c, 0, 5))])))
    order = list(range(len(procs)))
    for i in range(len(order)):
        j = S.int('perm%d' % i, i, len(order) - 1)
        order[i], order[j] = order[j], order[i]
    S.simulate(*[procs[i][1] for i in order])
    S.check('delivered in the order accepted, exactly once', dlv == acc[:len(dlv)])
    audit('end')
    # at quiescence nobody is blocked needlessly
    if any(v in ('get', 'peek') for v in pend.values()):
        S.check('a blocked get or peek means empty', used() == 0)
    if any(v == 'put' for v in pend.values()):
        S.check('a blocked put means full', b > 0 and used() == b)
    if pa is not None:
        S.check('put broadcast', pa.got == acc)
        S.check('get broadcast', ga.got == dlv)


class End:
    """one end of a channel, by single ports; non-blocking ones are polled"""
    def __init__(self, S, ports, put, get):
        self.poll = S.choice('poll.' + put, [0, 1])
        self.p = {(style, kind): q for (nm, style, kind), q in ports.items() if nm == (put if kind == 'Put' else get)}

    async def until(self, fn):
        while not fn():
            await Timer(1, 'NS')

    async def put(self, t):
        if self.poll:
            await self.until(lambda: self.p['NonBlocking', 'Put'].try_put(t))
        else:
            await self.p['Blocking', 'Put'].put(t)

    async def get(self, out):
        if self.poll:
            await self.until(lambda: self.p['NonBlocking', 'Get'].try_get(out))
        else:
            await self.p['Blocking', 'Get'].get(out)

    async def peek(self, out):
        if self.poll:
            await self.until(lambda: self.p['NonBlocking', 'Peek'].try_peek(out))
        else:
            await self.p['Blocking', 'Peek'].peek(out)


@search(runs=1200)
def channel(S):
    """request/response channel through master and slave exports"""
    from uvm.tlm1 import uvm_ports
    from uvm.tlm1.uvm_ports import UVMMasterPort, UVMSlavePort, UVMBlockingMasterPort, UVMBlockingSlavePort
    top = Top('q01_ch', None)
    rb, sb = S.int('rb', 0, 2), S.int('sb', 0, 2)
    ch = UVMTLMReqRspChannel('ch', top, rb, sb)
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp
    recs = {}
    imps = []
    for nm in ('request', 'response'):
        s = Top('s' + nm, top)
        recs[nm] = Rec()
        s.write = recs[nm].write
        i = UVMAnalysisImp('imp', s)
        imps.append(i)
        getattr(ch, nm + '_ap').connect(i)
    end = S.choice('ends', ['master', 'blocking', 'single'])
    if end == 'master':
        mp, sp = UVMMasterPort('mp', top), UVMSlavePort('sp', top)
        mp.connect(ch.master_export)
        sp.connect(ch.slave_export)
    elif end == 'blocking':
        mp, sp = UVMBlockingMasterPort('mp', top), UVMBlockingSlavePort('sp', top)
        mp.connect(ch.blocking_master_export)
        sp.connect(ch.blocking_slave_export)
    else:
        ports = {}
        exports = {'Put': ['put_%s_export'], 'Get': ['get_%s_export', 'get_peek_%s_export'], 'Peek': ['peek_%s_export', 'get_peek_%s_export']}
        for nm in ('request', 'response'):
            for kind, exps in exports.items():
                for style in ('Blocking', 'NonBlocking'):
                    q = getattr(uvm_ports, 'UVM%s%sPort' % (style, kind))('p%s%s%s' % (style, kind, nm), top)
                    e = S.choice('%s.%s%s' % (nm, style, kind), exps) % nm
                    if S.bool('%s.%s%s.alias' % (nm, style, kind)):
                        e = style.lower() + '_' + e
                    q.connect(getattr(ch, e))
                    ports[nm, style, kind] = q
        mp, sp = End(S, ports, 'request', 'response'), End(S, ports, 'response', 'request')
    ch.connect_phase(None)
    for c in list(ch.m_children.values()):
        for d in list(c.m_children.values()):
            d.resolve_bindings()
    for c in [ch.request_ap, ch.response_ap, ch.put_request_export, ch.get_peek_request_export, ch.put_response_export,
              ch.get_peek_response_export, ch.master_export, ch.slave_export] + (list(ports.values()) if end == 'single' else [mp, sp]) + imps:
        c.resolve_bindings()
    n = S.int('n', 1, 5)
    seen, rsps = [], []
    d = [S.int('d%d' % k, 0, 2) for k in range(10)]

    async def master():
        for k in range(n):
            await Timer(d[k], 'NS')
            await mp.put(('req', k))

    async def master_get():
        for k in range(n):
            out = []
            if d[k] == 1:
                await mp.peek(out)
                S.check('peek shows the response', out == [('rsp', k)])
                out = []
            await mp.get(out)
            rsps.append(out)

    async def slave():
        for k in range(n):
            out = []
            if d[k + 5] == 1:
                await sp.peek(out)
                S.check('peek shows the request', out == [('req', k)])
                out = []
            await sp.get(out)
            seen.append(out)
            await Timer(d[k + 5], 'NS')
            await sp.put(('rsp', k))
    S.simulate(master(), master_get(), slave())
    S.check('every request arrives once in order', seen == [[('req', k)] for k in range(n)])
    S.check('every response arrives once in order', rsps == [[('rsp', k)] for k in range(n)])
    S.check('request broadcast', recs['request'].got == [('req', k) for k in range(n)])
    S.check('response broadcast', recs['response'].got == [('rsp', k) for k in range(n)])
