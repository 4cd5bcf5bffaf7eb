"""S02: the execution of a sequence and the way of its responses."""
from vc.unit import unit, search
from cocotb.triggers import Timer, Event
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_queue import UVMQueue
from uvm.base.uvm_pool import UVMPool
from uvm.base.uvm_object_globals import (UVM_CREATED, UVM_PRE_START, UVM_PRE_BODY, UVM_BODY, UVM_ENDED, UVM_POST_BODY, UVM_POST_START,
                                         UVM_FINISHED)
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequencer_param_base import UVMSequencerParamBase
from uvm.seq.uvm_sequence_base import UVMSequenceBase
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem

PROPERTY = {
 'title': 'A sequence executes its callbacks in order and gets its own responses',
 'statement': 'A started sequence runs pre_start, pre_body, body, post_body and post_start in this order and once each, with the calls on its parent around the body, the two body callbacks only if asked for, and reports the state it is in at every step. Every response reaches the sequence which issued the item, into its response queue or its response handler, and is handed out once: the oldest one, or the oldest one of the transaction asked for, while the others stay in order; beyond the depth of the queue it is dropped with an error. A sequencer remembers the most recent requests and responses up to the number it is told to keep.',
 'over': ['inputs', 'schedules', 'histories'],
 'text': 'response queues and request histories of any length, every depth and transaction; interleavings of drivers and sequences',
 'why': 'tests send each response at once to one sequence which takes it at once, and never fill a queue',
 'files': ['src/uvm/seq/uvm_sequence_base.py', 'src/uvm/seq/uvm_sequence.py', 'src/uvm/seq/uvm_sequencer_param_base.py', 'src/uvm/seq/uvm_sequencer_base.py'],
 'mech': [['UVMSequenceBase.start, put_base_response, get_base_response', 'src/uvm/seq/uvm_sequence_base.py'], ['UVMSequencerParamBase.put_response, send_request, m_last_req_push_front, set_num_last_reqs', 'src/uvm/seq/uvm_sequencer_param_base.py']],
 'note': 'queues and histories of any length proved; the order of the callbacks and the routing under interleavings are bounded searches',
}

PATCH_METHODS = True


def queue(items):
    q = UVMQueue()
    q.queue = items
    return q


class Rsp(UVMSequenceItem):
    """a response as the queues see it"""
    def __init__(self, i, tid, sid=1):
        self.i, self.m_transaction_id, self.m_sequence_id = i, tid, sid
    def get_transaction_id(self): return self.m_transaction_id


def sequence(S, items=(), **kw):
    kw = dict(dict(response_queue_depth=8, response_queue_error_report_disabled=False, m_use_response_handler=False, name='seq', leaf_name='seq', inst_id=1,
                   m_parent_sequence=None, m_sequencer=None), **kw)
    return S.new(UVMSequence, response_queue=queue(list(items) if type(items) is tuple else items), m_resp_queue_event=Event('e'), **kw)


@unit('UVMSequenceBase.put_base_response', 'UVMSequence.put_response')
def put(S):
    q = S.list('q', lambda e: Rsp(e.idx, e.int('tid')))
    n = S.length(q)
    before = q.copy()
    depth = S.int('depth', -1, None)
    quiet = S.choice('quiet', [0, 1])
    s = sequence(S, q, response_queue_depth=depth, response_queue_error_report_disabled=quiet)
    r = Rsp(-1, S.int('tid'))
    s.put_response(r)
    room = S.or_(depth == -1, n < depth)
    S.check('kept if there is room', S.iff(room, s.response_queue.size() == n + 1))
    S.check('or dropped', S.implies(S.not_(room), s.response_queue.size() == n))
    if room:
        S.check('last in the queue', s.response_queue.get(n) is r)
        S.check('no report', len(S.reports.errors) == 0)
    else:
        S.check('an error unless disabled', len(S.reports.errors) == (0 if quiet else 1))
    S.forall('the others stay', before, lambda i, e: s.response_queue.get(i).i == i)


@unit('UVMSequenceBase.get_base_response', 'UVMSequence.get_response')
def get(S):
    q = S.list('q', lambda e: Rsp(e.idx, e.int('tid')), minn=1)
    n = S.length(q)
    before = q.copy()
    tid = S.int('tid', -1, None)
    S.scan(q, lambda e: e.m_transaction_id == tid)
    if S.or_(tid == -1, S.exists(q, lambda e: e.m_transaction_id == tid)):
        pass
    else:
        S.require(False)
    s = sequence(S, q)
    out = []
    S.run(s.get_response(out, tid))
    S.check('one response', len(out) == 1)
    r = out[0]
    S.check('of the transaction', S.or_(tid == -1, r.m_transaction_id == tid))
    S.forall('the oldest', before, lambda i, e: S.implies(i < r.i, S.and_(tid != -1, e.m_transaction_id != tid)))
    S.check('it is gone', s.response_queue.size() == n - 1)
    S.forall_range('the others stay', n - 1, lambda i: s.response_queue.get(i).i == S.ite(i < r.i, i, i + 1))


@unit('UVMSequencerParamBase.put_response', limit='three sequences')
def route(S):
    log = []
    seqs = {}
    for k in (1, 2, 3):
        seqs[k] = s = sequence(S, m_use_response_handler=S.choice('h%d' % k, [False, True]))
        S.stub(s, 'response_handler', lambda t, k=k: log.append((k, t)))
    here = S.choice('registered', [(1, 2, 3), (1, 3), (2,), ()])
    q = S.new(UVMSequencerParamBase, reg_sequences=UVMPool(), m_last_rsp_buffer=queue([]), m_num_last_rsps=1, m_num_rsps_received=0, m_name='sqr')
    for k in here:
        q.reg_sequences.add(k, seqs[k])
    to = S.int('to', 1, 4)
    r = Rsp(0, 7, to)
    q.put_response(r)
    for k in (1, 2, 3):
        mine = S.and_(to == k, k in here)
        handled = [t for i, t in log if i == k]
        if seqs[k].m_use_response_handler:
            S.check('its handler', S.iff(mine, len(handled) == 1))
            S.check('not its queue', seqs[k].response_queue.size() == 0)
        else:
            S.check('its queue', S.iff(mine, seqs[k].response_queue.size() == 1))
            S.check('not its handler', handled == [])
    S.check('counted', q.get_num_rsps_received() == 1)


class Req:
    def __init__(self, i): self.i = i


@unit('UVMSequencerParamBase.m_last_req_push_front', 'UVMSequencerParamBase.m_last_rsp_push_front')
def remembered(S):
    keep = S.int('keep', 0, 1024)
    b = S.list('b', lambda e: Req(e.idx))
    n = S.length(b)
    S.require(n <= keep)
    kind = S.choice('kind', ['req', 'rsp'])
    q = S.new(UVMSequencerParamBase, m_last_req_buffer=queue(b), m_last_rsp_buffer=queue(b), m_num_last_reqs=keep, m_num_last_rsps=keep)
    r = Req(-1)
    (q.m_last_req_push_front if kind == 'req' else q.m_last_rsp_push_front)(r)
    buf = q.m_last_req_buffer if kind == 'req' else q.m_last_rsp_buffer
    S.check('no more than told', S.and_(buf.size() <= keep, S.implies(n < keep, buf.size() == n + 1), S.implies(n == keep, buf.size() == keep)))
    if buf.size() > 0:
        S.check('the newest first', buf.get(0) is r)
        S.forall_range('then the others', buf.size() - 1, lambda i: buf.get(i + 1).i == i)


@unit('UVMSequencerParamBase.set_num_last_reqs')
def shorten(S):
    keep = S.int('keep', 0, None)
    b = S.list('b', lambda e: Req(e.idx))
    n = S.length(b)
    q = S.new(UVMSequencerParamBase, m_last_req_buffer=queue(b), m_num_last_reqs=1, num_last_items=1, m_name='sqr')
    top = S.ite(keep > 1024, 1024, keep)
    S.template(lambda k, v: v[0:S.ite(k < n, n - k, 0)])
    S.fact('too many', lambda j: n - j > top)
    q.set_num_last_reqs(keep)
    S.check('the number', q.get_num_last_reqs() == top)
    S.check('no more than told', q.m_last_req_buffer.size() == S.ite(n > top, top, n))
    S.check('a warning beyond the maximum', S.iff(keep > 1024, len(S.reports.warnings) > 0))
    S.forall_range('the newest stay', q.m_last_req_buffer.size(), lambda i: q.m_last_req_buffer.get(i).i == i)


class Fifo:
    def __init__(self): self.got = []
    def try_put(self, t):
        self.got.append(t)
        return True


@unit('UVMSequencerParamBase.send_request')
def send(S):
    s = sequence(S, m_wait_for_grant_semaphore=S.int('grants', 1, None), m_next_transaction_id=S.int('next', 1, None), m_sqr_seq_ids=UVMPool(),
                 m_sequence_id=-1)
    sid = S.int('sid', 1, None)
    s.m_sqr_seq_ids.add(5, sid)
    g, nxt = s.m_wait_for_grant_semaphore, s.m_next_transaction_id
    f = Fifo()
    sent = S.int('sent', 0, None)
    q = S.new(UVMSequencerParamBase, m_last_req_buffer=queue([]), m_num_last_reqs=1, m_num_reqs_sent=sent, m_sequencer_id=5, m_req_fifo=f,
              arb_sequence_q=queue([]), lock_list=queue([]), m_name='sqr')
    it = S.new(UVMSequenceItem, m_transaction_id=S.int('tid', -1, None), m_sequence_id=S.int('old', -1, None), m_sequencer=None, p_sequencer=None)
    tid = it.m_transaction_id
    q.send_request(s, it)
    S.check('handed over', len(f.got) == 1 and f.got[0] is it)
    S.check('the identity of its sequence', it.get_sequence_id() == sid)
    S.check('its sequencer', it.get_sequencer() is q)
    S.check('a transaction of its own, or the one it had', it.get_transaction_id() == S.ite(tid == -1, nxt, tid))
    S.check('the next one is another', s.m_next_transaction_id == S.ite(tid == -1, nxt + 1, nxt))
    S.check('one grant is used', s.m_wait_for_grant_semaphore == g - 1)
    S.check('counted', q.get_num_reqs_sent() == sent + 1)


class Top(UVMComponent):
    pass


STATES = [UVM_CREATED, UVM_PRE_START, UVM_PRE_BODY, UVM_BODY, UVM_ENDED, UVM_POST_BODY, UVM_POST_START, UVM_FINISHED]


class Parent(UVMSequenceBase):
    def __init__(self, log):
        super().__init__('parent')
        self.log = log
    def pre_do(self, is_item): self.log.append(('pre_do', is_item))
    def mid_do(self, it): self.log.append(('mid_do', it))
    def post_do(self, it): self.log.append(('post_do', it))


class Child(UVMSequence):
    def __init__(self, S, log):
        super().__init__('child')
        self.S, self.log = S, log

    async def step(self, what, state):
        S = self.S
        S.check('the state of ' + what, self.get_sequence_state() == state)
        self.log.append((what, None))
        w = S.int('w' + what, 0, 2)
        if w:
            await Timer(w, 'NS')
        S.check('the state of ' + what, self.get_sequence_state() == state)
    async def pre_start(self): await self.step('pre_start', UVM_PRE_START)
    async def pre_body(self): await self.step('pre_body', UVM_PRE_BODY)
    async def body(self): await self.step('body', UVM_BODY)
    async def post_body(self): await self.step('post_body', UVM_POST_BODY)
    async def post_start(self): await self.step('post_start', UVM_POST_START)


class Phase:
    def __init__(self): self.log = []
    def raise_objection(self, obj, d='', n=1): self.log.append(('raise', obj, n))
    def drop_objection(self, obj, d='', n=1): self.log.append(('drop', obj, n))


@search(runs=150)
def lifecycle(S):
    """callbacks of one sequence"""
    log = []
    top = Top('s02', None)
    sqr = UVMSequencer('sqr', top) if S.bool('sqr') else None
    parent = Parent(log) if S.bool('parent') else None
    c = Child(S, log)
    S.check('created', c.get_sequence_state() == UVM_CREATED)
    pp = S.choice('pp', [0, 1])
    ph = Phase() if S.bool('phase') else None
    auto = S.bool('auto')
    seen = []

    async def watch(mask, after):
        if after:
            await Timer(after, 'NS')
        now = c.get_sequence_state() & mask
        t = S.sim.now
        await c.wait_for_sequence_state(mask)
        S.check('waits for the state', c.get_sequence_state() & mask != 0)
        S.check('returns at once if it is in the state', not now or S.sim.now == t)
        seen.append(mask)

    async def main():
        for k in range(S.int('times', 1, 2)):
            log.clear()
            if ph is not None:
                ph.log.clear()
                c.set_starting_phase(ph)
            if k == 0:
                c.set_automatic_phase_objection(auto)
            if parent is not None and S.bool('prio%d' % k):
                parent.set_priority(S.int('pv%d' % k, 1, 500))
            given = S.choice('given%d' % k, [-1, -1, 7])
            await c.start(sqr, parent, given, pp)
            want = [('pre_start', None)]
            if pp:
                want.append(('pre_body', None))
            if parent is not None:
                want += [('pre_do', 0), ('mid_do', c)]
            want.append(('body', None))
            if parent is not None:
                want.append(('post_do', c))
            if pp:
                want.append(('post_body', None))
            want.append(('post_start', None))
            S.check('the callbacks in order', log == want)
            S.check('finished', c.get_sequence_state() == UVM_FINISHED)
            S.check('priority', c.get_priority() == (given if given >= 0 else parent.get_priority() if parent is not None else 100))
            if ph is not None:
                S.check('objects while it runs', ph.log == ([('raise', c, 1), ('drop', c, 1)] if auto else []))
            if sqr is not None:
                S.check('forgotten by the sequencer', c not in [sqr.reg_sequences[x] for x in sqr.reg_sequences.keys()])
            if parent is not None:
                S.check('forgotten by its parent', c not in parent.children_array)
    masks = [S.choice('m%d' % i, [UVM_FINISHED, UVM_FINISHED, UVM_BODY, UVM_ENDED | UVM_FINISHED, UVM_PRE_START | UVM_BODY, UVM_POST_START])
             for i in range(S.int('watchers', 0, 2))]
    S.simulate(main(), *[watch(m, 0) for i, m in enumerate(masks)])
    S.check('every watcher returns', len(seen) == len(masks))
    S.check('no report', not S.reports.errors)


class Item(UVMSequenceItem):
    pass


class Body(UVMSequence):
    def __init__(self, S, k, n, log, handler):
        super().__init__('q%d' % k)
        self.S, self.k, self.n, self.log, self.handler, self.taken = S, k, n, log, handler, []
        self.turn = 0
        self.set_response_queue_depth(-1)
        self.use_response_handler(handler)

    def response_handler(self, r):
        self.log.append((self.k, r.tag))

    async def body(self):
        S = self.S
        mine = []
        self.turn += 1
        for j in range(self.n * (self.turn - 1), self.n * self.turn):
            it = Item('i')
            it.tag = (self.k, j)
            await self.start_item(it)
            await self.finish_item(it)
            mine.append(it)
            S.check('transactions differ', len(set(x.get_transaction_id() for x in mine)) == len(mine))
        if self.handler:
            while len([1 for k, t in self.log if k == self.k]) < self.n * self.turn:
                await Timer(1, 'NS')
            return
        S.shuffle('take%d' % self.k, mine)
        left = [it.tag for it in mine]
        for it in mine:
            r = []
            byid = S.bool('byid%d_%d' % (self.k, it.tag[1])) and it.tag in left
            await self.get_response(r, it.get_transaction_id() if byid else -1)
            S.check('one response', len(r) == 1)
            S.check('its own', r[0].tag[0] == self.k and r[0].tag in left)
            if byid:
                S.check('of the transaction', r[0].tag == it.tag)
            left.remove(r[0].tag)
            self.log.append((self.k, r[0].tag))


@search(runs=250, weight=2)
def traffic(S):
    """responses out of order, to several sequences"""
    top = Top('s02t', None)
    sqr = UVMSequencer('sqr', top)
    log = []
    seqs = [Body(S, k, S.int('n%d' % k, 1, 4), log, S.bool('h%d' % k)) for k in range(S.int('k', 1, 3))]
    times = [S.choice('times%d' % q.k, [1, 1, 2]) for q in seqs]
    total = sum(q.n * t for q, t in zip(seqs, times))

    async def starts(q, times):
        for i in range(times):
            await q.start(sqr)

    waiting, sent = [], []

    async def driver():
        for i in range(total):
            out = []
            await sqr.get_next_item(out)
            it = out[0]
            r = Item('r')
            r.tag = it.tag
            r.set_id_info(it)
            if S.bool('now%d' % i):
                sqr.item_done(r)
                sent.append(r)
            else:
                sqr.item_done()
                waiting.append(r)
            w = S.int('w%d' % i, 0, 2)
            if w:
                await Timer(w, 'NS')

    async def responder():
        n = 0
        while len(sent) < total:
            await Timer(S.int('p%d' % n, 1, 3), 'NS')
            n += 1
            if not waiting:
                continue
            r = waiting.pop(S.int('which%d' % n, 0, len(waiting) - 1))
            sent.append(r)
            if S.bool('put%d' % n):
                await sqr.put(r)
            else:
                sqr.put_response(r)
    S.simulate(driver(), responder(), *[starts(q, t) for q, t in zip(seqs, times)])
    S.check('every response once', sorted(t for k, t in log) == sorted((q.k, j) for q, t in zip(seqs, times) for j in range(q.n * t)))
    S.check('to its sequence', all(k == t[0] for k, t in log))
    S.check('no report', not S.reports.errors)
    S.check('all counted', sqr.get_num_reqs_sent() == total and sqr.get_num_rsps_received() == total)
