"""S01: sequencer arbitration, locks and the item handshake."""
from vc.unit import unit, search
from cocotb.triggers import Timer
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_queue import UVMQueue
from uvm.base.uvm_object_globals import UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM
from uvm.base import sv as svm
from uvm.seq import uvm_sequencer_base as SB
from uvm.seq.uvm_sequencer_base import UVMSequencerBase, uvm_sequence_request, SEQ_TYPE_REQ, SEQ_TYPE_LOCK
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence_base import UVMSequenceBase
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.base.uvm_pool import UVMPool
from cocotb.triggers import Event

PROPERTY = {
 'title': 'A sequencer serves requests in arbitration order, once, and honours locks',
 'statement': 'Under first-in-first-out arbitration a sequencer grants the oldest request whose sequence is relevant and not locked out, under random arbitration some such request, and none if there is none. While a sequence holds a lock every sequence but it and its descendants is locked out, and locks are granted in order to one family of sequences at a time without losing the other requests. Every item reaches the driver exactly once, in order for each sequence and carrying the identity of its sequence, and the sequence goes on when the driver is done with that item, not earlier and not later.',
 'over': ['inputs', 'schedules', 'histories'],
 'text': 'every number of waiting requests and of locks; interleavings of sequences and driver calls',
 'why': 'tests run one or two sequences against one driver which always asks for the next item at once',
 'files': ['src/uvm/seq/uvm_sequencer_base.py', 'src/uvm/seq/uvm_sequencer.py', 'src/uvm/seq/uvm_sequencer_param_base.py', 'src/uvm/seq/uvm_sequence_base.py'],
 'mech': [['UVMSequencerBase.m_choose_next_request, grant_queued_locks, is_blocked, remove_sequence_from_queues', 'src/uvm/seq/uvm_sequencer_base.py'], ['UVMSequencer.get_next_item, try_next_item, item_done, get, peek', 'src/uvm/seq/uvm_sequencer.py'], ['UVMSequenceBase.start_item, finish_item', 'src/uvm/seq/uvm_sequence_base.py']],
 'note': 'selection and lock-out proved for queues and lock lists of any length; lock grants and removals enumerated up to three requests; interleavings searched',
}


PATCH_METHODS = True


class Seq(UVMSequenceBase):
    """a sequence as the arbitration sees it"""
    def __init__(self, id, parent=None, rel=True):
        self.id, self.m_parent_sequence, self.rel = id, parent, rel
        self.m_sequence_state = 0
    def get_inst_id(self): return self.id
    def is_relevant(self): return self.rel
    def get_full_name(self): return 'seq'
    def get_name(self): return 'seq'


class Req(uvm_sequence_request):
    def __init__(self, i, seq, request=SEQ_TYPE_REQ):
        uvm_sequence_request.__init__(self)
        self.i, self.request_id, self.sequence_ptr, self.request = i, i, seq, request
        self.sequence_id = seq.id


def queue(items):
    q = UVMQueue()
    q.queue = items
    return q


def sequencer(S, cls=UVMSequencerBase, arb=UVM_SEQ_ARB_FIFO):
    return S.new(cls, m_arbitration=arb, arb_sequence_q=queue([]), lock_list=queue([]), m_lock_arb_size=0, m_arb_size=0,
                 arb_completed=UVMPool(), reg_sequences=UVMPool(), m_event_value_changed=Event('e'), m_sequencer_id=1, m_name='sqr')


@unit('UVMSequencerBase.is_blocked', 'UVMSequencerBase.is_child')
def blocked(S):
    s = sequencer(S)
    d = S.choice('depth', [0, 1, 2])
    seq, ids = None, []
    for k in range(d + 1):
        ids.append(S.int('id%d' % k))
        seq = Seq(ids[-1], seq)
    locks = S.list('locks', lambda e: Seq(e.int('id')))
    S.scan(locks, lambda e: S.or_(*[e.id == i for i in ids]))
    s.lock_list = queue(locks)
    b = s.is_blocked(seq)
    S.check('locked out by another family only', S.iff(b != 0, S.exists(locks, lambda e: S.and_(*[e.id != i for i in ids]))))
    S.check('grabbed', S.iff(s.is_grabbed(), S.length(locks) > 0))


@unit('UVMSequencerBase.m_choose_next_request')
def fifo(S):
    s = sequencer(S)
    owner = S.int('owner')
    locked = S.bool('locked')
    if locked:
        s.lock_list.push_back(Seq(owner))
        locked = True
    else:
        locked = False
    q = S.list('q', lambda e: Req(e.idx, Seq(e.int('id'), None, S.ite(e.bool('rel'), 1, 0))))
    ok = lambda e: S.and_(e.sequence_ptr.rel == 1, S.or_(not locked, e.sequence_ptr.id == owner))
    S.scan(q, ok)
    s.arb_sequence_q = queue(q)
    r = s.m_choose_next_request()
    if r == -1:
        S.forall('nothing could be granted', q, lambda i, e: S.not_(ok(e)))
        return
    S.check('in the queue', S.and_(r >= 0, r < S.length(q)))
    S.check('can be granted', ok(q[r]))
    S.forall('the oldest', q, lambda i, e: S.implies(i < r, S.not_(ok(e))))


@unit('UVMSequencerBase.m_choose_next_request', limit='four waiting requests')
def random(S):
    s = sequencer(S, arb=UVM_SEQ_ARB_RANDOM)
    owner = S.int('owner')
    locked = False
    if S.bool('locked'):
        s.lock_list.push_back(Seq(owner))
        locked = True
    q = S.list('q', lambda e: Req(e.idx, Seq(e.int('id'), None, 1 if e.bool('rel') else 0)), maxn=4)
    ok = [S.and_(e.sequence_ptr.rel == 1, S.or_(not locked, e.sequence_ptr.id == owner)) for e in q]
    asked = []

    def rnd(a, b):
        asked.append((a, b))
        return S.pick('rnd', a, b + 1)
    S.stub(SB.sv, 'urandom_range', rnd)
    s.arb_sequence_q = queue(list(q))
    r = s.m_choose_next_request()
    n = 0
    for o in ok:
        n = n + S.ite(o, 1, 0)
    if r == -1:
        S.check('nothing could be granted', n == 0)
        return
    for i, o in enumerate(ok):
        S.check('can be granted', S.implies(r == i, o))
    S.check('in the queue', S.and_(r >= 0, r < len(q)))
    if asked:           # however it is drawn, the draw is the only choice
        S.check('drawn among all of them', S.and_(asked[0][0] == 0, asked[0][1] == n - 1))


@unit('UVMSequencerBase.grant_queued_locks', limit='three requests, four sequences')
def locks(S):
    s = sequencer(S)
    a, b = Seq(1), Seq(2)
    seqs = [a, b, Seq(3, a), Seq(4, b)]
    held = S.choice('held', [None, a, b])
    fam = lambda q: q.m_parent_sequence or q
    up = lambda q: [q] + ([q.m_parent_sequence] if q.m_parent_sequence else [])
    have = []
    if held is not None:
        s.lock_list.push_back(held)
        have.append(held)
    n = S.choice('n', [1, 2, 3])
    q = []
    for i in range(n):
        q.append(Req(10 + i, S.choice('s%d' % i, seqs if i < 2 else seqs[:2]), SEQ_TYPE_LOCK if S.bool('lock%d' % i) else SEQ_TYPE_REQ))
    s.arb_sequence_q = queue(list(q))
    s.grant_queued_locks()
    rest, granted, leading = [], [], True
    for r in q:
        if r.request != SEQ_TYPE_LOCK:
            leading = False
        if leading and all(h in up(r.sequence_ptr) for h in have):
            have.append(r.sequence_ptr)
            granted.append(r)
        else:
            rest.append(r)
    S.check('locks held', list(s.lock_list.queue) == have)
    S.check('requests waiting', list(s.arb_sequence_q.queue) == rest)
    for r in q:
        S.check('told', s.arb_completed.exists(r.request_id) == (r in granted))


@unit('UVMSequencerBase.remove_sequence_from_queues', limit='two requests, two locks')
def removed(S):
    s = sequencer(S)
    a, b = Seq(1), Seq(2)
    c = Seq(3, a)
    d = Seq(4, c)
    seqs = [a, b, c, d]
    for x in seqs:
        x.m_sqr_seq_ids = UVMPool()
        x.m_sequence_id = -1
        S.stub(Seq, 'set_sequence_id', lambda self, i: None)
        x.m_sqr_seq_ids.add(1, x.id)
        s.reg_sequences.add(x.id, x)
    q = [Req(10 + i, S.choice('s%d' % i, seqs)) for i in range(S.choice('n', [0, 1, 2]))]
    l = [S.choice("l%d" % i, seqs) for i in range(S.choice("locks", [0, 1, 2]))]
    s.arb_sequence_q, s.lock_list = queue(list(q)), queue(list(l))
    gone = S.choice('gone', [a, b, c])
    under = {a: [a, c, d], b: [b], c: [c, d]}[gone]
    s.m_sequence_exiting(gone)
    S.check('its requests and those of its descendants', list(s.arb_sequence_q.queue) == [r for r in q if r.sequence_ptr not in under])
    S.check('its locks and those of its descendants', list(s.lock_list.queue) == [x for x in l if x not in under])
    S.check('it alone is forgotten', [k for k in s.reg_sequences.keys()] == [x.id for x in seqs if x is not gone])


class Item(UVMSequenceItem):
    pass


class Top(UVMComponent):
    pass


class Body(UVMSequence):
    def __init__(self, name, k, n, S, log, rel=True):
        super().__init__(name)
        self.k, self.n, self.S, self.log = k, n, S, log

    async def body(self):
        S, log = self.S, self.log
        for j in range(self.n):
            d = S.int('d%d_%d' % (self.k, j), 0, 3)
            if d:
                await Timer(d, 'NS')
            it = Item('it%d_%d' % (self.k, j))
            it.tag = (self.k, j)
            log['req'].append(it.tag)
            await self.start_item(it)
            log['granted'].append(it.tag)
            await self.finish_item(it)
            log['end'].append((it.tag, S.sim.now))


@search(runs=500, weight=3)
def traffic(S):
    """sequences against a driver"""
    top = Top('s01', None)
    sqr = UVMSequencer('sqr', top)
    arb = S.choice('arb', [UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_FIFO, UVM_SEQ_ARB_RANDOM])
    sqr.set_arbitration(arb)
    log = {'req': [], 'granted': [], 'end': []}
    seqs = [Body('q%d' % k, k, S.int('n%d' % k, 1, 4), S, log) for k in range(S.int('k', 1, 3))]
    total = sum(q.n for q in seqs)
    seen, done = [], {}
    after = S.bool('after')

    async def driver():
        left = total
        i = 0
        while left:
            how = S.choice('how%d' % i, ['next', 'next', 'get', 'try', 'peek'])
            i += 1
            out = []
            if how == 'next':
                r = await sqr.get_next_item(out)
            elif how == 'get':
                await sqr.get(out)
            elif how == 'peek':
                await sqr.peek(out)
                o2 = []
                await sqr.peek(o2)
                S.check('peek shows the same item', o2 == out)
            else:
                await sqr.try_next_item(out)
                if not out:
                    await Timer(1, 'NS')
                    continue
            S.check('one item', len(out) == 1)
            it = out[0]
            seen.append(it.tag)
            S.check('the identity of its sequence', it.get_sequence_id() == seqs[it.tag[0]].get_sequence_id())
            left -= 1
            if how == 'get':
                done[it.tag] = S.sim.now
                w = S.int('w%d' % i, 0, 2)
                if w:
                    await Timer(w, 'NS')
                continue
            S.check('not done yet', it.tag not in [t for t, _ in log['end']])
            w = S.int('w%d' % i, 0, 4)
            if w:
                await Timer(w, 'NS')
            S.check('not done yet', it.tag not in [t for t, _ in log['end']])
            if S.bool('pg%d' % i):
                o2 = []
                await sqr.get(o2)
                S.check('get after peek or next yields the same item', o2 == out)
            else:
                sqr.item_done()
            done[it.tag] = S.sim.now
            w = S.int('v%d' % i, 0, 3)
            if w:
                await Timer(w, 'NS')
    S.simulate(driver(), *[q.start(sqr) for q in seqs])
    S.check('every item once', sorted(seen) == sorted((q.k, j) for q in seqs for j in range(q.n)))
    for q in seqs:
        S.check('in order', [t for t in seen if t[0] == q.k] == [(q.k, j) for j in range(q.n)])
    if arb == UVM_SEQ_ARB_FIFO:
        S.check('first come first served', seen == log['req'] and log['granted'] == log['req'])
    S.check('every sequence goes on', sorted(t for t, _ in log['end']) == sorted(seen))
    for t, when in log['end']:
        S.check('when its item is done', when == done.get(t))
    S.check('nothing is left', sqr.arb_sequence_q.size() == 0 and sqr.lock_list.size() == 0 and sqr.m_req_fifo.is_empty())
    S.check('no report', not S.reports.errors)
