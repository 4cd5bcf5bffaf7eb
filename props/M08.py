"""M08: register accesses over sequencers and drivers, directly and through a translation sequence."""
from vc.unit import unit, search
from cocotb.triggers import Timer
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_resource import UVMResourcePool
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_sequence import UVMRegSequence, LOCAL, UPSTREAM
from uvm.reg.uvm_reg_model import UVM_LITTLE_ENDIAN, UVM_NO_COVERAGE, UVM_READ, UVM_WRITE, UVM_BURST_READ, UVM_BURST_WRITE, UVM_IS_OK, UVM_NOT_OK, UVM_FRONTDOOR
from uvm.macros.uvm_object_defines import uvm_object_utils
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence_base import UVMSequenceBase
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem

PROPERTY = {
 'title': 'Register accesses travel over sequencers to the driver and back',
 'statement': 'Every front-door access of a register or memory, from any number of sequences at once or from outside of any, directly on the sequencer of the bus or as register items through a translation sequence, is carried out once by the driver of the bus and comes back to its own caller with the value and the status of the bus. The accesses of one caller are carried out in its order; a translation sequence carries out one register item at a time, in the order they come, and hands each back with its own parent sequence. A sequence which the library creates for an access is gone from the sequencer of the map when the access ends.',
 'over': ['inputs', 'schedules'],
 'text': 'every mix of callers, registers, memories, delays, failing addresses, responses, direct and layered',
 'why': 'tests run one access at a time on one bus and never through a translation sequence',
 'files': ['src/uvm/reg/uvm_reg_map.py', 'src/uvm/reg/uvm_reg_sequence.py', 'src/uvm/seq/uvm_sequencer.py'],
 'mech': [['UVMRegMap.do_write, do_read', 'src/uvm/reg/uvm_reg_map.py'], ['UVMRegSequence.body, do_reg_item', 'src/uvm/reg/uvm_reg_sequence.py']],
 'note': 'the translation of one item and the way from the map to sequencer or bus are proved; the whole way from the callers to the driver and back is a bounded search over schedules',
}
LEVEL = 'other'
TRUSTED = ['cocotb scheduling by vc/minisim.py']
PATCH_METHODS = True


class Map:
    """the map as the translation sequence sees it"""
    def __init__(self, log): self.log = log
    async def do_bus_write(self, rw, sqr, ad): self.log.append(('w', rw, rw.parent, sqr, ad))
    async def do_bus_read(self, rw, sqr, ad): self.log.append(('r', rw, rw.parent, sqr, ad))


class RW:
    def __init__(self, kind, m, parent): self.kind, self.local_map, self.parent = kind, m, parent
    def convert2string(self): return 'rw'


@unit('UVMRegSequence.do_reg_item')
def translate(S):
    log = []
    sel = S.choice('select', [LOCAL, UPSTREAM])
    x = S.new(UVMRegSequence, m_sequencer='bus', adapter='ad', parent_select=sel, upstream_parent=None, m_name='x', leaf_name='x')
    for j in range(2):
        kind = S.choice('kind%d' % j, [UVM_WRITE, UVM_READ, UVM_BURST_WRITE, UVM_BURST_READ])
        par = S.choice('parent%d' % j, ['up', 'other', None])
        rw = RW(kind, Map(log), par)
        del log[:]
        S.run(x.do_reg_item(rw))
        S.check('one access', len(log) == 1 and log[0][0] == ('w' if kind in (UVM_WRITE, UVM_BURST_WRITE) else 'r') and log[0][1] is rw)
        S.check('made from the translation sequence or its own', log[0][2] is (x if sel == LOCAL else par))
        S.check('on the bus', log[0][3:] == ('bus', 'ad'))
        S.check('its own parent again', rw.parent is par)


class BusItem(UVMSequenceItem):
    def __init__(self, name='bus_item'): super().__init__(name)


class Adapter(UVMRegAdapter):
    def reg2bus(self, rw):
        it = BusItem('bi')
        it.kind, it.addr, it.data, it.ok = rw.kind, rw.addr, rw.data, True
        return it

    def bus2reg(self, it, rw):
        rw.status = UVM_IS_OK if it.ok else UVM_NOT_OK
        rw.data = it.data


class Parent(UVMSequence):
    def __init__(self, name='pseq'): super().__init__(name)


uvm_object_utils(Parent)


class Top(UVMComponent):
    pass


class Caller(UVMSequence):
    async def body(self): await self.todo(self)


@search(runs=140)
def bus(S):
    """real sequencers and a driver"""
    S.stub(UVMRegBlock, 'm_roots', {})
    S.stub(UVMResourcePool, 'm_rp', None)
    top = Top('m08', None)
    sqr = UVMSequencer('sqr', top)
    layered = S.bool('layered')
    up = UVMSequencer('up', top) if layered else None
    ad = Adapter('ad')
    ad.provides_responses = S.bool('responses')
    if S.bool('parented'):
        ad.parent_sequence = Parent('pseq')
    blk = UVMRegBlock('blk')
    m = blk.create_map('m', 0, 4, UVM_LITTLE_ENDIAN, True)
    regs, mems = [], []
    nr = S.int('regs', 1, 3)
    for i in range(nr):
        r = UVMReg('r%d' % i, 32 if S.bool('w%d' % i) else 64, UVM_NO_COVERAGE)
        r.configure(blk, None, '')
        f = UVMRegField('f')
        f.configure(r, r.get_n_bits(), 0, 'RW', False, 0, True, False, True)
        m.add_reg(r, 0x10 * i, 'RW')
        regs.append(r)
    mem = UVMMem('mem', 12, 32, 'RW', UVM_NO_COVERAGE)
    mem.configure(blk, '')
    m.add_mem(mem, 0x100, 'RW')
    blk.lock_model()
    m.set_auto_predict(True)
    if layered:
        m.set_sequencer(up, None)
        x = UVMRegSequence('xlate')
        x.reg_seqr, x.adapter, x.parent_select = up, ad, S.choice('select', [LOCAL, UPSTREAM])
    else:
        m.set_sequencer(sqr, ad)
    n = S.int('callers', 1, 3)
    asked = []
    if layered:
        def sent(seq, rw, rerandomize=0, f=up.send_request):
            is_mem = rw.element is mem
            at = 0x100 + 4 * rw.offset if is_mem else 0x10 * regs.index(rw.element)
            asked.append([at + 4 * i for i in range(len(rw.value) if is_mem else rw.element.get_n_bits() // 32)])
            f(seq, rw, rerandomize)
        S.stub(up, 'send_request', sent)
    content, ops, bad, active = {}, [], [], []
    bad = [0x10 * S.int('bad%d' % i, 0, 2) for i in range(S.int('bads', 0, 1))]

    async def driver():
        while True:
            g = []
            await sqr.get_next_item(g)
            it = g[0]
            ops.append((it.kind if it.kind in (UVM_READ, UVM_WRITE) else UVM_WRITE if it.kind == UVM_BURST_WRITE else UVM_READ, it.addr, it.data))
            await Timer(S.int('d%d' % len(ops), 0, 3) + 1, 'NS')
            if it.addr in bad:
                it.ok = False
            elif it.kind in (UVM_WRITE, UVM_BURST_WRITE):
                content[it.addr] = it.data
            else:
                it.data = content.get(it.addr, 0)
            if ad.provides_responses:
                rsp = BusItem('rsp')
                rsp.set_id_info(it)
                rsp.kind, rsp.addr, rsp.data, rsp.ok = it.kind, it.addr, it.data, it.ok
                it.data, it.ok = 0xbad, True
                sqr.item_done(rsp)
            else:
                sqr.item_done()

    cells = {}
    order = []
    ended = []

    async def calls(k, parent):
        mine = [r for i, r in enumerate(regs) if i % n == k]
        for j in range(S.int('n%d' % k, 0, 4)):
            key = '%d_%d' % (k, j)
            how = S.choice('how' + key, (['w', 'r', 'w', 'r'] if mine else []) + ['mw', 'mr', 'bw', 'br'])
            st, out = [], []
            s0 = len(ops)
            if how in 'wr':
                r = mine[S.int('r' + key, 0, 9) % len(mine)]
                a = [0x10 * regs.index(r) + 4 * w for w in range(r.get_n_bits() // 32)]
                bits = r.get_n_bits()
                v = S.int('v' + key, 0, (1 << bits) - 1)
            else:
                o = 4 * k + S.int('o' + key, 0, 3)
                size = S.int('s' + key, 1, 4 * k + 4 - o) if how[0] == 'b' else 1
                a, v = [0x100 + 4 * (o + i) for i in range(size)], S.int('v' + key, 0, (1 << (32 * size)) - 1)
                words = [(v >> (32 * i)) & 0xffffffff for i in range(size)]
            ok = not [y for y in a if y in bad]
            kind = UVM_WRITE if 'w' in how else UVM_READ
            if how == 'w':
                await r.write(st, v, parent=parent)
            elif how == 'r':
                await r.read(st, out, parent=parent)
            elif how == 'mw':
                await mem.write(st, o, v, parent=parent)
            elif how == 'mr':
                await mem.read(st, o, out, parent=parent)
            elif how == 'bw':
                await mem.burst_write(st, o, words, parent=parent)
            else:
                out = [0] * size
                await mem.burst_read(st, o, out, parent=parent)
                out = [sum(w << (32 * i) for i, w in enumerate(out))]
            did = [e for e in ops[s0:] if e[1] in a]
            reached = a if ok else a[:1 + min(a.index(y) for y in a if y in bad)]
            S.check('carried out once', [e[:2] for e in did] == [(kind, y) for y in reached], dict(did=did, how=how))
            S.check('the status of the bus', st == [UVM_IS_OK if ok else UVM_NOT_OK])
            if kind == UVM_WRITE:
                S.check('the value', [e[2] for e in did] == [(v >> (32 * i)) & 0xffffffff for i in range(len(reached))])
                for i, y in enumerate(reached):
                    if y not in bad:
                        cells[y] = (v >> (32 * i)) & 0xffffffff
            elif ok:
                S.check('the value of the bus', out == [sum(cells.get(y, 0) << (32 * i) for i, y in enumerate(a))], dict(out=out))
            if ok and how in 'wr':
                S.check('mirrored', r.get_mirrored_value() == sum(cells.get(y, 0) << (32 * i) for i, y in enumerate(a)))
            p = S.int('p' + key, 0, 2)
            if p:
                await Timer(p, 'NS')
        ended.append(k)

    async def caller(k):
        if S.bool('seq%d' % k):
            c = Caller('c%d' % k)
            c.todo = lambda me: calls(k, me)
            if S.bool('on%d' % k):
                await c.start(up if layered else sqr)
            else:
                await c.start(None)
        else:
            await calls(k, None)

    async def xlate():
        if layered:
            await x.start(sqr)
    S.simulate(driver(), xlate(), *[caller(k) for k in range(n)])
    S.check('every caller ends', sorted(ended) == list(range(n)), dict(ended=ended))
    S.check('what the bus holds', content == cells)
    if layered:
        want = [y for a in asked for y in (a[:1 + min(a.index(y) for y in a if y in bad)] if [y for y in a if y in bad] else a)]
        S.check('one item at a time, in the order they come', [e[1] for e in ops] == want, dict(ops=ops, want=want))
    for q in [up if layered else sqr]:
        left = [q.reg_sequences[i].get_name() for i in q.reg_sequences.keys()]
        S.check('no sequence of the library stays', [y for y in left if y in ('default_parent_seq', 'pseq')] == [], dict(left=left))
    S.check('no report', not S.reports.errors or bool(bad))


@search(runs=20)
def idle(S):
    """a translation sequence which nobody feeds"""
    top = Top('m08', None)
    sqr = UVMSequencer('sqr', top)
    log, ended = [], []
    x = UVMRegSequence('xlate')
    x.adapter = 'ad'

    async def run():
        await x.start(sqr)
        ended.append(1)

    async def direct():
        for k in range(S.int('n', 0, 3)):
            await Timer(S.int('t%d' % k, 1, 3), 'NS')
            await x.do_reg_item(RW(S.choice('k%d' % k, [UVM_WRITE, UVM_READ]), Map(log), None))
            S.check('direct calls work', len(log) == k + 1 and log[k][3:] == (sqr, 'ad'))
    S.simulate(run(), direct())
    S.check('it stays', ended == [])
    S.check('a warning', S.reports.warnings and not S.reports.errors)


class Sqr:
    def __init__(self, log): self.log = log
    def m_sequence_exiting(self, s): self.log.append(('gone', s))


class Own(UVMSequenceBase):
    """the parent sequence of an adapter or a caller"""
    def __init__(self, log, S): self.log, self.S, self.m_parent_sequence = log, S, None
    def clone(self):
        c = Own(self.log, self.S)
        c.first = self
        return c
    async def start_item(self, it, prior=-1, sequencer=None): self.log.append(('start', self, it, prior, it.sqr))
    async def finish_item(self, it, prior=-1): self.log.append(('finish', self, it))


class AnyEvent:
    def __init__(self, log): self.log = log
    async def wait_on(self, *a): self.log.append(('wait',))


class Item:
    def __init__(self, log, parent, prior): self.log, self.parent, self.prior, self.sqr, self.end_event = log, parent, prior, None, AnyEvent(log)
    def set_sequencer(self, q): self.sqr = q


@unit('UVMRegMap.do_write', 'UVMRegMap.do_read')
def way(S):
    log = []
    sq = Sqr(log)
    ad = S.choice('adapter', ['none', 'plain', 'own'])
    a = None
    if ad != 'none':
        a = S.new(UVMRegAdapter, parent_sequence=Own(log, S) if ad == 'own' else None)
    top = S.new(UVMRegMap, m_parent_map=None, m_adapter=a, m_sequencer=sq, m_name='top', leaf_name='top')
    m = S.new(UVMRegMap, m_parent_map=top, m_adapter=None, m_sequencer=None, m_name='m', leaf_name='m') if S.bool('below') else top

    async def do_bus_write(rw, q, x): log.append(('w', rw.parent, q, x))
    async def do_bus_read(rw, q, x): log.append(('r', rw.parent, q, x))
    S.stub(m, 'do_bus_write', do_bus_write)
    S.stub(m, 'do_bus_read', do_bus_read)
    has = S.bool('has')
    if ad == 'none':
        S.require(has)
    mine = Own(log, S) if has else None
    rw = Item(log, mine, S.int('prior', -1, None))
    w = S.bool('write')
    S.run(m.do_write(rw) if w else m.do_read(rw))
    if ad == 'none':
        S.check('the item itself goes to the sequencer', len(log) == 3 and log[0][:3] == ('start', mine, rw) and log[1] == ('finish', mine, rw) and log[2] == ('wait',))
        S.check('of the top map', log[0][4] is sq)
        S.check('with its priority', log[0][3] == rw.prior)
        return
    S.check('one access', log[0][0] == ('w' if w else 'r') and log[0][2] is sq and log[0][3] is a and len([e for e in log if e[0] in ('w', 'r')]) == 1)
    par = log[0][1]
    if ad == 'own':
        S.check('from a copy of the sequence of the adapter', par is not mine and par.first is a.parent_sequence)
        S.check('below the caller', par.get_parent_sequence() is mine)
    elif has:
        S.check('from the caller', par is mine)
    else:
        S.check('from a sequence of its own', isinstance(par, UVMSequenceBase))
    S.check('which is gone afterwards', log[1:] == ([] if par is mine else [('gone', par)]))
