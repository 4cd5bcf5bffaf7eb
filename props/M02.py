"""M02: bus operations of register and memory accesses."""
from vc.unit import unit, search
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_map import UVMRegTransactionOrderPolicy
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_NO_COVERAGE, UVM_REG, UVM_MEM, UVM_READ, UVM_WRITE, UVM_BURST_READ, UVM_BURST_WRITE,
                                   UVM_IS_OK, UVM_NOT_OK, UVM_FRONTDOOR)

PROPERTY = {
 'title': 'A front-door access is exactly the bus operations that carry its value',
 'statement': 'Writing a register or memory word through a map issues one bus operation per bus word, each to the address of that word and carrying exactly its part of the value and its number of valid bits; a burst issues them for consecutive memory words. Reading issues the same operations and puts the value together from the parts, whatever order a transaction order policy or a narrow bus puts them in. The first operation that fails ends the access and its status is the status of the access; the result of each operation is taken from the bus item or, if the adapter says so, from the response.',
 'over': ['inputs', 'configurations'],
 'text': 'every value, address, bus width and endianness, every failing operation; registers of up to five bus words, bursts of up to three',
 'why': 'tests have one 8-bit bus with one-word registers and memories',
 'files': ['src/uvm/reg/uvm_reg_map.py'],
 'mech': [['UVMRegMap.do_bus_write, do_bus_read, do_write, do_read', 'src/uvm/reg/uvm_reg_map.py']],
 'note': 'for every value, address, bus content and position of a failing operation; number of bus words and burst length bounded as stated; sequence, sequencer and adapter enter by contract; field-kind items cannot reach this code (fields are accessed through their register)',
}
LEVEL = 'other'
TRUSTED = ['start_item/finish_item return when the driver has finished with the item (S01/S02)']


class Ev:
    def __init__(self, log): self.log = log
    async def wait_on(self, *a): self.log.append(('ended',))


class Item:
    def __init__(self, log, i): self.end_event, self.i, self.sqr = Ev(log), i, None
    def set_sequencer(self, s): self.sqr = s


class Seq:
    """the sequence an access is made from"""
    def __init__(self, bus): self.bus = bus
    async def start_item(self, item, prior=-1): self.bus.log.append(('start', item.i, prior, item.sqr))
    async def finish_item(self, item, prior=-1): self.bus.log.append(('finish', item.i))
    def mid_do(self, item): self.bus.mid += 1
    def post_do(self, item): self.bus.post += 1

    async def get_base_response(self, response, transaction_id=-1):
        response.append(('rsp', self.bus.n - 1))


class Adapter(UVMRegAdapter):
    """records the operations; operation number `fail` fails, reads answer by address"""

    def reg2bus(self, rw):
        b = self.bus
        b.ops.append((rw.kind, rw.addr, rw.data, rw.n_bits, rw.byte_en))
        b.item = self.get_item()
        b.n += 1
        return Item(b.log, b.n - 1)

    def bus2reg(self, bus_item, rw):
        b = self.bus
        b.answered.append(bus_item.i if isinstance(bus_item, Item) else bus_item)
        k = b.n - 1
        rw.status = UVM_NOT_OK if k == b.fail else UVM_IS_OK
        if b.answer is not None:
            rw.data = b.answer(k)


class Bus:
    pass


def setup(S, responses=None):
    b = Bus()
    b.ops, b.log, b.answered, b.n, b.mid, b.post, b.item, b.fail, b.answer = [], [], [], 0, 0, 0, None, -1, None
    b.ad = Adapter('ad')
    b.ad.bus = b
    b.ad.provides_responses = S.bool('resp') if responses is None else responses
    b.seq = Seq(b)
    return b


def model(S, bus, bw, n_bits, mem=None, e=None):
    """block with one register (or memory) at a symbolic offset"""
    blk = UVMRegBlock('blk')
    e = S.choice('e', [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN]) if e is None else e
    m = blk.create_map('m', S.int('base', 0), bw, e, True)
    off = S.int('off', 0, cap=0x100)
    if mem:
        x = UVMMem('mem', mem, n_bits, 'RW', UVM_NO_COVERAGE)
        x.configure(blk, '')
        m.add_mem(x, off, 'RW')
    else:
        x = UVMReg('r', n_bits, UVM_NO_COVERAGE)
        x.configure(blk, None, '')
        f = UVMRegField('f')
        f.configure(x, n_bits, 0, 'RW', False, 0, True, False, True)
        m.add_reg(x, off, 'RW')
    blk.lock_model()
    m.set_sequencer('sqr', bus.ad)
    nw = (n_bits + 8 * bw - 1) // (8 * bw)

    def addr(i, word=0):
        a = m.get_base_addr() + off + word * nw * bw
        return a + (nw - 1 - i if e == UVM_BIG_ENDIAN else i) * bw
    return m, x, nw, addr


def item(bus, m, x, kind, value, offset=0):
    rw = UVMRegItem('rw')
    rw.element, rw.element_kind = x, UVM_MEM if isinstance(x, UVMMem) else UVM_REG
    rw.kind, rw.value, rw.path, rw.map, rw.local_map, rw.parent, rw.prior, rw.offset = kind, value, UVM_FRONTDOOR, m, m, bus.seq, 7, offset
    return rw


def part(S, v, i, bw):
    return S.bitwise(8 * bw, lambda j: S.bit(v, j + 8 * bw * i))


SIZES = [(1, 8), (1, 24), (2, 18), (2, 24), (2, 32), (4, 8), (4, 40), (8, 40)]


def protocol(S, bus, n):
    """every operation: item started, finished, waited for, answered"""
    log = []
    for i in range(n):
        log += [('start', i, 7, 'sqr'), ('finish', i), ('ended',)]
    S.check('every operation is carried out before the next one', bus.log == log, (bus.log, log))
    S.check('every answer is used', bus.answered == [('rsp', i) if bus.ad.provides_responses else i for i in range(n)])


@unit('UVMRegMap.do_bus_write', 'UVMRegMap.do_write', limit='five bus words')
def write(S):
    bus = setup(S)
    bw, n_bits = S.choice('size', SIZES)
    m, x, nw, addr = model(S, bus, bw, n_bits)
    v = S.bits('v', n_bits)
    bus.fail = S.pick('fail', 0, nw + 1)
    rw = item(bus, m, x, UVM_WRITE, [v])
    S.run(m.do_write(rw))
    n = min(nw, bus.fail + 1)
    S.check('operations up to the failing one', len(bus.ops) == n)
    for i in range(n):
        kind, a, d, nb, be = bus.ops[i]
        S.check('kind', kind == UVM_WRITE)
        S.check('address', a == addr(i))
        S.check('part of the value', d == part(S, v, i, bw))
        S.check('valid bits', nb == min(8 * bw, n_bits - 8 * bw * i))
        S.check('all byte lanes are enabled', be & ((1 << bw) - 1) == (1 << bw) - 1)
    S.check('status', rw.status == (UVM_NOT_OK if bus.fail < nw else UVM_IS_OK))
    S.check('the adapter sees the access', bus.item is rw and bus.ad.get_item() is None)
    protocol(S, bus, n)


@unit('UVMRegMap.do_bus_read', 'UVMRegMap.do_read', limit='five bus words')
def read(S):
    bus = setup(S)
    bw, n_bits = S.choice('size', SIZES)
    m, x, nw, addr = model(S, bus, bw, n_bits)
    d = [S.bits('d%d' % i, 8 * bw) for i in range(nw)]
    bus.fail = S.pick('fail', 0, nw + 1)
    bus.answer = lambda k: d[k]
    rw = item(bus, m, x, UVM_READ, [S.bits('old', 64)])
    S.run(m.do_read(rw))
    n = min(nw, bus.fail + 1)
    S.check('operations up to the failing one', len(bus.ops) == n)
    for i in range(n):
        kind, a, _, nb, be = bus.ops[i]
        S.check('kind', kind == UVM_READ)
        S.check('address', a == addr(i))
        S.check('valid bits', nb == min(8 * bw, n_bits - 8 * bw * i))
    if bus.fail >= nw:
        S.check('value read', rw.value[0] & ((1 << n_bits) - 1) == cat(S, d, bw) & ((1 << n_bits) - 1))
    S.check('status', rw.status == (UVM_NOT_OK if bus.fail < nw else UVM_IS_OK))
    S.check('the adapter sees the access', bus.item is rw and bus.ad.get_item() is None)
    protocol(S, bus, n)


def cat(S, d, bw):
    v = 0
    for i, x in enumerate(d):
        v = v | (x << (8 * bw * i))
    return v


class Rev(UVMRegTransactionOrderPolicy):
    def order(self, q): q.reverse()


class Rot(UVMRegTransactionOrderPolicy):
    def order(self, q): q.append(q.pop(0))


@unit('UVMRegMap.do_bus_write', 'UVMRegMap.do_bus_read', limit='five bus words')
def ordered(S):
    """a transaction order policy changes the order of the operations and nothing else"""
    bus = setup(S, False)
    bw, n_bits = S.choice('size', [(1, 24), (2, 24), (1, 40)])
    m, x, nw, addr = model(S, bus, bw, n_bits)
    pol = S.choice('policy', ['rev', 'rot'])
    m.policy = Rev('p') if pol == 'rev' else Rot('p')
    order = list(range(nw))[::-1] if pol == 'rev' else list(range(1, nw)) + [0]
    if S.bool('wr'):
        v = S.bits('v', n_bits)
        rw = item(bus, m, x, UVM_WRITE, [v])
        S.run(m.do_write(rw))
        S.check('all parts', len(bus.ops) == nw)
        for k, i in enumerate(order):
            S.check('operation in its place', S.and_(bus.ops[k][1] == addr(i), bus.ops[k][2] == part(S, v, i, bw), bus.ops[k][3] == min(8 * bw, n_bits - 8 * bw * i)))
    else:
        d = [S.bits('d%d' % i, 8 * bw) for i in range(nw)]
        bus.answer = lambda k: d[order[k]]
        rw = item(bus, m, x, UVM_READ, [0])
        S.run(m.do_read(rw))
        S.check('all parts', len(bus.ops) == nw)
        for k, i in enumerate(order):
            S.check('operation in its place', bus.ops[k][1] == addr(i))
        S.check('value read', rw.value[0] & ((1 << n_bits) - 1) == cat(S, d, bw) & ((1 << n_bits) - 1))


@unit('UVMRegMap.do_bus_write', 'UVMRegMap.do_bus_read', limit='three words of up to three bus words')
def memory(S):
    bus = setup(S, False)
    bw, n_bits = S.choice('size', [(1, 8), (4, 32), (1, 24), (4, 8)])
    m, x, nw, addr = model(S, bus, bw, n_bits, mem=S.choice('depth', [4, 100]))
    n = S.choice('n', [1, 2, 3])
    w = S.int('w', 0, cap=3)
    S.require(w + n <= x.get_size())
    bus.fail = S.pick('fail', 0, n * nw + 1)
    ops = min(n * nw, bus.fail + 1)
    if S.bool('wr'):
        v = [S.bits('v%d' % i, n_bits) for i in range(n)]
        rw = item(bus, m, x, UVM_BURST_WRITE, list(v), w)
        S.run(m.do_write(rw))
        S.check('one operation per bus word, up to the failing one', len(bus.ops) == ops)
        for j in range(n):
            for i in range(nw):
                if j * nw + i >= ops:
                    continue
                S.check('operation', S.and_(bus.ops[j * nw + i][1] == addr(i, w + j), bus.ops[j * nw + i][2] == part(S, v[j], i, bw),
                                            bus.ops[j * nw + i][3] == min(8 * bw, n_bits - 8 * bw * i)))
    else:
        d = [S.bits('d%d' % i, 8 * bw) for i in range(n * nw)]
        bus.answer = lambda k: d[k]
        rw = item(bus, m, x, UVM_BURST_READ, [0] * n, w)
        S.run(m.do_read(rw))
        S.check('one operation per bus word, up to the failing one', len(bus.ops) == ops)
        for j in range(n):
            for i in range(nw):
                if j * nw + i >= ops:
                    continue
                S.check('address', bus.ops[j * nw + i][1] == addr(i, w + j))
            if (j + 1) * nw <= bus.fail:
                S.check('value read', rw.value[j] & ((1 << n_bits) - 1) == cat(S, d[j * nw:(j + 1) * nw], bw) & ((1 << n_bits) - 1))
        S.check('as many values', len(rw.value) == n)
    S.check('status', rw.status == (UVM_NOT_OK if bus.fail < n * nw else UVM_IS_OK))
