"""M07: the built-in register and memory test sequences."""
from vc.unit import unit, search, FatalReport
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_adapter import UVMRegAdapter
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_NO_COVERAGE, UVM_READ, UVM_WRITE, UVM_IS_OK, UVM_NOT_OK, UVM_HAS_X, UVM_NO_CHECK,
                                   UVM_CHECK, UVM_NO_HIER, UVM_FRONTDOOR, UVM_BACKDOOR,
                                   UVM_DO_REG_HW_RESET, UVM_DO_REG_BIT_BASH, UVM_DO_REG_ACCESS, UVM_DO_MEM_ACCESS, UVM_DO_MEM_WALK)
from uvm.reg.sequences.uvm_reg_hw_reset_seq import UVMRegHWResetSeq
from uvm.reg.sequences.uvm_reg_bit_bash_seq import UVMRegBitBashSeq, UVMRegSingleBitBashSeq
from uvm.reg.sequences.uvm_reg_access_seq import UVMRegAccessSeq, UVMRegSingleAccessSeq, UVMRegMemAccessSeq
from uvm.reg.sequences.uvm_mem_walk_seq import UVMMemWalkSeq, UVMMemSingleWalkSeq
from uvm.reg.sequences.uvm_mem_access_seq import UVMMemAccessSeq, UVMMemSingleAccessSeq
from uvm.reg.sequences.uvm_reg_mem_built_in_seq import UVMRegMemBuiltInSeq
from uvm.base.uvm_resource_db import UVMResourceDb
from uvm.base.uvm_resource import UVMResourcePool
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence_item import UVMSequenceItem
from uvm.dpi.uvm_hdl import uvm_hdl
from uvm.base.sv import sv

PROPERTY = {
 'title': 'The built-in register tests pass a right device and report each wrong one',
 'statement': 'Each built-in test (reset values, bit bashing, register access, memory access, memory walk) tests every register or memory of the block it is given and of all blocks below, through each of its maps, except those that a resource keeps out of that test. For each it makes exactly the documented accesses, and reports an error exactly for an access which fails or a value read back which differs, in a compared bit, from what the model predicts or the test has written. So a device which behaves as the model describes is never reported, and a wrong reset value, a stuck read/write bit or a failing bus access is.',
 'over': ['inputs', 'configurations'],
 'text': 'any number of registers, memories and blocks, memories of any size, every value and status of every access; whole tests on models of up to three blocks, with and without a fault in the device',
 'why': 'tests run some of the sequences, on one flat model, with a right device',
 'files': ['src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py', 'src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py', 'src/uvm/reg/sequences/uvm_reg_access_seq.py',
           'src/uvm/reg/sequences/uvm_mem_access_seq.py', 'src/uvm/reg/sequences/uvm_mem_walk_seq.py', 'src/uvm/reg/sequences/uvm_reg_mem_built_in_seq.py'],
 'mech': [['UVMRegHWResetSeq.do_block', 'src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py'],
          ['UVMRegSingleBitBashSeq.body, bash_kth_bit', 'src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py'],
          ['UVMRegSingleAccessSeq.body', 'src/uvm/reg/sequences/uvm_reg_access_seq.py'],
          ['UVMMemSingleAccessSeq.body', 'src/uvm/reg/sequences/uvm_mem_access_seq.py'],
          ['UVMMemSingleWalkSeq.body', 'src/uvm/reg/sequences/uvm_mem_walk_seq.py'],
          ['UVMRegMemBuiltInSeq.body', 'src/uvm/reg/sequences/uvm_reg_mem_built_in_seq.py']],
 'note': 'the accesses enter the proofs by contract: each may have any status and read any value. Which bits a register is bashed in is only searched, not proved. Register access tests are judged on models of RW and RO fields; the shared-access and HDL-path tests are not in the port',
}

KNOWN = {'hw': ['NO_REG_TESTS', 'NO_REG_HW_RESET_TEST'], 'bash': ['NO_REG_TESTS', 'NO_REG_BIT_BASH_TEST'],
         'access': ['NO_REG_TESTS', 'NO_REG_ACCESS_TEST'], 'walk': ['NO_REG_TESTS', 'NO_MEM_TESTS', 'NO_MEM_WALK_TEST'],
         'mem': ['NO_REG_TESTS', 'NO_MEM_TESTS', 'NO_MEM_ACCESS_TEST']}
SEQ = {'hw': UVMRegHWResetSeq, 'bash': UVMRegBitBashSeq, 'access': UVMRegAccessSeq, 'walk': UVMMemWalkSeq, 'mem': UVMMemAccessSeq}


# each function of the tests, over contracts of what it calls

class Name:
    """the full name of an element; knows the resources set for it"""
    def __init__(self, off): self.off = off
    def __radd__(self, o): return self
    def __add__(self, o): return self
    def __str__(self): return 'name'


class El:
    def __init__(self, w, e):
        self.w, self.tag = w, e.int('tag')
        self.off = {n: e.bool(n) for n in w.names}
        self.st, self.path = e.int('st', 0, 2), e.bool('path')

    def get_full_name(self): return Name(self.off)
    def get_name(self): return 'el'
    def get_backdoor(self): return None
    def has_hdl_path(self, kind=''): return self.path

    async def mirror(self, status, check, path, m, parent):
        self.w.S.check('through the map', m is self.w.m and check == UVM_CHECK and path == UVM_FRONTDOOR and parent is self.w.seq)
        self.w.seen.append(self.tag)
        status.append(self.st)

    def skipped(self):
        return self.w.S.or_(*[self.off[n] for n in KNOWN[self.w.test]])


class World:
    """a block with any registers, memories and sub-blocks, any of them kept out of the test"""

    def __init__(self, S, test, elems=True, blks=True, maps=1):
        self.S, self.test = S, test
        self.names = sorted({n for v in KNOWN.values() for n in v})
        S.stub(UVMResourceDb, 'get_by_name', lambda scope, name, rpterr=True: 1 if scope.off[name] else None)
        S.lists()
        self.seen = S.empty()
        S.root('seen', self.seen)
        self.off = {n: S.bool('own.' + n) for n in self.names}
        self.elems = S.list('elems', lambda e: El(self, e)) if elems else []
        self.blks = S.list('blks', lambda e: El(self, e)) if blks else []
        self.n_maps = maps

    def get_full_name(self): return Name(self.off)

    def get_maps(self, maps):
        for i in range(self.n_maps):
            maps.append(self)

    def get_submaps(self, l, hier=1): pass

    def get_registers(self, l, hier=1):
        self.S.check('its own', hier == UVM_NO_HIER)
        if self.test in ('hw', 'bash', 'access'):
            l.extend(self.elems)

    def get_memories(self, l, hier=1):
        self.S.check('its own', hier == UVM_NO_HIER)
        if self.test in ('walk', 'mem'):
            l.extend(self.elems)

    def get_blocks(self, l, hier=1):
        self.S.check('its own', hier == UVM_NO_HIER)
        l.extend(self.blks)

    def skipped(self):
        return self.S.or_(*[self.off[n] for n in KNOWN[self.test]])


class One:
    """the sequence for one element"""
    def __init__(self, w, top): self.w, self.top, self.rg, self.mem = w, top, None, None

    async def start(self, sqr, parent, *a):
        self.w.S.check('below the test', sqr is None and parent is self.top)
        x = self.mem if self.w.test in ('walk', 'mem') else self.rg
        self.w.seen.append(x.tag)


def block(test, blks):
    def f(S):
        w = World(S, test, not blks, blks)
        q = SEQ[test]('q')
        w.seq, w.m = q, w
        q.reg_seq = q.mem_seq = One(w, q)
        own = type(q).do_block

        async def below(blk):
            w.seen.append(blk.tag)
        q.do_block = below
        run = lambda x: S.not_(x.skipped()) if test in ('hw', 'bash', 'walk') else S.and_(S.not_(x.skipped()), x.path)
        if blks:
            S.grows(1, lambda k: w.blks[k].tag)
        else:
            S.scan(w.elems, run)
            want = S.filtered(w.elems, run, lambda i: w.elems[i].tag)
        S.run(own(q, w))
        if w.skipped():
            S.check('kept out', S.length(w.seen) == 0)
        elif blks:
            S.check('every block', S.length(w.seen) == S.length(w.blks))
            S.forall('in order', w.blks, lambda i, b: w.seen[i] == b.tag)
        else:
            S.check('every one not kept out', S.length(w.seen) == S.length(want))
            S.forall_range('once, in order', S.length(want), lambda i: w.seen[i] == want[i])
    f.__name__ = '%s_%s' % (test, 'blocks' if blks else 'own')
    unit(SEQ[test].__name__ + '.do_block')(f)


for _t in SEQ:
    for _b in (False, True):
        block(_t, _b)

class Rg:
    """a register whose every access gives anything"""
    def __init__(self, S, width):
        self.S, self.log, self.width, self.n = S, [], width, 0

    def get_full_name(self): return 'rg'

    def get(self):
        self.n += 1
        v = self.S.bits('g%d' % self.n, self.width)
        self.log.append(('get', v))
        return v

    async def write(self, status, value, path, m, parent):
        self.log.append(('write', value, path, m, parent))
        self.st = self.S.int('st%d' % len(self.log), 0, 2)
        status.append(self.st)

    async def read(self, status, value, path, m, parent):
        v = self.S.bits('r%d' % len(self.log), self.width)
        self.log.append(('read', v, path, m, parent))
        self.st = self.S.int('st%d' % len(self.log), 0, 2)
        status.append(self.st)
        value.append(v)


class Mp:
    def get_full_name(self): return 'map'


@unit('UVMRegSingleBitBashSeq.bash_kth_bit')
def bash_bit(S):
    q, rg, m = UVMRegSingleBitBashSeq('q'), Rg(S, 64), Mp()
    k, dc = S.pick('k', 0, 64), S.bits('dc', 64)
    S.run(q.bash_kth_bit(rg, k, 'RW', m, dc))
    log = rg.log
    S.check('twice', [l[0] for l in log] == ['get', 'write', 'get', 'read'] * 2)
    wrong = 0
    for i in (0, 4):
        S.check('the bit is inverted', log[i + 1][1] == S.bitwise(64, lambda j: S.ite(j == k, S.not_(S.bit(log[i][1], j)), S.bit(log[i][1], j))))
        S.check('by the front door of the map', log[i + 1][2:] == (UVM_FRONTDOOR, m, q) and log[i + 3][2:] == (UVM_FRONTDOOR, m, q))
        bad = S.not_(log[i + 2][1] & ~dc == log[i + 3][1] & ~dc)
        wrong = wrong + S.ite(bad, 1, 0) + S.ite(rg_st(S, i + 2) != UVM_IS_OK, 1, 0) + S.ite(rg_st(S, i + 4) != UVM_IS_OK, 1, 0)
    S.check('a report for each failed access and each difference', len(S.reports.errors) == wrong)


def rg_st(S, n):
    return S.int('st%d' % n, 0, 2)

class Told(list):
    """each error, as it is reported"""
    def __init__(self, fn): self.fn = fn
    def taint(self): pass

    def append(self, r):
        if r[0] == 'error':
            self.fn()


class Walked:
    """a memory whose every access gives anything; each is checked against the walk"""

    def __init__(self, S, q, width, access, off):
        self.S, self.q, self.width, self.access = S, q, width, access
        self.words = S.list('words', lambda e: (e.int('w1', 0, 2), e.int('w2', 0, 2), e.int('r', 0, 2), e.int('v', 0)), minn=1)
        self.m, self.k, self.back, self.due, self.off = Mp(), 0, 0, 0, off
        S.reports = Told(self.told)

    def get_full_name(self): return Name(self.off)
    def get_n_bits(self): return self.width
    def get_size(self): return self.S.length(self.words)
    def get_access(self, m): return self.access
    def get_maps(self, l): l.append(self.m)

    def told(self):
        self.S.check('only a wrong access is reported, once', self.due == 1)
        self.due = 0

    def check(self, path, m, parent):
        self.S.check('every wrong access is reported', self.due == 0)
        self.S.check('the access', path == UVM_FRONTDOOR and m is self.m and parent is self.q)

    async def write(self, status, off, v, path, m, parent):
        S = self.S
        self.check(path, m, parent)
        if self.back == 2:
            S.check('then it is overwritten', S.and_(off == self.k - 2, v == off))
            self.back, st = 0, self.words[self.k - 2][1]
        else:
            S.check('words in order, the one before has been read', S.and_(off == self.k, self.back == 0))
            S.check('its inverted address', v == ~off)
            st = self.words[self.k][0]
            self.k = self.k + 1
            if self.k > 1:
                self.back = 1
        if st != UVM_IS_OK:
            self.due = 1
        status.append(st)

    async def read(self, status, off, value, path, m, parent):
        S = self.S
        self.check(path, m, parent)
        if self.back == 1:
            S.check('the one before', off == self.k - 2)
            self.back = 2
            at = self.k - 2
        else:
            S.check('the last', S.and_(off == self.k - 1, self.k == S.length(self.words), self.back == 0))
            at = self.k - 1
            self.back = 3
        v, st = self.words[at][3], self.words[at][2]
        if st != UVM_IS_OK:
            self.due = 1
        elif v != ~at & ((1 << self.width) - 1):
            self.due = 1
        status.append(st)
        value.append(v)


@unit('UVMMemSingleWalkSeq.body')
def walked(S):
    q = UVMMemSingleWalkSeq('q')
    S.stub(UVMResourceDb, 'get_by_name', lambda scope, name, rpterr=True: 1 if scope.off[name] else None)
    off = {n: S.bool('off.' + n) for n in KNOWN['walk']}
    w = q.mem = Walked(S, q, S.choice('width', [12, 64]), S.choice('access', ['RW', 'RO', 'WO']), off)
    S.root('w', w)
    n = S.length(w.words)
    S.template(lambda k, v0: S.ite(k == n, 3, 0) if type(v0) is int and v0 == 0 else None)
    S.run(q.body())
    if w.access != 'RW' or S.or_(*[off[n] for n in KNOWN['walk']]):
        S.check('kept out', w.k == 0)
    else:
        S.check('every word', w.k == S.length(w.words))
        S.check('the last has been read', w.back == 3)
        S.check('every wrong access is reported', w.due == 0)

class Accessed(Walked):
    """a memory written and read by the front door and the backdoor in turn"""

    def __init__(self, S, q, width, access, off):
        super().__init__(S, q, width, access, off)
        self.words = S.list('cells', lambda e: (e.int('w', 0, 2), e.int('p', 0, 2), e.int('o', 0, 2), e.int('r', 0, 2), e.int('f', 0, 2), e.bits('a', width), e.bits('b', width), e.bits('c', width), e.bits('x', 32), e.bits('y', 32)), minn=1)
        self.exp, self.step, self.rnd = 0, 0, 0
        S.stub(sv, 'random', self.random)

    def get_backdoor(self): return None
    def has_hdl_path(self, kind=''): return True

    def random(self):
        c = self.words[self.k]
        self.rnd = 1 - self.rnd
        return c[8] if self.rnd == 1 else c[9]

    def ends(self, st, wrong=False):
        self.due = 0
        if self.S.or_(st != UVM_IS_OK, wrong):
            self.due = 1

    def peek(self, status, off, value, *a):
        S = self.S
        S.check('every wrong access is reported', self.due == 0)
        S.check('words in order', off == self.k)
        c = self.words[self.k]
        if self.access == 'RO' and self.step == 0:
            st, v = c[4], c[7]
            self.exp, self.step = v, 1
            self.ends(st)
        else:
            S.check('after it has been written', self.step == 2)
            self.step, st, v = 3, c[1], c[5]
            self.ends(st, v != self.exp)
        status.append(st)
        value.append(v)

    async def write(self, status, off, v, path, m, parent):
        S = self.S
        self.check(path, m, parent)
        S.check('words in order', S.and_(off == self.k, self.step == (1 if self.access == 'RO' else 0)))
        S.check('a value of the memory', S.and_(v >= 0, v < 1 << self.width))
        if self.access != 'RO':
            self.exp = v
        self.step = 2
        self.ends(self.words[self.k][0])
        status.append(self.words[self.k][0])

    def poke(self, status, off, v, *a):
        S = self.S
        S.check('every wrong access is reported', self.due == 0)
        S.check('after it has been read', S.and_(off == self.k, self.step == 3))
        S.check('all its bits inverted', v == ~self.exp & ((1 << self.width) - 1))
        self.exp, self.step = v, 4
        self.ends(self.words[self.k][2])
        status.append(self.words[self.k][2])

    async def read(self, status, off, value, path, m, parent):
        S = self.S
        self.check(path, m, parent)
        S.check('at last', S.and_(off == self.k, self.step == 4))
        st, v = self.words[self.k][3], self.words[self.k][6]
        self.step, self.k, self.rnd = 0, self.k + 1, 0
        self.ends(st, v != (0 if self.access == 'WO' else self.exp))
        status.append(st)
        value.append(v)


@unit('UVMMemSingleAccessSeq.body')
def accessed(S):
    q = UVMMemSingleAccessSeq('q')
    S.stub(UVMResourceDb, 'get_by_name', lambda scope, name, rpterr=True: 1 if scope.off[name] else None)
    off = {n: S.bool('off.' + n) for n in KNOWN['mem']}
    w = q.mem = Accessed(S, q, S.choice('width', [12, 40]), S.choice('access', ['RW', 'RO', 'WO']), off)
    S.root('w', w)
    S.simulate(q.body())
    if S.or_(*[off[n] for n in KNOWN['mem']]):
        S.check('kept out', w.k == 0)
    else:
        S.check('every word', w.k == S.length(w.words))
        S.check('every wrong access is reported', S.and_(w.due == 0, w.step == 0))

class Fld:
    def __init__(self, acc, known): self.acc, self.known = acc, known
    def get_access(self, m): return self.acc[m]
    def is_known_access(self, m): return self.known


class Acc(Rg):
    def __init__(self, S, maps, fields, off):
        super().__init__(S, 64)
        self.maps, self.fields, self.off = maps, fields, off

    def get_full_name(self): return Name(self.off)
    def get_backdoor(self): return None
    def has_hdl_path(self, kind=''): return self.path
    def get_maps(self, l): l.extend(self.maps)
    def get_fields(self, l): l.extend(self.fields)

    def get(self):
        self.now = super().get()
        return self.now

    async def mirror(self, status, check, path, m, parent):
        self.log.append(('mirror', check, path, m, parent))
        status.append(self.state())

    async def write(self, status, value, path, m, parent):
        self.log.append(('write', value, path, m, parent))
        status.append(self.state())

    def state(self):
        return self.how if len(self.log) == self.bad else UVM_IS_OK


@unit('UVMRegSingleAccessSeq.body', limit='two maps, two fields')
def access_one(S):
    q = UVMRegSingleAccessSeq('q')
    S.stub(UVMResourceDb, 'get_by_name', lambda scope, name, rpterr=True: 1 if scope.off[name] else None)
    off = {n: S.bool('off.' + n) for n in KNOWN['access']}
    maps = [Mp() for _ in range(S.choice('maps', [1, 2]))]
    fields = [Fld({m: S.choice('acc%d%d' % (k, j), ['RW', 'RO']) for j, m in enumerate(maps)}, S.bool('known%d' % k)) for k in range(S.choice('fields', [1, 2]))]
    rg = q.rg = Acc(S, maps, fields, off)
    rg.path = S.bool('path')
    rg.bad, rg.how = S.choice('bad', [0, 2, 3, 4, 5, 7, 9]), S.choice('how', [UVM_NOT_OK, UVM_HAS_X])
    S.simulate(q.body())
    if S.or_(*off.values()):
        S.check('kept out', not rg.log and not S.reports.errors)
        return
    if not rg.path:
        S.check('no backdoor', not rg.log and len(S.reports.errors) == 1)
        return
    if any(not f.known for f in fields) or any(all(f.acc[m] == 'RO' for f in fields) for m in maps):
        S.check('not fit for the test', not rg.log and not S.reports.errors)
        return
    S.check('the steps', [l[0] for l in rg.log] == ['get', 'write', 'mirror', 'write', 'mirror'] * len(maps))
    for i, m in enumerate(maps):
        g, w, mi, w2, mi2 = rg.log[5 * i:5 * i + 5]
        S.check('all bits inverted by the front door', S.bitwise(64, lambda j: S.bit(w[1], j)) == S.bitwise(64, lambda j: S.not_(S.bit(g[1], j))))
        S.check('through the map', w[2:] == (UVM_FRONTDOOR, m, q) and mi2[1:] == (UVM_CHECK, UVM_FRONTDOOR, m, q))
        S.check('seen by the backdoor', mi[1:3] == (UVM_CHECK, UVM_BACKDOOR) and mi[4] is q)
        S.check('and written back by it', w2[1] == g[1] and w2[2:] == (UVM_BACKDOOR, m, q))
    S.check('a failed access is reported', len(S.reports.errors) == (1 if 0 < rg.bad <= len(rg.log) else 0))


TESTS = [('hw', UVM_DO_REG_HW_RESET, 'UVMRegHWResetSeq'), ('bash', UVM_DO_REG_BIT_BASH, 'UVMRegBitBashSeq'), ('access', UVM_DO_REG_ACCESS, 'UVMRegAccessSeq'),
         ('mem', UVM_DO_MEM_ACCESS, 'UVMMemAccessSeq'), ('walk', UVM_DO_MEM_WALK, 'UVMMemWalkSeq')]


@unit('UVMRegMemBuiltInSeq.body')
def built_in(S):
    import uvm.reg.sequences.uvm_reg_mem_built_in_seq as BI
    q, ran = UVMRegMemBuiltInSeq('q'), []
    S.stub(UVMResourceDb, 'get_by_name', lambda scope, name, rpterr=True: 1 if scope.off[name] else None)

    class Model:
        off = {n: S.bool('off.' + n) for v in KNOWN.values() for n in v}
        def get_full_name(self): return Name(self.off)
    q.model = model = Model()
    on = {t: S.bool('do.' + t) for t, _, _ in TESTS}
    q.tests = sum(b for t, b, _ in TESTS if on[t]) | (0x100 if S.bool('other') else 0)

    async def start(self, sqr, parent=None, *a):
        S.check('on the model, below this one', self.model is model and parent is q)
        ran.append(type(self).__name__)
    for t, _, n in TESTS:
        S.stub(getattr(BI, n), 'start', start)
    S.run(q.body())
    want = []
    for t, _, n in TESTS:
        if on[t] and not S.or_(*[model.off[x] for x in KNOWN[t]]):
            want.append(n)
    S.check('the tests asked for and not kept out, in order', [r for r in ran if r != 'UVMMemWalkSeq' or not model.off['NO_MEM_TESTS']] == want)


# whole models: bounded

class Tr(UVMSequenceItem):
    pass


class Adapter(UVMRegAdapter):
    def reg2bus(self, rw):
        t = Tr('t')
        t.kind, t.addr, t.data, t.status = rw.kind, rw.addr, rw.data, UVM_IS_OK
        return t

    def bus2reg(self, t, rw):
        rw.kind, rw.addr, rw.data, rw.status = t.kind, t.addr, t.data, t.status


class Device:
    """what the model describes, bit by bit, and perhaps a fault"""

    def __init__(self, S):
        self.S, self.regs, self.mems, self.at, self.touched = S, {}, {}, {}, set()
        self.stuck, self.bad, self.alias = {}, set(), {}

    def reg(self, r, fields):
        self.regs[r] = [[f, lo, wd, acc, reset, 0] for f, lo, wd, acc, reset in fields]

    def value(self, r):
        v = sum(f[4] << f[1] for f in self.regs[r])
        for b, c in self.stuck.get(r, {}).items():
            v = v & ~(1 << b) | c << b
        return v

    def put(self, r, v):
        for f in self.regs[r]:
            f[4] = v >> f[1] & ((1 << f[2]) - 1)

    def word(self, m, k):
        v = self.mems[m][self.alias.get(m, lambda k: k)(k)]
        for (w, b), c in self.stuck.get(m, {}).items():
            if w == k:
                v = v & ~(1 << b) | c << b
        return v

    def bus(self, t, bw):
        from props.F01 import WRITE, READ
        if t.addr not in self.at:
            self.S.check('an address of the model', False, info={'addr': hex(t.addr)})
            return
        x, part, off = self.at[t.addr]
        self.touched.add(x)
        if x in self.bad:
            t.status = UVM_NOT_OK
        lo, hi = 8 * bw * part, 8 * bw * (part + 1)
        if off is not None:
            m = (1 << x.get_n_bits()) - 1
            if t.kind == UVM_WRITE:
                if x.get_access() != 'RO':
                    k = self.alias.get(x, lambda k: k)(off)
                    w = ((1 << hi) - (1 << lo)) & m
                    self.mems[x][k] = self.mems[x][k] & ~w | t.data << lo & w
            else:
                t.data = 0 if x.get_access() == 'WO' else (self.word(x, off) >> lo & ((1 << 8 * bw) - 1))
            return
        v = self.value(x)
        if t.kind == UVM_READ:
            out = 0
            for f in self.regs[x]:
                if f[3] not in ('WO', 'WOC', 'WOS', 'WO1', 'NOACCESS'):
                    out |= v & ((1 << f[2]) - 1) << f[1]
            t.data = out >> lo & ((1 << 8 * bw) - 1)
        for f in self.regs[x]:
            _, flo, wd, acc, cur, done = f
            for b in range(max(flo, lo), min(flo + wd, hi)):
                i = b - flo
                old, new = v >> b & 1, t.data >> (b - lo) & 1
                if t.kind == UVM_READ:
                    e = {'0': 0, '1': 1}.get(READ.get(acc, 'v'), old)
                else:
                    e = {'m': old, 'v': new, '0': 0, '1': 1, 'm&~v': old & ~new, 'm|v': old | new, 'm^v': old ^ new, 'm&v': old & new,
                         'm|~v': old | 1 - new, 'm^~v': old ^ 1 - new, 'once': old if done >> i & 1 else new}[WRITE[acc]]
                    f[5] |= 1 << i
                f[4] = f[4] & ~(1 << i) | e << i


def build(S, test):
    """a model of up to three blocks and the device it describes"""
    from props.F01 import POL
    S.stub(UVMRegBlock, 'm_roots', {})
    S.stub(UVMResourcePool, 'm_rp', None)
    UVMRegMap.backdoor().set_check_on_read(False)
    d = Device(S)
    bw = S.choice('bw', [1, 2, 4])
    end = S.choice('end', [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN])
    blks, off = [], {}
    d.fields = {}
    pol = POL if test in ('hw', 'bash') else ['RW', 'RW', 'RO']
    for b in range(S.choice('blocks', [1, 1, 2, 3])):
        blk = UVMRegBlock('b%d' % b)
        up = blks[S.pick('up%d' % b, 0, b)] if b else None
        blk.configure(up, 'b%d' % b)
        m = blk.create_map('m', 0x1000 if not b else 0, bw, end)
        if up is not None:
            up.map.add_submap(m, 0x1000 * b)
        blk.map, blk.up = m, up
        blks.append(blk)
        d.where = {}
        at = 0
        for k in range(S.choice('regs%d' % b, [0, 0, 1] if test == 'bash' else [0, 1, 2])):
            n = '%d.%d' % (b, k)
            bits = S.choice('bits' + n, [8, 12, 16] if test == 'bash' else [8, 12, 16, 32])
            r = UVMReg('r%d' % k, bits, UVM_NO_COVERAGE)
            r.configure(blk, None, '')
            fs, lo = [], S.choice('gap' + n, [0, 0, 2])
            cut = S.pick('cut' + n, lo + 1, bits + 1)
            for j, (lo, hi) in enumerate([(lo, cut), (cut, bits)]):
                if lo == hi:
                    continue
                f = UVMRegField('f%d' % j)
                p = S.choice('pol%s%d' % (n, j), pol)
                vol = S.choice('vol%s%d' % (n, j), [0, 0, 0, 1])
                reset = S.pick('reset%s%d' % (n, j), 0, 1 << (hi - lo))
                f.configure(r, hi - lo, lo, p, vol, reset, True, False, False)
                fs.append((f, lo, hi - lo, p, reset))
            m.add_reg(r, at, 'RW')
            if S.choice('path' + n, [1, 1, 1, 0]) or test != 'access':
                r.add_hdl_path_slice('r%d' % k, -1, -1, True)
            d.reg(r, fs)
            d.fields[r] = fs
            r.b = blk
            at += 16
        for k in range(S.choice('mems%d' % b, [0, 1]) if test in ('walk', 'mem') else 0):
            bits = S.choice('mbits%d' % b, [1, 8, 12, 32, 40, 64])
            size = S.choice('size%d' % b, [1, 2, 5])
            x = UVMMem('mem', size, bits, S.choice('acc%d' % b, ['RW', 'RW', 'RO']))
            x.configure(blk, '')
            m.add_mem(x, at, 'RW')
            if S.choice('mpath%d' % b, [1, 1, 1, 0]):
                x.add_hdl_path_slice('mem', -1, -1, True)
            d.mems[x] = [S.pick('w%d.%d' % (b, i), 0, 1 << bits) for i in range(size)]
            x.b, x.at = blk, at
    root = blks[0]
    root.lock_model()
    top = UVMSequencer('m07', None)
    d.sqr = top
    root.map.set_sequencer(top, Adapter('ad'))
    root.map.set_auto_predict(True)
    root.map.set_check_on_read(False)
    for x in list(d.regs) + list(d.mems):
        for o in range(x.get_size() if x in d.mems else 1):
            a = []
            if x in d.mems:
                x.b.map.get_physical_addresses(x.at, o, x.get_n_bytes(), a)
            else:
                x.get_addresses(root.map, a)
            for k, y in enumerate(a):
                S.check('own addresses', y not in d.at)
                d.at[y] = (x, k, o if x in d.mems else None)
    d.blks, d.bw = blks, bw
    sig = {}
    for x in list(d.regs) + list(d.mems):
        p = []
        x.get_full_hdl_path(p) if x.has_hdl_path() else None
        for c in p:
            sig[c.slices[0].path] = x
    d.sig = sig

    def find(path):
        path = path.lstrip('.')
        i = None
        if path.endswith(']'):
            path, i = path[:-1].split('[')
        S.check('a signal of the model', path in sig, info={'path': path})
        return sig[path], i

    def deposit(path, v):
        x, i = find(path)
        d.touched.add(x)
        if i is None:
            d.put(x, v)
        else:
            d.mems[x][int(i)] = v
        return 1

    def read(path, arr):
        x, i = find(path)
        d.touched.add(x)
        arr.append(d.value(x) if i is None else d.word(x, int(i)))
        return 1
    S.stub(uvm_hdl, 'uvm_hdl_deposit', deposit)
    S.stub(uvm_hdl, 'uvm_hdl_read', read)
    return d, root


def start(S, seq, d, root):
    seq.model = root

    async def main():
        await seq.start(None)
        done.append(1)
    done = []

    async def driver():
        while True:
            out = []
            await d.sqr.get_next_item(out)
            d.bus(out[0], d.bw)
            d.sqr.item_done()
    S.simulate(main(), driver())
    S.check('the test ends', done == [1])


def excluded(S, d, test):
    """resources keep elements and whole blocks out of the test"""
    out = set()
    names = sorted({n for v in KNOWN.values() for n in v})
    for x in list(d.regs) + list(d.mems) + d.blks[1:]:
        if S.choice('off.' + x.get_full_name(), [0, 0, 0, 1]):
            n = S.choice('offn.' + x.get_full_name(), names + KNOWN[test] * 2)
            UVMResourceDb.set('REG::' + x.get_full_name(), n, 1, None)
            if n in KNOWN[test]:
                out.add(x)
    up = True
    for b in d.blks:
        if b.up in out:
            out.add(b)
    for x in list(d.regs) + list(d.mems):
        if x.b in out:
            out.add(x)
    return out


@search(runs=1500, weight=3)
def hw_reset(S):
    d, root = build(S, 'hw')
    out = excluded(S, d, 'hw')
    wrong = {}
    for r in d.regs:
        k = S.choice('fault.' + r.get_full_name(), [0, 0, 1, 2])
        if k == 1:
            b = S.pick('bit.' + r.get_full_name(), 0, r.get_n_bits())
            for f in d.regs[r]:
                if f[1] <= b < f[1] + f[2]:
                    f[4] ^= 1 << (b - f[1])
                    if f[3] not in ('WO', 'WOC', 'WOS', 'WO1') and f[0].get_compare() != UVM_NO_CHECK:
                        wrong[r] = 1
        elif k == 2:
            d.bad.add(r)
            wrong[r] = 2
    start(S, UVMRegHWResetSeq('t'), d, root)
    S.check('the registers under test', d.touched == {r for r in d.regs if r not in out}, info={'touched': [x.get_full_name() for x in d.touched], 'out': [x.get_full_name() for x in out]})
    for r in d.regs:
        told = [e for e in S.reports.errors if '"' + r.get_full_name() + '"' in e[2]]
        S.check('each wrong one is reported, no other is', bool(told) == (r in wrong and r not in out), info={'errors': str(S.reports.errors)})
        if r not in wrong and r not in out:
            S.check('the mirror', True)
    S.check('no other report', len(S.reports.errors) == len([r for r in wrong if r not in out]), info={'errors': str(S.reports.errors)})


def bits_of(S, d, r):
    """the documented algorithm: is each bit written and read back as described, twice?"""
    from props.F01 import WRITE, READ
    mir = [f[4] for f in d.fields[r]]
    mask = [(1 << f[2]) - 1 for f in d.fields[r]]
    done = [0] * len(mir)
    dc, n = 0, 0
    for i, (f, lo, wd, acc, _) in enumerate(d.fields[r]):
        if acc in ('WO', 'WOC', 'WOS', 'WO1', 'NOACCESS') or f.get_compare() == UVM_NO_CHECK:
            dc |= mask[i] << lo
    wrong = 0
    for k in range((r.get_n_bits() + 7) // 8 * 8):
        if dc >> k & 1:
            continue
        n += 1
        for _ in range(2):
            v = sum(x << f[1] for x, f in zip(mir, d.fields[r])) ^ (1 << k)
            got = yield v
            for i, (f, lo, wd, acc, _r) in enumerate(d.fields[r]):
                w, x = mir[i], v >> lo & mask[i]
                mir[i] = {'m': w, 'v': x, '0': 0, '1': mask[i], 'm&~v': w & ~x, 'm|v': w | x, 'm^v': w ^ x, 'm&v': w & x, 'm|~v': w | mask[i] & ~x,
                          'm^~v': w ^ mask[i] & ~x, 'once': w if done[i] else x}[WRITE[acc]]
                done[i] = 1
            exp = sum(x << f[1] for x, f in zip(mir, d.fields[r]))
            wrong += exp & ~dc != got & ~dc
            for i, (f, lo, wd, acc, _r) in enumerate(d.fields[r]):
                mir[i] = {'0': 0, '1': mask[i], 'm': mir[i], 'v': got >> lo & mask[i]}[READ.get(acc, 'v')]
    return wrong, n


@search(runs=1500, weight=3)
def bit_bash(S):
    d, root = build(S, 'bash')
    out = excluded(S, d, 'bash')
    for r in d.regs:
        k = S.choice('fault.' + r.get_full_name(), [0, 0, 1, 2])
        if k == 1:
            d.stuck[r] = {S.pick('bit.' + r.get_full_name(), 0, r.get_n_bits()): S.choice('c.' + r.get_full_name(), [0, 1])}
        elif k == 2:
            d.bad.add(r)
    log = {r: [] for r in d.regs}
    inner = d.bus
    d.acc = {}

    def bus(t, bw):
        inner(t, bw)
        x, part, _ = d.at[t.addr]
        a = d.acc.setdefault(x, [t.kind, 0, set()])
        if a[0] != t.kind:
            log[x].append('half')
        a[1] |= t.data << 8 * bw * part
        a[2].add(part)
        if len(a[2]) * bw * 8 >= x.get_n_bits() or x in d.bad:
            log[x].append((a[0], a[1]))
            del d.acc[x]
    d.bus = bus
    start(S, UVMRegBitBashSeq('t'), d, root)
    for r in d.regs:
        told = [e for e in S.reports.errors if '"' + r.get_full_name() + '"' in e[2]]
        if r in out:
            S.check('left alone', log[r] == [] and told == [])
            continue
        if r in d.bad:
            S.check('the status is reported', told or log[r] == [])
            continue
        g = bits_of(S, d, r)
        ops = iter(log[r])
        wrong, n = None, 0
        lim = (1 << r.get_n_bits()) - 1
        try:
            v = next(g)
            while True:
                w, rd = next(ops, None), next(ops, None)
                n += 1
                S.check('each bit is written, and read back', w == (UVM_WRITE, v & lim) and rd is not None and rd[0] == UVM_READ, info={'w': str(w), 'v': v, 'n': n})
                v = g.send(rd[1])
        except StopIteration as e:
            wrong, n = e.value
        S.check('no more', next(ops, None) is None)
        S.check('each difference is reported', len(told) == wrong, info={'told': str(told), 'wrong': wrong})
        warn = [e for e in S.reports.warnings if r.get_name() in e[2]]
        S.check('no difference on a right device', wrong == 0 or r in d.stuck)
        if r in d.stuck:
            b, = d.stuck[r]
            for f in d.fields[r]:
                if f[1] <= b < f[1] + f[2] and f[3] == 'RW' and f[0].get_compare() != UVM_NO_CHECK:
                    S.check('a stuck bit is found', told != [])
    S.check('no other report', len(S.reports.errors) == sum(1 for e in S.reports.errors for r in d.regs if '"' + r.get_full_name() + '"' in e[2]))


@search(runs=1000, weight=2)
def access(S):
    d, root = build(S, 'access')
    out = excluded(S, d, 'access')
    found = set()
    for r in d.regs:
        k = S.choice('fault.' + r.get_full_name(), [0, 0, 1, 2])
        tested = r not in out and r.has_hdl_path() and not all(f[3] == 'RO' for f in d.fields[r])
        if k == 1:
            b = S.pick('bit.' + r.get_full_name(), d.fields[r][0][1], r.get_n_bits())
            d.stuck[r] = {b: S.choice('c.' + r.get_full_name(), [0, 1])}
            for f in d.fields[r]:
                if f[1] <= b < f[1] + f[2] and f[0].get_compare() != UVM_NO_CHECK and (f[3] == 'RW' or d.stuck[r][b] != f[4] >> (b - f[1]) & 1) and tested:
                    found.add(r)
        elif k == 2:
            d.bad.add(r)
            if tested:
                found.add(r)
        if not tested:
            out.add(r)
    seq = UVMRegMemAccessSeq if S.bool('both') else UVMRegAccessSeq
    start(S, seq('t'), d, root)
    S.check('the registers under test', d.touched == {r for r in d.regs if r not in out}, info={'touched': [x.get_full_name() for x in d.touched], 'out': [x.get_full_name() for x in out]})
    for r in d.regs:
        told = [e for e in S.reports.errors if "'" + r.get_full_name() + "'" in e[2] or '"' + r.get_full_name() + '"' in e[2]]
        S.check('each wrong one is reported, no other is', bool(told) == (r in found), info={'errors': str(S.reports.errors), 'r': r.get_full_name()})
    S.check('no other report', bool(S.reports.errors) == bool(found))


def mem_fault(S, d, x):
    n, k = x.get_full_name(), S.choice('fault.' + x.get_full_name(), [0, 0, 1, 2, 3])
    if k == 1:
        d.stuck[x] = {(S.pick('word.' + n, 0, x.get_size()), S.pick('bit.' + n, 0, x.get_n_bits())): S.choice('c.' + n, [0, 1])}
    elif k == 2:
        d.bad.add(x)
    elif k == 3 and x.get_size() > 1:
        a, b = S.pick('a.' + n, 0, x.get_size()), S.pick('b.' + n, 0, x.get_size())
        if a != b:
            d.alias[x] = lambda k: a if k == b else k
    return x in d.stuck or x in d.bad or x in d.alias


@search(runs=1000, weight=2)
def walk(S):
    d, root = build(S, 'walk')
    out = excluded(S, d, 'walk') | {x for x in d.mems if x.get_access() != 'RW'}
    faulty = {x for x in d.mems if mem_fault(S, d, x)}
    start(S, UVMMemWalkSeq('t'), d, root)
    S.check('the memories under test', d.touched == {x for x in d.mems if x not in out}, info={'touched': [x.get_full_name() for x in d.touched]})
    for x in d.mems:
        told = [e for e in S.reports.errors if '"' + x.get_full_name() + '[' in e[2]]
        if x not in faulty or x in out:
            S.check('a right one is not reported', told == [], info={'e': str(told)})
        elif x in d.bad:
            S.check('the status is reported', told)
        elif x in d.stuck:
            ((k, b), c), = d.stuck[x].items()
            S.check('a stuck bit is found by the word it is in', len(told) == (0 if ~k >> b & 1 == c else 1), info={'e': str(told)})
        elif x in d.alias:
            cell, n, m = [0] * x.get_size(), 0, (1 << x.get_n_bits()) - 1
            at = d.alias[x]
            for k in range(x.get_size()):
                cell[at(k)] = ~k & m
                if k:
                    n += cell[at(k - 1)] != ~(k - 1) & m
                    cell[at(k - 1)] = k - 1 & m
                if k == x.get_size() - 1:
                    n += cell[at(k)] != ~k & m
            S.check('two words in one are found', len(told) == n)
        if x not in out and x not in faulty:
            last, m = x.get_size() - 1, (1 << x.get_n_bits()) - 1
            S.check('what the walk leaves', d.mems[x] == [k & m for k in range(last)] + [~last & m])
    S.check('no other report', bool(S.reports.errors) <= bool(faulty - out))


@search(runs=1000, weight=2)
def memory(S):
    d, root = build(S, 'mem')
    out = excluded(S, d, 'mem') | {x for x in d.mems if not x.has_hdl_path()}
    faulty = {x for x in d.mems if mem_fault(S, d, x)}
    start(S, (UVMRegMemAccessSeq if S.bool('both') else UVMMemAccessSeq)('t'), d, root)
    S.check('the memories under test', {x for x in d.touched if x in d.mems} == {x for x in d.mems if x not in out}, info={'touched': [x.get_full_name() for x in d.touched]})
    for x in d.mems:
        told = [e for e in S.reports.errors if x.get_full_name() + '[' in e[2]]
        if x not in faulty or x in out:
            S.check('a right one is not reported', told == [], info={'e': str(told)})
        elif x in d.bad or x in d.stuck:
            S.check('a wrong one is reported', told, info={'e': str(S.reports)})
    S.check('no other report', bool(S.reports.errors) <= bool(faulty - out), info={'e': str(S.reports.errors)})
