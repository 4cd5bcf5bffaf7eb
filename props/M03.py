"""M03: register and memory accesses end to end: hooks, status, values, mirror, mutual exclusion."""
from vc.unit import unit
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_cbs import UVMRegCbs, UVMRegCb, UVMRegFieldCb
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_NO_COVERAGE, UVM_REG, UVM_MEM, UVM_FIELD, UVM_READ, UVM_WRITE, UVM_BURST_READ, UVM_BURST_WRITE,
                                   UVM_IS_OK, UVM_NOT_OK, UVM_FRONTDOOR, UVM_BACKDOOR, UVM_CHECK, UVM_NO_CHECK)
from uvm.base.uvm_object import UVMObject
from cocotb.triggers import Timer

PROPERTY = {
 'title': 'A register or memory access runs its hooks, the bus and the mirror in order',
 'statement': 'A write, read, update or mirror of a register goes through the hooks of every field, then the callbacks and hooks of the register, the access itself, and the matching hooks afterwards, each exactly once, every one with the value (or its part of the value) as the earlier ones left it; a hook that rejects the access keeps it away from the bus. The value that reaches the bus is recorded in the mirror of a successful access, update writes the desired values exactly if they differ, mirror reports an error exactly for a mismatch in compared fields, the caller gets the status and value of the access, and accesses to the same register never overlap, nor does one leave the register locked. An access of a memory outside its words is rejected without reaching the bus; every other one reaches it once with its offset and values.',
 'over': ['inputs', 'configurations', 'schedules'],
 'text': 'every value and offset, every hook that changes the value or rejects the access, front door and user back door',
 'why': 'tests use no hooks or callbacks in accesses, and only accesses that succeed',
 'files': ['src/uvm/reg/uvm_reg.py', 'src/uvm/reg/uvm_mem.py', 'src/uvm/reg/uvm_reg_cbs.py'],
 'mech': [['UVMReg.do_write, do_read, write, read, update, mirror, do_check', 'src/uvm/reg/uvm_reg.py'], ['UVMMem.do_write, do_read, Xcheck_accessX', 'src/uvm/reg/uvm_mem.py']],
 'note': 'proved for every value, offset and memory size on registers of up to three fields with up to two callbacks each; the map enters by the contract M02 decides; access hooks of the library user enter as arbitrary value changes or rejections',
}
LEVEL = 'other'
TRUSTED = ['UVMRegMap.do_write/do_read by their contract (M02)', 'cocotb scheduling by vc/minisim.py']

SHAPES = [[(0, 8)], [(0, 4), (8, 8)], [(4, 4), (8, 1), (16, 16)], [(3, 5), (8, 24)]]


class Cb(UVMRegCbs):
    def __init__(self, name, w):
        super().__init__(name)
        self.w = w

    async def pre_write(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def pre_read(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def post_write(self, rw): await self.w.hook('post', self.get_name(), rw)
    async def post_read(self, rw): await self.w.hook('post', self.get_name(), rw)


class F(UVMRegField):
    async def pre_write(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def pre_read(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def post_write(self, rw): await self.w.hook('post', self.get_name(), rw)
    async def post_read(self, rw): await self.w.hook('post', self.get_name(), rw)


class R(UVMReg):
    async def pre_write(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def pre_read(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def post_write(self, rw): await self.w.hook('post', self.get_name(), rw)
    async def post_read(self, rw): await self.w.hook('post', self.get_name(), rw)


class RB(R):
    def get_backdoor(self, inherited=True): return self.backdoor


class M(UVMMem):
    async def pre_write(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def pre_read(self, rw): await self.w.hook('pre', self.get_name(), rw)
    async def post_write(self, rw): await self.w.hook('post', self.get_name(), rw)
    async def post_read(self, rw): await self.w.hook('post', self.get_name(), rw)


class Bd(UVMObject):
    """a user-defined back door"""
    def __init__(self, w):
        super().__init__('bd')
        self.w = w

    async def write(self, rw): await self.w.bd('w', rw)
    async def read(self, rw): await self.w.bd('r', rw)


class World:
    """register with hooks everywhere; the map by contract"""

    def __init__(self, S, shape, cbs=1, fcbs=1, reg=R):
        self.S, self.log, self.bus, self.delay = S, [], [], 0
        self.change = self.reject = None
        self.status, self.data = UVM_IS_OK, 0
        self.bus_item = None
        self.blk = UVMRegBlock('blk')
        self.m = self.blk.create_map('m', 0, 4, UVM_LITTLE_ENDIAN, True)
        self.r = reg('r', 32, UVM_NO_COVERAGE)
        self.r.w = self
        self.r.configure(self.blk, None, '')
        self.fields = []
        self.shape = shape
        for i, (lsb, n) in enumerate(shape):
            f = F('f%d' % i)
            f.w = self
            f.configure(self.r, n, lsb, 'RW', False, 0, True, False, True)
            self.fields.append(f)
            for j in range(fcbs):
                UVMRegFieldCb.add(f, Cb('f%dc%d' % (i, j), self))
        for j in range(cbs):
            UVMRegCb.add(self.r, Cb('rc%d' % j, self))
        self.m.add_reg(self.r, 0x40, 'RW')
        self.blk.lock_model()
        self.m.do_write = self.do_write
        self.m.do_read = self.do_read
        self.m.set_auto_predict(True)
        # hooks before and after, in order, and the field each belongs to (None: the register)
        per = [['f%d' % i] + ['f%dc%d' % (i, j) for j in range(fcbs)] for i in range(len(shape))]
        rcb = ['rc%d' % j for j in range(cbs)]
        self.pre = [(n, i) for i, ns in enumerate(per) for n in ns] + [(n, None) for n in ['r'] + rcb]
        self.post = [(n, None) for n in rcb + ['r']] + [(n, i) for i, ns in enumerate(per) for n in ns[1:] + ns[:1]]

    async def hook(self, when, name, rw):
        if self.delay:
            await Timer(self.delay, 'NS')
        self.log.append((when, name, rw.value[0]))
        if when == 'pre' and self.change is not None and self.change[0] == name:
            rw.value[0] = self.change[1]
        if when == 'pre' and self.reject == name:
            rw.status = UVM_NOT_OK

    async def do_write(self, rw):
        self.bus.append(('start', 'w', rw.value[0], rw.element, rw.local_map))
        self.log.append(('bus', 'w', rw.value[0]))
        if self.delay:
            await Timer(self.delay, 'NS')
        rw.status = self.status
        self.bus.append(('end',))

    async def do_read(self, rw):
        self.bus.append(('start', 'r', None, rw.element, rw.local_map))
        self.log.append(('bus', 'r', 0))
        if self.delay:
            await Timer(self.delay, 'NS')
        rw.value[0] = self.data
        rw.status = self.status
        self.bus.append(('end',))

    def slice(self, v, i):
        lsb, n = self.shape[i]
        return (v >> lsb) & ((1 << n) - 1)

    def mask(self):
        return sum(((1 << n) - 1) << lsb for lsb, n in self.shape)


def expect_pre(w, v):
    """the values the hooks before the access see, and the value they leave"""
    out = []
    cur = v
    val = None
    last = 'x'
    for name, i in w.pre:
        if i != last:
            val = cur if i is None else w.slice(cur, i)
            last = i
        out.append(('pre', name, val))
        if w.change is not None and w.change[0] == name:
            val = w.change[1]
            if i is None:
                cur = val
            else:
                lsb, n = w.shape[i]
                cur = (cur & ~(((1 << n) - 1) << lsb)) | (val << lsb)
    return out, cur


def expect_post(w, v):
    return [('post', name, v if i is None else w.slice(v, i)) for name, i in w.post]


def same_log(S, label, got, want):
    S.check(label, [x[:2] for x in got] == [x[:2] for x in want], (got, want))
    S.check(label + ': values', S.and_(*[a[2] == b[2] for a, b in zip(got, want)]) if len(got) == len(want) else False)


def world(S, n=None):
    shape = S.choice('shape', SHAPES)
    w = World(S, shape, S.choice('cbs', [0, 1, 2]), S.choice('fcbs', [0, 1]))
    what = S.choice('what', ['nothing', 'change', 'reject'])
    if what != 'nothing':
        k = S.pick('hook', 0, len(w.pre))
        k = [j for j in range(len(w.pre)) if k == j][0]
        name, i = w.pre[k]
        if what == 'reject':
            w.reject = name
        else:
            w.change = (name, S.bits('new', 32 if i is None else shape[i][1]))
    return w


@unit('UVMReg.write', 'UVMReg.do_write', 'UVMReg.Xcheck_accessX', limit='three fields, two callbacks each')
def write(S):
    w = world(S)
    v = S.bits('v', 32)
    w.status = S.choice('status', [UVM_IS_OK, UVM_NOT_OK])
    status = []
    S.simulate(w.r.write(status, v, UVM_FRONTDOOR, w.m))
    pre, val = expect_pre(w, v)
    if w.reject:
        same_log(S, 'hooks in order, no access', w.log, pre)
        S.check('rejected', status == [UVM_NOT_OK])
    else:
        same_log(S, 'hooks and access in order', w.log, pre + [('bus', 'w', val)] + expect_post(w, val))
        S.check('status of the access', status == [w.status])
        S.check('one access of the register', len(w.bus) == 2 and w.bus[0][3] is w.r and w.bus[0][4] is w.m)
        if w.status == UVM_IS_OK:
            S.check('the value written is recorded', S.and_(*[w.fields[i].get_mirrored_value() == w.slice(val, i) for i in range(len(w.shape))]))
            S.check('desired and mirrored', S.and_(w.r.get() == val & w.mask(), w.r.get_mirrored_value() == val & w.mask()))
            S.check('up to date', w.r.needs_update() == False)
    S.check('no errors', not (S.reports.errors + S.reports.warnings), list(S.reports))
    again(S, w)


def again(S, w):
    """the register is not left locked or busy"""
    w.reject = w.change = None
    w.status = UVM_IS_OK
    n = len(w.bus)
    st = []
    S.simulate(w.r.write(st, 0, UVM_FRONTDOOR, w.m))
    S.check('the register is left accessible', st == [UVM_IS_OK] and len(w.bus) == n + 2)
    S.check('not busy', not w.r.is_busy())


@unit('UVMReg.read', 'UVMReg.do_read', 'UVMReg.XreadX', limit='three fields, two callbacks each')
def read(S):
    w = world(S)
    S.require(w.change is None)
    w.data = S.bits('d', 32) & w.mask()
    w.status = S.choice('status', [UVM_IS_OK, UVM_NOT_OK])
    old = S.bits('old', 32)
    w.r.predict(old)
    cor = S.bool('cor')
    w.m.set_check_on_read(cor)
    bad = S.and_(w.data & w.mask() != old & w.mask(), cor)
    status, value = [], []
    S.simulate(w.r.read(status, value, UVM_FRONTDOOR, w.m))
    pre = [('pre', n, 0) for n, _ in w.pre]
    if w.reject:
        same_log(S, 'hooks in order, no access', w.log, pre)
        S.check('rejected', status == [UVM_NOT_OK])
        S.check('mirror unchanged', w.r.get_mirrored_value() == old & w.mask())
    else:
        same_log(S, 'hooks and access in order', w.log, pre + [('bus', 'r', 0)] + expect_post(w, w.data))
        S.check('status of the access', status == [w.status])
        S.check('one access of the register', len(w.bus) == 2 and w.bus[0][3] is w.r and w.bus[0][4] is w.m)
        S.check('value read', value == [w.data])
        if w.status == UVM_IS_OK:
            S.check('the value read is recorded', w.r.get_mirrored_value() == w.data & w.mask())
    bad = S.and_(bad, not w.reject, w.status == UVM_IS_OK)
    S.check('an error exactly for a mismatch, if reads are checked', (len(S.reports.errors) == 1) == bad if len(S.reports.errors) <= 1 else False)
    S.check('no warnings', not S.reports.warnings)
    again(S, w)


@unit('UVMReg.update', 'UVMReg.needs_update', 'UVMReg.set', 'UVMReg.get', limit='three fields')
def update(S):
    w = World(S, S.choice('shape', SHAPES), 0, 0)
    old, v = S.bits('old', 32), S.bits('v', 32)
    w.r.predict(old)
    w.r.set(v)
    S.check('desired value', w.r.get() == v & w.mask())
    S.check('mirror not touched', w.r.get_mirrored_value() == old & w.mask())
    diff = (old ^ v) & w.mask() != 0
    need = w.r.needs_update()
    S.check('needs update exactly if they differ', need == diff)
    status = []
    S.simulate(w.r.update(status, UVM_FRONTDOOR, w.m))
    if need:
        S.check('one write of the desired value', len(w.bus) == 2 and w.bus[0][1] == 'w' and w.bus[0][2] & w.mask() == v & w.mask())
        S.check('status', status == [UVM_IS_OK])
    else:
        S.check('nothing to do', w.bus == [])
    for i, f in enumerate(w.fields):
        S.check('up to date', S.and_(f.get_mirrored_value() == w.slice(v, i), f.get() == w.slice(v, i)))
    S.check('no update needed', w.r.needs_update() == False)


@unit('UVMReg.mirror', 'UVMReg.do_check', limit='three fields')
def mirror(S):
    w = World(S, S.choice('shape', SHAPES), 0, 0)
    old, w.data = S.bits('old', 32), S.bits('d', 32) & w.mask()  # bits outside every field are compared as zeros
    w.status = S.choice('status', [UVM_IS_OK, UVM_NOT_OK])
    w.r.predict(old)
    w.r.set(S.bits('des', 32))
    w.m.set_check_on_read(False)
    check = S.choice('check', [UVM_CHECK, UVM_NO_CHECK])
    compared = 0
    for i, f in enumerate(w.fields):
        if S.bool('cmp%d' % i):
            compared |= ((1 << w.shape[i][1]) - 1) << w.shape[i][0]
            f.set_compare(UVM_CHECK)
        else:
            f.set_compare(UVM_NO_CHECK)
    status = []
    S.simulate(w.r.mirror(status, check, UVM_FRONTDOOR, w.m))
    S.check('one read', len(w.bus) == 2 and w.bus[0][1] == 'r')
    S.check('status', status == [w.status])
    bad = S.and_(w.data & compared != old & compared, check == UVM_CHECK, w.status == UVM_IS_OK)
    S.check('an error exactly for a mismatch', (len(S.reports.errors) == 1) == bad if len(S.reports.errors) <= 1 else False)
    if w.status == UVM_IS_OK:
        S.check('mirror holds the value read', w.r.get_mirrored_value() == w.data & w.mask())
    again(S, w)


@unit('UVMReg.XatomicX', 'UVMReg.write', 'UVMReg.read', limit='three accesses')
def exclusive(S):
    """accesses to one register are carried out one after the other"""
    w = World(S, [(0, 8)], 1, 0)
    w.delay = 10
    w.reject = S.choice('rej', [None, 'f0', 'r', 'rc0'])
    vals = [S.bits('v%d' % i, 8) for i in range(3)]
    kinds = [S.choice('k%d' % i, ['w', 'r', 'm']) for i in range(3)]
    res = [[] for _ in range(3)]
    start = [S.choice('t%d' % i, [0, 5, 15]) for i in range(3)]
    done = []

    async def go(i):
        if start[i]:
            await Timer(start[i], 'NS')
        if kinds[i] == 'w':
            await w.r.write(res[i], vals[i], UVM_FRONTDOOR, w.m)
        elif kinds[i] == 'r':
            await w.r.read(res[i], [], UVM_FRONTDOOR, w.m)
        else:
            await w.r.mirror(res[i], UVM_NO_CHECK, UVM_FRONTDOOR, w.m)
        done.append(i)
    S.simulate(*[go(i) for i in range(3)])
    S.check('every access finishes', sorted(done) == [0, 1, 2])
    names = [x[:2] for x in w.log]
    one = [('pre', n) for n, _ in w.pre]
    if w.reject:
        S.check('every access is rejected', res == [[UVM_NOT_OK]] * 3 and not w.bus)
        S.check('one after the other', names == one * 3)
    else:
        S.check('every access is carried out', res == [[UVM_IS_OK]] * 3)
        S.check('one after the other', [n for n in names if n[0] != 'bus'] == (one + [('post', n) for n, _ in w.post]) * 3)
    w.delay = 0
    again(S, w)


@unit('UVMReg.do_write', 'UVMReg.do_read', limit='three fields')
def backdoor(S):
    """the user's back door is used, and waited for"""
    w = World(S, S.choice('shape', SHAPES), 0, 0, RB)
    ops = []
    content = S.bits('d', 32)

    async def bd(kind, rw):
        await Timer(3, 'NS')
        ops.append((kind, rw.value[0] if kind == 'w' else None))
        if kind == 'r':
            rw.value[0] = content
        rw.status = UVM_IS_OK
    w.bd = bd
    w.r.backdoor = Bd(w)
    status, value = [], []
    if S.bool('wr'):
        v = S.bits('v', 32)
        S.simulate(w.r.write(status, v, UVM_BACKDOOR))
        S.check('read, modify, write', [k for k, _ in ops] == ['r', 'w'])
        S.check('value written', ops[1][1] & w.mask() == v & w.mask())
        S.check('recorded', w.r.get_mirrored_value() == v & w.mask())
    else:
        S.simulate(w.r.read(status, value, UVM_BACKDOOR))
        S.check('one read', [k for k, _ in ops] == ['r'])
        S.check('value read', value == [content])
        S.check('recorded', w.r.get_mirrored_value() == content & w.mask())
    S.check('not on the bus', w.bus == [])
    S.check('status', status == [UVM_IS_OK])


class MemWorld(World):
    def __init__(self, S, cbs, size, n_bits=32):
        self.S, self.log, self.bus, self.delay = S, [], [], 0
        self.change = self.reject = None
        self.status, self.data = UVM_IS_OK, 0
        self.blk = UVMRegBlock('blk')
        self.m = self.blk.create_map('m', 0, 4, UVM_LITTLE_ENDIAN, True)
        self.r = M('mem', size, n_bits, 'RW', UVM_NO_COVERAGE)
        self.r.w = self
        self.r.configure(self.blk, '')
        for j in range(cbs):
            UVMRegCb.add(self.r, Cb('mc%d' % j, self))
        self.m.add_mem(self.r, 0x100, 'RW')
        self.blk.lock_model()
        self.m.do_write = self.do_write
        self.m.do_read = self.do_read
        self.pre = ['mem'] + ['mc%d' % j for j in range(cbs)]

    async def do_write(self, rw):
        self.log.append(('bus',))
        self.bus.append((rw.kind, rw.offset, list(rw.value), rw.element, rw.local_map))
        rw.status = self.status

    async def do_read(self, rw):
        self.log.append(('bus',))
        self.bus.append((rw.kind, rw.offset, len(rw.value), rw.element, rw.local_map))
        for i in range(len(rw.value)):
            rw.value[i] = self.data[i]
        rw.status = self.status


@unit('UVMMem.write', 'UVMMem.read', 'UVMMem.burst_write', 'UVMMem.burst_read', 'UVMMem.do_write', 'UVMMem.do_read', 'UVMMem.Xcheck_accessX', limit='bursts of three words, two callbacks')
def memory(S):
    size = S.int('size', 1, cap=20)
    wide = S.choice('bits', [8, 32, 64])
    w = MemWorld(S, S.choice('cbs', [0, 1, 2]), size, wide)
    w.status = S.choice('status', [UVM_IS_OK, UVM_NOT_OK])
    w.reject = S.choice('rej', [None] + w.pre)
    off = S.int('off', 0, cap=25)
    kind = S.choice('kind', ['w', 'r', 'bw', 'br'])
    n = S.choice('n', [1, 2, 3]) if kind in ('bw', 'br') else 1
    vals = [S.bits('v%d' % i, wide) for i in range(n)]
    w.data = vals
    status, got = [], []
    if kind == 'w':
        c = w.r.write(status, off, vals[0], UVM_FRONTDOOR, w.m)
    elif kind == 'r':
        c = w.r.read(status, off, got, UVM_FRONTDOOR, w.m)
    elif kind == 'bw':
        c = w.r.burst_write(status, off, list(vals), UVM_FRONTDOOR, w.m)
    else:
        got = [0] * n
        c = w.r.burst_read(status, off, got, UVM_FRONTDOOR, w.m)
    S.simulate(c)
    outside = S.or_(off + n > size, S.and_(n > 1, wide > 32))
    if S.reports.errors:
        S.check('only accesses outside the memory are errors', outside)
        S.check('rejected', S.and_(status == [UVM_NOT_OK], w.bus == [], w.log == []))
        return
    S.check('accesses outside the memory are errors', S.not_(outside))
    if w.reject:
        S.check('kept from the bus by the hook', S.and_(w.bus == [], status == [UVM_NOT_OK]))
        S.check('hooks before', [x[:2] for x in w.log] == [('pre', x) for x in w.pre])
        return
    S.check('one access', len(w.bus) == 1)
    k, o, vs, el, lm = w.bus[0]
    S.check('the access', S.and_(k == {'w': UVM_WRITE, 'r': UVM_READ, 'bw': UVM_BURST_WRITE, 'br': UVM_BURST_READ}[kind], o == off, el is w.r, lm is w.m))
    if kind in ('w', 'bw'):
        S.check('values written', S.and_(len(vs) == n, *[a == b for a, b in zip(vs, vals)]))
    else:
        S.check('as many words', vs == n)
        S.check('values read', S.and_(len(got) == n, *[a == b for a, b in zip(got, vals)]))
    S.check('status', status == [w.status])
    S.check('hooks in order', [x[:2] for x in w.log] == [('pre', x) for x in w.pre] + [('bus',)] + [('post', x) for x in ['mem'] + w.pre[1:]])
    S.check('no warnings', not (S.reports.errors + S.reports.warnings), list(S.reports))


@unit('UVMMem.do_write', 'UVMMem.do_read', limit='bursts of two words')
def memory_backdoor(S):
    size = S.int('size', 2, cap=20)
    w = MemWorld(S, 0, size)
    ops = []

    async def bd(kind, rw):
        await Timer(3, 'NS')
        ops.append((kind, rw.offset, list(rw.value)))
        if kind == 'r':
            for i in range(len(rw.value)):
                rw.value[i] = vals[i]
        rw.status = UVM_IS_OK
    w.bd = bd
    w.r.set_backdoor(Bd(w))
    off = S.int('off', 0, cap=25)
    n = S.choice('n', [1, 2])
    S.require(off + n <= size)
    vals = [S.bits('v%d' % i, 32) for i in range(n)]
    status = []
    if S.bool('wr'):
        S.simulate(w.r.burst_write(status, off, list(vals), UVM_BACKDOOR))
        S.check('one back-door write', len(ops) == 1 and ops[0][0] == 'w' and len(ops[0][2]) == n)
        S.check('of these values', S.and_(ops[0][1] == off, *[a == b for a, b in zip(ops[0][2], vals)]))
    else:
        got = [0] * n
        S.simulate(w.r.burst_read(status, off, got, UVM_BACKDOOR))
        S.check('one back-door read', len(ops) == 1 and ops[0][0] == 'r' and ops[0][1] == off)
        S.check('values read', S.and_(len(got) == n, *[a == b for a, b in zip(got, vals)]))
    S.check('status', status == [UVM_IS_OK])
    S.check('not on the bus', w.bus == [])
