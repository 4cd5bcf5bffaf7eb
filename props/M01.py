"""M01: register map: bus addresses and look-ups."""
from vc.unit import unit, search
import uvm.reg.uvm_reg_map as MM
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO, UVM_NO_COVERAGE, UVM_NO_HIER, UVM_HIER)

PROPERTY = {
 'title': 'Every register and memory word has exactly its mapped bus addresses',
 'statement': 'For every map width, endianness, addressing mode, base address, offset and depth of map hierarchy, the bus addresses of a register or memory word are the ones its offset prescribes: one address per bus word, ascending for little endian, descending for big endian, equal for FIFO order, scaled and offset by every enclosing map. Looking up an address finds exactly the register mapped there (the read-only one for reads and the write-only one for writes when two share it) or nothing, also after offsets have been changed. Overlaps are reported as warnings, and a register, memory or map that is already mapped or belongs to another block is rejected with an error and changes nothing.',
 'over': ['inputs', 'configurations'],
 'text': 'every offset, base address, register size, bus width, endianness and map hierarchy',
 'why': 'tests use one flat little-endian map with four byte registers',
 'files': ['src/uvm/reg/uvm_reg_map.py', 'src/uvm/reg/uvm_reg.py', 'src/uvm/reg/uvm_mem.py', 'src/uvm/reg/uvm_reg_block.py'],
 'mech': [['UVMRegMap.get_physical_addresses, Xinit_address_mapX, m_set_reg_offset, get_reg_by_offset', 'src/uvm/reg/uvm_reg_map.py']],
 'note': 'address computation of one map level proved for every size and offset (loops cut with invariants), the level above entering by its own contract, so any depth follows by induction; look-ups are proved for two registers with arbitrary offsets; whole models are a bounded search',
}
ENDIANS = [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_LITTLE_FIFO, UVM_BIG_FIFO]
WIDTHS = [1, 2, 4, 8]


class Blk:
    """the block a map belongs to"""
    TOP = None

    def __init__(self, locked=True, name='blk'):
        self.parent, self.locked, self.name = None, locked, name

    def is_locked(self): return self.locked
    def get_parent(self): return self.parent
    def get_name(self): return self.name
    def get_full_name(self): return self.name
    def get_default_map(self): return None


def mkmap(S, bw, endian, byte, base=0, parent=None, name='m'):
    m = UVMRegMap(name)
    m.configure(parent or Blk(), base, bw, endian, byte)
    return m


def words(n, bw):
    return (n + bw - 1) // bw


def local(S, e, mult, nw, base, i):
    """address of bus word i of an object at base (in this map)"""
    if e == UVM_LITTLE_ENDIAN:
        return base + i * mult
    if e == UVM_BIG_ENDIAN:
        return base + (nw - 1 - i) * mult
    return base


def variants(name, keys):
    """one unit per key (they run in parallel)"""
    def deco(fn):
        for k, v in keys.items():
            def g(S, v=v):
                fn(S, *v)
            g.__name__ = name + '_' + k
            unit('UVMRegMap.get_physical_addresses')(g)
        return fn
    return deco


ORD = {'le': UVM_LITTLE_ENDIAN, 'be': UVM_BIG_ENDIAN, 'lfifo': UVM_LITTLE_FIFO, 'bfifo': UVM_BIG_FIFO}


@variants('top_level', {k + ('_byte' if b else '_word'): (e, b) for k, e in ORD.items() for b in (True, False)})
def top_level(S, e, byte):
    """a map without a parent"""
    bw = S.choice('bw', WIDTHS)
    base, off, mo = S.int('base', 0), S.int('off', 0), S.int('mo', 0)
    n = S.int('n', 1, 1 << 48, cap=40)
    m = mkmap(S, bw, e, byte, base)
    mult = bw if byte else 1
    nw = words(n, bw)
    first = off + mo * (nw * mult) + base
    exp = lambda j: local(S, e, mult, nw, first, j)
    loc = lambda j: local(S, e, mult, nw, first - base, j)
    S.progress(loc)
    S.progress(exp)
    addr = S.list('old', lambda o: o.int('a'))
    w = m.get_physical_addresses(off, mo, n, addr)
    S.check('bus width of the only level', w == bw)
    S.check('one address per bus word', S.length(addr) == nw)
    S.forall_range('address', nw, lambda j: addr[j] == exp(j))


class Up(UVMRegMap):
    """contract of the level above: the addresses of n bytes at x are affine in x (k1*x + c[i])"""

    def get_physical_addresses(self, base_addr, mem_offset, n_bytes, addr):
        self.asked = n_bytes
        base_addr = base_addr + mem_offset
        addr.clear()
        for c in self.cs:
            addr.append(c + self.k1 * base_addr)
        return self.w


PAIRS = [(1, 1), (1, 4), (2, 1), (4, 2), (4, 4), (4, 8), (8, 2)]


@variants('below', {k + '_%d_%d' % p: (e,) + p for k, e in ORD.items() for p in PAIRS})
def below(S, e, bw, ubw):
    """a map below another one, whose contract gives the addresses there"""
    byte = S.bool('byte')
    k1 = S.choice('k1', [1, 2])
    kk = words(bw, ubw)
    up = Up('up')
    blk = Blk()
    blk.parent = Blk()
    up.configure(blk.parent, 0, ubw, UVM_LITTLE_ENDIAN, True)
    up.k1 = k1
    up.cs = [S.int('c%d' % i) for i in range(kk)]
    up.w = S.int('w', 1, cap=8)
    m = mkmap(S, bw, e, byte, S.int('base', 0), blk)
    sub, off, mo = S.int('sub', 0), S.int('off', 0), S.int('mo', 0)
    up.add_submap(m, sub)
    n = S.int('n', 1, 1 << 48, cap=40)
    mult = bw if byte else 1
    nw = words(n, bw)
    first = off + mo * (nw * mult)
    loc = lambda j: local(S, e, mult, nw, first, j)
    S.progress(loc)
    res = lambda j: [up.cs[i] + k1 * (sub + loc(j) * kk) for i in range(kk)]

    def flat(j):
        r = res(j // kk)
        v = r[-1]
        for i in range(kk - 1):
            v = S.ite(j % kk == i, r[i], v)
        return v
    S.grows(kk, flat)
    S.after_first(up.w)
    addr = S.empty()
    w = m.get_physical_addresses(off, mo, n, addr)
    S.check('the narrowest bus on the way', w == S.ite(up.w < bw, up.w, bw))
    S.check('one address per bus word and level', S.length(addr) == nw * kk)
    for i in range(kk):
        S.forall_range('address', nw, lambda j: addr[j * kk + i] == up.cs[i] + k1 * (sub + loc(j) * kk))


def mkreg(blk, name, n_bits, access='RW'):
    r = UVMReg(name, n_bits, UVM_NO_COVERAGE)
    r.configure(blk, None, '')
    f = UVMRegField('f')
    f.configure(r, n_bits, 0, access, False, 0, True, False, True)
    return r


def table(S, e, bw, byte, n_bits, base):
    """bus addresses of a register (a plain list)"""
    nw = words(n_bits // 8, bw)
    return [local(S, e, bw if byte else 1, nw, base, i) for i in range(nw)]


def among(S, q, L):
    r = False
    for x in L:
        r = S.or_(r, q == x)
    return r


PAIR = [('RW', 'RW'), ('RO', 'WO'), ('WO', 'RO'), ('RO', 'RW'), ('WO', 'WO')]


@unit('UVMRegMap.Xinit_address_mapX', 'UVMRegMap.get_reg_by_offset', limit='two registers of one or two bus words')
def lookup(S):
    """which register is found at an address"""
    acc = S.choice('acc', PAIR)
    bits = S.choice('bits', [(8, 8), (16, 8), (16, 16)])
    e = S.choice('e', [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN])
    b = UVMRegBlock('b')
    m = b.create_map('m', S.int('base', 0), 1, e, True)
    offs = [S.int('o0', 0, cap=3), S.int('o1', 0, cap=3)]
    rs = [mkreg(b, 'r%d' % i, bits[i], acc[i]) for i in range(2)]
    for r, o in zip(rs, offs):
        m.add_reg(r, o, 'RW')
    b.lock_model()
    base = m.get_base_addr()
    q = S.int('q', 0, cap=8)
    T = [table(S, e, 1, True, bits[i], offs[i] + base) for i in range(2)]
    h = [among(S, q, t) for t in T]
    rd, wr = m.get_reg_by_offset(q, True), m.get_reg_by_offset(q, False)
    shared = acc in (('RO', 'WO'), ('WO', 'RO'))
    overlap = S.or_(*[among(S, x, T[1]) for x in T[0]])
    for name, got, first in (('read', rd, 'RO'), ('write', wr, 'WO')):
        both = rs[acc.index(first)] if shared else rs[0]
        exp = S.ite(S.and_(h[0], h[1]), both, S.ite(h[0], rs[0], S.ite(h[1], rs[1], None)))
        S.check('register found for a ' + name, got is exp)
    S.check('an overlap is reported', S.iff(any(r[1] == 'RegModel' for r in S.reports.warnings), S.and_(overlap, not shared)))
    S.check('no other complaint', not S.reports.errors)
    for i in range(2):
        S.check('address of the register', rs[i].get_address(m) == T[i][0])
        S.check('offset of the register', rs[i].get_offset(m) == offs[i])


@unit('UVMRegMap.m_set_reg_offset', 'UVMReg.set_offset', limit='two registers of one or two bus words')
def moved(S):
    """changing the offset of a register of a locked model"""
    acc = S.choice('acc', [('RW', 'RW'), ('RO', 'WO'), ('WO', 'RO'), ('RW', 'RO'), ('WO', 'RW')])
    bits = S.choice('bits', [(8, 8), (16, 8)])
    unmap = S.bool('unmap')
    e = S.choice('e', [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN])
    b = UVMRegBlock('b')
    m = b.create_map('m', 0, 1, e, True)
    o0, o1, new = S.int('o0', 0, cap=3), S.int('o1', 0, cap=3), S.int('new', 0, cap=5)
    rs = [mkreg(b, 'r%d' % i, bits[i], acc[i]) for i in range(2)]
    m.add_reg(rs[0], o0, 'RW')
    m.add_reg(rs[1], o1, 'RW')
    b.lock_model()
    T1 = table(S, e, 1, True, bits[1], o1)
    T0 = table(S, e, 1, True, bits[0], o0)
    shared = acc in (('RO', 'WO'), ('WO', 'RO'))
    if not shared:          # overlapping registers are reported, where they are found is not specified
        S.require(S.not_(S.or_(*[among(S, x, T1) for x in T0])))
    Tn = [] if unmap else table(S, e, 1, True, bits[0], new)
    overlap = S.and_(not shared, S.or_(*[among(S, x, T1) for x in Tn]))
    told = len(S.reports.warnings)
    rs[0].set_offset(m, new, unmap)
    q = S.int('q', 0, cap=8)
    h0, h1 = among(S, q, Tn), among(S, q, T1)
    for name, first in (('read', 'RO'), ('write', 'WO')):
        both = rs[acc.index(first)] if shared else rs[0]
        exp = S.ite(S.and_(h0, h1), both, S.ite(h0, rs[0], S.ite(h1, rs[1], None)))
        S.check('register found after the move for a ' + name, S.or_(overlap, m.get_reg_by_offset(q, name == 'read') is exp))
    S.check('an overlap is reported', S.iff(len(S.reports.warnings) > told, overlap))
    S.check('offset', rs[0].get_offset(m) == (-1 if unmap else new))
    S.check('the other register stays', rs[1].get_offset(m) == o1)
    if not unmap:
        S.check('address after the move', rs[0].get_address(m) == Tn[0])


@unit('UVMRegMap.Xinit_address_mapX', limit='one memory and one register; memories of up to five bus words per word')
def memory(S):
    """range and stride of a memory, overlaps with a register"""
    bw = S.choice('bw', [1, 2, 4])
    byte = S.bool('byte')
    n_bits = S.choice('bits', [8, 24, 40])
    e = S.choice('e', [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN])
    size = S.choice('size', [1, 2, 5, 1024])
    b = UVMRegBlock('b')
    m = b.create_map('m', 0, bw, e, byte)
    off, ro = S.int('off', 0, cap=6), S.int('ro', 0, cap=6)
    mem = UVMMem('mem', size, n_bits, 'RW', UVM_NO_COVERAGE)
    mem.configure(b, '')
    m.add_mem(mem, off, 'RW')
    r = mkreg(b, 'r', 8)
    m.add_reg(r, ro, 'RW')
    b.lock_model()
    mult = bw if byte else 1
    nw = words(n_bits // 8, bw)
    step = nw * mult
    info = m.get_mem_map_info(mem)
    w = S.int('w', 0, cap=5)
    S.require(w < size)
    a = []
    m.get_physical_addresses(off, w, mem.get_n_bytes(), a)
    for i in range(nw):
        S.check('address of the first word', info.addr[i] == local(S, e, mult, nw, off, i))
        S.check('address of any word', a[i] == local(S, e, mult, nw, off + w * step, i))
        if size > 1:
            S.check('stride leads from word to word', a[i] == info.addr[i] + w * info.mem_range.stride)
    S.check('range of the memory', S.and_(info.mem_range.min == off, info.mem_range.max == off + (size - 1) * step + (nw - 1) * mult))
    S.check('overlap with a register is reported', S.iff(len(S.reports.warnings) > 0, S.and_(ro >= off, ro <= off + (size - 1) * step + (nw - 1) * mult)))
    S.check('no other complaint', not S.reports.errors)


@unit('UVMRegMap.Xinit_address_mapX', limit='two memories')
def memories(S):
    b = UVMRegBlock('b')
    m = b.create_map('m', 0, 1, UVM_LITTLE_ENDIAN, True)
    ms = []
    for i in range(2):
        mem = UVMMem('m%d' % i, S.int('size%d' % i, 1, 1 << 20, cap=4), 8, 'RW', UVM_NO_COVERAGE)
        mem.configure(b, '')
        o = S.int('o%d' % i, 0, 1 << 20, cap=6)
        m.add_mem(mem, o, 'RW')
        ms.append((o, mem.get_size()))
    b.lock_model()
    (a, n), (c, k) = ms
    S.check('overlap of memories is reported', S.iff(len(S.reports.warnings) > 0, S.and_(a < c + k, c < a + n)))


@unit('UVMRegMap.add_reg', 'UVMRegMap.add_mem', 'UVMRegMap.add_submap', 'UVMRegMap.get_submap_offset')
def rejected(S):
    """what may not be mapped"""
    what = S.choice('what', ['reg twice', 'reg of another block', 'mem twice', 'mem of another block', 'no map', 'map twice', 'map of an unrelated block',
                             'not a submap', 'fine'])
    top = UVMRegBlock('top')
    b, c = UVMRegBlock('b'), UVMRegBlock('c')
    b.configure(top, '')
    mt = top.create_map('mt', 0, 4, UVM_LITTLE_ENDIAN, True)
    mb = b.create_map('mb', 0, 4, UVM_LITTLE_ENDIAN, True)
    mc = c.create_map('mc', 0, 4, UVM_LITTLE_ENDIAN, True)
    o1, o2 = S.int('o1', 0), S.int('o2', 0)
    rb, rc = mkreg(b, 'rb', 8), mkreg(c, 'rc', 8)
    mems = []
    for x in (b, c):
        mem = UVMMem('mem', 4, 8, 'RW', UVM_NO_COVERAGE)
        mem.configure(x, '')
        mems.append(mem)
    mb.add_reg(rb, o1, 'RO')
    mb.add_mem(mems[0], o1, 'RO')
    mt.add_submap(mb, o1)
    S.check('no complaint before', not S.reports.errors)
    if what == 'reg twice':
        mb.add_reg(rb, o2, 'RW')
    elif what == 'reg of another block':
        mb.add_reg(rc, o2, 'RW')
    elif what == 'mem twice':
        mb.add_mem(mems[0], o2, 'RW')
    elif what == 'mem of another block':
        mb.add_mem(mems[1], o2, 'RW')
    elif what == 'no map':
        mt.add_submap(None, o2)
    elif what == 'map twice':
        mt.add_submap(mb, o2)
    elif what == 'map of an unrelated block':
        mt.add_submap(mc, o2)
    elif what == 'not a submap':
        S.check('no offset', mt.get_submap_offset(mc) == -1)
    S.check('reported exactly then', len(S.reports.errors) == (0 if what == 'fine' else 1))
    regs, maps = [], []
    mt.get_registers(regs)
    mt.get_submaps(maps)
    S.check('registers of the map', regs == [rb])
    S.check('maps below', maps == [mb])
    top.lock_model()
    S.check('register keeps its offset and rights', S.and_(mb.get_reg_map_info(rb, 0).offset == o1, mb.get_reg_map_info(rb, 0).rights == 'RO'))
    S.check('memory keeps its offset and rights', S.and_(mb.get_mem_map_info(mems[0]).offset == o1, mb.get_mem_map_info(mems[0]).rights == 'RO'))
    S.check('submap keeps its offset', mt.get_submap_offset(mb) == o1)
    S.check('the others are not mapped', S.and_(rc.get_n_maps() == 0, mems[1].get_n_maps() == 0, mc.get_parent_map() is None))


@search(runs=500, weight=3)
def models(S):
    """random hierarchies of maps with registers and memories, against the address arithmetic"""
    uniq = [0]

    def build(parent, depth):
        uniq[0] += 1
        b = UVMRegBlock('b%d' % uniq[0])
        if parent:
            b.configure(parent['b'], '')
        bw, e, byte = S.choice('bw%d' % uniq[0], WIDTHS), S.choice('e%d' % uniq[0], ENDIANS), S.bool('by%d' % uniq[0])
        base = S.int('base%d' % uniq[0], 0, cap=0x100)
        d = {'b': b, 'bw': bw, 'e': e, 'mult': bw if byte else 1, 'base': base, 'up': parent, 'subs': [], 'regs': [], 'mems': []}
        d['m'] = b.create_map('m%d' % uniq[0], base, bw, e, byte)
        for i in range(S.int('nr%d' % uniq[0], 0, 2)):
            r = mkreg(b, 'r%d' % i, 8 * S.int('rb%d_%d' % (uniq[0], i), 1, 8))
            o = S.int('ro%d_%d' % (uniq[0], i), 0, cap=0x40)
            d['m'].add_reg(r, o, 'RW')
            d['regs'].append((r, o))
        for i in range(S.int('nm%d' % uniq[0], 0, 1)):
            mem = UVMMem('mem%d' % i, S.int('ms%d_%d' % (uniq[0], i), 1, 9), 8 * S.int('mb%d_%d' % (uniq[0], i), 1, 8), 'RW', UVM_NO_COVERAGE)
            mem.configure(b, '')
            o = S.int('mo%d_%d' % (uniq[0], i), 0x100, 0x180)
            d['m'].add_mem(mem, o, 'RW')
            d['mems'].append((mem, o))
        if depth:
            for i in range(S.int('ns%d' % uniq[0], 0 if parent else 1, 2)):
                c = build(d, depth - 1)
                c['off'] = S.int('so%d' % uniq[0], 0, cap=0x1000)
                d['m'].add_submap(c['m'], c['off'])
                d['subs'].append(c)
        return d

    def phys(d, base, word, n):
        nw = words(n, d['bw'])
        loc = [local(S, d['e'], d['mult'], nw, base + word * nw * d['mult'], i) for i in range(nw)]
        if d['up'] is None:
            return [x + d['base'] for x in loc], d['bw']
        u = d['up']
        k = max(1, words(d['bw'], u['bw']))
        r, w = [], None
        for x in loc:
            a, w = phys(u, d['off'] + x * k, 0, d['bw'])
            r += a
        return r, min(d['bw'], w)

    top = build(None, 2)
    top['b'].lock_model()
    where = {}

    def walk(d):
        for c in d['subs']:
            walk(c)
        for r, o in d['regs']:
            exp, w = phys(d, o, 0, r.get_n_bytes())
            got = []
            r.get_addresses(d['m'], got)
            S.check('addresses of a register', got == exp, (got, exp))
            got = []
            r.get_addresses(top['m'], got)
            S.check('addresses of a register seen from the top', got == exp, (got, exp))
            got = []
            S.check('bus width', d['m'].get_physical_addresses(o, 0, r.get_n_bytes(), got) == w)
            S.check('the map it is in', r.get_local_map(top['m']) is d['m'])
            S.check('offset', r.get_offset(d['m']) == o)
            for a in exp:
                where.setdefault(a, []).append(r)
        for mem, o in d['mems']:
            S.check('the map a memory is in', mem.get_local_map(top['m']) is d['m'])
            info = d['m'].get_mem_map_info(mem)
            exp, w = phys(d, o, 0, mem.get_n_bytes())
            S.check('addresses of the first word', info.addr == exp, (info.addr, exp))
            for j in range(mem.get_size()):
                e2, w = phys(d, o, j, mem.get_n_bytes())
                got = []
                d['m'].get_physical_addresses(o, j, mem.get_n_bytes(), got)
                S.check('addresses of a memory word', got == e2, (got, e2))
                S.check('stride', [x + j * info.mem_range.stride for x in info.addr] == e2, (info.addr, info.mem_range.stride, j, e2))
    walk(top)
    clash = False
    for a, rs in where.items():
        clash = clash or any(r is not rs[0] for r in rs)
        S.check('look-up finds what is mapped there', any(top['m'].get_reg_by_offset(a) is r for r in rs), hex(a))
        if all(r is rs[0] for r in rs):
            S.check('exactly it', top['m'].get_reg_by_offset(a, False) is rs[0])
        for x in (a - 1, a + 1):
            if x not in where:
                S.check('nothing next to it', top['m'].get_reg_by_offset(x) is None)
    if clash:
        S.check('overlaps are reported', len(S.reports.warnings) > 0)
