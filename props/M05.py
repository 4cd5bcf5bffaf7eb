"""M05: backdoor accesses."""
from vc.unit import unit, search, FatalReport
from uvm.reg import uvm_reg as R
from uvm.reg import uvm_mem as MM
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
from uvm.reg.uvm_reg_map import UVMRegMap
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_NO_COVERAGE, UVM_IS_OK, UVM_NOT_OK, UVM_HAS_X, UVM_FRONTDOOR, UVM_BACKDOOR, UVM_DEFAULT_PATH,
                                   UVM_CHECK, UVM_NO_CHECK, UVM_HIER, UVM_NO_HIER, uvm_hdl_path_concat)
from uvm.dpi.uvm_hdl import uvm_hdl

PROPERTY = {
 'title': 'A backdoor access reaches exactly the bits of hardware its paths name',
 'statement': 'A backdoor write of a register or memory word puts, at each of its full hardware paths, into every slice exactly the bits of the value the slice covers (all of them if the path is not divided); a backdoor read puts the value together from the slices, and two paths which hold different values are reported as an error and fail. The full paths are those of the block followed by the own ones, and an access succeeds exactly if the hardware accepts all of them. Writing a register by the backdoor leaves the hardware and the mirror as the access policies of its fields prescribe for a write, reading it has the side effects of a read; a memory which cannot be written is left alone, and a user-defined backdoor of the register, memory or nearest block around it is used instead of the paths.',
 'over': ['inputs', 'configurations'],
 'text': 'any number of slices of any size and place, any value; registers and memories with any paths and policies, at any depth',
 'why': 'tests use no backdoor at all, or one undivided path',
 'files': ['src/uvm/reg/uvm_reg.py', 'src/uvm/reg/uvm_mem.py', 'src/uvm/dpi/uvm_hdl.py'],
 'mech': [['UVMReg.backdoor_write, backdoor_read_func, get_full_hdl_path, do_write, do_read, get_backdoor', 'src/uvm/reg/uvm_reg.py'],
          ['UVMMem.backdoor_write, backdoor_read_func, get_full_hdl_path, do_write, do_read', 'src/uvm/reg/uvm_mem.py'],
          ['uvm_hdl.uvm_hdl_read, uvm_hdl_deposit', 'src/uvm/dpi/uvm_hdl.py']],
 'note': 'the hardware is an object with attributes; for the proofs access to it is a contract: a value of any size for every path, there or not; read slices of one path do not overlap. Registers lie in one map; what the mirror holds after reading a field which changes when read is not covered, nor are register files, whose paths the port does not have',
}

LIM = 1 << 16


class Path:
    """the path of a slice, and what is appended to it"""
    def __init__(self, sl, text, end=''):
        self.sl, self.text, self.end = sl, text, end

    def __add__(self, s): return Path(self.sl, self.text, self.end + s)
    def __radd__(self, s): return s + 'path'
    def __str__(self): return 'path'


class Slice:
    pass


class World:
    def __init__(self, S, what, cls, mod):
        self.S = S
        self.x = getattr(mod, cls)('x', 32, 0) if cls == 'UVMReg' else getattr(mod, cls)('x', 64, 32)
        self.mem = cls == 'UVMMem'
        self.x.configure(UVMRegBlock('blk'), None, '') if cls == 'UVMReg' else self.x.configure(UVMRegBlock('blk'), '')
        self.cur = None

        width = S.int('width', 0, LIM, cap=40)

        def mk(e):
            o = Slice()
            o.offset = e.int('offset', -1 if what == 'write' else 0, LIM, cap=40)
            o.size = e.int('size', 0, LIM, cap=40)
            o.have = e.bits('have', width)
            o.there = e.bits('there', 1)
            o.tag = e.int('tag')
            o.path = Path(o, 'path')
            return o
        self.parts = [S.list('slices', mk)] + ([S.list('others', mk)] if cls == 'UVMReg' and what == 'write' and S.bool('two paths') else [])
        self.index = S.choice('index', [0, 3, 63]) if self.mem else None
        S.stub(self.x, 'get_full_hdl_path', self.paths)
        S.stub(uvm_hdl, 'uvm_hdl_deposit', self.deposit)
        S.stub(uvm_hdl, 'uvm_hdl_read', self.read)
        self.log = S.empty()
        S.root('log', self.log)
        for l in self.parts:
            S.template(lambda k, v0, l=l: None if type(v0) is int and v0 != 1 else S.bitwise(1, lambda i: S.and_(S.bit(v0, 0), S.not_(S.exists(l, lambda s: S.not_(S.bit(s.there, 0)), k)))))
        self.rw = UVMRegItem('rw')
        self.rw.offset = self.index if self.mem else 0
        self.rw.path = UVM_BACKDOOR

    def paths(self, paths, kind='', separator='.'):
        for l in self.parts:
            c = uvm_hdl_path_concat()
            c.slices = l
            paths.append(c)

    def complete(self):
        return self.S.not_(self.S.or_(*[self.S.exists(l, lambda s: self.S.not_(self.S.bit(s.there, 0))) for l in self.parts]))

    def here(self, path):
        self.S.check('the path of the word', path.end == ('[%d]' % self.index if self.mem else ''))
        return path.sl

    def deposit(self, path, value):
        s = self.here(path)
        self.log.append((s.tag, value))
        return s.there

    def read(self, path, arr):
        s = self.cur = self.here(path)
        arr.append(s.have)
        return s.there


def write(S, cls, mod):
    w = World(S, 'write', cls, mod)
    v = S.bits('value')
    w.rw.value = [v]
    part = lambda s: S.ite(s.offset < 0, v, S.bitwise(s.size, lambda i: S.bit(v, s.offset + i)))
    for l in w.parts:
        S.grows(1, lambda k, l=l: (l[k].tag, part(l[k])))
    w.x.backdoor_write(w.rw)
    at, n = 0, S.length(w.log)
    for l in w.parts:
        S.forall('its bits of the value, in order', l, lambda i, s: S.and_(w.log[at + i][0] == s.tag, w.log[at + i][1] == part(s)))
        at = at + S.length(l)
    S.check('every slice once', n == at)
    S.check('good exactly if all are there', S.iff(w.rw.status == UVM_IS_OK, w.complete()))
    S.check('or not', S.or_(w.rw.status == UVM_IS_OK, w.rw.status == UVM_NOT_OK))


def read(S, cls, mod):
    w = World(S, 'read', cls, mod)
    w.rw.value = [S.bits('before')]
    val = S.placed(w.parts[0], lambda s: s.offset, lambda s: s.size, lambda s: s.have)
    S.template(lambda j, v0: None if w.cur is None else v0 if type(j) is int else S.bitwise(None, lambda i: S.ite(S.and_(i >= w.cur.offset, i < w.cur.offset + j), S.bit(w.cur.have, i - w.cur.offset), S.bit(v0, i))))
    S.template(lambda j, v0: None if type(v0) is int else v0 >> j)
    S.template(lambda j, v0: v0 + j)
    got = w.x.backdoor_read_func(w.rw)
    S.check('what the slices hold, in their places', w.rw.value[0] == val & ((1 << 32) - 1))
    S.check('one value', len(w.rw.value) == 1)
    S.check('good exactly if all are there', S.iff(got == UVM_IS_OK, w.complete()))
    S.check('its status', w.rw.status == got)


for _cls, _mod in (('UVMReg', R), ('UVMMem', MM)):
    for _f, _n in ((write, 'backdoor_write'), (read, 'backdoor_read_func')):
        def one(S, _cls=_cls, _mod=_mod, _f=_f):
            _f(S, _cls, _mod)
        one.__name__ = '%s_%s' % (_f.__name__, _cls[3:].lower())
        unit('%s.%s' % (_cls, _n))(one)


# whole models: bounded

class Node:
    pass


class Leaf:
    """a signal: .value is what is put there"""
    def __init__(self, v): self.value = v
    def __int__(self): return int(self.value)


class Array:
    def __init__(self, l): self.l = l
    def __getitem__(self, i): return self.l[i]


class Bkdr(UVMRegBackdoor):
    def __init__(self, name):
        super().__init__(name)
        self.have, self.log, self.status = 0, [], UVM_IS_OK

    async def read(self, rw):
        self.log.append('read')
        rw.value[0], rw.status = self.have, self.status

    async def write(self, rw):
        self.log.append(('write', [int(v) for v in rw.value]))
        rw.status = self.status


class Hardware:
    """signals by their paths; either found by name, or as objects the port walks"""
    def __init__(self, S, sim):
        self.S, self.sim, self.sig, self.missing, self.fixed, self.puts = S, sim, {}, set(), set(), []
        self.built = False
        if sim is None:
            S.stub(uvm_hdl, 'uvm_hdl_deposit', self.deposit)
            S.stub(uvm_hdl, 'uvm_hdl_read', self.read)
        else:
            self.top = Node()
            S.stub(uvm_hdl, 'dut', self.top)
            S.stub(uvm_hdl, 'SIM_NAME', sim)

    def name(self, path):
        path = path.lstrip('.')
        self.S.check('a signal of the element', path in self.sig or path in self.missing, info={'path': path})
        return path

    def deposit(self, path, value):
        path = self.name(path)
        self.puts.append(path)
        if path in self.missing or path in self.fixed:
            return 0
        self.sig[path] = int(value)
        return 1

    def read(self, path, arr):
        path = self.name(path)
        arr.append(self.sig.get(path, 0))
        return int(path not in self.missing)

    def build(self):
        """as objects"""
        if self.sim is None:
            return
        for path, v in self.sig.items():
            o, parts = self.top, path.split('.')
            for p in parts[:-1]:
                if not hasattr(o, p):
                    setattr(o, p, Node())
                o = getattr(o, p)
            last = parts[-1]
            if self.sim == 'Verilator' and '[' in last:
                n, i = last[:-1].split('[')
                if not hasattr(o, n):
                    setattr(o, n, Array([Leaf(0) for _ in range(32)]))
                getattr(o, n)[int(i)].value = v
            else:
                setattr(o, last, Leaf(v))

    def fetch(self):
        if self.sim is None:
            return dict(self.sig)
        out = {}
        for path in self.sig:
            o, parts = self.top, path.split('.')
            for p in parts[:-1]:
                o = getattr(o, p)
            last = parts[-1]
            if self.sim == 'Verilator' and '[' in last:
                n, i = last[:-1].split('[')
                out[path] = int(getattr(o, n)[int(i)])
            else:
                out[path] = int(getattr(o, last))
        return out


def partition(S, name, n):
    """0 < ... < n cut at random places"""
    cuts = sorted({0, n} | {S.pick('%s.cut%d' % (name, i), 1, n) for i in range(S.choice('%s.cuts' % name, [0, 1, 2, 4]))})
    return list(zip(cuts, cuts[1:]))


@search(runs=2500, weight=3)
def model(S):
    from props.F01 import WRITE, READ, POL, effect
    S.stub(UVMRegBlock, 'm_roots', {})
    UVMRegMap.backdoor().set_check_on_read(False)
    depth = S.choice('depth', [1, 2, 3])
    blk, full, chain = None, [''], []
    for d in range(depth):
        b = UVMRegBlock('b%d' % d)
        own = ['u%d' % d] if d or depth == 1 or S.choice('toppath', [1, 1, 0]) else ['']
        b.configure(blk, own[0])
        if S.choice('two%d' % d, [0, 0, 0, 1]) and own != ['']:
            own.append('v%d.w' % d)
            b.add_hdl_path(own[1])
        if S.choice('root%d' % d, [0, 0, 0, 0, 1]) and d:
            b.set_hdl_path_root('top.r%d' % d)
            full = ['top.r%d' % d]
        else:
            full = ['.'.join(x for x in (p, o) if x) for p in full for o in own]
        blk = b
        chain.append(b)
    if any(chain[d].is_hdl_path_root() for d in range(depth)) and full == ['']:
        return
    is_mem = S.bool('mem')
    bits = S.choice('bits', [1, 8, 13, 32, 64])
    size = 8
    access = S.choice('access', ['RW', 'RW', 'RO']) if is_mem else None
    x = MM.UVMMem('x', size, bits, access) if is_mem else R.UVMReg('x', bits, UVM_NO_COVERAGE)
    hw = Hardware(S, S.choice('sim', [None, None, None, 'Verilator', 'Icarus Verilog']))
    if is_mem:
        x.configure(blk, '')
    else:
        x.configure(blk, None, '')
    paths = []                      # [(full path, lo, width)] of each full path of the element
    for p in range(S.choice('paths', [1, 1, 2])):
        undivided = S.choice('undivided%d' % p, [0, 1, 0])
        if undivided:
            n = S.choice('name%d' % p, ['s%d' % p, 'z.s%d' % p, '']) if full != [''] else 's%d' % p
            x.add_hdl_path_slice(n, -1, -1, True)
            own = [(n, 0, bits)]
        else:
            own = []
            for k, (lo, hi) in enumerate(partition(S, 'slice%d' % p, bits)):
                n = 's%d_%d' % (p, k)
                x.add_hdl_path_slice(n, lo, hi - lo, k == 0)
                own.append((n, lo, hi - lo))
        for f in full:
            paths.append([('.'.join(y for y in (f, n) if y), lo, wd) for n, lo, wd in own])
    if len({s[0] for p in paths for s in p}) < sum(len(p) for p in paths):
        return
    if any(a != b and b.startswith(a + '.') for p in paths for a, _, _ in p for q in paths for b, _, _ in q):
        return
    words = list(range(size)) if is_mem else [None]
    end = lambda i: '' if i is None else '[%d]' % i
    have = {i: S.pick('have%s' % i, 0, 1 << bits) for i in words}
    for i in words:
        for p in paths:
            for n, lo, wd in p:
                hw.sig[n + end(i)] = have[i] >> lo & ((1 << wd) - 1)
    fields = []
    if not is_mem:
        for k, (lo, hi) in enumerate(partition(S, 'field', bits)):
            f = UVMRegField('f%d' % k)
            f.configure(x, hi - lo, lo, S.choice('pol%d' % k, POL), False, S.pick('reset%d' % k, 0, 1 << (hi - lo)), True, False, False)
            fields.append((f, lo, hi - lo))
    if S.bool('mapped'):
        maps = [b.create_map('map', 0, 8, UVM_LITTLE_ENDIAN) for b in chain]
        for up, m in zip(maps, maps[1:]):
            up.add_submap(m, 0)
        maps[-1].add_mem(x, 0, 'RW') if is_mem else maps[-1].add_reg(x, 0, 'RW')
    chain[0].lock_model()
    chain[0].reset()
    bk = {}
    near = None
    if S.choice('user', [0, 0, 1]):
        for d, b in enumerate(chain):
            if S.bool('user%d' % d):
                b.backdoor = near = bk[d] = Bkdr('bd%d' % d)
        if is_mem and S.bool('userx'):
            near = bk['x'] = Bkdr('own')
            x.set_backdoor(near)
        if near is not None:
            near.have = have[None] if not is_mem else have[0]
            near.status = S.choice('ust', [UVM_IS_OK, UVM_IS_OK, UVM_NOT_OK])
    odd = None
    if len(paths) > 1 and S.choice('differ', [0, 0, 1]):
        w = S.choice('dw', words)
        n, lo, wd = S.choice('ds', [s for p in paths for s in p])
        hw.sig[n + end(w)] ^= 1 << S.pick('db', 0, wd)
        odd = w
    if hw.sim is None and S.choice('miss', [0, 0, 0, 1]):
        i, n = S.choice('mi', words), S.choice('mn', [s[0] for p in paths for s in p])
        hw.missing.add(n + end(i))
        del hw.sig[n + end(i)]
    if hw.sim is None and hw.sig and S.choice('fix', [0, 0, 0, 1]):
        hw.fixed.add(S.choice('fi', sorted(hw.sig)))
    hw.build()
    lost = lambda i: any(n + end(i) in hw.missing for p in paths for n, _, _ in p)
    word = lambda i: {n + end(i): have[i] >> lo & ((1 << wd) - 1) for p in paths for n, lo, wd in p}
    written = {k: False for k in range(len(fields))}
    for q in range(S.choice('ops', [1, 2, 3])):
        op = S.choice('op%d' % q, ['write', 'read'])
        status, n0, before = [], len(S.reports), hw.fetch()
        hw.puts[:] = []
        for u in bk.values():
            u.log[:] = []
        errs = lambda: [r for r in S.reports[n0:] if r[0] in ('error', 'fatal')]
        v = S.pick('v%d' % q, 0, 1 << bits)
        if is_mem:
            off = S.pick('off%d' % q, 0, size)
            n = S.choice('len%d' % q, [m for m in (1, 2, 4) if off + m <= size])
            vals = [v] + [S.pick('v%d.%d' % (q, k), 0, 1 << bits) for k in range(1, n)]
            idx = list(range(off, off + n))
        else:
            vals, idx = [v], [None]
        if op == 'write':
            if is_mem:
                S.simulate(x.burst_write(status, off, vals[:], UVM_BACKDOOR) if n > 1 else x.write(status, off, v, UVM_BACKDOOR))
            else:
                S.simulate(x.write(status, v, UVM_BACKDOOR))
        else:
            got = []
            if is_mem:
                got = [0] * n if n > 1 else []
                S.simulate(x.burst_read(status, off, got, UVM_BACKDOOR) if n > 1 else x.read(status, off, got, UVM_BACKDOOR))
            else:
                S.simulate(x.read(status, got, UVM_BACKDOOR))
        S.check('one status', len(status) == 1)
        after = hw.fetch()
        for u in bk.values():
            S.check('only the nearest user backdoor', u is near or u.log == [])
        if near is not None:
            S.check('no path is used', after == before and not hw.puts)
        if is_mem and op == 'write' and access == 'RO':
            S.check('left alone', status[0] == UVM_IS_OK and after == before and not hw.puts and (near is None or near.log == []))
            continue
        if near is not None and is_mem:
            S.check('its status', status[0] == near.status)
            S.check('one access', near.log == ([('write', vals)] if op == 'write' else ['read']))
            if op == 'read' and near.status == UVM_IS_OK:
                S.check('its value', got[0] == near.have)
            continue
        cur = near.have if near is not None else have[idx[0]]
        good = near.status == UVM_IS_OK if near is not None else not any(lost(i) for i in idx)
        clash = near is None and _clash(paths, before, end, idx)
        if is_mem:
            if op == 'write':
                stuck = any(n + end(i) in hw.fixed for i in idx for p in paths for n, _, _ in p)
                S.check('the status', (status[0] == UVM_IS_OK) == (good and not stuck))
                S.check('no error', errs() == [])
                if stuck:
                    return
                want = dict(before)
                for i, val in zip(idx, vals):
                    have[i] = val
                    want.update({k: y for k, y in word(i).items() if k not in hw.missing})
                S.check('the words, and nothing else', after == want, info={'after': after, 'want': want})
            else:
                S.check('reading changes nothing', after == before)
                if clash or not good:
                    S.check('fails', status[0] == UVM_NOT_OK)
                    S.check('an error tells of different values', not clash or hw.missing or len(errs()) == 1)
                else:
                    S.check('the words', status[0] == UVM_IS_OK and list(got)[-n:] == [have[i] for i in idx] and errs() == [])
            continue
        if clash or not good:
            S.check('fails', status[0] == UVM_NOT_OK)
            S.check('nothing is put', not hw.puts and after == before)
            S.check('an error tells of different values', not clash or hw.missing or len(errs()) == 1)
            if near is not None:
                S.check('only read', near.log == ['read'])
            return
        stuck = near is None and any(p in hw.fixed for p in hw.puts)
        if stuck:
            S.check('what cannot be put', op == 'read' or status[0] == UVM_NOT_OK)
            return
        S.check('good', status[0] == UVM_IS_OK and errs() == [], info={'status': str(status), 'errs': str(errs())})
        if op == 'write':
            final = 0
            for k, (f, lo, wd) in enumerate(fields):
                m = (1 << wd) - 1
                final |= effect(S, WRITE[f.get_access()], cur >> lo & m, v >> lo & m, wd, written[k]) << lo
                written[k] = True
            S.check('the mirror', x.get_mirrored_value() == final and x.get() == final)
            S.check('the hardware', (near.log == ['read', ('write', [final])]) if near is not None else True)
        else:
            final, seen = 0, 0
            for f, lo, wd in fields:
                m = (1 << wd) - 1
                acc = f.get_access()
                r = READ.get(acc, 'v')
                final |= (0 if r == '0' else m if r == '1' else cur >> lo & m) << lo
                seen |= (0 if r == 'm' else cur >> lo & m) << lo
                if r == 'v':
                    S.check('the mirror is what was read', f.get_mirrored_value() == cur >> lo & m)
            S.check('the value, but for what cannot be read', got == [seen])
            if near is not None:
                S.check('the user backdoor', near.log == (['read'] if final == cur else ['read', ('write', [final])]))
        if near is not None:
            near.have = final
        else:
            have[None] = final
            S.check('the hardware', after == word(None))


def _clash(paths, sig, end, idx):
    for i in idx:
        if len({sum(sig.get(n + end(i), 0) << lo for n, lo, wd in p) for p in paths}) > 1:
            return True
    return False
