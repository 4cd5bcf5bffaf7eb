"""M04: register blocks."""
from vc.unit import unit, search, FatalReport
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_NO_COVERAGE, UVM_IS_OK, UVM_NOT_OK, UVM_HAS_X, UVM_FRONTDOOR, UVM_BACKDOOR, UVM_DEFAULT_PATH,
                                   UVM_CHECK, UVM_NO_CHECK, UVM_HIER, UVM_NO_HIER)

PROPERTY = {
 'title': 'A register block is all that is in it and in its sub-blocks, and nothing else',
 'statement': 'A block lists its registers, memories, blocks and maps, alone or with those beneath it, each once and in the order they were added; a register or map is found by its name, or a warning says there is none, and accessed by it with its status. Resetting, updating, mirroring and switching coverage act on every register (for coverage also every memory) in the block and beneath it once, updating only on those which need it; an update ends with the first register which fails, and the status tells whether all succeeded. The full names and hardware paths are those of the parents followed by the own ones, paths of a root standing alone; a locked block takes nothing more, nothing can be added twice, and root blocks have different names - everything else is reported as an error and changes nothing.',
 'over': ['inputs', 'configurations'],
 'text': 'any number of registers and blocks at a level, trees of blocks with registers, memories, maps and paths, and any access status',
 'why': 'tests use blocks of a few registers, update no sub-block, and let no access fail',
 'files': ['src/uvm/reg/uvm_reg_block.py'],
 'mech': [['UVMRegBlock.update, mirror, reset, needs_update, get_registers, get_reg_by_name, get_full_hdl_path, lock_model', 'src/uvm/reg/uvm_reg_block.py']],
 'note': 'operations on one level are proved for any number of registers and sub-blocks, these by contract, so that a tree of any depth follows by induction; whole models are a bounded search. get_field_by_name, get_block_by_name, reading by name and memories by name do not exist in this port',
}


class Sub:
    """a register or block: what it does is its own contract"""
    def __init__(self, w, tag, need, status):
        self.w, self.tag, self.need, self.status = w, tag, need, status

    def get_name(self): return 'sub'
    def get_full_name(self): return 'blk.sub'
    def needs_update(self): return self.need

    def reset(self, kind):
        self.w.S.check('the same kind of reset', kind == self.w.kind)
        self.w.seen.append(self.tag)

    def get_registers(self, regs, hier=UVM_HIER):
        regs.append(self.tag)

    def get_memories(self, regs, hier=UVM_HIER):
        regs.append(self.tag)

    def set_coverage(self, is_on):
        self.w.S.check('the same coverage', is_on == self.w.kind)
        self.w.seen.append(self.tag)


class Reg(Sub):
    async def update(self, status, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
        self.w.S.check('the same access', path == self.w.path and prior == self.w.prior)
        self.w.seen.append(self.tag)
        status.append(self.status)

    async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
        self.w.S.check('the same access', path == self.w.path and prior == self.w.prior and check == self.w.check)
        self.w.seen.append(self.tag)
        status.append(self.status)


class Blk(Sub):
    async def update(self, status, path=UVM_DEFAULT_PATH, parent=None, prior=-1, extension=None, fname='', lineno=0):
        self.w.S.check('the same access', path == self.w.path and prior == self.w.prior)
        self.w.seen.append(self.tag)
        status.append(self.status)

    async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, parent=None, prior=-1, extension=None, fname='', lineno=0):
        self.w.S.check('the same access', path == self.w.path and prior == self.w.prior and check == self.w.check)
        self.w.seen.append(self.tag)
        status.append(self.status)


class Pool:
    def __init__(self, l):
        self.l = l

    def key_list(self): return self.l
    def num(self): return len(self.l)


class World:
    def __init__(self, S, regs=True, blks=True):
        self.S = S
        self.b = UVMRegBlock('blk')
        self.seen = S.empty()
        S.root('seen', self.seen)
        self.kind = S.choice('kind', ['HARD', 'SOFT'])
        self.path = S.choice('path', [UVM_FRONTDOOR, UVM_BACKDOOR])
        self.prior = S.int('prior', -1, 100)
        self.check = S.choice('check', [UVM_CHECK, UVM_NO_CHECK])
        self.regs = S.list('regs', lambda e: Reg(self, e.int('tag'), e.bool('need'), e.int('st', 0, 2))) if regs else []
        self.blks = S.list('blks', lambda e: Blk(self, e.int('tag'), e.bool('need'), e.int('st', 0, 2))) if blks else []
        self.b.regs, self.b.blks = Pool(self.regs), Pool(self.blks)


def bad(S, st):
    return S.and_(st != UVM_IS_OK, st != UVM_HAS_X)


@unit('UVMRegBlock.needs_update')
def needs_regs(S):
    needs(S, World(S, blks=False))


@unit('UVMRegBlock.needs_update')
def needs_blks(S):
    needs(S, World(S, regs=False))


@unit('UVMRegBlock.needs_update')
def needs_both(S):
    needs(S, World(S))


def needs(S, w):
    for l in (w.regs, w.blks):
        S.scan(l, lambda r: r.need)
    got = w.b.needs_update()
    S.check('exactly if something in it does', S.iff(bool(got), S.or_(S.exists(w.regs, lambda r: r.need), S.exists(w.blks, lambda r: r.need))))


@unit('UVMRegBlock.reset')
def reset_regs(S):
    w = World(S, blks=False)
    S.grows(1, lambda k: w.regs[k].tag)
    w.b.reset(w.kind)
    S.check('every register once', S.length(w.seen) == S.length(w.regs))
    S.forall('in order', w.regs, lambda i, r: w.seen[i] == r.tag)


@unit('UVMRegBlock.reset')
def reset_blks(S):
    w = World(S, regs=False)
    S.grows(1, lambda k: w.blks[k].tag)
    w.b.reset(w.kind)
    S.check('every block once', S.length(w.seen) == S.length(w.blks))
    S.forall('in order', w.blks, lambda i, r: w.seen[i] == r.tag)


@unit('UVMRegBlock.mirror')
def mirror_regs(S):
    w = World(S, blks=False)
    mirror(S, w, w.regs)


@unit('UVMRegBlock.mirror')
def mirror_blks(S):
    w = World(S, regs=False)
    mirror(S, w, w.blks)


def mirror(S, w, l):
    S.grows(1, lambda k: l[k].tag)
    last = S.last_match(l, lambda r: bad(S, r.status), lambda r: r.status)
    status = []
    S.run(w.b.mirror(status, w.check, w.path, None, w.prior))
    S.check('each of them once', S.length(w.seen) == S.length(l))
    S.forall('in order', l, lambda i, r: w.seen[i] == r.tag)
    S.check('one status', len(status) == 1)
    S.check('not good exactly if one of them is not', S.iff(bad(S, status[0]), last >= 0))


@unit('UVMRegBlock.update')
def update_regs(S):
    w = World(S, blks=False)
    S.scan(w.regs, lambda r: r.need)
    S.scan(w.regs, lambda r: S.and_(r.need, bad(S, r.status)))
    want = S.filtered(w.regs, lambda r: r.need, lambda i: w.regs[i].tag)
    status = []
    S.run(w.b.update(status, w.path, None, w.prior))
    S.check('one status', len(status) == 1)
    if bad(S, status[0]):
        S.check('one has failed', S.exists(w.regs, lambda r: S.and_(r.need, bad(S, r.status))))
        S.check('some updated', S.length(w.seen) >= 1)
    elif not S.exists(w.regs, lambda r: r.need):
        S.check('none updated', S.length(w.seen) == 0)
    else:
        S.check('all which need it', S.length(w.seen) == S.length(want))
        S.forall_range('once, in order', S.length(want), lambda i: w.seen[i] == want[i])
        S.forall('none has failed', w.regs, lambda i, r: S.not_(S.and_(r.need, bad(S, r.status))))


@unit('UVMRegBlock.update')
def update_blks(S):
    w = World(S, regs=False)
    S.scan(w.blks, lambda r: r.need)
    S.grows(1, lambda k: w.blks[k].tag)
    last = S.last_match(w.blks, lambda r: bad(S, r.status), lambda r: r.status)
    status = []
    S.run(w.b.update(status, w.path, None, w.prior))
    S.check('one status', len(status) == 1)
    if S.exists(w.blks, lambda r: r.need):
        S.check('each of them once', S.length(w.seen) == S.length(w.blks))
        S.forall('in order', w.blks, lambda i, r: w.seen[i] == r.tag)
        S.check('not good exactly if one of them is not', S.iff(bad(S, status[0]), last >= 0))
    else:
        S.check('nothing to do', S.length(w.seen) == 0)
        S.check('good', status[0] == UVM_IS_OK)


GETS = ['get_registers', 'get_memories']


@unit('UVMRegBlock.get_registers', 'UVMRegBlock.get_memories')
def listed_own(S):
    w = World(S, blks=False)
    w.b.mems = w.b.regs
    got = S.empty()
    S.root('got', got)
    hier = S.choice('hier', [UVM_HIER, UVM_NO_HIER])
    S.grows(1, lambda k: w.regs[k])
    getattr(w.b, S.choice('what', GETS))(got, hier)
    S.check('its own and nothing else', S.length(got) == S.length(w.regs))
    S.forall('in order', w.regs, lambda i, r: got[i] is r)


@unit('UVMRegBlock.get_registers', 'UVMRegBlock.get_memories')
def listed_below(S):
    w = World(S, regs=False)
    w.b.mems = w.b.regs
    got = S.empty()
    S.root('got', got)
    hier = S.choice('hier', [UVM_HIER, UVM_NO_HIER])
    S.grows(1, lambda k: w.blks[k].tag)
    getattr(w.b, S.choice('what', GETS))(got, hier)
    if hier == UVM_NO_HIER:
        S.check('nothing from beneath', S.length(got) == 0)
    else:
        S.check('what every block lists', S.length(got) == S.length(w.blks))
        S.forall('in order', w.blks, lambda i, r: got[i] == r.tag)


@unit('UVMRegBlock.set_coverage')
def coverage_all(S):
    w = World(S, blks=False)
    w.b.mems, w.b.blks = Pool([]), Pool([])
    which = S.choice('which', ['regs', 'blks', 'mems'])
    l = w.regs
    w.b.regs = Pool([])
    setattr(w.b, which, Pool(l))
    w.kind = S.bits('cov')
    has = w.b.has_cover = S.bits('has')
    S.grows(1, lambda k: l[k].tag)
    got = w.b.set_coverage(w.kind)
    S.check('those there are switched on', got == (has & w.kind))
    S.check('all of them once', S.length(w.seen) == S.length(l))
    S.forall('in order', l, lambda i, r: w.seen[i] == r.tag)


KINDS = ['RTL', 'GATES']


class World2:
    def __init__(self, S):
        self.S = S
        self.bus = []
        self.blocks, self.par, self.regs, self.mems, self.maps, self.subs = [], {}, {}, {}, {}, {}
        self.paths, self.roots, self.has = {}, {}, {}
        self.status = {}


@search(runs=2000, weight=3)
def model(S):
    w = World2(S)
    UVMRegBlock.m_roots.clear()
    for k in range(S.int('blocks', 1, 5)):
        b = UVMRegBlock(S.choice('bname%d' % k, ['a', 'b', 'c']), S.int('bcov%d' % k, 0, 7))
        p = S.choice('bpar%d' % k, w.blocks + [None]) if w.blocks else None
        hp = S.choice('bhdl%d' % k, ['', 'u', 'v'])
        b.configure(p, hp)
        w.blocks.append(b)
        w.par[b], w.regs[b], w.mems[b], w.maps[b], w.subs[b] = p, [], [], [], []
        w.paths[b], w.roots[b] = {'RTL': [hp]}, {}
        if p is not None:
            w.subs[p].append(b)
        for i in range(S.int('nmaps%d' % k, 0, 2)):
            w.maps[b].append(b.create_map('m%d' % S.int('mname%d%d' % (k, i), 0, 3), 0, 4, UVM_LITTLE_ENDIAN))
    for k in range(S.int('regs', 0, 6)):
        b = S.choice('rblk%d' % k, w.blocks)
        if S.bool('ismem%d' % k):
            m = UVMMem('x%d' % S.int('rname%d' % k, 0, 3), 4, 32, 'RW', S.int('rcov%d' % k, 0, 7))
            m.configure(b, '')
            w.mems[b].append(m)
            continue
        r = UVMReg('x%d' % S.int('rname%d' % k, 0, 3), 32, S.int('rcov%d' % k, 0, 7))
        r.configure(b, None, '')
        f = UVMRegField('f')
        f.configure(r, 8, S.int('lsb%d' % k, 0, 24), 'RW', 0, S.int('reset%d' % k, 0, 255), 1, 0, 0)
        w.regs[b].append(r)

    def under(b):
        out = [b]
        for c in w.subs[b]:
            out += under(c)
        return out

    def name(b):
        return b.get_name() if w.par[b] is None else name(w.par[b]) + '.' + b.get_name()
    S.check('the roots', sorted(map(id, roots())) == sorted(id(b) for b in w.blocks if w.par[b] is None))
    for b in w.blocks:
        S.check('the full name', b.get_full_name() == name(b))
        S.check('the parent', b.get_parent() is w.par[b])
        for hier in (UVM_HIER, UVM_NO_HIER):
            for what, fn, of in (('registers', b.get_registers, w.regs), ('memories', b.get_memories, w.mems)):
                got = []
                fn(got, hier)
                want = [r for c in (under(b) if hier == UVM_HIER else [b]) for r in of[c]]
                S.check('the ' + what, got == want, (name(b), hier))
            got = []
            b.get_blocks(got, hier)
            S.check('the blocks', got == (under(b)[1:] if hier == UVM_HIER else w.subs[b]))
        got = []
        b.get_maps(got)
        S.check('the maps', got == w.maps[b])
        S.check('the default map', b.get_default_map() is (w.maps[b][0] if w.maps[b] else None))
        for x in ('x0', 'x1', 'x2', 'x3', 'zz'):
            n0 = len(S.reports)
            got = b.get_reg_by_name(x)
            own = [r for r in w.regs[b] if r.get_name() == x]
            want = own or [r for c in under(b) for r in w.regs[c] if r.get_name() == x]
            S.check('the register of a name', got is (want[0] if want else None))
            S.check('a warning if there is none', [r[0] for r in S.reports[n0:]] == ([] if want else ['warning']))
        for x in ('m0', 'm1', 'm2', 'm3'):
            n0 = len(S.reports)
            got = b.get_map_by_name(x)
            want = [m for m in w.maps[b] if m.get_name() == x]
            S.check('the map of a name', got is (want[0] if want else None))
            S.check('a warning if there is none', [r[0] for r in S.reports[n0:]] == ([] if want else ['warning']))
    hdl(S, w)
    coverage(S, w, under)
    registers(S, w, under)
    locking(S, w, under)


def roots():
    got = []
    UVMRegBlock('extra') if False else None
    next(iter(UVMRegBlock.m_roots)).get_root_blocks(got)
    return got


def hdl(S, w):
    for q in range(S.int('hdls', 0, 5)):
        b, k, p = S.choice('hb%d' % q, w.blocks), S.choice('hk%d' % q, KINDS), S.choice('hp%d' % q, ['', 'x', 'y.z'])
        if S.int('hroot%d' % q, 0, 3) == 0:
            b.set_hdl_path_root(p, k)
            w.roots[b][k] = p
        else:
            b.add_hdl_path(p, k)
            w.paths[b].setdefault(k, []).append(p)

    def full(b, k, sep):
        """(paths, number of errors)"""
        if k in w.roots[b]:
            return ([w.roots[b][k]] if w.roots[b][k] else []), 0
        if k not in w.paths[b]:
            return [], 1
        up, err = full(w.par[b], k, sep) if w.par[b] is not None else ([], 0)
        out = []
        for p in w.paths[b][k]:
            if not up:
                out += [p] if p else []
            else:
                out += [u + (sep + p if p else '') for u in up]
        return out, err
    for b in w.blocks:
        for k in KINDS:
            S.check('is there a path', bool(b.has_hdl_path(k)) == (k in w.paths[b]))
            S.check('is it a root', bool(b.is_hdl_path_root(k)) == (k in w.roots[b]))
            n0 = len(S.reports)
            sep = S.choice('sep', ['.', '/'])
            got = ['left']
            b.get_full_hdl_path(got, k, sep)
            want, err = full(b, k, sep)
            S.check('the full hardware paths', got == want, (got, want))
            S.check('an error if there is none', [r[0] for r in S.reports[n0:]] == ['error'] * err)


def coverage(S, w, under):
    own = {b: b.has_cover for b in w.blocks}
    on = {}
    items = {b: w.regs[b] + w.mems[b] for b in w.blocks}
    has = {x: x.m_has_cover for b in w.blocks for x in items[b]}
    for q in range(S.int('covs', 0, 3)):
        b, m = S.choice('cb%d' % q, w.blocks), S.int('cm%d' % q, 0, 15)
        got = b.set_coverage(m)
        S.check('the models switched on', got == own[b] & m)
        for c in under(b):
            on[c] = own[c] & m
            for x in items[c]:
                on[x] = has[x] & m
    for x, h in list(own.items()) + list(has.items()):
        for m in (1, 2, 3, 4, 7):
            S.check('is the model there', bool(x.has_coverage(m)) == (h & m == m))
            S.check('is it on', bool(x.get_coverage(m)) == (h & m == m and on.get(x, 0) & m == m))
        S.check('nothing is built which was not included', x.build_coverage(7) == 0)


def registers(S, w, under):
    ops = []
    regs = [r for b in w.blocks for r in w.regs[b]]
    want, need, stat = {}, {}, {}
    for i, r in enumerate(regs):
        fields = []
        r.get_fields(fields)
        r.reset()
        if S.bool('set%d' % i):
            r.set(r.get() ^ (1 << fields[0].get_lsb_pos()))
        need[r] = bool(r.needs_update())
        stat[r] = S.choice('st%d' % i, [UVM_IS_OK, UVM_IS_OK, UVM_IS_OK, UVM_HAS_X, UVM_NOT_OK])

        async def upd(status, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0, r=r):
            ops.append(('update', r, path))
            status.append(stat[r])
            if stat[r] != UVM_NOT_OK:
                need[r] = False
                r.predict(r.get())

        async def mir(status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0, r=r):
            ops.append(('mirror', r, (check, path)))
            status.append(stat[r])

        async def wr(status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0, r=r):
            ops.append(('write', r, (value, path, _map, prior)))
            status.append(stat[r])
        r.update, r.mirror, r.write = upd, mir, wr
    for q in range(S.int('ops', 0, 4)):
        b = S.choice('ob%d' % q, w.blocks)
        op = S.choice('op%d' % q, ['needs', 'update', 'mirror', 'write', 'reset'])
        below = [r for c in under(b) for r in w.regs[c]]
        path = S.choice('path%d' % q, [UVM_FRONTDOOR, UVM_BACKDOOR, UVM_DEFAULT_PATH])
        del ops[:]
        status = []
        n0 = len(S.reports)
        S.check('needs an update', bool(b.needs_update()) == any(need[r] for r in below))
        if op == 'update':
            todo = [r for r in below if need[r]]
            S.run(b.update(status, path))
            S.check('one status', len(status) == 1)
            seen = [r for _, r, _ in ops]
            S.check('only those which need it', all(r in todo for r in seen) and all(o == 'update' and p == path for o, _, p in ops))
            S.check('each once, in order', [r for r in todo if r in seen] == seen)
            S.check('the first which fails in a block ends it', all(r in seen or any(stat[x] == UVM_NOT_OK for x in seen) for r in todo))
            S.check('the status tells', (status[0] == UVM_NOT_OK) == any(stat[r] == UVM_NOT_OK for r in seen))
            S.check('and an error', len([r for r in S.reports[n0:] if r[0] == 'error']) == sum(stat[r] == UVM_NOT_OK for r in seen))
        elif op == 'mirror':
            check = S.choice('ck%d' % q, [UVM_CHECK, UVM_NO_CHECK])
            S.run(b.mirror(status, check, path))
            S.check('every register once', ops == [('mirror', r, (check, path)) for r in below])
            S.check('one status', len(status) == 1)
            S.check('the status tells', (status[0] == UVM_NOT_OK) == any(stat[r] == UVM_NOT_OK for r in below))
        elif op == 'write':
            x = S.choice('x%d' % q, ['x0', 'x1', 'x2', 'x3'])
            r = ([r for r in w.regs[b] if r.get_name() == x] + [r for r in below if r.get_name() == x] + [None])[0]
            S.run(b.write_reg_by_name(status, x, 5, path, None, None, 7))
            S.check('written', ops == ([('write', r, (5, path, None, 7))] if r is not None else []))
            S.check('the status', status == [stat[r] if r is not None else UVM_NOT_OK])
        elif op == 'reset':
            b.reset()
            for r in below:
                need[r] = False
                fields = []
                r.get_fields(fields)
                S.check('reset', r.get() == r.get_mirrored_value() == fields[0].get_reset() << fields[0].get_lsb_pos())
    for i, r in enumerate(regs):
        S.check('needs an update', bool(r.needs_update()) == need[r])


def content(b):
    out = []
    b.get_registers(out, UVM_NO_HIER)
    b.get_memories(out, UVM_NO_HIER)
    b.get_blocks(out, UVM_NO_HIER)
    b.get_maps(out)
    return out


def locking(S, w, under):
    b = S.choice('lb', w.blocks)
    before = content(b)
    n0 = len(S.reports)
    what = S.choice('twice', ['reg', 'mem', 'blk', 'map'])
    own = {'reg': w.regs, 'mem': w.mems, 'blk': w.subs, 'map': w.maps}[what][b]
    if own:
        x = S.choice('twice.x', own)
        {'reg': b.add_reg, 'mem': b.add_mem, 'blk': b.add_block, 'map': b.add_map}[what](x)
        S.check('nothing is added twice', content(b) == before and [r[0] for r in S.reports[n0:]] == ['error'])
    rb = [b for b in w.blocks if w.par[b] is None]
    named = {}
    order = S.choice('lockorder', [rb, rb[::-1]])
    reported = set()
    for r in order:
        n0 = len(S.reports)
        r.lock_model()
        errs = [x for x in S.reports[n0:] if x[0] == 'error']
        same = [x for x in rb if x.get_name() == r.get_name()]
        S.check('equal names of roots are reported', len(errs) == (1 if len(same) > 1 and r.get_name() not in reported else 0))
        reported.add(r.get_name())
        n0 = len(S.reports)
        r.lock_model()
        S.check('locking again changes nothing', len(S.reports) == n0)
        for c in under(r):
            S.check('all of it is locked', c.is_locked())
    before = content(b)
    n0 = len(S.reports)
    late = S.choice('late', ['reg', 'mem', 'blk', 'map', 'newmap'])
    if late == 'reg':
        b.add_reg(UVMReg('late', 8, UVM_NO_COVERAGE))
    elif late == 'mem':
        b.add_mem(UVMMem('late', 8, 8))
    elif late == 'blk':
        b.add_block(UVMRegBlock('late'))
    elif late == 'map':
        b.add_map(object())
    else:
        S.check('no map', b.create_map('late', 0, 4, UVM_LITTLE_ENDIAN) is None)
    S.check('a locked block takes nothing more', content(b) == before and [r[0] for r in S.reports[n0:]] == ['error'])
