"""M06: the register predictor."""
from vc.unit import unit, search, FatalReport
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object import UVMObject
from uvm.reg.uvm_reg import UVMReg
from uvm.reg.uvm_mem import UVMMem
from uvm.reg.uvm_reg_block import UVMRegBlock
from uvm.reg.uvm_reg_field import UVMRegField
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg import uvm_reg_predictor as PM
from uvm.reg.uvm_reg_predictor import UVMRegPredictor, UVMPredictS
from uvm.reg.uvm_reg_model import (UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN, UVM_NO_COVERAGE, UVM_IS_OK, UVM_NOT_OK, UVM_READ, UVM_WRITE, UVM_PREDICT, UVM_REG,
                                   UVM_PREDICT_READ, UVM_PREDICT_WRITE)

PROPERTY = {
 'title': 'A predictor turns seen bus operations into register predictions, each once',
 'statement': 'A bus operation at an address of a register adds its data at the place of that address to the value of the register; when every address of the register has been seen, in any order and between operations for others, the register is predicted exactly once with the whole value, as a read or write as the first of these operations was, a read is first checked against the mirror if the map says so, and one item with that register, kind, map and value is published. An address seen again before that is reported as an error and what was gathered is dropped. Operations at other addresses, memories included, change nothing, an incomplete register is not predicted but reported in the end, and a predictor without an adapter is a fatal error.',
 'over': ['inputs', 'histories', 'configurations'],
 'text': 'any data, from any words seen so far; sequences of operations for registers of any width, policies, bus width and endianness',
 'why': 'no test makes a predictor see a register of several words',
 'files': ['src/uvm/reg/uvm_reg_predictor.py'],
 'mech': [['UVMRegPredictor.write, check_phase', 'src/uvm/reg/uvm_reg_predictor.py']],
 'note': 'one operation is proved from any words seen before, for registers of up to four bus words, which the register and map are contracts for (M01, R01); whole models with traffic are a bounded search. An error of the bus itself is not part of what the predictor is told',
}
PATCH_METHODS = True


class Tr(UVMObject):
    def __init__(self, kind, addr, data, be=-1):
        super().__init__('tr')
        self.kind, self.addr, self.data, self.be = kind, addr, data, be

    def convert2string(self): return 'tr'


class Adapter:
    def bus2reg(self, tr, rw):
        rw.kind, rw.addr, rw.data, rw.status = tr.kind, tr.addr, tr.data, UVM_IS_OK
        if tr.be != -1:
            rw.byte_en = tr.be


class Info:
    pass


class Blk:
    def __init__(self, log): self.log = log
    def XsampleX(self, off, is_read, m): self.log.append(('blk', off, bool(is_read)))


class Reg:
    """a register of n words: contract"""
    def __init__(self, S, m, log, mir):
        self.S, self.m, self.log, self.mir, self.blk = S, m, log, mir, Blk(log)

    def get_local_map(self, m, caller=''):
        self.S.check('asks for its map', m is self.m)
        return self.m

    def get_full_name(self): return 'blk.r'
    def get_name(self): return 'r'
    def get_parent(self): return self.blk
    def get_mirrored_value(self): return self.mir
    def get(self): return 0

    def do_check(self, exp, act, m):
        self.log.append(('check', exp, act))
        return True

    def XsampleX(self, v, be, is_read, m):
        self.log.append(('sample', v, bool(is_read)))

    def do_predict(self, item, kind, be=-1):
        self.log.append(('predict', item, kind, be, item.value[0]))


class Map:
    def __init__(self, w, addrs, checks):
        self.w, self.checks = w, checks
        self.info = Info()
        self.info.addr, self.info.offset = addrs, 0x40
        self.reg = None

    def get_reg_map_info(self, rg): return self.info
    def get_n_bytes(self): return self.w
    def get_check_on_read(self): return self.checks
    def get_reg_by_offset(self, addr, read=1): 
        if addr not in self.info.addr:
            return None
        return self.reg if bool(read) == self.reading else self.wrong


def make(words):
    def f(S):
        log, out = [], []
        w = S.choice('width', {1: [1, 2, 4, 8], 2: [1, 2, 4], 3: [2, 4], 4: [1]}[words])
        addrs = [0x100 + k * w for k in range(words)]
        if S.bool('big'):
            addrs = addrs[::-1]
        m = Map(w, addrs, S.bool('check on read'))
        m.reg = r = Reg(S, m, log, S.bits('mirror'))
        p = UVMRegPredictor('p', None)
        p.map, p.adapter = m, Adapter()
        S.stub(p.reg_ap, 'write', lambda item: log.append(('publish', item)))
        S.stub(p, 'pre_predict', lambda item: log.append(('pre', item)))
        seen = [S.bool('seen%d' % k) for k in range(words)]
        S.require(not all(seen))
        kind0 = S.choice('kind0', [UVM_READ, UVM_WRITE])
        v0 = 0
        part = [S.bits('part%d' % k, 8 * w) for k in range(words)]
        item = None
        if any(seen):
            item = UVMRegItem('item')
            item.element_kind, item.element, item.path, item.map, item.kind = UVM_REG, r, UVM_PREDICT, m, kind0
            for k in range(words):
                if seen[k]:
                    v0 = v0 | part[k] << (8 * w * k)
            item.value[0] = v0
            pend = UVMPredictS()
            pend.reg_item = item
            pend.addr = {addrs[k]: 1 for k in range(words) if seen[k]}
            p.m_pending[r] = pend
        other = Reg(S, m, log, 0)
        opend = UVMPredictS()
        opend.reg_item = UVMRegItem('other')
        opend.reg_item.value[0] = 5
        p.m_pending[other] = opend
        m.wrong = other                      # the register there in the other direction
        kind, be = S.choice('kind', [UVM_READ, UVM_WRITE]), S.choice('be', [-1, 1] if words < 3 else [-1])
        m.reading = kind == UVM_READ
        at = S.choice('at', list(range(words)) + [None])
        d = S.bits('data', 8 * w)
        p.write(Tr(kind, 0x50 if at is None else addrs[at], d, be))
        errs = S.reports.errors
        S.check('another register is left alone', p.m_pending.exists(other) and p.m_pending[other] is opend and opend.reg_item.value == [5] and opend.addr == {})
        now = list(seen)
        if at is None:
            S.check('not of this register', log == [] and errs == [] and p.m_pending.exists(r) == any(seen))
            if any(seen):
                S.check('what was gathered stays', item.value[0] == v0 and p.m_pending[r].addr == {addrs[k]: 1 for k in range(words) if seen[k]})
            return
        first = kind0 if any(seen) else kind
        if seen[at]:
            S.check('a collision', len(errs) == 1 and not p.m_pending.exists(r))
            S.check('no prediction', log == [])
            return
        now[at] = True
        v = v0 | d << (8 * w * at)
        S.check('no error', errs == [])
        if all(now):
            S.check('done', not p.m_pending.exists(r))
            want = ['pre', 'sample', 'blk', 'predict', 'publish']
            if first == UVM_READ and m.checks:
                want = ['check'] + want
            S.check('each once, in order', [l[0] for l in log] == want)
            got = {l[0]: l for l in log}
            it = got['predict'][1]
            S.check('the whole value', got['predict'][4] == v)
            S.check('published', got['publish'][1] is it and got['pre'][1] is it)
            S.check('the value published', it.value[0] == v)
            S.check('the kind', got['predict'][2] == (UVM_PREDICT_WRITE if first == UVM_WRITE else UVM_PREDICT_READ) and it.kind == first)
            S.check('byte enables', got['predict'][3] == be)
            S.check('the item', it.element is r and it.element_kind == UVM_REG and it.map is m and it.path == UVM_PREDICT)
            S.check('sampled', S.and_(got['sample'][1] == v, got['sample'][2] == (first == UVM_READ)) )
            S.check('sampled by the block', got['blk'][1:] == (0x40, first == UVM_READ))
            if 'check' in got:
                S.check('checked against the mirror', S.and_(got['check'][1] == r.mir, got['check'][2] == v))
        else:
            S.check('not yet', log == [] and p.m_pending.exists(r))
            q = p.m_pending[r]
            S.check('gathered', q.reg_item.value[0] == v)
            S.check('its addresses', sorted(q.addr) == sorted(addrs[k] for k in range(words) if now[k]))
            S.check('its kind', q.reg_item.kind == first)
    f.__name__ = 'words_%d' % words
    return f


for _n in (1, 2, 3, 4):
    unit('UVMRegPredictor.write', limit='registers of %d bus words' % _n)(make(_n))


@unit('UVMRegPredictor.write')
def no_adapter(S):
    p = UVMRegPredictor('p', None)
    p.map = Map(4, [0], False)
    S.check('fatal', S.raises(FatalReport, lambda: p.write(Tr(UVM_READ, 0, 0))))


class Coll(UVMComponent):
    def __init__(self, name, parent):
        super().__init__(name, parent)
        self.got = []

    def write(self, item):
        self.got.append((item.element, item.kind, item.value[0], item.map, list(item.value)))


@search(runs=1500, weight=2)
def traffic(S):
    from props.F01 import WRITE, READ, POL, effect
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp
    S.stub(UVMRegBlock, 'm_roots', {})
    blk = UVMRegBlock('blk')
    blk.configure(None, '')
    bw = S.choice('bus', [1, 2, 4])
    m = blk.create_map('m', 0x1000, bw, S.choice('end', [UVM_LITTLE_ENDIAN, UVM_BIG_ENDIAN]))
    m.set_check_on_read(S.bool('check'))
    regs, fields, at = [], {}, 0
    pair = S.choice('pair', [None, None, ('RO', 'WO'), ('WO', 'RO')])       # the last two registers share their addresses
    n = S.int('regs', 1, 3) + (pair is not None)
    only = {}
    for k in range(n):
        if pair and k == n - 1:
            at -= 16
        bits = S.choice('bits%d' % k, [8, 12, 16, 32, 48])
        r = UVMReg('r%d' % k, bits, UVM_NO_COVERAGE)
        r.configure(blk, None, '')
        cut = S.pick('cut%d' % k, 1, bits)
        fields[r] = []
        for j, (lo, hi) in enumerate([(0, cut), (cut, bits)]):
            f = UVMRegField('f%d' % j)
            f.configure(r, hi - lo, lo, pair[k - n + 2] if pair and k >= n - 2 else S.choice('pol%d%d' % (k, j), POL), False, S.pick('reset%d%d' % (k, j), 0, 1 << (hi - lo)), True, False, False)
            fields[r].append((f, lo, hi - lo))
        if pair and k >= n - 2:
            only[r] = UVM_READ if pair[k - n + 2] == 'RO' else UVM_WRITE
        m.add_reg(r, at, 'RW')
        at += 16
        regs.append(r)
    mem = UVMMem('mem', 4, 8 * bw)
    mem.configure(blk, '')
    m.add_mem(mem, at, 'RW')
    blk.lock_model()
    blk.reset()
    p = UVMRegPredictor('m06', None)
    coll = Coll('coll', p)
    p.reg_ap.connect(UVMAnalysisImp('imp', coll))
    for c in p.m_children.values():
        if hasattr(c, 'resolve_bindings'):
            c.resolve_bindings()
    p.map, p.adapter = m, Adapter()
    words, mir, written, pend, want = {}, {}, {}, {}, []
    for r in regs:
        a = []
        r.get_addresses(m, a)
        words[r] = a
        mir[r] = [f.get_mirrored_value() for f, _, _ in fields[r]]
        written[r] = [False] * len(fields[r])
    nerr = 0
    todo = []
    for q in range(S.int('ops', 1, 12)):
        if todo and S.choice('go on%d' % q, [1, 1, 1, 0]):
            r, kind, k = todo.pop(S.pick('next%d' % q, 0, len(todo)))
        else:
            r = S.choice('reg%d' % q, regs + [None])
            if r is None:
                addr = 0x1000 + (at if S.bool('mem%d' % q) else 0x5000)
                p.write(Tr(S.choice('k%d' % q, [UVM_READ, UVM_WRITE]), addr, 1))
                continue
            kind = S.choice('k%d' % q, [only[r]] if r in only else [UVM_READ, UVM_WRITE])
            ks = list(range(len(words[r])))
            S.shuffle('words%d' % q, ks)
            todo += [(r, kind, k) for k in ks[1:]]
            k = ks[0]
        d = S.pick('d%d' % q, 0, 1 << 8 * bw)
        n0 = len(S.reports.errors)
        p.write(Tr(kind, words[r][k], d))
        exp = 0
        if r not in pend:
            pend[r] = [kind, 0, set()]
        e = pend[r]
        if k in e[2]:
            del pend[r]
            exp = 1
        else:
            e[1] |= d << (8 * bw * k)
            e[2].add(k)
            if len(e[2]) == len(words[r]):
                del pend[r]
                want.append((r, e[0], e[1], m, [e[1]]))
                if e[0] == UVM_READ and m.get_check_on_read():
                    for i, (f, lo, wd) in enumerate(fields[r]):
                        if f.get_access(m)[:2] != 'WO' and e[1] >> lo & ((1 << wd) - 1) != mir[r][i]:
                            exp = 1
                    if e[1] >> r.get_n_bits():
                        exp = 1
                for i, (f, lo, wd) in enumerate(fields[r]):
                    acc, x, old = f.get_access(m), e[1] >> lo & ((1 << wd) - 1), mir[r][i]
                    if e[0] == UVM_WRITE:
                        mir[r][i] = effect(S, WRITE[acc], old, x, wd, written[r][i])
                        written[r][i] = True
                    else:
                        rd = READ.get(acc, 'v')
                        mir[r][i] = {'0': 0, '1': (1 << wd) - 1, 'm': old, 'v': x}[rd]
        S.check('errors', len(S.reports.errors) - n0 == exp)
        for x in regs:
            S.check('the mirror', [f.get_mirrored_value() for f, _, _ in fields[x]] == mir[x])
    S.check('published', coll.got == want)
    n0 = len(S.reports.errors)
    p.check_phase(None)
    S.check('incomplete ones are reported', len(S.reports.errors) - n0 == (1 if pend else 0))
    if pend:
        S.check('by name', all((r.get_full_name() in S.reports.errors[-1][2]) == (r in pend) for r in regs))
