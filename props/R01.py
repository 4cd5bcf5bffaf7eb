"""R01: a register is exactly the composition of its fields."""
PROPERTY = {
 'title': 'A register is exactly the composition of its fields',
 'statement': 'For any number of fields at any positions, setting, resetting, predicting and updating a register acts on each field with exactly the bits (and byte enable) at its position, and reading back the desired, mirrored or update value yields exactly the fields put together. Fields are kept in position order and overlaps are reported. A mirror check reports exactly the differences in bits that are not excluded by a compare-off or write-only field.',
 'over': ['inputs', 'configurations'],
 'text': 'any number of fields (induction over the field list), any positions and widths, any values',
 'why': 'tests use a handful of fixed layouts with small values',
 'files': ['src/uvm/reg/uvm_reg.py'],
 'mech': [['UVMReg.set/get/get_mirrored_value/reset/set_reset/do_predict/update/needs_update', 'src/uvm/reg/uvm_reg.py'], ['UVMReg.add_field, do_check', 'src/uvm/reg/uvm_reg.py']],
 'note': 'loops over the fields are cut with inferred invariants (unbounded); mirror checking and field insertion are enumerated for at most 2 and 4 fields (bounded stand-ins, not counted as proved); field operations enter by contract, discharged under F01',
}

from vc.unit import unit, search
import uvm.reg.uvm_reg as M
from uvm.reg.uvm_reg_item import UVMRegItem
from uvm.reg.uvm_reg_model import (UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_FRONTDOOR, UVM_IS_OK, UVM_NOT_OK)

TRUSTED = ['field contract (discharged by F01): set(v) stores v modulo 2^width, do_predict acts on the value it is handed and on bit 0 of its byte enable']
LIM = 1 << 50


class FieldC:
    """contract of a field as its register sees it"""
    def get_lsb_pos(self): return self.lsb
    def get_n_bits(self): return self.size
    def get_name(self): return 'f'
    def get(self, *a): return self.desired
    def get_mirrored_value(self, *a): return self.mirrored
    def set(self, v, *a): self.desired = v & ((1 << self.size) - 1)
    def set_reset(self, v, kind='HARD'): self.rst, self.rkind = v & ((1 << self.size) - 1), kind
    def reset(self, kind='HARD'): self.was_reset = kind
    def needs_update(self): return self.upd
    def XupdateX(self): return self.updval
    def get_access(self, m=None): return 'RW'
    def get_compare(self): return 0 if self.nocheck else 1

    def do_predict(self, rw, kind=0, be=-1):
        self.pred = rw.value[0] & ((1 << self.size) - 1)
        self.pkind = kind
        self.pbe = (be & 1) == 1


def make(e):
    o = FieldC()
    o.lsb = e.int('lsb', 0, LIM, cap=200)
    o.size = e.int('size', 1, cap=70)
    o.desired = e.bits('desired', o.size)
    o.mirrored = e.bits('mirrored', o.size)
    o.updval = e.bits('updval', o.size)
    o.upd = e.bool('upd')
    o.nocheck = e.bool('nocheck')
    return o


def mkreg(S, n_bits=None):
    """a register with any number of fields anywhere"""
    r = M.UVMReg('r', 64, 0)
    r._vc_root = True
    L = S.list('f', make)
    if S.symbolic:
        r.m_fields = L
    else:
        S.stub(M, 'uvm_report_error', lambda *a, **k: None)
        for f in L:
            r.add_field(f)
        fs = []
        r.get_fields(fs)
        S.check('every added field is there once', sorted(map(id, fs)) == sorted(map(id, L)))
        S.check('fields are ordered by position', all(a.lsb <= b.lsb for a, b in zip(fs, fs[1:])))
    return r, L


def sl(S, v, f):
    return S.bitwise(f.size, lambda i: S.bit(v, i + f.lsb))


@unit('UVMReg.set')
def reg_set(S):
    r, L = mkreg(S)
    v = S.bits('v', None)

    def post(o): o.desired = sl(S, v, o)
    if S.symbolic and hasattr(L, 'base'):
        L.base.post = post
    r.set(v)
    S.forall('each field gets its own bits', L, lambda i, f: f.desired == sl(S, v, f))


@unit('UVMReg.get', 'UVMReg.get_mirrored_value')
def reg_get(S):
    r, L = mkreg(S)
    exp = S.fold_or(L, lambda f: f.desired << f.lsb)
    S.check('desired value is the concatenation', r.get() == exp)
    exp = S.fold_or(L, lambda f: f.mirrored << f.lsb)
    S.check('mirrored value is the concatenation', r.get_mirrored_value() == exp)


@unit('UVMReg.needs_update')
def reg_needs_update(S):
    r, L = mkreg(S)
    S.scan(L, lambda f: f.upd)
    S.check('needs update iff some field does', S.iff(bool(r.needs_update()), S.exists(L, lambda f: f.upd)))


@unit('UVMReg.reset', 'UVMReg.set_reset')
def reg_reset(S):
    r, L = mkreg(S)
    kind = S.choice('kind', ['HARD', 'SOFT'])

    def post(o): o.was_reset = kind
    if S.symbolic and hasattr(L, 'base'):
        L.base.post = post
    r.reset(kind)
    S.forall('every field is reset with that kind', L, lambda i, f: f.was_reset == kind)


@unit('UVMReg.set_reset')
def reg_set_reset(S):
    r, L = mkreg(S)
    v = S.bits('v', None)

    def post(o): o.rst, o.rkind = sl(S, v, o), 'SOFT'
    if S.symbolic and hasattr(L, 'base'):
        L.base.post = post
    r.set_reset(v, 'SOFT')
    S.forall('each field gets its own reset bits', L, lambda i, f: S.and_(f.rst == sl(S, v, f), f.rkind == 'SOFT'))


@unit('UVMReg.predict', 'UVMReg.do_predict')
def reg_predict(S):
    r, L = mkreg(S)
    v = S.bits('v', None)
    be = S.bits('be', None)
    kind = S.choice('kind', [UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_PREDICT_WRITE])

    def post(o):
        o.pred, o.pkind, o.pbe = sl(S, v, o), kind, S.bit(be, o.lsb // 8)
    if S.symbolic and hasattr(L, 'base'):
        L.base.post = post
    rw = UVMRegItem('rw')
    rw.value[0] = v
    rw.status = UVM_IS_OK
    S.root('rw', rw)
    r.do_predict(rw, kind, be)
    S.forall('each field is predicted with its own bits', L,
             lambda i, f: S.and_(f.pred == sl(S, v, f), f.pkind == kind, S.iff(f.pbe, S.bit(be, f.lsb // 8))))
    S.check('the transaction keeps its value', rw.value[0] == v)
    S.check('status ok', rw.status == UVM_IS_OK)


@unit('UVMReg.update')
def reg_update(S):
    r, L = mkreg(S)
    S.scan(L, lambda f: f.upd)
    calls = []

    async def write(status, value, *a, **k):
        calls.append(value)
        status.append(0)
    r.write = write
    need = S.exists(L, lambda f: f.upd)
    exp = S.fold_or(L, lambda f: f.updval << f.lsb)
    S.run(r.update([]))
    S.check('bus write iff some field needs it', S.iff(len(calls) == 1, need))
    if calls:
        S.check('the update values are concatenated', calls[0] == exp)


ACC = ['RO', 'RW', 'RC', 'RS', 'WRC', 'WRS', 'WC', 'WS', 'WSRC', 'WCRS', 'W1C', 'W1S', 'W1T', 'W0C', 'W0S', 'W0T', 'W1SRC', 'W1CRS',
       'W0SRC', 'W0CRS', 'WO', 'WOC', 'WOS', 'W1', 'WO1']


class FieldA(FieldC):
    def get_access(self, m=None): return self.acc


def make_acc(e):
    o = FieldA()
    o.lsb = e.int('lsb', 0, LIM, cap=200)
    o.size = e.int('size', 1, cap=70)
    o.acc = e.choice('acc', ['RW', 'WO', 'WOC', 'W1C'])
    o.nocheck = e.bool('nocheck')
    return o


@unit('UVMReg.do_check', bound=2)
def reg_do_check(S):
    """mirror checking reports exactly a difference in a comparable, readable field (or outside every field)"""
    r = M.UVMReg('r', 64, 0)
    L = S.list('f', make_acc, maxn=2)
    S.stub(M, 'uvm_report_error', lambda *a, **k: None)
    for f in L:
        r.add_field(f)
    exp, act = S.bits('exp', None), S.bits('act', None)
    i = S.int('bit', 0, LIM, cap=250)
    ok = r.do_check(exp, act, None)
    cov = S.or_(*[S.and_(f.lsb <= i, i < f.lsb + f.size, S.or_(f.nocheck, f.acc[0:2] == 'WO')) for f in L]) if L else False
    S.check('a difference in a comparable bit is reported', S.implies(ok, S.or_(cov, S.iff(S.bit(exp, i), S.bit(act, i)))))
    d = S.bits('d', None)
    m = 0
    for f in L:
        if f.acc[0:2] == 'WO' or S.fork(f.nocheck):
            m = m | (((1 << f.size) - 1) << f.lsb)
    S.check('differences only in excluded fields are not reported', r.do_check(exp, exp ^ (d & m), None))
    if not ok:
        S.check('a mismatch is an error', len(S.reports.errors) >= 1)


@unit('UVMReg.add_field', bound=4)
def reg_add_field(S):
    """fields added in any order end up ordered, each once; a field overlapping its neighbour or exceeding the register is an error"""
    n_bits = S.int('n_bits', 1, 1 << 40, cap=64)
    r = M.UVMReg('r', n_bits, 0)
    L = S.list('f', make, maxn=4)
    for f in L:
        S.require(f.lsb + f.size <= n_bits)
    for f in L:
        r.add_field(f)
    fs = []
    r.get_fields(fs)
    S.check('every added field is there once', len(fs) == len(L) and sorted(map(id, fs)) == sorted(map(id, L)))
    for a, b in zip(fs, fs[1:]):
        S.check('fields are ordered by position', a.lsb <= b.lsb)
    over = [S.and_(a.lsb < b.lsb + b.size, b.lsb < a.lsb + a.size) for i, a in enumerate(L) for b in L[:i]]
    over = S.or_(*over) if over else False
    if S.fork(over):
        S.check('an overlap is reported', len(S.reports.errors) > 0)
    else:
        S.check('disjoint fields are accepted', len(S.reports) == 0)
