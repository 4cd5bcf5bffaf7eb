"""F01: register field access policies (write/read prediction, set, update, reset)."""
PROPERTY = {
 'title': 'A register field follows its access policy under every write, read and predict',
 'statement': 'For every access policy, field width, current value, written or read value, mapping rights and byte enable, the mirrored and desired values of a field after a set, a predicted write, a predicted read, a direct predict or a reset are exactly those the access policy (restricted by the rights of the map used) prescribes, and always fit the field width. Nothing else about the field changes, and the value put on the bus by an update makes the device reach the desired value whenever one write can.',
 'over': ['inputs', 'configurations', 'histories'],
 'text': 'all 25 access policies and NOACCESS, all widths, all values, all map rights, both byte-enable cases, from any reachable state',
 'why': 'tests sample a few fields and values; the policy table has 26 rows times unbounded widths and values, and the tests hardly touch the read-side-effect and write-once policies',
 'files': ['src/uvm/reg/uvm_reg_field.py'],
 'mech': [['UVMRegField.XpredictX / do_predict / set / XupdateX / get_access', 'src/uvm/reg/uvm_reg_field.py']],
 'note': 'every obligation over symbolic width and values (bit predicates of unbounded width) discharged by z3 on the imported functions; trusts the proxy engine, z3, and a stand-in parent register that only reports its map rights',
}

from vc.unit import unit
import uvm.reg.uvm_reg_field as M
from uvm.reg.uvm_reg_model import (UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_FRONTDOOR,
                                   UVM_BACKDOOR, UVM_PREDICT)

POL = ['RO', 'RW', 'RC', 'RS', 'WRC', 'WRS', 'WC', 'WS', 'WSRC', 'WCRS', 'W1C', 'W1S', 'W1T', 'W0C', 'W0S', 'W0T',
       'W1SRC', 'W1CRS', 'W0SRC', 'W0CRS', 'WO', 'WOC', 'WOS', 'W1', 'WO1']

# published effects (IEEE 1800.2 / UVM class reference), per bit: m = current, v = written
WRITE = {'RO': 'm', 'RW': 'v', 'RC': 'm', 'RS': 'm', 'WRC': 'v', 'WRS': 'v', 'WC': '0', 'WS': '1', 'WSRC': '1', 'WCRS': '0',
         'W1C': 'm&~v', 'W1S': 'm|v', 'W1T': 'm^v', 'W0C': 'm&v', 'W0S': 'm|~v', 'W0T': 'm^~v', 'W1SRC': 'm|v',
         'W1CRS': 'm&~v', 'W0SRC': 'm|~v', 'W0CRS': 'm&v', 'WO': 'v', 'WOC': '0', 'WOS': '1', 'W1': 'once', 'WO1': 'once',
         'NOACCESS': 'm'}
READ = {'RC': '0', 'WRC': '0', 'WSRC': '0', 'W1SRC': '0', 'W0SRC': '0', 'RS': '1', 'WRS': '1', 'WCRS': '1', 'W1CRS': '1',
        'W0CRS': '1', 'WO': 'm', 'WOC': 'm', 'WOS': 'm', 'WO1': 'm', 'NOACCESS': 'm'}     # others: value observed
RO_MAP = {'RO': 'RO RW WC WS W1C W1S W1T W0C W0S W0T W1', 'RC': 'RC WRC W1SRC W0SRC WSRC', 'RS': 'RS WRS W1CRS W0CRS WCRS',
          'NOACCESS': 'WO WOC WOS WO1'}


def effective(pol, rights):
    if rights == 'RO':
        for k, v in RO_MAP.items():
            if pol in v.split():
                return k
    if rights == 'WO':
        return 'WO' if pol in ('RW', 'WO') else 'NOACCESS'
    return pol


def effect(S, e, m, v, w, written):
    """the integer whose bit i is effect e on bit i"""
    def bit(i):
        mb, vb = S.bit(m, i), S.bit(v, i)
        n = S.not_(vb)
        return {'m': lambda: mb, 'v': lambda: vb, '0': lambda: False, '1': lambda: True, 'm&~v': lambda: S.and_(mb, n),
                'm|v': lambda: S.or_(mb, vb), 'm^v': lambda: S.or_(S.and_(mb, n), S.and_(S.not_(mb), vb)),
                'm&v': lambda: S.and_(mb, vb), 'm|~v': lambda: S.or_(mb, n),
                'm^~v': lambda: S.or_(S.and_(mb, vb), S.and_(S.not_(mb), n)),
                'once': lambda: mb if written else vb}[e]()
    return S.bitwise(w, bit)


class Parent:
    def __init__(self, rights='RW'):
        self.rights = rights
        self.busy = False

    def get_rights(self, m=None): return self.rights
    def is_busy(self): return self.busy
    def get_full_name(self): return 'blk.reg'
    def get_name(self): return 'reg'
    def add_field(self, f): pass


class Map:
    def get_full_name(self): return 'map'


def mk(S, rights='RW', pol=None):
    """a field of arbitrary policy, width, mirrored value and write history"""
    pol = pol or S.choice('policy', POL)
    w = S.int('width', 1, None if S.symbolic else 70)
    lsb = S.int('lsb', 0)
    f = M.UVMRegField('f')
    f.rand = lambda *a, **k: None
    p = Parent()
    f.configure(p, w, lsb, pol, False, S.bits('rst', w), True, False, False)
    written = S.choice('written', [False, True])
    if written:
        f.predict(0, kind=UVM_PREDICT_WRITE)
    m = S.bits('mirror', w)
    f.predict(m, kind=UVM_PREDICT_DIRECT)
    p.rights = rights
    return f, p, pol, w, m, written


def state(S, lab, f, m, d=None):
    S.check(lab + ': mirrored value', f.get_mirrored_value() == m)
    S.check(lab + ': desired value', f.get() == (m if d is None else d))


FN = ['UVMRegField.do_predict', 'UVMRegField.predict', 'UVMRegField.XpredictX', 'UVMRegField.get_access', 'UVMRegField.configure']


@unit(*FN)
def predict_write(S):
    """an observed write has the published effect under the rights of the map"""
    rights = S.choice('rights', ['RW', 'RO', 'WO'])
    f, p, pol, w, m, wr = mk(S, rights)
    v = S.bits('v', None)
    path = S.choice('path', [UVM_FRONTDOOR, UVM_PREDICT])
    amap = S.choice('map', [None, Map()])
    ok = f.predict(v, kind=UVM_PREDICT_WRITE, path=path, _map=amap)
    exp = effect(S, WRITE[effective(pol, rights)], m, v, w, wr)
    S.check('write reports success', ok == 1)
    state(S, 'write', f, exp)
    S.check('randomizable value follows', f.value == exp)
    # the history "written since reset" is recorded: a second write of a write-once field is ignored
    v2 = S.bits('v2', None)
    f.predict(v2, kind=UVM_PREDICT_WRITE, path=path, _map=amap)
    state(S, 'second write', f, effect(S, WRITE[effective(pol, rights)], exp, v2, w, True))


@unit(*FN)
def predict_read(S):
    rights = S.choice('rights', ['RW', 'RO', 'WO'])
    f, p, pol, w, m, wr = mk(S, rights)
    v = S.bits('v', None)
    path = S.choice('path', [UVM_FRONTDOOR, UVM_PREDICT])
    ok = f.predict(v, kind=UVM_PREDICT_READ, path=path, _map=S.choice('map', [None, Map()]))
    exp = effect(S, READ.get(effective(pol, rights), 'v'), m, v, w, wr)
    S.check('read reports success', ok == 1)
    state(S, 'read', f, exp)
    # a read does not count as a write
    v2 = S.bits('v2', None)
    f.predict(v2, kind=UVM_PREDICT_WRITE, path=path)
    state(S, 'write after read', f, effect(S, WRITE[effective(pol, rights)], exp, v2, w, wr))


@unit(*FN)
def predict_direct_and_backdoor(S):
    f, p, pol, w, m, wr = mk(S, S.choice('rights', ['RW', 'RO', 'WO']))
    v = S.bits('v', None)
    kind = S.choice('kind', [UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_PREDICT_WRITE])
    f.predict(v, kind=kind, path=UVM_BACKDOOR if kind != UVM_PREDICT_DIRECT else S.choice('path', [UVM_FRONTDOOR, UVM_BACKDOOR, UVM_PREDICT]))
    state(S, 'direct', f, effect(S, 'v', m, v, w, wr))


@unit(*FN)
def predict_disabled_lane(S):
    """a field whose byte lane is disabled keeps its state"""
    f, p, pol, w, m, wr = mk(S)
    f.set(S.bits('d', w))
    d = f.get()
    be = S.bits('be', None) << 1
    f.predict(S.bits('v', None), be=be, kind=S.choice('kind', [UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_PREDICT_WRITE]))
    state(S, 'disabled lane', f, m, d)


@unit('UVMRegField.set', 'UVMRegField.get', 'UVMRegField.needs_update')
def set_desired(S):
    f, p, pol, w, m, wr = mk(S)
    f.set(S.bits('d0', w))
    d0 = f.get()
    v = S.bits('v', None)
    f.set(v)
    exp = effect(S, WRITE[pol], d0, v, w, wr)
    state(S, 'set', f, m, exp)
    S.check('value follows', f.value == exp)
    S.check('needs update iff desired differs', S.iff(bool(f.needs_update()), S.not_(m == exp)))


@unit('UVMRegField.XupdateX', 'UVMRegField.set', 'UVMRegField.needs_update', *FN)
def update_reaches_desired(S):
    """writing the computed update value makes the mirror equal to the desired value"""
    f, p, pol, w, m, wr = mk(S)
    n = S.choice('nsets', [1, 2])
    for i in range(n):
        f.set(S.bits('s%d' % i, w))
    d = f.get()
    if not f.needs_update():
        state(S, 'nothing to update', f, d, d)
        return
    u = f.XupdateX()
    S.check('update value fits the field', S.not_(u >> w))
    f.predict(u, kind=UVM_PREDICT_WRITE)
    state(S, 'after update', f, d, d)


@unit('UVMRegField.reset', 'UVMRegField.set_reset', 'UVMRegField.get_reset', 'UVMRegField.has_reset')
def reset(S):
    f, p, pol, w, m, wr = mk(S)
    r = S.bits('rst', w)
    r2 = S.bits('soft', None)
    f.set_reset(r2, 'SOFT')
    r2m = effect(S, 'v', r2, r2, w, False)
    f.set(S.bits('d', w))
    d = f.get()
    S.check('reset value kept', f.get_reset() == r)
    S.check('second reset value kept', f.get_reset('SOFT') == r2m)
    kind = S.choice('kind', ['HARD', 'SOFT', 'NONE'])
    S.check('has_reset', S.iff(bool(f.has_reset(kind)), kind != 'NONE'))
    f.reset(kind)
    if kind == 'NONE':
        state(S, 'unknown reset', f, m, d)
    else:
        state(S, 'reset', f, r if kind == 'HARD' else r2m)
    m1 = f.get_mirrored_value()
    v = S.bits('v', w)
    f.predict(v, kind=UVM_PREDICT_WRITE)
    state(S, 'write after reset', f, effect(S, WRITE[pol], m1, v, w, wr and kind != 'HARD'))


@unit('UVMRegField.get_access', 'UVMRegField.set_access')
def access_rights(S):
    rights = S.choice('rights', ['RW', 'RO', 'WO'])
    f, p, pol, w, m, wr = mk(S, rights)
    S.check('effective access', f.get_access() == effective(pol, rights))
    pol2 = S.choice('pol2', POL)
    old = f.set_access(pol2)
    S.check('previous policy returned', old == pol)
    S.check('new effective access', f.get_access() == effective(pol2, rights))
