"""X01: in-order comparators and pairs."""
from vc.unit import unit, search
from cocotb.triggers import Timer
import cocotb
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_object import UVMObject
from uvm.comps import uvm_in_order_comparator as CM
from uvm.comps.uvm_algorithmic_comparator import UVMAlgorithmicComparator
from uvm.comps.uvm_pair import UVMBuiltInPair, UVMClassPair
from uvm.tlm1.uvm_analysis_port import UVMAnalysisPort, UVMAnalysisImp

PROPERTY = {
 'title': 'A comparator compares two streams in order, counting and publishing each pair',
 'statement': 'Whenever both streams of an in-order comparator have come so far, the next item of the one is compared with the next item of the other, whatever their timing: a match is counted as a match, a difference is counted as a mismatch and reported as one error, and the pair is published once, in order, with the item from the stream "after" first. Nothing is compared twice or with another item, flushing sets the counts to zero, and an algorithmic comparator compares what its transformer makes of the one stream with the other. Pairs are equal exactly if both members are, and a copy of a pair has the members of the original.',
 'over': ['inputs', 'histories', 'schedules'],
 'text': 'any items and results of their comparison, any counts so far; streams of any timing',
 'why': 'the only test compares two items of each stream',
 'files': ['src/uvm/comps/uvm_in_order_comparator.py', 'src/uvm/comps/uvm_algorithmic_comparator.py', 'src/uvm/comps/uvm_pair.py', 'src/uvm/comps/uvm_policies.py'],
 'mech': [['UVMInOrderComparator.run_phase, flush', 'src/uvm/comps/uvm_in_order_comparator.py'], ['UVMAlgorithmicComparator.write', 'src/uvm/comps/uvm_algorithmic_comparator.py'],
          ['UVMBuiltInPair, UVMClassPair', 'src/uvm/comps/uvm_pair.py']],
 'note': 'one round of a comparator is proved from any counts, the FIFOs being their contract (Q01), so that all rounds follow by induction; whole comparators in a hierarchy are a bounded search',
}
PATCH_METHODS = True


class Stop(Exception):
    pass


class Item(UVMObject):
    def __init__(self, name, w=None):
        super().__init__(name)
        self.w, self.seen = w, []

    def compare(self, rhs, comparer=None):
        self.seen.append(rhs)
        return self.w

    def convert2string(self): return 'item'


def take(items, log, tag):
    async def get(t=None):
        log.append(tag)
        if not items:
            raise Stop()
        x = items.pop(0)
        if t is not None:
            t.append(x)
        return x
    return get


def world(S, kind):
    cls = {'plain': CM.UVMInOrderComparator, 'builtin': CM.UVMInOrderBuiltInComparator, 'class': CM.UVMInOrderClassComparator}[kind]
    c = cls('cmp', None)
    c.m_matches, c.m_mismatches = S.int('matches', 0, None), S.int('mismatches', 0, None)
    return c


def make(kind):
    def f(S):
        c = world(S, kind)
        m, n = c.m_matches, c.m_mismatches
        if kind == 'class':
            same = S.bool('same')
            r = S.choice('result', [True, 1]) if same else S.choice('result', [False, 0])
            b, a = Item('b', r), Item('a', r)
        else:
            b, a = S.int('b'), S.int('a')
            same = a == b
        log, out = [], []
        S.stub(c.m_before_fifo, 'get', take([b], log, 'b'))
        S.stub(c.m_after_fifo, 'get', take([a], log, 'a'))
        S.stub(c.pair_ap, 'write', out.append)

        async def go():
            try:
                await c.run_phase(None)
            except Stop:
                pass
        S.simulate(go())
        S.check('one item of each', log[:2] in (['b', 'a'], ['a', 'b']) and len(log) == 3)
        S.check('matches', c.m_matches == m + S.ite(same, 1, 0))
        S.check('mismatches', c.m_mismatches == n + S.ite(same, 0, 1))
        S.check('a mismatch is an error', S.iff(len(S.reports.errors) == 1, S.not_(same)))
        S.check('one at most', len(S.reports.errors) <= 1)
        S.check('one pair', len(out) == 1)
        S.check('of both, after first', S.and_(out[0].first == a, out[0].second == b) if kind != 'class' else out[0].first is a and out[0].second is b)
        if kind == 'class':
            S.check('compared with each other', (b.seen, a.seen) in (([a], []), ([], [b])))
        c.flush()
        S.check('flushed', c.m_matches == 0 and c.m_mismatches == 0)
    f.__name__ = 'round_' + kind
    return f


for _k in ('plain', 'builtin', 'class'):
    unit('UVMInOrderComparator.run_phase', 'UVMInOrderComparator.flush')(make(_k))


@unit('UVMBuiltInPair.do_compare', 'UVMBuiltInPair.do_copy')
def builtin_pair(S):
    x, y = UVMBuiltInPair('p'), UVMBuiltInPair('q')
    a, b, c, d = [S.int(n) for n in 'abcd']
    x.first, x.second, y.first, y.second = a, b, c, d
    S.check('both equal', S.iff(bool(x.do_compare(y, None)), S.and_(a == c, b == d)))
    x.do_copy(y)
    S.check('copied', S.and_(x.first == c, x.second == d, y.first == c, y.second == d))


class Member:
    def __init__(self, S, v): self.S, self.v = S, v
    def compare(self, o, comparer=None): return self.v == o.v
    def copy(self, o): self.v = o.v


@unit('UVMClassPair.do_compare', 'UVMClassPair.do_copy')
def class_pair(S):
    a, b, c, d = [S.int(n) for n in 'abcd']
    x, y = UVMClassPair('p', Member(S, a), Member(S, b)), UVMClassPair('q', Member(S, c), Member(S, d))
    mine = x.first, x.second
    S.check('both equal', S.iff(bool(x.do_compare(y, None)), S.and_(a == c, b == d)))
    x.do_copy(y)
    S.check('copied', S.and_(x.first.v == c, x.second.v == d, y.first.v == c, y.second.v == d))
    S.check('members of its own', x.first is mine[0] and x.second is mine[1])


class Obj(UVMObject):
    def __init__(self, name='', v=0):
        super().__init__(name)
        self.v = v

    def do_compare(self, rhs, comparer): return self.v == rhs.v
    def convert2string(self): return 'v%d' % self.v


class Top(UVMComponent):
    pass


class Trans:
    def transform(self, x): return Obj('t', (x.v + 1) % 3)


@search(runs=800)
def streams(S):
    top = Top('x01', None)
    kind = S.choice('kind', ['builtin', 'class', 'algo'])
    cmp = {'builtin': CM.UVMInOrderBuiltInComparator, 'class': CM.UVMInOrderClassComparator}.get(kind)
    c = UVMAlgorithmicComparator('cmp', top, Trans()) if kind == 'algo' else cmp('cmp', top)
    inner = c.comp if kind == 'algo' else c
    ports = {n: UVMAnalysisPort(n, top) for n in ('before', 'after')}
    for n, p in ports.items():
        p.connect({'before': c.before_export, 'after': c.after_export}[n])
    pairs = []
    sub = Top('sub', top)
    sub.write = pairs.append
    imp = UVMAnalysisImp('imp', sub)
    inner.pair_ap.connect(imp)
    c.connect_phase(None)
    if inner is not c:
        inner.connect_phase(None)
    every = [top]
    for x in every:
        every += list(x.m_children.values())
        if hasattr(x, 'resolve_bindings'):
            x.resolve_bindings()
    given = {}
    for n in ports:
        vals = [S.int('%s.%d' % (n, k), 0, 2) for k in range(S.int('len.' + n, 0, 6))]
        given[n] = vals if kind == 'builtin' else [Obj('%s%d' % (n, k), v) for k, v in enumerate(vals)]
    burst = S.bool('all at once')

    async def send(n):
        for k, v in enumerate(given[n]):
            if not burst:
                await Timer(S.choice('t.%s.%d' % (n, k), [0, 1, 2, 7]), 'NS')
            ports[n].write(v)

    acc = [0, 0]

    async def flusher():
        for k in range(S.choice('flushes', [0, 0, 1, 2])):
            await Timer(S.choice('flush%d' % k, [1, 3, 6]), 'NS')
            acc[0] += inner.m_matches
            acc[1] += inner.m_mismatches
            inner.flush()
            S.check('flushed', (inner.m_matches, inner.m_mismatches) == (0, 0))

    async def main():
        cocotb.start_soon(inner.run_phase(None))
        us = [cocotb.start_soon(send(n)) for n in ports] + [cocotb.start_soon(flusher())]
        for u in us:
            await u.join()
        await Timer(5, 'NS')
    S.simulate(main())
    val = (lambda x: x) if kind == 'builtin' else (lambda x: x.v)
    bef = [val(x) for x in given['before']]
    if kind == 'algo':
        bef = [(v + 1) % 3 for v in bef]
    aft = [val(x) for x in given['after']]
    same = [x == y for x, y in zip(bef, aft)]
    S.check('matches', acc[0] + inner.m_matches == same.count(True))
    S.check('mismatches', acc[1] + inner.m_mismatches == same.count(False))
    S.check('errors', [r[0] for r in S.reports.errors] == ['error'] * same.count(False))
    S.check('pairs', [(val(p.first), val(p.second)) for p in pairs] == list(zip(aft, bef)))
    if kind != 'builtin':
        S.check('the very items', all(p.first is x for p, x in zip(pairs, given['after'])))
    for x, y in zip(pairs, pairs[1:]):
        S.check('pairs compare', bool(x.compare(y)) == (val(x.first) == val(y.first) and val(x.second) == val(y.second)))
    inner.flush()
    S.check('flushed', (inner.m_matches, inner.m_mismatches) == (0, 0))
