"""O01: objections: counts, propagation, drain."""
from vc.unit import unit, search, FatalReport
from cocotb.triggers import Timer
import cocotb
from uvm.base.uvm_component import UVMComponent
from uvm.base import uvm_objection as UO
from uvm.base.uvm_objection import UVMObjection, UVMObjectionContextObject, UVMObjectionCallback
from uvm.base.uvm_object_globals import UVM_RAISED, UVM_DROPPED, UVM_ALL_DROPPED
from uvm.base.uvm_callback import UVMCallbacks

PROPERTY = {
 'title': 'Objections are counted exactly and hold until everything is dropped and drained',
 'statement': 'The objection total of a component is at every moment what it and everything beneath it have raised and not dropped, or not yet drained; every change of it is told once by the raised and dropped callbacks, with who made it, and dropping more than was raised is reported as an error. When the total of a component has been zero for its drain time its all-dropped callbacks run once and only then the drop reaches its parent, so that the total of the top is not zero while anything beneath it objects or drains. An objection raised meanwhile ends the drain without an effect on the totals above.',
 'over': ['inputs', 'schedules', 'histories'],
 'text': 'all counts at every level with every combination of pending drains; interleavings of raises, drops, drains and callbacks',
 'why': 'tests raise once and drop once in each component, hardly with a drain time, and never in the drain',
 'files': ['src/uvm/base/uvm_objection.py'],
 'mech': [['UVMObjection.raise_objection, m_raise, drop_objection, m_drop', 'src/uvm/base/uvm_objection.py'], ['UVMObjection.m_execute_scheduled_forks, m_forked_drain, all_dropped, clear, wait_for', 'src/uvm/base/uvm_objection.py']],
 'note': 'the counts are proved for one raise or drop from any consistent state of a hierarchy of three levels; the drain is a bounded search over interleavings',
}
PATCH_METHODS = True


class Node:
    def __init__(self, name, parent):
        self.name, self.parent, self.log = name, parent, []
    def get_parent(self): return self.parent
    def get_full_name(self): return self.name
    def get_name(self): return self.name
    def raised(self, o, src, d, n): self.log.append(('raised', n))
    def dropped(self, o, src, d, n): self.log.append(('dropped', n))
    def get_type_name(self): return 'node'


def pending(o, x):
    """the contexts which wait to drain x"""
    return ([c for c in UVMObjection.m_scheduled_list if c.obj is x and c.objection is o]
            + [c for c in o.m_forked_list if c.obj is x]
            + ([o.m_forked_contexts[x]] if x in o.m_forked_contexts else []))


class Proc:
    killed = False
    def kill(self): self.killed = True


def pend(S, o, x, kind, count):
    if kind == 'none':
        return
    c = UVMObjectionContextObject()
    c.obj, c.source_obj, c.count, c.objection = x, x, count, o
    if kind == 'scheduled':
        UVMObjection.m_scheduled_list.append(c)
    elif kind == 'forked list':
        o.m_forked_list.append(c)
        o.m_scheduled_contexts[x] = c
    else:
        o.m_forked_contexts[x] = c
        o.m_drain_proc[x] = Proc()


KINDS = ['none', 'scheduled', 'forked list', 'draining']


def variants():
    for op in ('raise', 'drop'):
        for level in (0, 1, 2):
            for mode in ((1, 0) if level == 0 else (1,)):
                yield op, level, mode


def make(op, level, mode):
    def f(S):
        top = Node('', None)
        mid = Node('a', top)
        leaf = Node('a.b', mid)
        chain = [leaf, mid, top]
        if not mode:
            chain = [leaf, top]
        use = chain[level:]
        o = UVMObjection('ob')
        o.m_top, o.m_prop_mode = top, mode
        S.stub(UO, 'uvm_do_callbacks', lambda *a, **k: None)
        o2 = UVMObjection('another')
        for x in use:
            pend(S, o2, x, 'scheduled', 1)
        src, tot, other, pk = {}, {}, {}, {}
        below = None
        for k, x in enumerate(use):
            src[x] = S.int('src%d' % k, 0, None)
            other[x] = S.int('other%d' % k, 0, None)      # what the other components beneath it contribute
            p = S.choice('pend%d' % k, KINDS)
            pc = S.int('pc%d' % k, 1, None) if p != 'none' else 0
            tot[x] = src[x] + other[x] + (tot[below] + pk[below] if below is not None else 0)
            if p != 'none':
                S.require(tot[x] == 0)
            pk[x] = pc
            below = x
            o.m_source_count[x], o.m_total_count[x] = src[x], tot[x]
            pend(S, o, x, p, pc)
        x = use[0]
        n = S.int('n', 0, None)
        if op == 'raise':
            o.raise_objection(x, 'd', n)
        else:
            S.require(n <= src[x])
            o.drop_objection(x, 'd', n)
        d = n if op == 'raise' else -n
        S.check('its own count', o.get_objection_count(x) == src[x] + d)
        S.check('its total', o.get_objection_total(x) == tot[x] + d)
        for y in use:
            S.check('its callbacks tell the change of the total', S.and_(len(y.log) <= 1,
                    o.get_objection_total(y) - tot[y] == sum((k if w == 'raised' else -k) for w, k in y.log)))
        S.check('another objection drains on', [len(pending(o2, y)) for y in use] == [1 for y in use])
        below = None
        for y in use:
            if y is not x:
                S.check('own counts above stay', o.get_objection_count(y) == src[y])
            ps = pending(o, y)
            S.check('one drain at most', len(ps) <= 1)
            t = o.get_objection_total(y)
            want = o.get_objection_count(y) + other[y]
            if below is not None:
                bp = pending(o, below)
                want = want + o.get_objection_total(below) + (bp[0].count if bp else 0)
            S.check('the total is what is raised, or drains, here and beneath', t == want)
            if ps:
                S.check('drains at zero only', S.and_(t == 0, ps[0].count >= 1))
            else:
                S.check('drains when it has come to zero', S.or_(t > 0, tot[y] == 0))
            S.check('killed drains are forgotten', (y in o.m_drain_proc) == (y in o.m_forked_contexts))
            below = y
    f.__name__ = '%s_%s%s' % (op, ['leaf', 'middle', 'top'][level], '' if mode else '_direct')
    f.__qualname__ = f.__name__
    return f


for v in variants():
    unit('UVMObjection.raise_objection' if v[0] == 'raise' else 'UVMObjection.drop_objection', 'UVMObjection.m_raise', 'UVMObjection.m_drop',
         'UVMObjection.m_propagate', limit='three levels of hierarchy')(make(*v))


@unit('UVMObjection.drop_objection', 'UVMObjection.m_drop')
def below_zero(S):
    top = Node('', None)
    o = UVMObjection('ob')
    o.m_top = top
    S.stub(UO, 'uvm_do_callbacks', lambda *a, **k: None)
    src, other, n = S.int('src', 0, None), S.int('other', 0, None), S.int('n', 0, None)
    known = S.choice('known', [0, 1, 2])
    if known == 1:
        o.m_source_count[top], o.m_total_count[top] = src, src + other
    elif known:
        o.m_total_count[top] = other
        S.require(src == 0)
    else:
        S.require(S.and_(src == 0, other == 0))
    bad = n > src
    r = S.raises(FatalReport, lambda: o.drop_objection(top, 'd', n))
    S.check('reported', S.iff(bad, r))
    if r:
        S.check('nothing has changed', S.and_(o.get_objection_count(top) == src, o.get_objection_total(top) == src + other))


class Comp(UVMComponent):
    pass


@search(runs=600, weight=3)
def drain(S):
    """raises and drops in a hierarchy, against the times at which the totals must come to zero"""
    top = Comp('o01', None)
    comps, par = [top], {}
    for k in range(S.int('comps', 1, 4)):
        p = comps[S.int('par%d' % k, 0, len(comps) - 1)]
        comps.append(Comp('c%d' % k, p))
        par[comps[-1]] = p
    o = UVMObjection('ob')
    o.m_top = top
    dt = {}
    for k, x in enumerate(comps):
        if S.bool('dt%d' % k):
            dt[x] = S.int('dtv%d' % k, 1, 6)
            o.set_drain_time(None if x is top else x, dt[x])
    under = {x: [y for y in comps if y is x or x in ups(par, y)] for x in comps}
    src = {x: 0 for x in comps}
    log = {x: [] for x in comps}         # all_dropped
    told, cbs = {}, {}                   # the totals, by what the callbacks tell

    class Cb(UVMObjectionCallback):
        def raised(self, ob, obj, so, d, n):
            who(obj, so, d, True)
            cbs[obj] += n
            S.check('callbacks after the component', cbs[obj] == told[obj])

        def dropped(self, ob, obj, so, d, n):
            who(obj, so, d, False)
            cbs[obj] -= n
            S.check('callbacks after the component', cbs[obj] == told[obj])

        async def all_dropped(self, ob, obj, so, d, n):
            who(obj, so, d, None)
            alld.append(obj)

    doing, droppers = [None], set()

    def who(x, so, d, up):
        """the callbacks bring who has raised, or has dropped what is dropped now"""
        S.check('who raised', up is not True or (so is doing[0] and d == 'up'))
        S.check('who dropped', up is True or (so in under[x] and (so is doing[0] or so in droppers and d == 'down')))
    alld = []
    cb = Cb('cb') if S.bool('callback') else None
    if cb is not None:
        UVMCallbacks.add(o, cb)
    zero = {}                            # when the own total came to zero last
    now = lambda: S.sim.now
    rais = []
    for k, x in enumerate(comps):
        again = S.int('again%d' % k, 0, 2) if S.bool('cb%d' % k) else 0
        slow = S.choice('slow%d' % k, [0, 0, 1, 3])

        async def all_dropped(ob, so, d, n, x=x, st=[again], slow=slow):
            who(x, so, d, None)
            S.check('nothing objects beneath', all(src[y] == 0 for y in under[x]))
            S.check('the total is zero', o.get_objection_total(x) == 0)
            S.check('nothing has been raised for the drain time', not [t for t, y in rais if y in under[x] and now() - t < dt.get(x, 0) * STEP])
            log[x].append(now())
            if slow:
                await Timer(slow)
            if st[0]:
                st[0] -= 1
                cocotb.start_soon(later(x))       # the raise ends this
                up(x, 1)
        x.all_dropped = all_dropped
        told[x] = cbs[x] = 0

        def tell(ob, so, d, n, x=x, sign=1):
            who(x, so, d, sign > 0)
            told[x] += sign * n
            S.check('told after the change', o.get_objection_total(x) == told[x])
        x.raised = tell
        x.dropped = lambda ob, so, d, n, tell=tell: tell(ob, so, d, n, sign=-1)

    def look():
        for x in comps:
            want = sum(src[y] for y in under[x])
            S.check('own count', o.get_objection_count(x) == src[x])
            S.check('at least what is raised beneath', o.get_objection_total(x) >= want)
            if x in par and o.get_objection_total(x) > 0:
                S.check('more above than beneath', o.get_objection_total(par[x]) >= o.get_objection_total(x))

    def up(x, n):
        src[x] += n
        rais.append((now(), x))
        doing[0] = x
        o.raise_objection(None if x is top else x, 'up', n)
        doing[0] = None
        look()

    def down(x, n):
        src[x] -= n
        doing[0] = x
        droppers.add(x)
        o.drop_objection(None if x is top else x, 'down', n)
        doing[0] = None
        look()

    async def later(x):
        await Timer(1)
        down(x, 1)

    async def user(k):
        x = comps[S.int('who%d' % k, 0, len(comps) - 1)]
        held = 0
        for j in range(S.int('ops%d' % k, 1, 4)):
            w = S.choice('t%d_%d' % (k, j), [0, 0, 1, 2, 5])
            if w:
                await Timer(w)
            n = S.int('n%d_%d' % (k, j), 1, 2)
            if held and S.bool('down%d_%d' % (k, j)):
                n = min(n, held)
                held -= n
                down(x, n)
            else:
                held += n
                up(x, n)
        if held:
            await Timer(S.int('last%d' % k, 0, 3) or 1)
            down(x, held)

    async def main():
        cocotb.start_soon(UVMObjection.m_execute_scheduled_forks())
        us = [cocotb.start_soon(user(k)) for k in range(S.int('users', 1, 3))]
        waits = S.bool('wait')
        for u in us:
            await u.join()
        for i in range(300):
            if all(o.get_objection_total(x) == 0 for x in comps) and not any(pending(o, x) for x in comps):
                break
            await Timer(1)
    S.simulate(main())
    look()
    for x in comps:
        S.check('everything is dropped in the end', o.get_objection_total(x) == 0 and not pending(o, x))
    if rais:
        S.check('the top is told in the end', len(log[top]) > 0 and log[top][-1] >= max(t for t, y in rais))
        for x in comps:
            mine = [t for t, y in rais if y in under[x]]
            if mine:
                S.check('told after the last raise', log[x] and log[x][-1] >= max(mine))
            else:
                S.check('not told without an objection', log[x] == [])
    if cb is not None:
        S.check('callbacks are told as well', cbs == told and all(alld.count(x) <= len(log[x]) for x in comps) and (not rais or top in alld))
    S.check('no report', not S.reports.errors and not S.reports.warnings)


STEP = 1


def ups(par, x):
    r = []
    while x in par:
        x = par[x]
        r.append(x)
    return r
