"""V02: the execution of phases."""
from vc.unit import unit, search
import cocotb
from cocotb.triggers import Timer
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_phase import UVMPhase
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_topdown_phase import UVMTopdownPhase
from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
from uvm.base.uvm_task_phase import UVMTaskPhase
from uvm.base.uvm_objection import UVMObjection
from uvm.base import uvm_phase as PM
from uvm.base.uvm_object_globals import (UVM_PHASE_SCHEDULE, UVM_PHASE_STARTED, UVM_PHASE_EXECUTING, UVM_PHASE_READY_TO_END,
                                         UVM_PHASE_ENDED, UVM_PHASE_DONE)

PROPERTY = {
 'title': 'Phases run in their order and once, on every component, until nobody objects',
 'statement': 'A phase starts when all the phases before it are done, and is executed once. It calls every component of its domain exactly once, a parent before its children in a top-down phase and after them in a bottom-up phase, whatever the components do in their callbacks. A phase which takes time ends only when all objections to it and to the phases beside it have been dropped, also those which are raised when it is ready to end, and is ready to end only when its drain time has passed without one.',
 'over': ['inputs', 'schedules', 'histories'],
 'text': 'hierarchies with any number of children at each level, graphs of phases, and schedules of objections',
 'why': 'tests run the standard phases, with one objection, on a small testbench',
 'files': ['src/uvm/base/uvm_phase.py', 'src/uvm/base/uvm_topdown_phase.py', 'src/uvm/base/uvm_bottomup_phase.py', 'src/uvm/base/uvm_task_phase.py'],
 'mech': [['UVMTopdownPhase.traverse, UVMBottomupPhase.traverse', 'src/uvm/base/uvm_topdown_phase.py'], ['UVMTaskPhase.m_traverse', 'src/uvm/base/uvm_task_phase.py'], ['UVMPhase.execute_phase, _wait_for_all_dropped, wait_for_state', 'src/uvm/base/uvm_phase.py']],
 'note': 'the traversal is proved for one component with any number of children, each visited by contract; the execution of graphs is a bounded search over schedules',
}
PATCH_METHODS = True
DEBUG = 0


class Comp(UVMComponent):
    pass


class Kid:
    """a child: what happens beneath it is the contract of traverse"""
    name = 'kid'

    def __init__(self, tag):
        self.tag = tag

    def get_name(self):
        return self.name


def mk(e):
    return Kid(e.int('tag'))


STATES = [UVM_PHASE_STARTED, UVM_PHASE_EXECUTING, UVM_PHASE_READY_TO_END, UVM_PHASE_ENDED]


def one(S, base, up, is_task=0):
    calls = []

    class Node(Comp):
        def get_children(self, l):
            for k in self.m_children_ordered:
                l.append(k)

        def phase_started(self, p): calls.append(('started', p))
        def phase_ready_to_end(self, p): calls.append(('ready', p))
        def phase_ended(self, p): calls.append(('ended', p))
    n = Node('v02', None)
    d = UVMDomain('v02d')
    UVMDomain.m_domains.pop('v02d', None)
    where = S.choice('domain', ['common', 'own', 'another'])
    if where == 'another':
        n.m_domain = UVMDomain.get_uvm_domain()
    elif where == 'own':
        n.m_domain = d
    sched = UVMDomain.get_common_domain() if where == 'common' else d
    ph = UVMPhase('v02p', PM.UVM_PHASE_NODE, sched)
    kids = S.list('kids', mk)
    n.m_children_ordered = kids
    if not S.symbolic:
        for i, k in enumerate(kids):
            k.name = 'kid%d' % i
            n.m_children[k.name] = n.m_children_by_handle[k] = k
    seen = S.empty()
    S.root('seen', seen)
    state = S.choice('state', STATES)

    class P(base):
        def traverse(self, comp, phase, st):
            if comp is n:
                super().traverse(comp, phase, st)
            else:
                S.check('the same phase and state', phase is ph and st == state)
                S.check('the parent first' if not up else 'the children first', (len(calls) == 0) == (up or where == 'another'))
                seen.append(comp.tag)

        def exec_func(self, comp, phase):
            calls.append(('exec', phase))
    p = P('v02p')
    other = S.choice('imp', [0, 1]) if state == UVM_PHASE_EXECUTING else 0
    if other:
        class Q(base):
            def exec_func(self, comp, phase):
                calls.append(('other', phase))
        n.set_phase_imp(p, Q('q'), 0)
    S.grows(1, lambda k: kids[k].tag)
    p.traverse(n, ph, state)
    S.check('every child is visited once', S.length(seen) == S.length(kids))
    S.forall('in their order', kids, lambda i, k: seen[i] == k.tag)
    name = {UVM_PHASE_STARTED: 'started', UVM_PHASE_EXECUTING: 'other' if other else 'exec', UVM_PHASE_READY_TO_END: 'ready', UVM_PHASE_ENDED: 'ended'}[state]
    S.check('its own callback once', calls == ([] if where == 'another' else [(name, ph)]))
    if where != 'another' and state != UVM_PHASE_READY_TO_END:
        S.check('its current phase', n.m_current_phase is (None if state == UVM_PHASE_ENDED else ph))


@unit('UVMTopdownPhase.traverse', 'UVMTopdownPhase.execute')
def topdown(S):
    one(S, UVMTopdownPhase, False)


@unit('UVMBottomupPhase.traverse', 'UVMBottomupPhase.execute')
def bottomup(S):
    one(S, UVMBottomupPhase, True)


@unit('UVMTaskPhase.traverse', 'UVMTaskPhase.m_traverse', 'UVMTaskPhase.execute', limit='components with up to three children')
def task(S):
    calls = []

    class Node(Comp):
        def phase_started(self, p): calls.append(('started', self, p))
        def phase_ready_to_end(self, p): calls.append(('ready', self, p))
        def phase_ended(self, p): calls.append(('ended', self, p))
    d = UVMDomain('v02d')
    UVMDomain.m_domains.pop('v02d', None)
    ph = UVMPhase('v02p', PM.UVM_PHASE_NODE, d if S.choice('sched', [0, 1]) else UVMDomain.get_common_domain())
    n = Node('v02t%d' % PM.UVMObject.m_inst_count, None)
    all_ = [n]
    for k in range(S.choice('kids', [0, 1, 2, 3])):
        c = Node('c%d' % k, n)
        all_.append(c)
    if S.choice('deep', [0, 1]) and len(all_) > 1:
        all_.append(Node('deep', all_[1]))
    mine = []
    for i, c in enumerate(all_):
        c.m_domain = d if S.choice('dom%d' % i, [0, 1]) else None
        if c.m_domain is d or ph.get_domain() is not d:
            mine.append(c)
    alive, other = [], []

    class P(UVMTaskPhase):
        async def exec_task(self, comp, phase):
            calls.append(('exec', comp, phase))
            alive.append(comp)
            await Timer(S.choice('takes', [0, 5]) or 1)
            alive.remove(comp)
    p = P('v02p')

    class Q(UVMTaskPhase):
        async def exec_task(self, comp, phase):
            other.append(comp)
    if S.choice('imp', [0, 1]):
        all_[-1].set_phase_imp(p, Q('q'), 0)
    state = S.choice('state', STATES)
    S.simulate(p.traverse(n, ph, state))
    name = {UVM_PHASE_STARTED: 'started', UVM_PHASE_EXECUTING: 'exec', UVM_PHASE_READY_TO_END: 'ready', UVM_PHASE_ENDED: 'ended'}[state]
    for c in all_:
        k = [x for x in calls if x[1] is c]
        repl = state == UVM_PHASE_EXECUTING and p in c.m_phase_imps
        S.check('once each', k == ([(name, c, ph)] if c in mine and not repl else []))
        S.check('or its other implementation', (other == [c] if c in mine else c not in other) if repl else c not in other)
        if c in mine and state in (UVM_PHASE_STARTED, UVM_PHASE_ENDED):
            S.check('its current phase', c.m_current_phase is (ph if state == UVM_PHASE_STARTED else None))


@unit('UVMPhase.wait_for_criterion_for_end_phase', limit='twenty rounds, the limit of the library itself')
def rounds(S):
    """what happens until nobody objects to this phase and those beside it is the contract of the wait"""
    S.long_loops(forks=25)
    root = PM.get_cs().get_root()
    d = UVMDomain('v02d')
    UVMDomain.m_domains.pop('v02d', None)
    log = []

    class P(UVMTaskPhase):
        async def traverse(self, comp, phase, state):
            log.append(('ready', comp is root and phase is ph and state == UVM_PHASE_READY_TO_END and ph.get_state() == state))
    d.add(P('v02r'))
    ph = d.find_by_name('v02r')
    ph.set_state(UVM_PHASE_EXECUTING)
    S.stub(ph.get_objection(), 'get_objection_total', lambda comp=None: total)
    total = S.choice('objections', [0, 1])
    told = []

    async def all_dropped(what, comp=None):
        told.append((what == PM.UVM_ALL_DROPPED, comp is root))

    async def drop():
        k = S.bool('raised%d' % len(log)) if log else 0
        log.append(('dropped', k))
        if k:
            ph.set_state(UVM_PHASE_EXECUTING)
    S.stub(ph.get_objection(), 'wait_for', all_dropped)
    S.stub(ph, 'wait_for_self_and_siblings_to_drop', drop)
    S.simulate(ph.wait_for_criterion_for_end_phase(PM.UVMPhaseStateChange('v02')))
    S.check('its own objections first', told == [(True, True)] * total)
    S.check('all is dropped, then it is ready, in turns', [x for x, y in log] == ['dropped', 'ready'] * ((len(log) - 1) // 2) + ['dropped'] and len(log) > 1)
    S.check('every component is told', all(y for x, y in log if x == 'ready'))
    again = [bool(y) for x, y in log[2:] if x == 'dropped']
    S.check('until nobody objects any more', all(again[:-1]) and (not again[-1] or len(again) == 20))


class Obj:
    def __init__(self, n): self.n = n


@search(runs=300, weight=2)
def beside(S):
    """a phase and those beside it, with objections which come and go"""
    root = PM.get_cs().get_root()
    d = UVMDomain('v02d')
    UVMDomain.m_domains.pop('v02d', None)

    class P(UVMTaskPhase):
        async def exec_task(self, comp, phase): pass
    n = S.int('n', 1, 4)
    for k in range(n):
        d.add(P('p%d' % k), **({'with_phase': d.find_by_name('p0')} if k else {}))
        if k == 0:
            d.add(P('last'))
    ph = [d.find_by_name('p%d' % k) for k in range(n)]
    me = ph[S.int('me', 0, n - 1)]
    UVMObjection.m_scheduled_list.clear()
    for x in ph:
        x.get_objection().m_top = root
        x.set_state(UVM_PHASE_EXECUTING)
    plans = []
    for k in range(n):
        t, hold = 0, []
        for j in range(S.int('ops%d' % k, 0, 3)):
            t += S.choice('w%d_%d' % (k, j), [0, 0, 1, 2])
            u = t + S.choice('h%d_%d' % (k, j), [1, 2, 3, 4])
            hold.append((t, u))
            t = u if S.bool('seq%d_%d' % (k, j)) else t
        plans.append(hold)
    end = []

    async def hold(x, t, u):
        if t:
            await Timer(t)
        if end:
            return
        x.raise_objection(None)
        await Timer(u - t)
        x.drop_objection(None)

    async def main():
        cocotb.start_soon(UVMObjection.m_execute_scheduled_forks())
        for x, p in zip(ph, plans):
            for t, u in p:
                cocotb.start_soon(hold(x, t, u))
        await PM.uvm_zero_delay()
        await me.wait_for_self_and_siblings_to_drop()
        end.append(S.sim.now)
        S.check('nobody objects', [x.get_objection().get_objection_total(root) for x in ph] == [0] * n)
    S.simulate(main())
    if DEBUG: print(plans, ph.index(me), end, [x.get_objection().get_objection_total(root) for x in ph])
    S.check('it ends', len(end) == 1)
    zero = 0
    for t, u in sorted(h for p in plans for h in p):
        if t <= zero:
            zero = max(zero, u)
    S.check('not later than nobody objects', end and end[0] <= zero)
    S.check('no report', not S.reports.errors and not S.reports.warnings)


def tree(S):
    root = UVMDomain.get_common_domain() and PM.get_cs().get_root()
    keep = dict(root.m_children), list(root.m_children_ordered), dict(root.m_children_by_handle)
    root.m_children.clear()
    root.m_children_ordered.clear()
    root.m_children_by_handle.clear()
    comps, par = [], {}
    for k in range(S.int('comps', 1, 4)):
        q = S.int('par%d' % k, -1, len(comps) - 1)
        p = None if q < 0 else comps[q]
        c = Comp('c%d' % k, p)
        comps.append(c)
        par[c] = p

    def undo():
        root.m_children.clear()
        root.m_children.update(keep[0])
        root.m_children_ordered[:] = keep[1]
        root.m_children_by_handle.clear()
        root.m_children_by_handle.update(keep[2])
    return root, comps, par, undo


@search(runs=400, weight=4)
def execution(S):
    root, comps, par, undo = tree(S)
    try:
        run_phases(S, root, comps, par)
    finally:
        undo()


def run_phases(S, root, comps, par):
    log = []                                     # (what, phase name, comp)
    imps = {}

    class Top(UVMTopdownPhase):
        def exec_func(self, c, ph): executed(c, ph)

    class Bottom(UVMBottomupPhase):
        def exec_func(self, c, ph): executed(c, ph)

    class Task(UVMTaskPhase):
        async def exec_task(self, c, ph):
            executed(c, ph)
            plan = plans.get((ph.get_name(), c))
            if plan is None:
                return
            for wait, n, hold in plan:
                if wait:
                    await Timer(wait)
                ph.raise_objection(c, '', n)
                held[ph.get_name()] = held.get(ph.get_name(), 0) + n
                count(ph)
                if hold:
                    await Timer(hold)
                held[ph.get_name()] -= n
                count(ph)
                ph.drop_objection(c, '', n)

    counts = {}

    def count(ph):
        counts.setdefault(ph.get_name(), []).append((S.sim.now, held[ph.get_name()]))

    def executed(c, ph):
        if c not in par:
            return
        for y in pre[ph]:
            S.check('all the phases before are done', y.get_state() == UVM_PHASE_DONE)
        log.append(('exec', ph.get_name(), c))
        if S.given_touch[c]:
            c.get_parent().get_first_child()     # whatever the components do
            root.get_first_child()
            found = []
            root.find_all('*', found)
    S.given_touch = {c: S.bool('touch%d' % i) for i, c in enumerate(comps)}
    d = UVMDomain('v02d')
    UVMDomain.m_domains.pop('v02d', None)
    names = []
    for k in range(S.int('phases', 1, 5)):
        kind = S.choice('kind%d' % k, [Task, Task, Top, Bottom])
        imp = kind('p%d' % k)
        imps[imp.get_name()] = imp
        where = S.choice('where%d' % k, ['end', 'with', 'before', 'after', 'sub'])
        if where == 'end' or not names:
            d.add(imp)
        elif where == 'sub':
            sub = UVMPhase('s%d' % k, UVM_PHASE_SCHEDULE)
            sub.add(imp)
            d.add(sub, with_phase=d.find_by_name(S.choice('at%d' % k, names)))
        else:
            d.add(imp, **{where + '_phase': d.find_by_name(S.choice('at%d' % k, names))})
        names.append(imp.get_name())
    every, todo = [], [d]
    while todo:
        x = todo.pop()
        if x not in every:
            every.append(x)
            todo += list(x.m_successors)
    nodes = [x for x in every if x.get_phase_type() == PM.UVM_PHASE_NODE]
    pre = {x: [y for y in nodes if reach(y, x)] for x in nodes}
    beside = {}
    for x in nodes:
        got = {}
        x.get_predecessors_for_successors(got)
        beside[x] = [x] + list(got)
    plans, held, more = {}, {}, {}
    for x in nodes:
        if isinstance(x.m_imp, Task):
            for i, c in enumerate(comps):
                if S.bool('plan%s%d' % (x.get_name(), i)):
                    n = S.int('n%s%d' % (x.get_name(), i), 1, 2)
                    plans[(x.get_name(), c)] = [(0 if j == 0 else S.choice('w%s%d%d' % (x.get_name(), i, j), [0, 1]), S.int('c%s%d%d' % (x.get_name(), i, j), 1, 2),
                                                 S.choice('h%s%d%d' % (x.get_name(), i, j), [0, 1, 3, 7])) for j in range(n)]
                if S.int('r%s%d' % (x.get_name(), i), 0, 3) == 0:
                    more[(x.get_name(), c)] = [S.choice('m%s%d%d' % (x.get_name(), i, j), [1, 2, 5]) for j in range(S.int('q%s%d' % (x.get_name(), i), 1, 2))]

    drain = {x.get_name(): S.choice('drain%s' % x.get_name(), [0, 0, 2, 4]) for x in nodes if isinstance(x.m_imp, Task)}
    for x in nodes:
        if drain.get(x.get_name()):
            x.get_objection().set_drain_time(root, drain[x.get_name()])

    def ready(c, ph):
        n = ph.get_name()
        if ('ready', n) not in [x[:2] for x in log] and any(p[0][2] for (m, _), p in plans.items() if m == n):
            at = counts[n] + [(S.sim.now, None)]
            S.check('the drain time has passed', any(h == 0 and u - t >= drain[n] for (t, h), (u, _) in zip(at, at[1:])), info={'at': at, 'drain': drain[n]})
        log.append(('ready', ph.get_name(), c))
        m = more.get((ph.get_name(), c))
        if m:
            t = m.pop()
            ph.raise_objection(c)
            held[ph.get_name()] = held.get(ph.get_name(), 0) + 1

            async def later():
                await Timer(t)
                held[ph.get_name()] -= 1
                ph.drop_objection(c)
            cocotb.start_soon(later())

    def ended(c, ph):
        if ph.get_name() in [n for w, n, x in log if w == 'ended']:
            pass
        elif isinstance(ph.m_imp, Task):
            for y in beside[ph]:
                S.check('nobody objects when a phase ends', held.get(y.get_name(), 0) == 0)
                if y.get_objection() is not None:
                    S.check('no objection is left', y.get_objection().get_objection_total(root) == 0)
        log.append(('ended', ph.get_name(), c))
    for c in comps:
        c.phase_ready_to_end = lambda ph, c=c: ready(c, ph)
        c.phase_ended = lambda ph, c=c: ended(c, ph)
    S.stub(UVMDomain, 'get_common_domain', classmethod(lambda cls: d))
    UVMObjection.m_scheduled_list.clear()
    root.m_phase_all_done_event.clear()

    async def main():
        UVMPhase.m_phase_hopper = PM.UVMMailbox()
        cocotb.start_soon(UVMObjection.m_execute_scheduled_forks())
        cocotb.start_soon(UVMPhase.m_run_phases())
        for i in range(400):
            await Timer(1)
            if all(x.get_state() == UVM_PHASE_DONE for x in every):
                break
        await Timer(1)
    S.simulate(main())
    if DEBUG:
        for x in every: print(x.get_name(), x.get_state(), x.get_phase_type(), [y.get_name() for y in x.m_predecessors], [y.get_name() for y in beside.get(x,[])])
    S.check('all phases are done in the end', all(x.get_state() == UVM_PHASE_DONE for x in every))
    for x in nodes:
        seq = [c for w, n, c in log if w == 'exec' and n == x.get_name()]
        S.check('every component is executed once', sorted(seq, key=comps.index) == comps)
        S.check('once', x.get_run_count() == 1)
        for c in comps:
            if par[c] is not None and par[c] in seq and c in seq and not isinstance(x.m_imp, Task):
                S.check('parents before, or after, their children', (seq.index(par[c]) < seq.index(c)) == isinstance(x.m_imp, Top))
        e = [c for w, n, c in log if w == 'ended' and n == x.get_name()]
        if isinstance(x.m_imp, Task):
            S.check('every component is told that the phase is ready to end', {c for w, n, c in log if w == 'ready' and n == x.get_name()} == set(comps))
            S.check('and again after each objection to that', not [k for k, v in more.items() if v])
        S.check('every component is told its end once', sorted(e, key=comps.index) == comps)
    S.check('no report', not S.reports.errors and not S.reports.warnings)


def reach(a, b):
    todo, seen = list(a.m_successors), set()
    while todo:
        x = todo.pop()
        if x is b:
            return True
        if x not in seen:
            seen.add(x)
            todo += list(x.m_successors)
    return False
