"""V01: the phase graph."""
from vc.unit import unit, FatalReport
from uvm.base.uvm_phase import UVMPhase
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_component import UVMComponent
from uvm.base import uvm_runtime_phases as RP
from uvm.base import uvm_common_phases as CP
from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
from uvm.base.uvm_task_phase import UVMTaskPhase
from uvm.base.uvm_object_globals import (UVM_PHASE_SCHEDULE, UVM_PHASE_NODE, UVM_PHASE_DORMANT)
from uvm.base import uvm_common_phases as CP
from uvm.base import uvm_runtime_phases as RP

PROPERTY = {
 'title': 'A phase takes the place it is given and keeps the order of all the others',
 'statement': 'When a phase or a schedule is added to a schedule, before, after, between or with other phases or at its end, it gets exactly the order which was asked for and the order of the phases which were there stays as it was; phases are found, and their order is told, along every branch of the schedule. A phase has to wait for those phases only which precede the same successors, and the standard phases come in their fixed order, in every domain.',
 'over': ['inputs', 'histories'],
 'text': 'every schedule of some branching phases, every place of it, and phases and schedules which are added there',
 'why': 'tests add phases to a chain, one after the other',
 'files': ['src/uvm/base/uvm_phase.py', 'src/uvm/base/uvm_domain.py'],
 'mech': [['UVMPhase.add, find, find_by_name, is_before, is_after', 'src/uvm/base/uvm_phase.py'], ['UVMPhase.get_adjacent_successor_nodes, get_predecessors_for_successors', 'src/uvm/base/uvm_phase.py'], ['UVMDomain.get_common_domain, get_uvm_domain', 'src/uvm/base/uvm_domain.py']],
 'note': 'decided for every graph of up to three phases: the graph is enumerated, not arbitrary',
}
LEVEL = 'other'
PATCH_METHODS = True


class Fn(UVMBottomupPhase):
    def exec_func(self, comp, phase):
        pass


class Tk(UVMTaskPhase):
    async def exec_task(self, comp, phase):
        pass


def graph(S, top, maxn=4):
    """a schedule which holds any graph of up to maxn phases: relations i < j"""
    s = top('s')
    n = S.choice('n', list(range(maxn + 1)))
    imps = [Fn('p%d' % i) for i in range(n)]
    nodes = []
    for i in imps:
        x = UVMPhase(i.get_name(), UVM_PHASE_NODE, s)
        x.m_imp = i
        nodes.append(x)
    s.m_successors.clear()
    s.m_end_node.m_predecessors.clear()
    E = set()
    for j in range(n):
        for i in range(j):
            if S.choice('e%d_%d' % (i, j), [0, 1]):
                E.add((nodes[i], nodes[j]))
    for x in nodes:
        if not any(b is x for a, b in E):
            E.add((s, x))
        if not any(a is x for a, b in E):
            E.add((x, s.m_end_node))
    if not n:
        E.add((s, s.m_end_node))
    direct = S.choice('direct', list(range(-n, n + 1)))      # one more relation, which follows from the others
    if direct > 0:
        E.add((nodes[direct - 1], s.m_end_node))
    elif direct < 0:
        E.add((s, nodes[-direct - 1]))
    for a, b in sorted(E, key=lambda e: (e[0].get_name(), e[1].get_name()), reverse=bool(S.choice('rev', [0, 1]))):
        a.m_successors[b] = 1
        b.m_predecessors[a] = 1
    return s, nodes, E


def schedule(name):
    return UVMPhase(name, UVM_PHASE_SCHEDULE)


def closure(E):
    r = {}
    for a, b in E:
        r.setdefault(a, set()).add(b)
    new = True
    while new:
        new = False
        for a in r:
            for b in list(r[a]):
                for c in r.get(b, ()):
                    if c not in r[a]:
                        r[a].add(c)
                        new = True
    return {(a, b) for a in r for b in r[a]}


def edges(nodes):
    up = {(x, y) for x in nodes for y in x.m_successors}
    down = {(y, x) for x in nodes for y in x.m_predecessors}
    return up, down


def ordered(S, nodes, want, label):
    up, down = edges(nodes)
    S.check('successors and predecessors agree', up == down)
    S.check(label, closure(up) == closure(want))


WHERE = ['end', 'with', 'before', 'after', 'between']


def inner(S, what, s):
    """what is added: a phase (node), or a schedule with a phase in it"""
    if what == 'phase':
        imp = Tk('new')
        return imp, None
    sub = schedule('sub')
    if what == 'schedule':
        sub.add(Fn('in1'))
        sub.add(Fn('in2'))
    return sub, edges([sub, sub.m_end_node])[0]


def make(where):
    def f(S):
        s, nodes, E = graph(S, S.choice('top', [schedule, lambda n: UVMDomain('d')]), 3)
        imp = s.get_name() == 's'
        UVMDomain.m_domains.pop('d', None)
        kw = {}
        t = u = None
        if where in ('with', 'before', 'after'):
            S.require(len(nodes) > 0)
            t = S.choice('at', nodes)
            kw[where + '_phase'] = t.m_imp if imp else t
        elif where == 'between':
            S.require(len(nodes) > 1)
            i = S.choice('i', list(range(len(nodes) - 1)))
            j = S.choice('j', list(range(i + 1, len(nodes))))
            t, u = nodes[i], nodes[j]
            kw = {'after_phase': t, 'before_phase': u}
        what = S.choice('what', ['phase', 'schedule', 'empty schedule'])
        ph, sub = inner(S, what, s)
        inside = []
        if what == 'phase':
            old = set(edges([s, s.m_end_node] + nodes)[0])
        else:
            seen, todo = [], [ph]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.append(x)
                    todo += list(x.m_successors)
            inside = seen
            sub = edges(inside)[0]
        if where == 'between' and (t, u) not in closure(E):
            r = S.raises(FatalReport, lambda: s.add(ph, **kw))
            S.check('the wrong order is reported', r)
            return
        s.add(ph, **kw)
        all_ = [s, s.m_end_node] + nodes
        if what == 'phase':
            new = [x for x in set(a for e in edges(all_)[0] | edges(all_)[1] for a in e) if x not in all_]
            S.check('one node is added', len(new) == 1)
            b = e = new[0]
            S.check('for that phase', b.m_imp is ph and b.get_phase_type() == UVM_PHASE_NODE and b.get_name() == 'new')
            S.check('which has objections when it takes time', b.get_objection() is not None)
            inside, sub = [b], set()
        else:
            b, e = ph, ph.m_end_node
        S.check('it is part of the schedule', b.get_parent() is s)
        S.check('not executing', b.get_state() == UVM_PHASE_DORMANT)
        W = set(E) | sub
        if where == 'with':
            W |= {(p, b) for p, x in E if x is t} | {(e, y) for x, y in E if x is t}
        elif where == 'after':
            W = {(e, y) if x is t else (x, y) for x, y in E} | sub | {(t, b)}
        elif where == 'between':
            W |= {(t, b), (e, u)}
        else:
            u = t if where == 'before' else s.m_end_node
            W = {(x, b) if y is u else (x, y) for x, y in E} | sub | {(e, u)}
        ordered(S, all_ + inside, W, 'the order is as asked for')
    f.__name__ = f.__qualname__ = 'add_' + where
    return f


for w in WHERE:
    unit('UVMPhase.add', limit='schedules of up to 3 phases')(make(w))


@unit('UVMPhase.add', limit='schedules of up to 2 phases')
def add_with_then_more(S):
    """a phase which runs with another one keeps its own relations later"""
    s, nodes, E = graph(S, schedule, 2)
    S.require(len(nodes) > 0)
    t = S.choice('at', nodes)
    s.add(Tk('new'), with_phase=t)
    b = s.find_by_name('new')
    E = E | {(p, b) for p, x in E if x is t} | {(b, y) for x, y in E if x is t}
    later = S.choice('later', ['after', 'before'])
    u = S.choice('who', [b] + nodes)
    s.add(Fn('more'), **{later + '_phase': u})
    m = s.find_by_name('more')
    if later == 'after':
        W = {(m, y) if x is u else (x, y) for x, y in E} | {(u, m)}
    else:
        W = {(x, m) if y is u else (x, y) for x, y in E} | {(m, u)}
    ordered(S, [s, s.m_end_node, b, m] + nodes, W, 'the order is as asked for')


@unit('UVMPhase.is_before', 'UVMPhase.is_after', 'UVMPhase.find', 'UVMPhase.find_by_name', 'UVMPhase.m_find_successor', 'UVMPhase.m_find_predecessor',
      limit='schedules of up to 3 phases')
def order(S):
    s, nodes, E = graph(S, schedule, 3)
    C = closure(E)
    every = [s, s.m_end_node] + nodes
    for x in every:
        for y in every:
            S.check('is before', bool(x.is_before(y)) == ((x, y) in C))
            S.check('is after', bool(x.is_after(y)) == ((y, x) in C))
            rel = x is y or (x, y) in C or (y, x) in C
            S.check('is found along all branches', (x.find(y) is y) == rel)
            S.check('is found by name', (x.find_by_name(y.get_name()) is y) == rel)
            if y in nodes:
                S.check('is found by its implementation', (x.find(y.m_imp) is y) == rel)
                S.check('is before an implementation', bool(x.is_before(y.m_imp)) == ((x, y) in C))
    S.check('what is not there is not found', s.find(Fn('other')) is None and s.find_by_name('other') is None)


@unit('UVMPhase.get_adjacent_successor_nodes', 'UVMPhase.get_predecessors_for_successors', limit='schedules of up to 3 phases, one of them a schedule')
def siblings(S):
    s, nodes, E = graph(S, schedule, 3)
    if S.choice('sub', [0, 1]):
        S.require(len(nodes) > 0)
        sub, _ = inner(S, S.choice('what', ['schedule', 'empty schedule']), s)
        s.add(sub, with_phase=S.choice('at', nodes))
    seen, todo = [], [s]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.append(x)
            todo += list(x.m_successors)

    def node(x, nxt):
        """the phases which are next to x, through schedules"""
        r, todo = [], list(getattr(x, nxt))
        while todo:
            y = todo.pop()
            if y.get_phase_type() == UVM_PHASE_NODE:
                r.append(y)
            else:
                todo += list(getattr(y, nxt))
        return set(r)
    for x in seen:
        if x.get_phase_type() == UVM_PHASE_NODE:
            su = node(x, 'm_successors')
            S.check('the next phases', set(x.get_adjacent_successor_nodes()) == su)
            got = {}
            x.get_predecessors_for_successors(got)
            want = set()
            for y in su:
                want |= node(y, 'm_predecessors')
            S.check('those which precede the same phases', set(got) == want - {x})


@unit('UVMPhase.get_full_name', 'UVMPhase.get_schedule', 'UVMPhase.get_domain')
def names(S):
    d = UVMDomain(S.choice('d', ['dom', 'x']))
    UVMDomain.m_domains.pop(d.get_name(), None)
    depth = S.choice('depth', [0, 1, 2, 3])
    at, sched = d, []
    for i in range(depth):
        x = schedule('s%d' % i)
        at.add(x)
        sched.append(x)
        at = x
    at.add(Fn('p'))
    p = at.find_by_name('p')
    S.check('its domain', p.get_domain() is d and p.get_domain_name() == d.get_name())
    S.check('its schedule', p.get_schedule() is (sched[-1] if sched else None))
    S.check('its name', p.get_full_name() == '.'.join([d.get_name()] + [x.get_name() for x in sched] + ['p']))


COMMON = ['build', 'connect', 'end_of_elaboration', 'start_of_simulation', 'run', 'extract', 'check', 'report', 'final']
RUN = [a + b for b in ('reset', 'configure', 'main', 'shutdown') for a in ('pre_', '', 'post_')]


@unit('UVMDomain.get_common_domain', 'UVMDomain.get_uvm_domain', 'UVMDomain.add_uvm_phases')
def standard(S):
    d = UVMDomain.get_common_domain()
    own = []
    for k in range(S.int('domains', 0, 2)):
        o = UVMDomain('v01own%d' % k)
        c = UVMComponent('v01c%d' % k, None)
        c.set_domain(o)
        if S.bool('again%d' % k):
            c.set_domain(o)
        own.append(o)
    seen, todo = [], [d]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.append(x)
            todo += list(x.m_successors)
    up, down = edges(seen)
    S.check('successors and predecessors agree', up == down)
    def label(x):
        n = x.get_name()
        return n if n in COMMON else x.get_domain_name() + '.' + n
    C = {(label(a), label(b)) for a, b in closure(up) if a.get_phase_type() == b.get_phase_type() == UVM_PHASE_NODE}
    want, timed_ones = set(), []
    for i, a in enumerate(COMMON):
        for b in COMMON[i + 1:]:
            want.add((a, b))
    for o in ['uvm'] + [o.get_name() for o in own]:
        R = [o + '.' + x for x in RUN]
        timed_ones += R
        for i, a in enumerate(COMMON):
            for b in R:
                if a != 'run':
                    want.add((a, b) if i < COMMON.index('run') else (b, a))
        for i, a in enumerate(R):
            want |= {(a, b) for b in R[i + 1:]}
    S.check('the order of the standard phases', C == want)
    S.check('one node each', sorted(label(x) for x in seen if x.get_phase_type() == UVM_PHASE_NODE) == sorted(COMMON + timed_ones))
    for cls in (RP.UVMPreResetPhase, RP.UVMResetPhase, RP.UVMPostResetPhase, RP.UVMPreConfigurePhase, RP.UVMConfigurePhase, RP.UVMPostConfigurePhase,
                RP.UVMPreMainPhase, RP.UVMMainPhase, RP.UVMPostMainPhase, RP.UVMPreShutdownPhase, RP.UVMShutdownPhase, RP.UVMPostShutdownPhase,
                CP.UVMBuildPhase, CP.UVMConnectPhase, CP.UVMEndOfElaborationPhase, CP.UVMStartofSimulationPhase, CP.UVMRunPhase, CP.UVMExtractPhase,
                CP.UVMCheckPhase, CP.UVMReportPhase, CP.UVMFinalPhase):
        p = cls.get()
        S.check('the phase itself, every time', p is not None and cls.get() is p and isinstance(p, cls))
        for o in [UVMDomain.get_uvm_domain()] + own if p.get_name() in RUN else [d]:
            n = o.find(p, 0) if o is not d else d.find(p)
            S.check('its node in the domain', n is not None and n.get_name() == p.get_name() and n in seen)
            S.check('of this domain', n is not None and (o is d or n.get_domain() is o))
    for x in seen:
        if x.get_phase_type() == UVM_PHASE_NODE:
            timed = x.get_name() in RUN + ['run']
            S.check('phases which take time have objections', (x.get_objection() is not None) == timed)
