"""G01: settings from the command line."""
import fnmatch
from vc.unit import unit, search
import cocotb
from cocotb.triggers import Timer
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_root import UVMRoot
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_phase import UVMPhase
from uvm.base.uvm_topdown_phase import UVMTopdownPhase
from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
from uvm.base.uvm_task_phase import UVMTaskPhase
from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
from uvm.base.uvm_config_db import UVMConfigDb
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_report_server import UVMReportServer
from uvm.base.uvm_factory import UVMDefaultFactory
from uvm.base.uvm_object_globals import (UVM_PHASE_NODE, UVM_PHASE_STARTED, UVM_PHASE_EXECUTING, UVM_INFO, UVM_WARNING, UVM_ERROR, UVM_FATAL, UVM_NONE, UVM_LOW, UVM_MEDIUM, UVM_HIGH,
                                         UVM_FULL, UVM_DEBUG, UVM_NO_ACTION, UVM_DISPLAY, UVM_LOG, UVM_COUNT, UVM_EXIT, UVM_CALL_HOOK, UVM_STOP)

PROPERTY = {
 'title': 'Command-line settings reach exactly the components, reports and times they name',
 'statement': 'Every argument is found by its prefix, in order, with the rest of it as its value. Verbosity, action, severity, configuration, type-override, timeout and quit-count arguments have the effect of the corresponding call, made on exactly the components whose path they match, for the id and severity they name, when these are built, when the named phase starts or at the given time; of several settings for the same thing the last one wins, except for global ones, whose first value is used. A malformed argument is reported and changes nothing.',
 'over': ['inputs', 'histories'],
 'text': 'command lines with any number and mix of well-formed and malformed arguments, and component hierarchies',
 'why': 'tests parse two or three well-formed arguments and never observe a component which was built, phased or timed under them',
 'files': ['src/uvm/base/uvm_cmdline_processor.py', 'src/uvm/base/uvm_root.py', 'src/uvm/base/uvm_component.py', 'src/uvm/base/uvm_globals.py'],
 'mech': [['UVMCmdlineProcessor.get_arg_value, get_arg_values, get_arg_matches', 'src/uvm/base/uvm_cmdline_processor.py'],
          ['UVMComponent.m_set_cl_verb, m_set_cl_action, m_set_cl_sev, m_apply_verbosity_settings', 'src/uvm/base/uvm_component.py'],
          ['UVMRoot.build_phase, m_do_*_settings, m_check_verbosity', 'src/uvm/base/uvm_root.py']],
 'note': 'the effect on one component is proved for command lines of any length over a set of arguments; hierarchies, phases and times are bounded searches. Instance overrides and default sequences on the command line are not implemented in this port; regular expressions in get_arg_matches and globs which match a part of a path but not all of it are not covered',
}
PATCH_METHODS = True
LEVEL = 'other'
DEBUG = 0
VERB = {'NONE': UVM_NONE, 'LOW': UVM_LOW, 'MEDIUM': UVM_MEDIUM, 'HIGH': UVM_HIGH, 'FULL': UVM_FULL, 'DEBUG': UVM_DEBUG}
VERBS = dict(VERB, **{'UVM_' + k: v for k, v in VERB.items()})
SEVS = {'UVM_INFO': UVM_INFO, 'UVM_WARNING': UVM_WARNING, 'UVM_ERROR': UVM_ERROR, 'UVM_FATAL': UVM_FATAL}
ACTS = {'UVM_NO_ACTION': UVM_NO_ACTION, 'UVM_DISPLAY': UVM_DISPLAY, 'UVM_LOG': UVM_LOG, 'UVM_COUNT': UVM_COUNT, 'UVM_EXIT': UVM_EXIT,
        'UVM_CALL_HOOK': UVM_CALL_HOOK, 'UVM_STOP': UVM_STOP}


class Comp(UVMComponent):
    pass


def cmdline(args):
    """the arguments of the simulation"""
    clp = UVMCmdlineProcessor.get_inst()
    for q in (clp.m_argv, clp.m_plus_argv, clp.m_uvm_argv):
        q.clear()
    clp.extract_args(args)
    for k, v in list(vars(UVMComponent).items()):      # the settings are read once: forget what was read before
        if isinstance(v, list):
            setattr(UVMComponent, k, [])
        elif k.startswith(('initialized', 'first')):
            setattr(UVMComponent, k, 1 if k.startswith('first') else 0)
    return clp


def the_root():
    UVMDomain.get_common_domain()
    return UVMCoreService.get().get_root()


class Alone:
    """the root without other components"""
    def __enter__(self):
        root = self.root = the_root()
        self.keep = dict(root.m_children), list(root.m_children_ordered), dict(root.m_children_by_handle)
        root.m_children.clear()
        root.m_children_ordered.clear()
        root.m_children_by_handle.clear()
        return root

    def __exit__(self, *a):
        root = self.root
        root.m_children.clear()
        root.m_children.update(self.keep[0])
        root.m_children_ordered[:] = self.keep[1]
        root.m_children_by_handle.clear()
        root.m_children_by_handle.update(self.keep[2])


# -------------------------------------------------------------------- arguments
WORDS = ['', '+', '-', '+a', '+ab', '+abc', '-ab', 'ab', '+ab=1', '+ab=', '+uvm_x', '+UVM_X=2', '-uvm_y', '-Uvm', 'uvm', '+uv', '+ab=1,2', '+abcab', ' +ab']
KEYS = ['+ab', '+ab=', '+a', '+', '-', '-uvm', '+UVM_X=', 'ab', '+none=', '+abc', '', '+ab=1,2,3']


@search(runs=3000)
def arguments(S):
    args = [S.choice('w%d' % i, WORDS) for i in range(S.int('n', 0, 8))]
    clp = cmdline(list(args))
    args = [a for a in args if a]
    S.check('all arguments', list(clp.get_args()) == args)
    S.check('plus arguments', list(clp.get_plusargs()) == [a for a in args if a[0] == '+'])
    S.check('uvm arguments', list(clp.get_uvm_args()) == [a for a in args if a[0] in '+-' and a[1:4].upper() == 'UVM'])
    key = S.choice('key', KEYS)
    want = [a for a in args if a.startswith(key)]
    got = ['old']
    n = clp.get_arg_matches(key, got)
    S.check('arguments of a prefix', list(got) == want and n == len(want))
    got = ['old']
    n = clp.get_arg_values(key, got)
    S.check('all values', list(got) == [a[len(key):] for a in want] and n == len(want))
    got = []
    n = clp.get_arg_value(key, got)
    S.check('the first value', list(got) == [a[len(key):] for a in want[:1]] and n == len(want))


# -------------------------------------------------------------------- one component
VPOOL = ['*,_ALL_,UVM_HIGH,build', 'other,_ALL_,UVM_FULL,build', 'g01,_ALL_,DEBUG,', 'g01,X,LOW,build', '*,_ALL_,SOME,build', '*,_ALL_,UVM_HIGH', '*,_ALL_,UVM_NONE,run,10']
VLEVEL = {0: ('level', UVM_HIGH), 2: ('level', UVM_DEBUG), 3: ('id', UVM_LOW)}
APOOL = ['*,_ALL_,UVM_INFO,UVM_DISPLAY|UVM_COUNT', 'g01,_ALL_,_ALL_,UVM_LOG', 'other,_ALL_,_ALL_,UVM_EXIT', '*,X,_ALL_,UVM_STOP', '*,X,UVM_INFO,UVM_NO_ACTION', '*,_ALL_,UVM_INFO,WHAT', 'a,b']
SPOOL = ['*,_ALL_,UVM_INFO,UVM_ERROR', 'g01,_ALL_,_ALL_,UVM_WARNING', 'other,_ALL_,_ALL_,UVM_FATAL', '*,X,_ALL_,UVM_FATAL', '*,X,UVM_INFO,UVM_INFO', '*,_ALL_,UVM_WHAT,UVM_INFO', 'a,b']


class Recorder(Comp):
    """the component as its report settings: what each setter changes is the contract H01 proves"""
    def set_report_verbosity_level(self, v): self.level = v

    def set_report_id_verbosity(self, i, v): self.idlevel = v

    def set_report_severity_action(self, s, a):
        if s == UVM_INFO: self.info = a
        if s == UVM_FATAL: self.fatal = a

    def set_report_id_action(self, i, a): self.ida = a

    def set_report_severity_id_action(self, s, i, a):
        if s == UVM_INFO: self.infoid = a

    def set_report_severity_override(self, s, n):
        if s == UVM_INFO: self.info = n
        if s == UVM_FATAL: self.fatal = n

    def set_report_severity_id_override(self, s, i, n):
        if s == UVM_INFO: self.infoid = n
        if s == UVM_FATAL: self.fatalid = n


def nth(pool, i):
    """pool[i] of an index"""
    for k in range(len(pool) - 1):
        if i == k:
            return pool[k]
    return pool[-1]


def last(S, L, vals, init):
    """the value of the last argument which sets this, else init"""
    def step(i, acc):
        for k, v in vals.items():
            acc = S.ite(i == k, v, acc)
        return acc
    return S.fold(L, step, init)


def one(S, which, pool, effects, fields, maxn=None):
    """build one component under a command line of any length"""
    L = S.list('args', lambda e: e.int('which', 0, len(pool) - 1), maxn=maxn)
    strs = S.mapped(L, lambda i: nth(pool, i))
    clp = cmdline([])
    clp.m_argv = S.mapped(strs, lambda s: which + s)
    S.root('clp', clp)
    S.grows(1, lambda j: strs[j])
    class Mine(Recorder):
        def __init__(self, name, parent):
            for f in fields:
                setattr(self, f, -7)
            super().__init__(name, parent)
    with Alone() as root:
        init = lambda f: root.get_report_verbosity_level() if f == 'level' else -7
        want = {f: last(S, L, effects(f), init(f)) for f in fields}
        if maxn is None:
            S.lists()
        c = Mine('g01', None)
    for f in fields:
        S.check('the last setting which matches: ' + f, getattr(c, f) == want[f], (getattr(c, f), want[f]))


@unit('UVMComponent.m_set_cl_verb')
def verbosities(S):
    def effects(f):
        return {k: v for k, (g, v) in VLEVEL.items() if g == {'level': 'level', 'idlevel': 'id'}[f]}
    one(S, '+uvm_set_verbosity=', VPOOL, effects, ['level', 'idlevel'])


@unit('UVMComponent.m_set_cl_action', 'uvm_string_to_action', 'uvm_string_to_severity', limit='command lines of at most 3 such arguments')
def actions(S):
    def effects(f):
        return {'info': {0: UVM_DISPLAY | UVM_COUNT, 1: UVM_LOG}, 'fatal': {1: UVM_LOG}, 'ida': {3: UVM_STOP}, 'infoid': {4: UVM_NO_ACTION}}[f]
    one(S, '+uvm_set_action=', APOOL, effects, ['info', 'fatal', 'ida', 'infoid'], maxn=3)


@unit('UVMComponent.m_set_cl_sev', 'uvm_string_to_severity', limit='command lines of at most 3 such arguments')
def severities(S):
    def effects(f):
        return {'info': {0: UVM_ERROR, 1: UVM_WARNING}, 'fatal': {1: UVM_WARNING}, 'infoid': {3: UVM_FATAL, 4: UVM_INFO}, 'fatalid': {3: UVM_FATAL}}[f]
    one(S, '+uvm_set_severity=', SPOOL, effects, ['info', 'fatal', 'infoid', 'fatalid'], maxn=3)


# -------------------------------------------------------------------- hierarchies, phases and times
def agree(pat, names):
    """the pattern matches all of a name or nothing of it: how much of a path must match is not asked here"""
    return all(fnmatch.fnmatchcase(n, pat) == fnmatch.fnmatchcase(n, '*' + pat + '*') for n in names)


def tree(S, root):
    """the plan of a hierarchy: names, and parents by index"""
    full, plan = [], []
    for k in range(S.int('comps', 1, 5)):
        q = S.int('par%d' % k, -1, k - 1)
        plan.append(q)
        full.append((full[q] + '.' if q >= 0 else '') + 'abcde'[k] + 'xyxyx'[k])
    return plan, full


def pattern(S, tag, full):
    p = S.choice(tag, ['*', '*y', '*x', '?x', 'ax.*', '*.cx', 'nobody'] + full)
    return p if agree(p, full) else '*'


def build(plan, full, made):
    comps = []
    for q, f in zip(plan, full):
        made(f, 'before')
        comps.append(Comp(f.split('.')[-1], comps[q] if q >= 0 else None))
        made(f, 'after')
    return comps


class Bottomup(UVMBottomupPhase):
    def exec_func(self, comp, phase):
        pass


class Topdown(UVMTopdownPhase):
    def exec_func(self, comp, phase):
        pass


class Task(UVMTaskPhase):
    async def exec_task(self, comp, phase):
        pass


PHASES = [('connect', Bottomup, 105), ('run', Task, 206), ('start', Topdown, 307)]


@search(runs=700, weight=2)
def verbosity(S):
    """+uvm_set_verbosity on a hierarchy: when built, when a phase starts, at a time"""
    with Alone() as root:
        verbosity1(S, root)


def verbosity1(S, root):
    plan, full = tree(S, root)
    args, bad = [], 0
    events = {}                                        # time -> [(pattern, id, level)] in the order of the arguments
    at_build = []
    for k in range(S.int('args', 0, 5)):
        pat, i = pattern(S, 'pat%d' % k, full), S.choice('id%d' % k, ['_ALL_', 'X', 'Y'])
        word = S.choice('verb%d' % k, sorted(VERBS))
        when = S.choice('when%d' % k, ['build', '', 'time', 'time'] + [p[0] for p in PHASES] + ['never', 'bad'])
        off = S.choice('off%d' % k, [None, 0, 10, 20, 20, 230])
        if when == 'bad':
            args.append(S.choice('bad%d' % k, ['%s,%s,%s' % (pat, i, word), '%s,%s,LOUD,build' % (pat, i), '%s,%s,%s,time,soon' % (pat, i, word),
                                              '%s,%s,%s,time,1,2' % (pat, i, word), '', pat]))
            bad += 1
            continue
        if when in ('build', ''):
            off = S.choice('zero%d' % k, [None, 0])
        elif when == 'time' and not off:
            off = 10
        args.append('%s,%s,%s,%s' % (pat, i, word, when) + ('' if off is None else ',%d' % off))
        if when in ('build', ''):
            at_build.append((pat, i, VERBS[word]))
        elif when == 'time':
            events.setdefault(off, []).append((pat, i, VERBS[word]))
        else:
            for p, c, t in PHASES:
                if p == when:
                    events.setdefault(t + (off or 0), []).append((pat, i, VERBS[word]))
    level, ids = {}, {}
    start = root.get_report_verbosity_level()

    def made(f, when):
        if when == 'before':
            level[f] = level[f.rsplit('.', 1)[0]] if '.' in f else start
            for pat, i, v in at_build:
                put(f, pat, i, v)

    def put(f, pat, i, v):
        if fnmatch.fnmatchcase(f, pat):
            if i == '_ALL_':
                level[f] = v
            else:
                ids[f, i] = v
    cmdline(['+uvm_set_verbosity=' + a for a in args])
    looks = sorted({0.5, 104.5, 500} | {t + 0.5 for t in events} | {t - 0.5 for t in events})
    comps = []

    def look(t):
        for f, c in zip(full, comps):
            for i in ('X', 'Y', 'other'):
                S.check('verbosity of the component for the id at the time', c.get_report_verbosity_level(UVM_INFO, i) == ids.get((f, i), level[f]),
                        (args, f, i, t, c.get_report_verbosity_level(UVM_INFO, i), ids.get((f, i), level[f])))

    async def main():
        root.build_phase(None)
        comps.extend(build(plan, full, made))
        look(0)
        now = 0
        for t in sorted(set(events) | {p[2] for p in PHASES} | {500}):
            if t > now + 1:
                await Timer(t - now - 1)               # just before
                now = t - 1
                look(now)
            await Timer(t - now)
            now = t
            for p, cls, when in PHASES:
                if when == t:
                    ph = UVMPhase(p, UVM_PHASE_NODE, UVMDomain.get_common_domain())
                    for state in (UVM_PHASE_STARTED, UVM_PHASE_EXECUTING):
                        r = cls(p).traverse(root, ph, state)
                        if r is not None:
                            await r
            await Timer(1)
            now += 1
            for pat, i, v in events.get(t, ()):
                for f in full:
                    put(f, pat, i, v)
            look(now)
    S.simulate(main())
    S.check('malformed arguments are reported', len([r for r in S.reports.warnings if r[1] != 'UVM_DEPRECATED']) == bad, (args, [r[:3] for r in S.reports]))
    S.check('no error', not S.reports.errors)


@search(runs=1500, weight=2)
def reports(S):
    """+uvm_set_action and +uvm_set_severity on a hierarchy: the reports the components issue"""
    with Alone() as root:
        reports1(S, root)


def reports1(S, root):
    plan, full = tree(S, root)
    cmdline([])
    plain = Comp('plain', None)
    default = {s: plain.get_report_action(s, 'none') for s in SEVS.values()}
    ids = ['X', 'Y', '_ALL_']
    args, bad, acts, sevs = [], 0, [], []
    for k in range(S.int('args', 0, 5)):
        pat, i, s = pattern(S, 'pat%d' % k, full), S.choice('id%d' % k, ids), S.choice('sev%d' % k, sorted(SEVS) + ['_ALL_'])
        kind = S.choice('kind%d' % k, ['action', 'action', 'severity', 'severity', 'bad'])
        if kind == 'bad':
            what = S.choice('what%d' % k, ['action', 'severity'])
            args.append('+uvm_set_%s=' % what + S.choice('bad%d' % k, ['%s,%s,%s' % (pat, i, s), '%s,%s,UVM_LOUD,%s' % (pat, i, 'UVM_LOG' if what == 'action' else 'UVM_INFO'),
                       '%s,%s,%s,WHAT' % (pat, i, s), '%s,%s,%s,UVM_LOG|WHAT' % (pat, i, s), '%s,%s,%s,' % (pat, i, s), '', '%s,%s,%s,UVM_LOG,1' % (pat, i, s)]))
            bad += 1
        elif kind == 'action':
            words = [S.choice('act%d%d' % (k, j), sorted(ACTS)) for j in range(S.int('nact%d' % k, 1, 3))]
            args.append('+uvm_set_action=%s,%s,%s,%s' % (pat, i, s, '|'.join(words)))
            v = 0
            for w in words:
                v |= ACTS[w]
            acts.append((pat, i, s, v))
        else:
            n = S.choice('new%d' % k, sorted(SEVS))
            args.append('+uvm_set_severity=%s,%s,%s,%s' % (pat, i, s, n))
            sevs.append((pat, i, s, SEVS[n]))
    cmdline(args)
    # what the components are asked to do, in the terms of their setters
    want = {}
    for f in full:
        a, o = {}, {}
        for pat, i, s, v in acts:
            if fnmatch.fnmatchcase(f, pat):
                for x in SEVS.values() if s == '_ALL_' and i == '_ALL_' else [None if s == '_ALL_' else SEVS[s]]:
                    a[x, None if i == '_ALL_' else i] = v
        for pat, i, s, v in sevs:
            if fnmatch.fnmatchcase(f, pat):
                for x in SEVS.values() if s == '_ALL_' else [SEVS[s]]:
                    o[x, None if i == '_ALL_' else i] = v
        want[f] = a, o
    comps = build(plan, full, lambda f, w: None)
    warned = [r for r in S.reports.warnings]
    S.check('malformed arguments are reported', len(warned) == bad, (args, warned))
    got = []

    class Server:
        def process_report_message(self, m):
            got.append((m.get_severity(), m.get_action()))
    srv = Server()
    S.stub(UVMReportServer, 'get_server', classmethod(lambda cls: srv))
    for f, c in zip(full, comps):
        a, o = want[f]
        for s in SEVS.values():
            for i in ('X', 'Y', 'other'):
                act = a.get((s, i), a.get((None, i), a.get((s, None), default[s])))
                S.check('action', c.get_report_action(s, i) == act, (args, f, s, i, act, c.get_report_action(s, i)))
                n = o.get((s, i), o.get((s, None), s))
                if (s, i) not in o and any(j == i for _, j in o) and (s, None) in o:
                    continue                    # an override of this id for another severity: H01 accepts either reading
                got.clear()
                c.uvm_report(s, i, 'text', UVM_NONE)
                act = a.get((n, i), a.get((None, i), a.get((n, None), default[n])))
                S.check('one report', len(got) == 1)
                S.check('severity of the report', got[0][0] == n, (args, f, s, i, n, got))
                S.check('action of the report', got[0][1] == act, (args, f, s, i, act, got))



class Made:
    def __init__(self, ty): self.ty = ty


class Ty:
    """a registered type"""
    def __init__(self, name): self.name = name

    def get_type_name(self): return self.name

    def create_object(self, name=''): return Made(self)


@search(runs=3000, weight=2)
def whole(S):
    """settings which are for the whole simulation, and configuration values"""
    with Alone() as root:
        whole1(S, root)


def whole1(S, root):
    plan, full = tree(S, root)
    args, bad = [], []
    conf, over, touts, quits, verbs = [], [], [], [], []
    kinds = ['int', 'int', 'str', 'str', 'type', 'type', 'timeout', 'quit', 'verbosity', 'badint', 'badtype', 'other']
    for k in range(S.int('args', 0, 6)):
        kind = S.choice('kind%d' % k, kinds)
        pat, fld = pattern(S, 'pat%d' % k, full), S.choice('field%d' % k, ['p', 'q'])
        n = S.choice('n%d' % k, [0, 1, 5, 77, 1000003])
        if kind == 'int':
            n = n if S.int('neg%d' % k, 0, 5) else -n
            forms = [str(n), "'d%d" % n] + ([] if n < 0 else ["'b" + format(n, 'b'), '0b' + format(n, 'b'), "'o" + format(n, 'o'), "'h" + format(n, 'x'), "'x" + format(n, 'X'), '0x' + format(n, 'x')])
            args.append('+%s=%s,i%s,%s' % (S.choice('case%d' % k, ['uvm_set_config_int', 'UVM_SET_CONFIG_INT']), pat, fld, S.choice('form%d' % k, forms)))
            conf.append((pat, 'i' + fld, n))
        elif kind == 'str':
            v = S.choice('str%d' % k, ['abc', '5', '', 'x y'])
            args.append('+%s=%s,s%s,%s' % (S.choice('case%d' % k, ['uvm_set_config_string', 'UVM_SET_CONFIG_STRING']), pat, fld, v))
            conf.append((pat, 's' + fld, v))
        elif kind == 'badint':
            args.append('+uvm_set_config_int=' + S.choice('bad%d' % k, ['%s,i%s' % (pat, fld), pat, '%s,i%s,1,2' % (pat, fld), '%s,i%s,seven' % (pat, fld), "%s,i%s,'hxyz" % (pat, fld),
                                                                   '%s,i%s,' % (pat, fld), "%s,i%s,'d" % (pat, fld), '%s,i%s,0b12' % (pat, fld)]))
            bad.append('error')
        elif kind == 'type':
            a = S.choice('from%d' % k, 'ABC')
            b = S.choice('to%d' % k, [x for x in 'ABC' if x > a] or ['A'])
            if b > a:
                r = S.choice('replace%d' % k, ['', ',0', ',1'])
                args.append('+%s=%s,%s%s' % (S.choice('case%d' % k, ['uvm_set_type_override', 'UVM_SET_TYPE_OVERRIDE']), a, b, r))
                over.append((a, b, r != ',0'))
        elif kind == 'badtype':
            args.append('+uvm_set_type_override=' + S.choice('bad%d' % k, ['A', 'A,B,C,1', 'A,B,2', 'A,B,yes', '']))
            bad.append('error')
        elif kind in ('timeout', 'quit'):
            f = S.choice('flag%d' % k, ['', ',YES', ',NO', ',YES', ',NO'])
            args.append('+UVM_%s=%d%s' % ({'timeout': 'TIMEOUT', 'quit': 'MAX_QUIT_COUNT'}[kind], n, f))
            (touts if kind == 'timeout' else quits).append((n, f != ',NO'))
        elif kind == 'verbosity':
            v = S.choice('verb%d' % k, sorted(VERBS) + ['123', '0', 'LOUD', ''])
            args.append('+UVM_VERBOSITY=' + v)
            verbs.append(v)
        else:
            args.append(S.choice('word%d' % k, ['+x', '-uvm_set_type_override=A,B', 'uvm_set_config_int=*,ip,3', '+UVM_', '+uvm_set_config_intx=*,ip,9']))
    f = UVMDefaultFactory()
    types = {x: Ty(x) for x in 'ABC'}
    for t in types.values():
        f.register(t)
    S.stub(UVMCoreService.get(), 'get_factory', lambda: f)
    cmdline(args)
    srv = UVMReportServer.get_server()
    old = srv.get_max_quit_count()
    old_timeout, old_verb = root.phase_timeout, root.get_report_verbosity_level()
    UVMRoot.m_uvm_timeout_overridable = 1
    root.m_check_verbosity()
    for lst in (verbs, touts, quits):
        if len(lst) > 1:
            bad.append('warning')
    if verbs and verbs[0] not in VERBS and verbs[0] != '123':
        bad.append('warning')
    if verbs:
        S.check('the global verbosity', root.get_report_verbosity_level() == VERBS.get(verbs[0], 123 if verbs[0] == '123' else UVM_MEDIUM))
    else:
        S.check('the default verbosity', root.get_report_verbosity_level() == UVM_MEDIUM)

    async def main():
        root.build_phase(None)
    S.simulate(main())
    comps = build(plan, full, lambda f, w: None)
    for c, name in zip(comps, full):
        S.check('inherited verbosity', c.get_report_verbosity_level() == root.get_report_verbosity_level())
        for fld in ('ip', 'iq', 'sp', 'sq'):
            want = [v for pat, g, v in conf if g == fld and fnmatch.fnmatchcase(name, pat)]
            got = []
            ok = UVMConfigDb.get(c, '', fld, got)
            S.check('configuration value', list(got) == want[-1:] and bool(ok) == bool(want), (args, name, fld, got, want))
    now = {}
    for a, b, r in over:
        if r or a not in now:
            now[a] = b
    for x in 'ABC':
        y = x
        while y in now:
            y = now[y]
        got = f.create_object_by_type(types[x], '', 'o').ty
        S.check('type override', got is types[y], (args, x, y, got.name))
    S.check('the timeout', root.phase_timeout == (touts[0][0] if touts else old_timeout))
    S.check('the quit count', srv.get_max_quit_count() == (quits[0][0] if quits else old), (args, srv.get_max_quit_count()))
    root.set_timeout(31)
    S.check('the timeout can be overridden unless NO', root.phase_timeout == (touts[0][0] if touts and not touts[0][1] else 31), args)
    srv.set_max_quit_count(32)
    S.check('the quit count can be overridden unless NO', srv.get_max_quit_count() == (quits[0][0] if quits and not quits[0][1] else 32), args)
    S.check('malformed and ambiguous arguments are reported', sorted(r[0] for r in S.reports if r[0] in ('warning', 'error') and r[1] != 'UVM_DEPRECATED') == sorted(bad),
            (args, bad, [r[:3] for r in S.reports]))


ARGS = ['+ab=1', '+ab=', '+ab', '-ab=1', '+abc=2', '+ab=22']


@unit('UVMCmdlineProcessor.get_arg_values', 'UVMCmdlineProcessor.get_arg_matches', 'UVMCmdlineProcessor.get_arg_value')
def found(S):
    """how many arguments have a prefix, on command lines of any length"""
    L = S.list('args', lambda e: e.int('which', 0, len(ARGS) - 1))
    clp = cmdline([])
    args = S.mapped(L, lambda i: nth(ARGS, i))
    clp.m_argv = args
    S.root('clp', clp)
    key = S.choice('key', ['+ab=', '+a', 'none'])
    how = S.choice('how', ['values', 'matches', 'value'])
    has = lambda i: S.or_(*[i == k for k, a in enumerate(ARGS) if a.startswith(key)])
    if how == 'value':
        n = S.count(L, has)
    else:
        want = S.filtered(L, has, lambda i: args[i] if how == 'matches' else args[i][len(key):])
        n = S.length(want)
    S.lists()
    got = S.empty()
    S.root('got', got)
    r = {'values': clp.get_arg_values, 'matches': clp.get_arg_matches, 'value': clp.get_arg_value}[how](key, got)
    S.check('the number of arguments found', r == n)
    if how != 'value':
        S.check('as many values', S.length(got) == n)
        S.forall_range('the values in their order', n, lambda j: got[j] == want[j])
