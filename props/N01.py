"""N01: the component hierarchy."""
import re
from vc.unit import unit, search, FatalReport
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_domain import UVMDomain
from uvm.base.uvm_root import UVMRoot
from uvm.base.uvm_phase import UVMPhase
from uvm.base.uvm_common_phases import UVMBuildPhase, UVMRunPhase, UVMConnectPhase
from uvm.base.uvm_coreservice import UVMCoreService
from uvm.base.uvm_object_globals import UVM_PHASE_DONE, UVM_PHASE_DORMANT
from uvm.base.uvm_topdown_phase import UVMTopdownPhase

PROPERTY = {
 'title': 'Every component has one place in a tree, and is found there by name or pattern',
 'statement': 'A component is the child of the parent it was created with (the top without one): it is listed there once, in the order of creation and under its name, its full name is the names on its path and its depth their number, and it starts with the verbosity and the domain of its parent. Creating a second child with a name in use, or a component after the end of the build phase, is rejected and changes nothing. Looking up a relative or absolute path yields the component at that path, or a warning and nothing; a search yields exactly the components, below the given one, whose full name matches the pattern, children before parents; domains and phase implementations are set on a component and, if asked for, on everything beneath it and nowhere else.',
 'over': ['inputs', 'histories'],
 'text': 'any number of children, trees of any shape, and histories of creations, look-ups and searches',
 'why': 'tests create small fixed hierarchies and look nothing up in them that is missing, ambiguous or deep',
 'files': ['src/uvm/base/uvm_component.py', 'src/uvm/base/uvm_root.py'],
 'mech': [['UVMComponent.__init__, m_add_child, get_child, get_children, get_first_child, get_next_child, lookup, get_full_name, get_depth, set_domain, set_phase_imp', 'src/uvm/base/uvm_component.py'],
          ['UVMRoot.find, find_all, m_add_child', 'src/uvm/base/uvm_root.py']],
 'note': 'listing, iterating and searching are proved for one component with any number of children, each entering by contract; trees, paths and patterns are a bounded search. Patterns are those which match a name as a whole exactly if they match a part of it (see the known finding of K01)',
}
PATCH_METHODS = True


class Comp(UVMComponent):
    pass


class Kid:
    name = 'kid'

    def __init__(self, tag):
        self.tag = tag

    def get_name(self):
        return self.name


def mk(e):
    return Kid(e.int('tag'))


def parent(S, n):
    kids = S.list('kids', mk)
    n.m_children_ordered = kids
    if not S.symbolic:
        for i, k in enumerate(kids):
            k.name = 'kid%d' % i
            n.m_children[k.name] = n.m_children_by_handle[k] = k
    return kids


@unit('UVMComponent.get_first_child', 'UVMComponent.get_next_child', 'UVMComponent.has_first_child', 'UVMComponent.has_next_child', 'UVMComponent.get_num_children')
def children(S):
    n = Comp('n01', None)
    kids = parent(S, n)
    num = S.length(kids)
    S.check('their number', n.get_num_children() == num)
    S.check('is there a child', S.iff(n.has_first_child(), num > 0))
    at = S.int('at', -1, cap=9)
    S.require(at < num)
    n.child_ptr = at
    S.check('is there another child', S.iff(n.has_next_child(), at + 1 < num))
    k = n.get_next_child()
    if at + 1 < num:
        S.check('the next child', k is not None and k.tag == kids[at + 1].tag)
    else:
        S.check('no child is left', k is None)
        S.check('none follows', not n.has_next_child())
    k = n.get_first_child()
    if num > 0:
        S.check('the first child', k is not None and k.tag == kids[0].tag)
        S.check('and the one after it', S.iff(n.has_next_child(), num > 1))
        if num > 1:
            S.check('is the second', n.get_next_child().tag == kids[1].tag)
    else:
        S.check('there is none', k is None)


@unit('UVMComponent.m_add_child', 'UVMComponent.has_child', 'UVMComponent.get_child', 'UVMComponent.__init__')
def listed(S):
    n = Comp('n01', None)
    kids = parent(S, n)
    num = S.length(kids)
    old_kids = S.snap(kids)
    S.lists()
    m = S.map('names', 'str', lambda e: Kid(e.int('tag')))
    n.m_children = m
    other = S.str('other')
    S.require(other != 'x')
    had, had_o = S.has(m, 'x'), S.has(m, other)
    old = n.get_child(other) if had_o else None
    n.set_report_verbosity_level(S.int('verbosity', 0, 1000))
    if had:
        try:
            Comp('x', n)
            S.check('rejected', False)
        except FatalReport:
            pass
        S.check('nothing is added', S.length(n.m_children_ordered) == num)
        S.check('the child is the one before', n.get_child('x').tag == S.at(m, 'x').tag)
    else:
        c = Comp('x', n)
        S.check('there is a child', n.has_child('x'))
        S.check('it is this one', n.get_child('x') is c)
        S.check('of this parent', c.get_parent() is n)
        S.check('one more', n.get_num_children() == num + 1)
        S.check('at the end', n.m_children_ordered[num] is c)
        S.check('its name', c.get_full_name() == 'n01.x' and c.get_name() == 'x')
        S.check('the verbosity of the parent', c.get_report_verbosity_level() == n.get_report_verbosity_level())
        S.check('the domain of the parent', c.get_domain() is n.get_domain())
    S.forall_range('the others stay in their order', num, lambda i: n.m_children_ordered[i].tag == old_kids[i].tag)
    S.check('other names stay', S.iff(n.has_child(other), had_o))
    if had_o:
        S.check('and their children', n.get_child(other) is old)


@unit('UVMRoot.find_all', 'UVMRoot.m_find_all_recurse')
def searched(S):
    root = UVMCoreService.get().get_root()
    n = Comp('n01', None)
    kids = parent(S, n)
    found = S.empty()
    S.root('found', found)
    hit = S.bool('hit')
    real = root.m_find_all_recurse

    def recurse(match, comps, comp=None):
        if comp is n:
            return real(match, comps, comp)
        S.check('the same search', match == pattern and comps is found)
        comps.append(comp.tag)
    S.stub(root, 'm_find_all_recurse', recurse)
    pattern = '*n01*' if hit else '*n02*'
    S.grows(1, lambda k: kids[k].tag)
    root.find_all(pattern, found, n)
    S.check('every child is searched once', S.length(found) == S.length(kids) + (1 if hit else 0))
    S.forall('in their order', kids, lambda i, k: found[i] == k.tag)
    if hit:
        S.check('the component itself comes last', found[S.length(kids)] is n)


NAMES = ['a', 'b', 'ab', 'x1', 'env']


def glob(p):
    return ''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p)


def pattern_of(S, nm, comps):
    """a pattern for which matching a whole name and a part of it is the same for every component"""
    lits = [c.get_full_name() for c in comps] + NAMES + ['.' + x for x in NAMES] + ['zz']
    k = S.choice(nm + '.form', ['*', 'lit', '*l', 'l*', '*l*', '*l*m*', 'q'])
    l, m = S.choice(nm + '.l', lits), S.choice(nm + '.m', lits)
    if k == 'q' and len(l) > 1:
        i = S.int(nm + '.q', 0, len(l) - 1)
        return '*' + l[:i] + '?' + l[i + 1:]
    return {'*': '*', 'lit': l, '*l': '*' + l, 'l*': l + '*', '*l*': '*' + l + '*', '*l*m*': '*' + l + '*' + m + '*', 'q': l}[k]


@search(runs=3000, weight=3)
def tree(S):
    root = UVMCoreService.get().get_root()
    bld = UVMDomain.get_common_domain().find(UVMBuildPhase.get())
    before = []
    root.get_children(before)
    top = Comp(S.choice('top', ['n01', 'n01t', 'uvm_test_top']), None)
    comps, par, kids = [top], {top: root}, {root: before + [top], top: []}
    verb, dom, imps = {top: root.get_report_verbosity_level()}, {top: root.get_domain()}, {top: {}}
    phases = [UVMTopdownPhase('n01p'), UVMTopdownPhase('n01q')]
    UVMDomain.m_domains.pop('n01d', None)
    d = UVMDomain('n01d')
    other = UVMDomain.get_uvm_domain()

    def below(c, p):
        while c is not root:
            if c is p:
                return True
            c = par[c]
        return p is root
    for q in range(S.int('ops', 1, 14)):
        op = S.choice('op%d' % q, ['new'] * 6 + ['top', 'late', 'domain', 'imp', 'verbosity', 'named', 'rename', 'touch'])
        p = S.choice('p%d' % q, comps)
        nm = S.choice('n%d' % q, NAMES)
        n0 = len(S.reports)
        if op in ('new', 'named', 'top'):
            if op == 'top':
                p = root
            name = '' if op == 'named' else nm
            taken = name in [k.get_name() for k in kids[p]]
            listed = list(p.m_children_ordered)
            try:
                c = Comp(name, None if p is root else p)
                S.check('a name in use is rejected', not taken)
            except FatalReport:
                S.check('rejected for its name only', taken)
                S.check('nothing changes', p.m_children_ordered == listed)
                continue
            if name:
                S.check('its name', c.get_name() == name)
            else:
                S.check('a name is given to it', c.get_name() != '' and c.get_name() not in [k.get_name() for k in kids[p]])
            comps.append(c)
            par[c] = p
            kids[p].append(c)
            kids[c] = []
            verb[c], dom[c], imps[c] = verb.get(p, root.get_report_verbosity_level()), dom.get(p, root.get_domain()), {}
        elif op == 'late':
            S.stub(UVMPhase, 'get_state', lambda self: UVM_PHASE_DONE if self is bld else self.m_state)
            try:
                Comp('late', p)
                S.check('a component after the build phase is rejected', False)
            except FatalReport:
                pass
            finally:
                S.stub(UVMPhase, 'get_state', lambda self: self.m_state)
        elif op == 'domain':
            dd, h = S.choice('d%d' % q, [d, other]), S.bool('h%d' % q)
            p.set_domain(dd, h) if not h or S.bool('e%d' % q) else p.set_domain(dd)
            for c in comps:
                if c is p or (h and below(c, p)):
                    dom[c] = dd
        elif op == 'imp':
            ph, im, h = S.choice('ph%d' % q, phases), object(), S.bool('h%d' % q)
            p.set_phase_imp(ph, im, h)
            for c in comps:
                if c is p or (h and below(c, p)):
                    imps[c][ph] = im
        elif op == 'verbosity':
            verb[p] = S.choice('v%d' % q, [0, 100, 200, 300, 500])
            p.set_report_verbosity_level(verb[p])
        elif op == 'rename':
            p.set_name('renamed')
            S.check('a component is not renamed', len(S.reports) == n0 + 1 and S.reports[-1][0] == 'error')
        elif op == 'touch':
            p.get_first_child()
            p.get_next_child()

    def path(c):
        return c.get_name() if par[c] is root else path(par[c]) + '.' + c.get_name()
    S.check('no error', not [r for r in S.reports if r[0] == 'error' and 'renamed' not in r[2]])
    S.check('the tops', list(root.top_levels[-len([k for k in kids[root] if k not in before]):]) == [k for k in kids[root] if k not in before]
            or top.get_name() == 'uvm_test_top')
    if top.get_name() == 'uvm_test_top':
        S.check('the test comes first', root.top_levels[0] is top)
    for c in comps:
        S.check('the parent', c.get_parent() is par[c])
        S.check('the full name', c.get_full_name() == path(c))
        S.check('the depth', c.get_depth() == path(c).count('.') + 1)
        got = []
        c.get_children(got)
        S.check('the children in order of creation', got == kids[c])
        S.check('their number', c.get_num_children() == len(kids[c]))
        got, k = [], c.get_first_child()
        while k is not None and len(got) < 50:
            got.append(k)
            k = c.get_next_child()
        S.check('the iteration visits them all', got == kids[c])
        for nm in NAMES + ['']:
            S.check('the child of a name', c.get_child(nm) is next((k for k in kids[c] if k.get_name() == nm), None))
            S.check('is there one', bool(c.has_child(nm)) == (nm in [k.get_name() for k in kids[c]]))
        S.check('the verbosity', c.get_report_verbosity_level() == verb[c])
        S.check('the domain', c.get_domain() is dom[c])
        S.check('the phase implementations', c.m_phase_imps == imps[c])
    byname = {path(c): c for c in comps}
    for q in range(S.int('looks', 0, 6)):
        c = S.choice('from%d' % q, comps + [root])
        n0 = len(S.reports)
        if S.bool('abs%d' % q):
            rel = S.choice('abspath%d' % q, list(byname) + ['zz', top.get_name() + '.zz', top.get_name() + '.zz.a'])
            got, want = c.lookup('.' + rel), byname.get(rel)
        else:
            rel = '.'.join(S.choice('seg%d%d' % (q, i), NAMES) for i in range(S.int('segs%d' % q, 1, 3)))
            got, want = c.lookup(rel), byname.get(rel if c is root else path(c) + '.' + rel)
        S.check('the component at the path', got is want, (c.get_full_name(), rel))
        S.check('a warning if there is none', [r[0] for r in S.reports[n0:]] == ([] if want is not None else ['warning']))
    post = []

    def walk(c):
        for k in kids[c]:
            walk(k)
        post.append(c)
    for k in kids[root]:
        if k in par:
            walk(k)
    for q in range(S.int('finds', 0, 5)):
        pat = pattern_of(S, 'pat%d' % q, comps)
        start = S.choice('start%d' % q, comps)
        under = [c for c in post if below(c, start)]
        g = glob(pat)
        whole = [c for c in under if re.fullmatch(g, c.get_full_name())]
        if whole != [c for c in under if re.search(g, c.get_full_name())]:
            continue
        got = []
        root.find_all(pat, got, start)
        S.check('exactly those which match', got == whole, (pat, start.get_full_name(), [c.get_full_name() for c in got], [c.get_full_name() for c in whole]))
        every = [c for c in comps if re.search(g, c.get_full_name())]
        if every == [c for c in comps if re.fullmatch(g, c.get_full_name())] and not [c for c in before if re.search(g, c.get_full_name())]:
            n0 = len(S.reports)
            got = root.find(pat)
            allm = []
            root.find_all(pat, allm)
            S.check('all which match, anywhere', sorted(allm, key=comps.index) == sorted(every, key=comps.index))
            S.check('the first one', got is (allm[0] if allm else None))
            S.check('a warning unless there is one', len(S.reports) - n0 == (0 if len(every) == 1 else 1) and all(r[0] == 'warning' for r in S.reports[n0:]))
