"""S03: the place of sequence items and the actions which create and send them."""
from vc.unit import unit, search
from cocotb.triggers import Timer
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_registry import UVMObjectRegistry
from uvm.macros.uvm_object_defines import uvm_object_utils
from uvm.macros.uvm_sequence_defines import (uvm_create, uvm_create_on, uvm_do, uvm_do_with, uvm_do_pri_with, uvm_do_on, uvm_do_on_with,
                                             uvm_do_on_pri_with, uvm_send, uvm_send_pri)
from uvm.seq.uvm_sequencer import UVMSequencer
from uvm.seq.uvm_sequence_base import UVMSequenceBase
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem

PROPERTY = {
 'title': 'A sequence item knows its place and goes where the action sends it',
 'statement': 'A sequence item or sequence set into the context of a parent sequence takes the sequencer it is given, or else that of its parent, lies one level below its parent, and its full name, its path and its root follow the chain of its parents. The do, create and send actions run an item or a sequence once, as a child of the calling sequence, on the sequencer and with the priority they are given or else those of the caller. An item is randomized under the given constraints after its grant and before it is sent, a sequence before it starts unless that is turned off, neither of them by send; and pre_do, mid_do and post_do of the caller come in this order around it.',
 'over': ['inputs', 'histories'],
 'text': 'every name, depth, sequencer and priority; trees of sequences which use every action in any order on several sequencers',
 'why': 'tests run one item or sequence on one sequencer and look only at what the driver gets',
 'files': ['src/uvm/seq/uvm_sequence_item.py', 'src/uvm/seq/uvm_sequence_base.py', 'src/uvm/macros/uvm_sequence_defines.py'],
 'mech': [['UVMSequenceItem.set_item_context, get_full_name, get_depth, get_root_sequence, get_sequence_path', 'src/uvm/seq/uvm_sequence_item.py'], ['UVMSequenceBase.start_item, finish_item, create_item', 'src/uvm/seq/uvm_sequence_base.py'], ['uvm_do and the like', 'src/uvm/macros/uvm_sequence_defines.py']],
 'note': 'context, names and the handling of one item proved; chains of parents to a stated depth; trees of sequences with the actions are a bounded search',
}

PATCH_METHODS = True


class Sqr:
    def __init__(self, i=0, log=None, full='top.sqr'): self.i, self.log, self.full = i, log, full
    def get_full_name(self): return self.full
    async def wait_for_grant(self, seq, pri=-1, lock=0): self.log.append(('grant', self.i, seq, pri))
    def send_request(self, seq, item, rerandomize=0): self.log.append(('send', self.i, seq, item))
    async def wait_for_item_done(self, seq, tid): self.log.append(('done', self.i, seq))
    def end_tr(self, item, *a): self.log.append(('end', self.i, item))


class Up:
    """a parent sequence as its child sees it"""
    def __init__(self, depth=1, sqr=None, full='top.sqr.p'): self.depth, self.sqr, self.full = depth, sqr, full
    def get_depth(self): return self.depth
    def get_sequencer(self): return self.sqr
    def get_full_name(self): return self.full


def item(S, **kw):
    kw = dict(dict(m_depth=-1, m_parent_sequence=None, m_sequencer=None, p_sequencer=None, m_use_sequence_info=False, m_sequence_id=-1,
                   m_transaction_id=-1), **kw)
    it = S.new(UVMSequenceItem, **kw)
    return it


@unit('UVMSequenceItem.set_item_context', 'UVMSequenceItem.get_depth', 'UVMSequenceItem.set_sequencer')
def context(S):
    sq = [Sqr(0), Sqr(1), None]
    old = Up(S.int('od', 1, None), sq[0]) if S.bool('had') else None
    it = item(S, m_depth=S.int('d', 1, None) if S.bool('placed') else -1, m_parent_sequence=old, m_sequencer=S.choice('was', sq), leaf_name='it')
    new = Up(S.int('nd', 1, None), S.choice('theirs', sq)) if S.bool('parent') else None
    given = S.choice('given', sq)
    d0 = it.m_depth
    it.set_item_context(new, given)
    par = new if new is not None else old
    S.check('the parent', it.get_parent_sequence() is par)
    S.check('the sequencer', it.get_sequencer() is (given if given is not None else par.sqr if par is not None else None))
    S.check('one handle', it.p_sequencer is it.get_sequencer())
    S.check('in a sequence', bool(it.get_use_sequence_info()))
    if par is not None:
        S.check('one below its parent', it.get_depth() == par.depth + 1)
    else:
        S.check('at the top', it.get_depth() == S.ite(d0 == -1, 1, d0))


@unit('UVMSequenceItem.get_full_name', 'UVMSequenceItem.get_depth')
def place(S):
    full, own = S.str('full'), S.str('own')
    kind = S.choice('kind', ['parent', 'sequencer', 'both', 'none'])
    it = item(S, leaf_name=own)
    d = S.int('d', 1, None)
    if kind in ('parent', 'both'):
        it.set_parent_sequence(Up(d, None, full))
    if kind in ('sequencer', 'both'):
        it.set_sequencer(Sqr(0, None, full if kind == 'sequencer' else 'other'))
    if kind == 'none':
        pre = ''
    else:
        pre = full + '.'
    S.check('the full name', it.get_full_name() == (pre + own if own != '' else pre + '_item'))
    S.check('the depth', it.get_depth() == (d + 1 if kind in ('parent', 'both') else 1))
    S.check('again', it.get_depth() == (d + 1 if kind in ('parent', 'both') else 1))


@unit('UVMSequenceItem.set_id_info')
def identity(S):
    a = item(S, m_sequence_id=S.int('sa', -1, None), m_transaction_id=S.int('ta', -1, None), leaf_name='a')
    b = item(S, m_sequence_id=S.int('sb', -1, None), m_transaction_id=S.int('tb', -1, None), leaf_name='b')
    s, t = b.m_sequence_id, b.m_transaction_id
    a.set_id_info(b)
    S.check('the identity of the other', S.and_(a.get_sequence_id() == s, a.get_transaction_id() == t))
    S.check('which keeps it', S.and_(b.get_sequence_id() == s, b.get_transaction_id() == t))


@unit('UVMSequenceItem.get_root_sequence', 'UVMSequenceItem.get_sequence_path', 'UVMSequenceItem.get_root_sequence_name', limit='chains of four')
def chain(S):
    n = S.choice('n', [0, 1, 2, 3])
    names = [S.str('n%d' % i) for i in range(n + 1)]
    its = []
    for i in range(n + 1):
        it = item(S, leaf_name=names[i])
        if i:
            it.set_parent_sequence(its[-1])
        its.append(it)
    path = names[0]
    for x in names[1:]:
        path = path + '.' + x
    S.check('the root', its[n].get_root_sequence() is (its[0] if n else None))
    S.check('its name', its[n].get_root_sequence_name() == (names[0] if n else ''))
    S.check('the path', its[n].get_sequence_path() == path)
    S.check('the depth', its[n].get_depth() == n + 1)


@unit('UVMSequenceBase.start_item', 'UVMSequenceBase.finish_item')
def one_item(S):
    log = []
    sq = [Sqr(i, log) for i in range(3)]
    own = S.choice('own', sq[:1] + [None])
    s = S.new(UVMSequence, m_sequencer=own, m_priority=S.int('mine', 1, None), m_depth=S.int('d', 1, None), m_parent_sequence=None, leaf_name='s',
              m_name='s')
    S.stub(s, 'pre_do', lambda is_item: log.append(('pre_do', is_item)))
    S.stub(s, 'mid_do', lambda i: log.append(('mid_do', i)))
    S.stub(s, 'post_do', lambda i: log.append(('post_do', i)))
    it = item(S, m_sequencer=S.choice('its', [sq[1], None]), leaf_name='it')
    its = it.get_sequencer()
    given = S.choice('given', [sq[2], None])
    to = given if given is not None else its if its is not None else own
    S.require(to is not None)
    pri = S.int('pri', -1, None)
    S.run(s.start_item(it, pri, given))
    S.check('granted by its sequencer', len(log) == 2 and log[0][0] == 'grant' and log[0][1] == to.i and log[0][2] is s)
    S.check('with the priority', log[0][3] == S.ite(pri < 0, s.m_priority, pri))
    S.check('pre_do of an item', log[1] == ('pre_do', 1))
    S.check('its place', it.get_parent_sequence() is s and it.get_sequencer() is to)
    S.check('its depth', it.get_depth() == s.m_depth + 1)
    S.run(s.finish_item(it, pri))
    S.check('in order', [e[0] for e in log[2:]] == ['mid_do', 'send', 'done', 'end', 'post_do'])
    S.check('this item', log[2][1] is it and log[3][3] is it and log[5][2] is it and log[6][1] is it)
    S.check('there', log[3][1] == to.i and log[4][1] == to.i and log[3][2] is s and log[4][2] is s)


class Top(UVMComponent):
    pass


class Base:
    """what the items and the sequences of the search have in common"""
    def randomize_with(self, *constr):
        self.told.append(('rand', self, constr))
        return True


class Item(Base, UVMSequenceItem):
    def __init__(self, name='item'): super().__init__(name)


class Node(Base, UVMSequence):
    def __init__(self, name='node'): super().__init__(name)

    def pre_do(self, is_item): self.told.append(('pre_do', self, is_item))
    def mid_do(self, x): self.told.append(('mid_do', self, x))
    def post_do(self, x): self.told.append(('post_do', self, x))
    async def pre_body(self): self.told.append(('pre_body', self))
    async def post_body(self): self.told.append(('post_body', self))

    async def body(self):
        S, told = self.S, self.told
        told.append(('body', self, self.get_sequencer(), self.get_parent_sequence(), self.get_priority()))
        for j in range(S.int('%s_n' % self.key, 0, 3)):
            key = '%s_%d' % (self.key, j)
            kid = S.choice(key + 'k', ['item', 'node'] if self.level < 2 else ['item'])
            x = Item(key) if kid == 'item' else Node(key)
            x.S, x.told, x.key, x.level, x.sqrs = S, told, key, self.level + 1, self.sqrs
            if kid == 'node':
                x.do_not_randomize = S.choice(key + 'nr', [0, 0, 1])
            to = S.choice(key + 'to', self.sqrs)
            pri = S.int(key + 'p', 1, 9)
            con = tuple(range(S.int(key + 'c', 0, 2)))
            how = S.choice(key + 'h', ['do', 'do_with', 'do_pri_with', 'do_on', 'do_on_with', 'do_on_pri_with', 'create', 'send', 'send_pri', 'send_own'])
            mine = self.get_sequencer()
            at = len(told)
            where, prio = mine, self.get_priority()
            rand = None
            if how == 'do':
                await uvm_do(self, x)
                rand = 'any'
            elif how == 'do_with':
                await uvm_do_with(self, x, *con)
                rand = con
            elif how == 'do_pri_with':
                await uvm_do_pri_with(self, x, pri, *con)
                rand, prio = con, pri
            elif how == 'do_on':
                await uvm_do_on(self, x, to)
                rand, where = 'any', to
            elif how == 'do_on_with':
                await uvm_do_on_with(self, x, to, *con)
                rand, where = con, to
            elif how == 'do_on_pri_with':
                await uvm_do_on_pri_with(self, x, to, pri, *con)
                rand, where, prio = con, to, pri
            elif how == 'create':
                on = S.bool(key + 'on')
                y = uvm_create_on(self, x, to) if on else uvm_create(self, x, mine)
                S.check('created by its type', type(y) is type(x) and y is not x)
                S.check('in its place', y.get_parent_sequence() is self and y.get_sequencer() is (to if on else mine) and y.get_depth() == self.get_depth() + 1)
                S.check('nothing more', told[at:] == [])
                continue
            else:
                if how == 'send_own':
                    x.set_sequencer(to)
                    where = to
                if kid == 'node':
                    x.set_sequencer(where)
                if how == 'send_pri':
                    await uvm_send_pri(self, x, pri)
                    prio = pri
                else:
                    await uvm_send(self, x)
            got = told[at:]
            S.check('its place', x.get_parent_sequence() is self and x.get_sequencer() is where and x.get_depth() == self.get_depth() + 1)
            S.check('its full name', x.get_full_name() == self.get_full_name() + '.' + key)
            S.check('its path', x.get_sequence_path() == self.get_sequence_path() + '.' + key)
            S.check('its root', x.get_root_sequence() is self.head)
            S.check('its root by name', x.get_root_sequence_name() == 'head')
            mineonly = [e for e in got if e[1] is self or e[1] is x]
            rnd = lambda: [('rand', x)]
            if kid == 'item':
                want = [('pre_do', self, 1)] + (rnd() if rand is not None else []) + [('mid_do', self, x), ('driven', x, where), ('post_do', self, x)]
            else:
                want = ([] if rand is None or x.do_not_randomize else rnd()) + [('pre_do', self, 0), ('mid_do', self, x), ('body', x, where, self, prio)]
            seen = [e[:2] if e[0] == 'rand' else e for e in mineonly]
            if kid == 'node':
                S.check('it ends before post_do', seen and seen[-1] == ('post_do', self, x))
                seen = seen[:-1]
                S.check('no body callbacks', not [e for e in seen if e[0] in ('pre_body', 'post_body')])
                seen = [e for e in seen if e[1] is not x or e[0] in ('rand', 'body')]
            S.check('in order and once', seen == want, dict(seen=seen, want=want))
            if rand not in (None, 'any'):
                S.check('the constraints', [e[2] for e in mineonly if e[0] == 'rand'] in ([rand], []))
            S.check('the grant has the priority', kid == 'node' or self.asked and self.asked[-1] == (x.get_sequencer(), self, prio))

    @property
    def head(self): return self.get_root_sequence() or self


for c in (Item, Node):
    uvm_object_utils(c)


@search(runs=150)
def actions(S):
    top = Top('s03', None)
    told, asked = [], []
    sqrs = [UVMSequencer('q%d' % i, top) for i in range(3)]
    Node.asked = asked
    for q in sqrs:
        def wrap(q=q, f=q.wait_for_grant):
            async def wait_for_grant(seq, item_priority=-1, lock_request=0):
                asked.append((q, seq, item_priority))
                await f(seq, item_priority, lock_request)
            return wait_for_grant
        S.stub(q, 'wait_for_grant', wrap())

    async def driver(q):
        while True:
            g = []
            await q.get_next_item(g)
            told.append(('driven', g[0], q))
            await Timer(1, 'NS')
            q.item_done()

    async def main():
        for k in range(S.int('heads', 1, 2)):
            h = Node('head')
            h.S, h.told, h.key, h.level, h.sqrs = S, told, 'h%d' % k, 0, sqrs
            q = S.choice('q%d' % k, sqrs)
            pri = S.choice('p%d' % k, [-1, 5])
            await h.start(q, None, pri)
            S.check('its own name', h.get_full_name() == q.get_full_name() + '.head')
            S.check('no parent', h.get_root_sequence() is None and h.get_depth() == 1)
        done.append(1)
    done = []
    S.simulate(main(), *[driver(q) for q in sqrs])
    S.check('all of them end', done == [1])
    S.check('no report', not S.reports.errors and not S.reports.warnings)
