"""W01: transactions and their records."""
from vc.unit import unit, search
from uvm.base.sv import sv
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_links import UVMCauseEffectLink, UVMParentChildLink, UVMRelatedLink
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import UVM_FULL, UVM_NONE
from uvm.base.uvm_recorder import UVMRecorder
from uvm.base.uvm_tr_database import UVMTrDatabase
from uvm.base.uvm_tr_stream import UVMTrStream
from uvm.base.uvm_transaction import UVMTransaction
from uvm.seq.uvm_sequence import UVMSequence
from uvm.seq.uvm_sequence_item import UVMSequenceItem

PROPERTY = {
 'title': 'Transactions keep their times, and are recorded once each, linked and freed',
 'statement': 'A transaction keeps the time at which it was last accepted, begun and ended (the time given, otherwise the present), and each such call triggers the event of the transaction and that of the component once, after the hooks. A transaction begun on a component which records is recorded once, in the stream asked for, with its label, description and fields and a link from its parent; ending it closes exactly that record, and frees it unless told not to; nothing is recorded where recording is off, and links are kept only between records of the one database. A handle stands for its record until that is freed and for nothing afterwards, and closing or freeing a record again does nothing.',
 'over': ['inputs', 'histories'],
 'text': 'any times, labels and parents; any state of record, stream and database; histories of several components and transactions',
 'why': 'no test begins a transaction on a component which records',
 'files': ['src/uvm/base/uvm_transaction.py', 'src/uvm/base/uvm_component.py', 'src/uvm/base/uvm_recorder.py', 'src/uvm/base/uvm_tr_stream.py', 'src/uvm/base/uvm_tr_database.py', 'src/uvm/base/uvm_links.py'],
 'mech': [['UVMTransaction.accept_tr, m_begin_tr, end_tr', 'src/uvm/base/uvm_transaction.py'], ['UVMComponent.m_begin_tr, end_tr, record_event_tr', 'src/uvm/base/uvm_component.py'],
          ['UVMRecorder.close, free, get_handle', 'src/uvm/base/uvm_recorder.py'], ['UVMTrStream.open_recorder', 'src/uvm/base/uvm_tr_stream.py'], ['UVMTrDatabase.open_stream, establish_link', 'src/uvm/base/uvm_tr_database.py']],
 'note': 'databases, streams and records are those of a user (the documented hooks); what the text database writes is not part of this, closing a stream is not in the library; each operation is proved from every state, a search runs histories',
}
PATCH_METHODS = True


class Rec(UVMRecorder):
    def __init__(self, name, log):
        super().__init__(name)
        self.log = log

    def do_open(self, stream, open_time, type_name): self.log.append(['open', self, stream, self.get_name(), open_time, type_name])
    def do_close(self, close_time): self.log.append(['close', self, close_time])
    def do_free(self): self.log.append(['free', self])
    def do_record_string(self, name, value): self.log.append(['string', self, name, value])
    def do_record_field(self, name, value, size, radix): self.log.append(['field', self, name, value, size, radix])
    def do_record_field_int(self, name, value, size, radix): self.log.append(['int', self, name, value, size, radix])
    def do_record_object(self, name, value): self.log.append(['object', self, name, value])


class Str(UVMTrStream):
    def __init__(self, name, log, gives=True):
        super().__init__(name)
        self.log, self.gives = log, gives

    def do_open(self, db, scope, stream_type_name): self.log.append(['stream', self, db, self.get_name(), scope, stream_type_name])

    def do_open_recorder(self, name, open_time, type_name):
        return Rec(name, self.log) if self.gives else None


class Db(UVMTrDatabase):
    def __init__(self, name, log, opens=True, gives=True, closes=True):
        super().__init__(name)
        self.log, self.opens, self.gives, self.closes = log, opens, gives, closes

    def do_open_db(self):
        self.log.append(['db', self])
        return self.opens

    def do_close_db(self):
        self.log.append(['close db', self])
        return self.closes

    def do_open_stream(self, name, scope, type_name): return Str(name, self.log) if self.gives else None
    def do_establish_link(self, link): self.log.append(['link', type(link), link.get_lhs(), link.get_rhs()])


def of(log, *kinds): return [x for x in log if x[0] in kinds]


def clock(S, lo=0):
    """the present"""
    now = S.int('now', lo, None)
    S.stub(sv, 'realtime', lambda unit=None: now)
    return now


def hear(S, ev, log, tag):
    """listen to an event, which keeps its own contract (E01)"""
    S.stub(ev, 'trigger', lambda data=None: log.append([tag, data]))


class Tr(UVMTransaction):
    def __init__(self, name, log):
        super().__init__(name)
        self.log = log

    def get_type_name(self): return 'Tr'
    def do_accept_tr(self): self.log.append(['tr accepts', self])
    def do_begin_tr(self): self.log.append(['tr begins', self])
    def do_end_tr(self): self.log.append(['tr ends', self])
    def do_record(self, recorder): recorder.record_string('of', self.get_name())


def tr(S, log):
    t = Tr('t', log)
    for k in ('accept', 'begin', 'end'):
        hear(S, t.get_event_pool().get(k), log, k + ' event')
    return t


def times(S, t, acc, beg, end):
    S.check('accepted at', t.get_accept_time() == acc)
    S.check('begun at', t.get_begin_time() == beg)
    S.check('ended at', t.get_end_time() == end)


@unit('UVMTransaction.accept_tr', 'UVMTransaction.begin_tr', 'UVMTransaction.begin_child_tr', 'UVMTransaction.m_begin_tr', 'UVMTransaction.end_tr')
def own_times(S):
    log, now = [], clock(S)
    t = tr(S, log)
    t.accept_time, t.begin_time = S.int('a0', -1, None), S.int('b0', -1, None)
    t.end_time = S.int('e0', -1, None)
    a, b, e = t.accept_time, t.begin_time, t.end_time
    given = S.int('t', 0, None)
    at = S.ite(given == 0, now, given)
    op = S.choice('op', ['accept', 'begin', 'child', 'end'])
    if op == 'accept':
        t.accept_tr(given)
        times(S, t, at, b, e)
    elif op == 'end':
        t.end_tr(given)
        times(S, t, a, b, at)
    else:
        h = t.begin_tr(given) if op == 'begin' else t.begin_child_tr(given, S.choice('parent', [0, 123456789]))
        S.check('no record', h == 0 and t.get_tr_handle() == 0)
        times(S, t, a, at, -1)
        S.check('it is active', t.is_active() is True)
    k = {'child': 'begin'}.get(op, op)
    S.check('the hook and then the event, once', [x[0] for x in log] == ['tr ' + k + 's', k + ' event'])


def opened(S, log, name='db', tag='s'):
    db = Db(name, log)
    return db, db.open_stream(tag, 'scope', 'T')


@unit('UVMTransaction.begin_tr', 'UVMTransaction.begin_child_tr', 'UVMTransaction.m_begin_tr')
def own_record(S):
    """a transaction with a stream of its own"""
    log, now = [], clock(S)
    t = tr(S, log)
    db, st = opened(S, log)
    parent = st.open_recorder('parent', 1, 'P')
    of_parent = S.choice('parent', ['none', 'zero', 'open', 'closed', 'freed', 'unknown'])
    h = 0 if of_parent == 'zero' else 987654321 if of_parent == 'unknown' else parent.get_handle()
    if of_parent == 'closed':
        parent.close(2)
    if of_parent == 'freed':
        parent.free(2)
    child = of_parent in ('open', 'closed')
    t.enable_recording(st)
    st.gives = S.bool('gives')
    again = S.bool('again')
    if again:
        t.begin_tr(3)
        old = t.tr_recorder
        oldh = t.get_tr_handle()
    del log[:]
    given = S.int('t', 0, None)
    at = S.ite(given == 0, now, given)
    got = t.begin_tr(given) if of_parent == 'none' else t.begin_child_tr(given, h)
    S.check('begun', S.and_(t.get_begin_time() == at, t.get_end_time() == -1))
    S.check('one hook, then the event', [x[0] for x in of(log, 'tr begins', 'begin event')] == ['tr begins', 'begin event'])
    o = of(log, 'open')
    if st.gives:
        r = o[0][1] if o else None
        S.check('one record in the stream', len(o) == 1 and o[0][2] is st)
        S.check('of its type, as a child or not', o[0][3] == 'Tr' and o[0][5] == ('Begin_End, Link' if child else 'Begin_No_Parent, Link'))
        # a time of zero is left to the stream
        S.check('opened when it began', S.implies(at != 0, o[0][4] == at))
        S.check('its handle stands for the record', got == t.get_tr_handle() and got != 0 and UVMRecorder.get_recorder_from_handle(got) is r)
        S.check('linked with its parent', of(log, 'link') == ([['link', UVMParentChildLink, parent, r]] if child else []))
    else:
        S.check('no record', o == [] and got == 0 and t.get_tr_handle() == 0 and of(log, 'link') == [])
    if again and old is not None:
        c = of(log, 'close')
        S.check('the one before is closed and freed', len(c) == 1 and c[0][1] is old and [x[1] for x in of(log, 'free')] == [old])
        S.check('when this began', S.implies(at != 0, c[0][2] == at))
        S.check('its handle is gone', UVMRecorder.get_recorder_from_handle(oldh) is None)
        S.check('it has ended once', len(of(log, 'end event')) == 1)
    else:
        S.check('nothing else ends', of(log, 'close', 'free', 'end event') == [])
    del log[:]
    # and its end
    e, keep = S.int('e', 0, None), S.bool('keep')
    if S.bool('dflt'):
        keep = False
        t.end_tr(e)
    else:
        t.end_tr(e, 0 if keep else 1)
    ended = S.ite(e == 0, now, e)
    S.check('ended', t.get_end_time() == ended)
    S.check('the hook first, the event last', log[0] == ['tr ends', t] and log[-1] == ['end event', None] and len(of(log, 'tr ends', 'end event')) == 2)
    if st.gives:
        S.check('fields, closed, freed', [x[0] for x in log[1:-1]] == ['string', 'close'] + ([] if keep else ['free']) and all(x[1] is r for x in log[1:-1]))
        S.check('closed when it ended', S.implies(ended != 0, log[2][2] == ended))
        S.check('handle kept while it is', UVMRecorder.get_recorder_from_handle(got) is (r if keep else None))
    else:
        S.check('no record', len(log) == 2)
    S.check('no record is its own now', t.get_tr_handle() == 0)


STATES = ['new', 'open', 'closed', 'freed']


@unit('UVMRecorder.close', 'UVMRecorder.free', 'UVMRecorder.get_handle', 'UVMRecorder.get_recorder_from_handle', 'UVMRecorder.m_free_id', 'UVMRecorder.is_open', 'UVMRecorder.is_closed')
def record_states(S):
    """a record in each state, and what each operation makes of it"""
    log, now = [], clock(S)
    db, st = opened(S, log)
    other = st.open_recorder('other', 1, 'K')
    oh = other.get_handle()
    state = S.choice('state', STATES)
    known = S.bool('known') and state != 'new'
    if state == 'new':
        r = Rec('r', log)
        S.check('not yet', r.get_handle() == 0 and not r.is_open() and not r.is_closed() and r.get_stream() is None)
    else:
        # its handle is asked for while it is open, or not
        r = st.open_recorder('r', 5, 'K')
        h = r.get_handle() if known else 0
        S.check('open', bool(r.is_open()) and not r.is_closed() and r.get_open_time() == 5 and r.get_stream() is st)
        if state in ('closed', 'freed'):
            r.close(6)
            S.check('closed', not r.is_open() and bool(r.is_closed()) and r.get_close_time() == 6 and r.get_stream() is st)
        if state == 'freed':
            r.free()
            S.check('freed', not r.is_open() and not r.is_closed())
        if known:
            S.check('the handle of a record', UVMRecorder.get_recorder_from_handle(h) is (None if state == 'freed' else r))
    del log[:]
    op = S.choice('op', ['close', 'free', 'handle', 'string', 'field', 'int', 'object'])
    t = S.int('t', 0, None)
    at = S.ite(t == 0, now, t)
    active = state in ('open', 'closed')
    if op == 'close':
        r.close(t)
        S.check('closed if it was open', [x[:2] for x in log] == ([['close', r]] if state == 'open' else []))
        if log:
            S.check('at the time', S.and_(log[0][2] == at, r.get_close_time() == at))
        elif state == 'closed':
            S.check('as before', r.get_close_time() == 6)
        S.check('and is', not r.is_open() and bool(r.is_closed()) == active)
    elif op == 'free':
        r.free(t)
        want = [['close', r], ['free', r]] if state == 'open' else [['free', r]] if state == 'closed' else []
        S.check('closed first, if open, and freed', [x[:2] for x in log] == want)
        if state == 'open':
            S.check('at the time', S.implies(at != 0, S.and_(log[0][2] == at, r.get_close_time() == at)))
        S.check('and is', not r.is_open() and not r.is_closed())
        S.check('no handle', r.get_handle() == 0)
        if known:
            S.check('nor what stands for it', UVMRecorder.get_recorder_from_handle(h) is None)
    elif op == 'handle':
        h2 = r.get_handle()
        S.check('only while it is', (h2 != 0) == active)
        if active:
            S.check('always the same', h2 == r.get_handle() and (not known or h2 == h) and h2 != oh)
            S.check('its own', UVMRecorder.get_recorder_from_handle(h2) is r)
        S.check('nothing happens', log == [])
    else:
        v, n, x = S.int('v'), S.int('n', 1, None), S.choice('x', [0, 1 << 24])
        o = UVMObject('o')
        if op == 'string':
            r.record_string('k', 'text')
            want = ['k', 'text']
        elif op == 'field':
            r.record_field('k', v, n, x)
            want = ['k', v, n, x]
        elif op == 'int':
            r.record_field_int('k', v, n, x)
            want = ['k', v, n, x]
        else:
            r.record_object('k', o)
            want = ['k', o]
        S.check('recorded while it is, once', [y[:3] for y in log] == ([[op, r, 'k']] if active else []))
        if active:
            S.check('what was given', S.and_(*[a == b for a, b in zip(log[0][2:], want)]) if op != 'object' else log[0][3] is o)
    S.check('others as before', other.is_open() and UVMRecorder.get_recorder_from_handle(oh) is other and other.get_handle() == oh)
    S.check('zero stands for none', UVMRecorder.get_recorder_from_handle(0) is None)


@unit('UVMTrStream.open_recorder', 'UVMTrStream.m_do_open', 'UVMTrStream.get_db', 'UVMTrStream.is_open')
def streams(S):
    """a stream, opened or not, and the records of it"""
    log, now = [], clock(S, 1)
    st = Str('s', log, S.bool('gives'))
    S.check('not open yet', not st.is_open() and not st.is_closed() and st.get_db() is None)
    is_open = S.bool('open')
    db = Db('db', log)
    if is_open:
        gives, st = st.gives, db.open_stream('s', 'sc', 'ty')
        st.gives = gives
        S.check('open', bool(st.is_open()) and not st.is_closed() and st.get_db() is db)
        S.check('told once', of(log, 'stream') == [['stream', st, db, 's', 'sc', 'ty']])
    del log[:]
    t = S.int('t', 0, None)
    r = st.open_recorder('n', t, 'ty') if S.bool('type') else st.open_recorder('n', t)
    if is_open and st.gives:
        o = of(log, 'open')
        S.check('one record', len(o) == 1 and o[0][1] is r and o[0][2] is st and o[0][3] == 'n' and len(log) == 1)
        S.check('of the time given, or now', S.and_(o[0][4] == S.ite(t == 0, now, t), r.get_open_time() == o[0][4]))
        S.check('which is open', bool(r.is_open()) and r.get_stream() is st)
    else:
        S.check('none', r is None and log == [])


@unit('UVMTrDatabase.open_db', 'UVMTrDatabase.close_db', 'UVMTrDatabase.open_stream', 'UVMTrDatabase.is_open')
def databases(S):
    log = []
    db = Db('db', log, S.bool('opens'), S.bool('gives'), S.bool('closes'))
    S.check('not open', not db.is_open())
    is_open = False
    for k in range(3):
        op = S.choice('op%d' % k, ['open', 'close', 'stream'])
        del log[:]
        if op == 'close':
            got = db.close_db()
            S.check('asked to close if open', log == ([['close db', db]] if is_open else []))
            is_open = is_open and not db.closes
            S.check('closed?', bool(got) == (not is_open))
        else:
            st = None
            if op == 'open':
                S.check('open?', bool(db.open_db()) == db.opens)
            else:
                st = db.open_stream('n', 'sc', 'ty')
            S.check('asked to open unless open', of(log, 'db') == ([] if is_open else [['db', db]]))
            is_open = db.opens
            if op == 'stream' and is_open and db.gives:
                S.check('one stream', of(log, 'stream') == [['stream', st, db, 'n', 'sc', 'ty']] and bool(st.is_open()) and st.get_db() is db)
            else:
                S.check('no stream', st is None and of(log, 'stream') == [])
        S.check('is open', bool(db.is_open()) == is_open)


class Ends:
    """the ends a link can have"""
    def __init__(self, S, log):
        self.mine, self.other = Db('mine', log), Db('other', log)
        self.at = {}
        for n, db in (('mine', self.mine), ('other', self.other)):
            s = db.open_stream('s' + n, '', '')
            self.at['stream ' + n], self.at['record ' + n] = s, s.open_recorder('r' + n, 1, '')
        freed = self.at['stream mine'].open_recorder('gone', 1, '')
        self.at['closed'] = self.at['stream mine'].open_recorder('closed', 1, '')
        self.at['closed'].close(2)
        self.at['none'], self.at['object'] = None, UVMObject('o')
        self.at['sequence'] = UVMSequence('q')


@unit('UVMTrDatabase.establish_link', 'UVMParentChildLink.get_link', 'UVMRelatedLink.get_link', 'UVMCauseEffectLink.get_link', 'UVMLinkBase.set', 'UVMLinkBase.set_lhs', 'UVMLinkBase.set_rhs')
def links(S):
    log = []
    w = Ends(S, log)
    l, r = S.choice('l', sorted(w.at)), S.choice('r', sorted(w.at))
    kind = S.choice('kind', [UVMParentChildLink, UVMRelatedLink, UVMCauseEffectLink])
    a, b = w.at[l], w.at[r]
    if S.bool('made'):
        k = kind.get_link(a, b)
    else:
        k = kind.get_link(b, a)
        k.set_lhs(a)
        k.set_rhs(b)
    S.check('the link of the two', k.get_lhs() is a and k.get_rhs() is b)
    del log[:]
    n = len(S.reports)
    w.mine.establish_link(k)
    ok = {'stream mine', 'record mine', 'closed'}
    if l in ok and r in ok:
        S.check('linked once', log == [['link', kind, a, b]] and len(S.reports) == n)
    else:
        S.check('refused, with a warning', log == [] and len(S.reports) > n and len(S.reports.warnings) == len(S.reports))


class Comp(UVMComponent):
    def __init__(self, name, log, db, detail=UVM_FULL):
        super().__init__(name, None)
        self.log, self.tr_database, self.recording_detail = log, db, detail

    def do_accept_tr(self, t): self.log.append(['comp accepts', t])
    def do_begin_tr(self, t, stream_name, tr_handle): self.log.append(['comp begins', t, stream_name, tr_handle])
    def do_end_tr(self, t, tr_handle): self.log.append(['comp ends', t, tr_handle])


def comp(S, log, db, detail):
    c = Comp('c', log, db, detail)
    for k in ('accept_tr', 'begin_tr', 'end_tr'):
        hear(S, c.event_pool.get(k), log, 'comp ' + k)
    return c


@unit('UVMComponent.accept_tr')
def comp_accepts(S):
    log, now = [], clock(S)
    c, t = comp(S, log, Db('db', log), UVM_NONE), tr(S, log)
    given = S.int('t', 0, None)
    c.accept_tr(t, given)
    S.check('accepted', t.get_accept_time() == S.ite(given == 0, now, given))
    S.check('both, hooks first', [x[0] for x in log] == ['tr accepts', 'accept event', 'comp accepts', 'comp accept_tr'])


class Item(UVMSequenceItem):
    log = None
    def do_record(self, recorder): recorder.record_string('of', self.get_name())


def begins(where):
    """begin, from a component with earlier transactions, and end"""
    def f(S):
        log, now = [], clock(S)
        db = Db('db', log)
        on = S.bool('on')
        c = comp(S, log, db, UVM_FULL)
        # a transaction of before, in the stream or elsewhere
        first = Tr('first', log)
        before = S.choice('before', ['nothing', 'main', 'other'])
        if before != 'nothing':
            c.begin_tr(first, before, '', '', 1)
        r0 = of(log, 'open')[0][1] if before != 'nothing' else None
        c.recording_detail = UVM_FULL if on else UVM_NONE
        pstream = db.open_stream('ps', '', '')
        prec = pstream.open_recorder('p', 1, '')
        # the parent: given by its handle, or that of the sequence the item is part of if there is none of the handle
        parent, seq = S.choice('parent', [('none', False), ('handle', False), ('freed', False)] if where == '' else
                               [('none', True), ('handle', True), ('freed', True)] if where == 'main' else [('none', False), ('none', True)])
        item = seq or (where == 'other' and S.bool('item'))
        t = Item('t') if item else Tr('t', log)
        srec = pstream.open_recorder('sp', 1, '')
        if seq:
            q = UVMSequence('q')
            q.m_tr_recorder = srec
            t.set_item_context(q)
        h = 0 if parent == 'none' else prec.get_handle()
        if parent == 'freed':
            prec.free()
        prec = prec if parent == 'handle' else srec
        hear(S, t.get_event_pool().get('begin'), log, 'begin event')
        hear(S, t.get_event_pool().get('end'), log, 'end event')
        own = on and S.bool('own')
        if own:
            t.enable_recording(pstream)
        named, label, desc = S.choice('dress', [(True, '', ''), (False, 'lab', ''), (True, '', 'des')] + [(True, 'lab', 'des')] * (where == 'main'))
        if not named:
            t.set_name('')
        linked = seq or parent == 'handle'
        given = S.int('t', 0, None)
        at = S.ite(given == 0, now, given)
        del log[:]
        if h and S.bool('child'):
            got = c.begin_child_tr(t, h, where, label, desc, given)
        else:
            got = c.begin_tr(t, where, label, desc, given, h)
        S.check('begun', S.and_(t.get_begin_time() == at, t.get_end_time() == -1))
        ev = of(log, 'tr begins', 'begin event', 'comp begins', 'comp begin_tr')
        S.check('hooks and events', [x[0] for x in ev] == ['tr begins'] * (not item) + ['begin event'] + ['comp begins'] * on + ['comp begin_tr'])
        S.check('the event brings the transaction', ev[-1][1] is t)
        mine = [x for x in of(log, 'open') if x[2] is not pstream]
        if on:
            r = mine[0][1] if mine else None
            S.check('the hook gets the handle', ev[-2][1] is t and ev[-2][2] == where and ev[-2][3] == got)
            S.check('one record', len(mine) == 1 and mine[0][3] == ('t' if named else t.get_type_name()) and mine[0][5] == ('Begin_End, Link' if linked else 'Begin_No_Parent, Link'))
            S.check('opened when it began', S.implies(at != 0, mine[0][4] == at))
            st = mine[0][2]
            same = before != 'nothing' and (where or 'main') == before
            S.check('in the stream asked for', st.get_db() is db and st.get_name() == (where or 'main'))
            S.check('of which there is one', same == (r0 is not None and r0.get_stream() is st) and len(of(log, 'stream')) == (0 if same else 1))
            S.check('its handle', got != 0 and UVMRecorder.get_recorder_from_handle(got) is r)
            S.check('label and description', of(log, 'string') == [['string', r, k, v] for k, v in (('label', label), ('desc', desc)) if v])
            L = [x[1:] for x in of(log, 'link') if x[2] is r or x[3] is r]
            want = []
            if linked:
                want.append([UVMParentChildLink, prec, r])
            if own:
                want.append([UVMRelatedLink, r, UVMRecorder.get_recorder_from_handle(t.get_tr_handle())])
            S.check('links', L == want)
        else:
            S.check('nothing', of(log, 'open', 'stream', 'string', 'link', 'db') == [] and got == 0)
        S.check('nothing ends', of(log, 'close', 'free') == [])
        # and the end of it
        del log[:]
        e, keep = S.int('e', 0, None), S.bool('keep')
        ended = S.ite(e == 0, now, e)
        c.end_tr(t, e, 0 if keep else 1)
        S.check('ended', t.get_end_time() == ended)
        ev = of(log, 'tr ends', 'end event', 'comp ends', 'comp end_tr')
        S.check('hooks and events of the end', [x[0] for x in ev] == ['tr ends'] * (not item) + ['end event'] + ['comp ends'] * on + ['comp end_tr'])
        if on:
            S.check('the hook has the handle', ev[-2][1:] == [t, got])
            x = [y for y in of(log, 'string', 'close', 'free') if y[1] is r]
            S.check('fields, closed, freed', [y[0] for y in x] == ['string', 'close'] + ([] if keep else ['free']))
            S.check('its own fields', x[0][3] == t.get_name())
            S.check('closed when it ended', S.implies(ended != 0, x[1][2] == ended))
            S.check('handle kept while it is', UVMRecorder.get_recorder_from_handle(got) is (r if keep else None))
        S.check('only its records', len(of(log, 'close')) == (1 if on else 0) + (1 if own else 0) and len(of(log, 'free')) == (0 if keep else len(of(log, 'close'))))
        S.check('the others are open', r0 is None or bool(r0.is_open()))
        del log[:]
        c.end_tr(t, e)
        S.check('once only', of(log, 'close', 'free', 'string') == [])
    f.__name__ = 'begins_' + (where or 'unnamed')
    return f


for _w in ('', 'main', 'other'):
    unit('UVMComponent.begin_tr', 'UVMComponent.begin_child_tr', 'UVMComponent.m_begin_tr', 'UVMComponent.end_tr', 'UVMComponent.get_tr_stream')(begins(_w))


@unit('UVMComponent.record_event_tr', 'UVMComponent.record_error_tr')
def events(S):
    log, now = [], clock(S, 1)
    db = Db('db', log)
    c = comp(S, log, db, UVM_FULL)
    kind, where = S.choice('kind', ['event', 'error']), S.choice('where', ['', 'main', 'other'])
    if S.bool('before'):
        c.begin_tr(Tr('b', log), where, '', '', 1)
    there = [x[1] for x in of(log, 'stream')]
    del log[:]
    info = Tr('i', log) if S.bool('info') else None
    label, desc, given, keep = S.choice('label', ['', 'lab']), S.choice('desc', ['', 'des']), S.int('t', 0, None), S.bool('keep')
    at = S.ite(given == 0, now, given)
    got = (c.record_event_tr if kind == 'event' else c.record_error_tr)(where, info, label, desc, given, 1 if keep else 0)
    o = of(log, 'open')
    r = o[0][1]
    S.check('one record', len(o) == 1 and o[0][3] == label and o[0][5] == ('Event, Link' if keep else 'Event'))
    S.check('in the stream', o[0][2].get_name() == (where or 'main') and (not there or o[0][2] is there[0]))
    want = [['string', r, k, v] for k, v in (('label', label), ('desc', desc)) if v] + ([['string', r, 'of', 'i']] if info else [])
    S.check('what it records', of(log, 'string') == want)
    S.check('closed, and freed', [x[0] for x in log[-2:]] == (['close', 'free'] if not keep else [log[-2][0], 'close']))
    S.check('at the time', S.and_(o[0][4] == at, of(log, 'close')[0][2] == at))
    S.check('the handle if kept', got == (r.get_handle() if keep else 0) and (got != 0) == keep)


@unit('UVMComponent.get_tr_stream')
def tr_streams(S):
    log = []
    db = Db('db', log)
    c = comp(S, log, db, UVM_FULL)
    seen = {}
    for k in range(3):
        key = S.choice('n%d' % k, ['a', 'b']), S.choice('t%d' % k, ['', 'x'])
        st = c.get_tr_stream(*key) if key[1] else c.get_tr_stream(key[0])
        S.check('one of each name and type', seen.setdefault(key, st) is st and len(set(map(id, seen.values()))) == len(seen))
        S.check('of the name', st.get_name() == key[0])
    S.check('as asked', sorted(x[3:] for x in of(log, 'stream')) == sorted([k[0], 'c', k[1]] for k in seen))


@search(runs=600)
def histories(S):
    """components and transactions of any history: the records are those of the model"""
    log, now = [], [1]
    S.stub(sv, 'realtime', lambda unit=None: now[0])
    db = Db('db', log)
    cs = [Comp('c%d' % i, log, db, S.choice('d%d' % i, [UVM_FULL, UVM_FULL, UVM_NONE])) for i in range(2)]
    ts = [Tr('t%d' % i, log) for i in range(4)]
    live, handles, streams = {}, {}, {}
    for k in range(S.int('len', 0, 24)):
        now[0] += S.int('dt%d' % k, 0, 3)
        c = cs[S.int('c%d' % k, 0, 1)]
        t = ts[S.int('t%d' % k, 0, 3)]
        del log[:]
        if (c, t) in live:
            rec, h = live.pop((c, t))
            keep = S.bool('k%d' % k)
            c.end_tr(t, free_handle=0 if keep else 1)
            S.check('ended', t.get_end_time() == now[0])
            S.check('exactly that record', [x[:2] for x in of(log, 'close', 'free')] == ([] if rec is None else [['close', rec], ['free', rec]][:1 if keep else 2]))
            if rec is not None and not keep:
                del handles[h]
        else:
            where = S.choice('s%d' % k, ['', 'main', 'a', 'b'])
            par = S.choice('p%d' % k, [0] + sorted(handles))
            h = c.begin_tr(t, where, parent_handle=par)
            on = c.recording_detail != UVM_NONE
            o = of(log, 'open')
            S.check('recorded once', len(o) == (1 if on else 0) and (h != 0) == on)
            rec = o[0][1] if on else None
            if on:
                st = streams.setdefault((c, where or 'main'), o[0][2])
                S.check('where', o[0][2] is st and len(set(map(id, streams.values()))) == len(streams))
                S.check('link', of(log, 'link') == ([['link', UVMParentChildLink, handles[par], rec]] if par else []))
                S.check('a handle of its own', h not in handles)
                handles[h] = rec
            live[(c, t)] = rec, h
        for h, r in handles.items():
            S.check('handles', UVMRecorder.get_recorder_from_handle(h) is r)
            S.check('open as long as it lives', bool(r.is_open()) == any(x is r for x, _ in live.values()))
