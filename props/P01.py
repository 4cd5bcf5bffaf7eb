"""P01: packing and unpacking."""
PROPERTY = {
 'title': 'What is packed comes back when it is unpacked',
 'statement': 'Packing appends exactly the requested number of low bits of an integer or array of bytes or words, or the characters of a string, behind what was packed before, in the chosen bit order, and changes nothing already packed. Unpacking in the same order from the same position gives the same values back (integers modulo their size) and advances by the same number of bits, and asking for more bits than there are reports an error and leaves the position where it was. The same holds for objects with any tree of fields, packed into and unpacked from bits, bytes or words, with empty objects marked as such when metadata is enabled.',
 'over': ['inputs', 'configurations'],
 'text': 'any stream packed so far, any position, size, value (negative ones too) and bit order; arrays of any length',
 'why': 'tests pack four fixed little-endian arrays and one sequence of integers; most positions, sizes and the big-endian arrays and strings are never exercised',
 'files': ['src/uvm/base/uvm_packer.py', 'src/uvm/base/uvm_object.py', 'src/uvm/macros/uvm_object_defines.py'],
 'mech': [['UVMPacker.pack_*/unpack_*/get_*/put_*', 'src/uvm/base/uvm_packer.py'], ['UVMObject.pack/unpack and the _bytes and _ints variants', 'src/uvm/base/uvm_object.py'], ['pack and unpack in uvm_field_utils_start', 'src/uvm/macros/uvm_object_defines.py']],
 'note': 'integers are unbounded bit vectors; streams, positions and sizes are arbitrary (loops cut with inferred invariants); partial arrays and whole objects are bounded stand-ins (searches), not counted as proved',
}

from vc.unit import unit, search
import uvm.base.uvm_packer as M
from uvm.base.uvm_packer import UVMPacker
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_object_globals import UVM_DEFAULT, UVM_NOPACK
from uvm.macros.uvm_object_defines import (uvm_object_utils, uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int,
                                           uvm_field_string, uvm_field_object)

LIM = 1 << 40


def hints(S, v, n):
    """candidate values of loop variables"""
    S.template(lambda k, v0: v0 >> k)
    S.template(lambda k, v0: S.bitwise(k, lambda i: S.bit(v, k - 1 - i)))
    S.template(lambda k, v0: S.bitwise(k, lambda i: S.bit(v, n - k + i)))
    S.template(lambda k, v0: S.bitwise(k, lambda i: S.bit(v, i)))


def packer(S, size=False):
    """a packer in the middle of packing: nothing beyond the position"""
    p = UVMPacker()
    p._vc_root = True
    p.big_endian = 1 if S.bool('big') else 0
    p.count = S.int('count', 0, LIM, cap=80)
    p.m_bits = S.bits('old', p.count)
    return p


def value(S, name='v'):
    v = S.bits(name, None)
    return ~v if S.bool(name + '.neg') else v


def placed(S, old, c, n, v, big):
    """the stream after the low n bits of v were put at position c"""
    def bit(i):
        j = i - c
        return S.or_(S.and_(i < c, S.bit(old, i)), S.and_(i >= c, S.bit(v, S.ite(big, n - 1 - j, j) if False else (n - 1 - j if big else j))))
    return S.bitwise(c + n, bit)


@unit('UVMPacker.flip_bit_order')
def flip(S):
    p = UVMPacker()
    v = value(S)
    n = S.int('n', 0, LIM, cap=80)
    hints(S, v, n)
    S.check('bits in opposite order', p.flip_bit_order(v, n) == S.bitwise(n, lambda i: S.bit(v, n - 1 - i)))


def mk_pack(meth):
    def pack(S):
        p = packer(S)
        old, c = p.m_bits, p.count
        v = value(S)
        n = S.int('n', 0, LIM, cap=80)
        hints(S, v, n)
        getattr(p, meth)(v, n)
        S.check('the bits are appended', p.m_bits == placed(S, old, c, n, v, p.big_endian == 1))
        S.check('and counted', p.count == c + n)
        p.set_packed_size()
        S.check('the size is what was packed', p.get_packed_size() == c + n)
        S.check('unpacking starts over', p.count == 0)
    pack.__name__ = meth
    return unit('UVMPacker.' + meth, 'UVMPacker.set_packed_size')(pack)


pack_field = mk_pack('pack_field')
pack_field_int = mk_pack('pack_field_int')


def stream(S):
    """a packer in the middle of unpacking an arbitrary stream"""
    p = UVMPacker()
    p._vc_root = True
    p.big_endian = 1 if S.bool('big') else 0
    p.count = S.int('count', 0, LIM, cap=80)
    p.m_packed_size = S.int('total', 0, LIM, cap=160)
    S.require(p.count <= p.m_packed_size)
    p.m_bits = S.bits('stream', p.m_packed_size)
    return p


def taken(S, bits, c, n, big):
    """the n bits at position c"""
    return S.bitwise(n, lambda i: S.bit(bits, c + n - 1 - i) if big else S.bit(bits, c + i))


def mk_unpack(meth):
    def unpack(S):
        p = stream(S)
        bits, c, tot = p.m_bits, p.count, p.m_packed_size
        n = S.int('n', 0, LIM, cap=80)
        hints(S, bits >> c, n)
        S.template(lambda k, v0: S.bitwise(c + k, lambda i: S.and_(i >= c, S.bit(bits, i))))
        S.template(lambda k, v0: S.bitwise(c + n, lambda i: S.and_(i >= c + n - k, S.bit(bits, i))))
        # the same again once moved down to bit 0
        S.template(lambda k, v0: S.bitwise(k, lambda i: S.bit(bits, c + k - 1 - i)))
        S.template(lambda k, v0: S.bitwise(k, lambda i: S.bit(bits, c + n - k + i)))
        r = getattr(p, meth)(n)
        if S.fork(n <= tot - c):
            S.check('the bits at the position', r == taken(S, bits, c, n, p.big_endian == 1))
            S.check('and the position moves behind them', p.count == c + n)
            S.check('no error', len(S.reports.errors) == 0)
        else:
            S.check('not enough bits: an error', len(S.reports.errors) == 1)
            S.check('not enough bits: the position stays', p.count == c)
        S.check('the stream stays', p.m_bits == bits)
    unpack.__name__ = meth
    return unit('UVMPacker.' + meth, 'UVMPacker.enough_bits')(unpack)


unpack_field = mk_unpack('unpack_field')
unpack_field_int = mk_unpack('unpack_field_int')


@unit('UVMPacker.pack_field', 'UVMPacker.unpack_field', 'UVMPacker.set_packed_size')
def there_and_back(S):
    """lemma over the two contracts: whatever is packed before and behind, a field comes back"""
    old, c = None, S.int('count', 0, LIM, cap=80)
    old = S.bits('old', c)
    v = value(S)
    n = S.int('n', 0, LIM, cap=80)
    m = S.int('m', 0, LIM, cap=80)
    w = S.bits('w', None)
    big = S.bool('big')
    one = placed(S, old, c, n, v, big)
    two = placed(S, one, c + n, m, w, big)
    low = S.bitwise(n, lambda i: S.bit(v, i))
    S.check('the field', taken(S, two, c, n, big) == low)
    S.check('what was there before', S.bitwise(c, lambda i: S.bit(two, i)) == old)
    if not S.symbolic:
        p = UVMPacker()
        p.big_endian = 1 if big else 0
        p.count, p.m_bits = c, old
        p.pack_field_int(v, n)
        p.pack_field(w, m)
        p.set_packed_size()
        p.unpack_field(c)
        S.check('really', p.unpack_field_int(n) == low)


# ---------------------------------------------------------------- arrays
def mk_array(meth, w):
    def pack(S):
        p = packer(S)
        old, c, big = p.m_bits, p.count, p.big_endian == 1
        L = S.list('a', lambda e: e.bits('x', w))
        n = S.length(L)
        size = S.int('size', -1, LIM, cap=100)
        all_ = S.packed(L, w)
        hints(S, all_, S.ite(size < 0, n * w, size))
        getattr(p, meth)(L, size)
        if S.fork(size > n * w):
            S.check('too many bits: an error', len(S.reports.errors) == 1)
            S.check('too many bits: nothing packed', S.and_(p.m_bits == old, p.count == c))
        else:
            sz = S.ite(size < 0, n * w, size)
            S.check('the bits are appended, first element lowest', p.m_bits == placed(S, old, c, sz, all_, big))
            S.check('and counted', p.count == c + sz)
            S.check('no error', len(S.reports.errors) == 0)
    pack.__name__ = meth
    return unit('UVMPacker.' + meth)(pack)


pack_bytes = mk_array('pack_bytes', 8)
pack_ints = mk_array('pack_ints', 32)


def mk_unarray(meth, w):
    def unpack(S):
        p = stream(S)
        bits, c, tot, big = p.m_bits, p.count, p.m_packed_size, p.big_endian == 1
        L = S.list('a', lambda e: e.bits('x', w))
        n = S.length(L)
        old = S.snap(L)
        size = S.int('size', -1, LIM, cap=100)
        sz = S.ite(size < 0, n * w, size)
        got = taken(S, bits, c, sz, big)
        hints(S, bits >> c, sz)
        S.template(lambda k, v0: S.bitwise(c + k, lambda i: S.and_(i >= c, S.bit(bits, i))))
        S.template(lambda k, v0: S.bitwise(c + sz, lambda i: S.and_(i >= c + sz - k, S.bit(bits, i))))

        def new(i):
            o = old[i]
            return S.bitwise(w, lambda j: S.or_(S.and_(i * w + j < sz, S.bit(got, i * w + j)),
                                                S.and_(i * w + j >= sz, S.bit(o, j))))
        S.progress(new)
        getattr(p, meth)(L, size)
        if S.fork(size > n * w):
            S.check('too many bits: an error', len(S.reports.errors) == 1)
            S.check('too many bits: the position stays', p.count == c)
            S.forall_range('too many bits: nothing unpacked', n, lambda i: L[i] == old[i])
        elif S.fork(sz > tot - c):
            S.check('not enough bits: an error', len(S.reports.errors) == 1)
            S.check('not enough bits: the position stays', p.count == c)
            S.forall_range('not enough bits: nothing unpacked', n, lambda i: L[i] == old[i])
        else:
            S.check('the array keeps its length', S.length(L) == n)
            S.forall_range('every element has its bits', n, lambda i: L[i] == new(i))
            S.check('and the position moves behind them', p.count == c + sz)
            S.check('no error', len(S.reports.errors) == 0)
        S.check('the stream stays', p.m_bits == bits)
    unpack.__name__ = meth
    return unit('UVMPacker.' + meth)(unpack)


unpack_bytes = mk_unarray('unpack_bytes', 8)
unpack_ints = mk_unarray('unpack_ints', 32)


def mk_get(meth, w):
    def get(S):
        p = stream(S)
        bits, tot, big = p.m_bits, p.m_packed_size, p.big_endian == 1

        def new(i):
            return S.bitwise(w, lambda j: S.bit(bits, i * w + (w - 1 - j if big else j)))
        S.progress(new)
        L = getattr(p, meth)()
        n = S.length(L)
        S.check('enough elements for all bits', S.and_(n * w >= tot, n * w < tot + w))
        S.forall_range('every element holds its bits', n, lambda i: L[i] == new(i))
        S.check('the stream stays', p.m_bits == bits)
    get.__name__ = meth
    return unit('UVMPacker.' + meth)(get)


get_bytes = mk_get('get_bytes', 8)
get_ints = mk_get('get_ints', 32)


def mk_put(meth, w):
    def put(S):
        p = UVMPacker()
        p._vc_root = True
        p.big_endian = big = 1 if S.bool('big') else 0
        p.count = S.int('count', 0, LIM, cap=80)
        p.m_bits = S.bits('old', None)
        L = S.list('a', lambda e: e.bits('x', w))
        n = S.length(L)
        all_ = S.packed(L, w, lambda x: S.bitwise(w, lambda j: S.bit(x, w - 1 - j)) if big else x)
        getattr(p, meth)(L)
        S.check('the stream is the elements', p.m_bits == all_)
        S.check('and so is its size', p.get_packed_size() == n * w)
        S.check('unpacking starts at the front', p.count == 0)
    put.__name__ = meth
    return unit('UVMPacker.' + meth)(put)


put_bytes = mk_put('put_bytes', 8)
put_ints = mk_put('put_ints', 32)


class Text:
    """a string as packing sees it: its characters encoded"""
    def __init__(self, data): self.data = data
    def encode(self, *a): return self.data


@unit('UVMPacker.pack_string')
def pack_string(S):
    p = packer(S)
    old, c, big = p.m_bits, p.count, p.big_endian
    meta = p.use_metadata = 1 if S.bool('meta') else 0
    L = S.list('ch', lambda e: e.bits('x', 8))
    n = S.length(L)
    all_ = S.packed(L, 8, lambda x: S.bitwise(8, lambda j: S.bit(x, 7 - j)) if big else x)

    def after(k):
        return S.bitwise(c + 8 * k, lambda i: S.or_(S.and_(i < c, S.bit(old, i)), S.and_(i >= c, S.bit(all_, i - c))))
    S.template(lambda k, v0: after(k))
    S.template(lambda k, v0: v0 + 8 * k if v0 is c else None)
    p.pack_string(Text(L))
    S.check('the characters are appended, first one lowest', p.m_bits == after(n))
    S.check('and counted, with a terminator if there is metadata', p.count == c + 8 * n + 8 * meta)


def characters(S, given):
    p = stream(S)
    old, c, big, size = p.m_bits, p.count, p.big_endian, p.m_packed_size
    meta = p.use_metadata = 1 if S.bool('meta') else 0
    S.lists()
    S.long_loops()
    if not S.symbolic:      # characters of one byte, whatever their order of bits
        p.m_bits = old = S.bitwise(size, lambda i: S.and_(S.bit(old, i), (i - c) % 8 not in (0, 7)))
    num = S.int('num', 0, cap=12) if given else -1

    def byte(j):
        return S.bitwise(8, lambda i: S.bit(old, c + 8 * j + (7 - i if big else i)))
    def null(j):
        return S.bitwise(8, lambda i: S.bit(old, c + 8 * j + i)) == 0
    S.template(lambda k, v0: v0 + 8 * k if v0 is c else None)
    S.template(lambda k, v0: S.bitwise(8, lambda i: S.bit(old, c + 8 * k + i)))
    S.grows(1, lambda j: byte(j))
    S.fact('there', lambda j: size - c - 8 * j >= 8)
    S.fact('wanted', lambda j: j < num if given else S.not_(null(j)))
    r = p.unpack_string(num)
    m = S.length(r)
    left = size - c - 8 * m
    S.check('only characters which are there', left >= 0)
    if S.symbolic:
        S.forall('the characters in order', r, lambda i, e: e == byte(i))
    else:
        S.check('the characters in order', list(r.encode()) == [byte(j) for j in range(m)])
    if given:
        S.check('as many as asked for or there are', S.or_(m == num, S.and_(m < num, left < 8)))
    else:
        S.check('up to the first null', S.or_(left < 8, null(m)))
        S.forall_range('up to no later one', m, lambda j: S.not_(null(j)))
    term = (not given or bool(meta)) and left >= 8
    S.check('position behind the characters, and a terminator', p.count == c + 8 * m + (8 if term else 0))
    S.check('the stream is unchanged', p.m_bits == old)


@unit('UVMPacker.unpack_string')
def unpack_chars(S):
    characters(S, True)


@unit('UVMPacker.unpack_string')
def unpack_terminated(S):
    characters(S, False)


@unit('UVMPacker.get_bit', 'UVMPacker.get_packed_bits', 'UVMPacker.get_bits')
def get_bit(S):
    p = stream(S)
    i = S.int('i', 0, LIM, cap=200)
    r = p.get_bit(i)
    S.check('the bit', S.iff(r != 0, S.bit(p.m_bits, i)))
    S.check('an error beyond the stream', S.iff(i >= p.m_packed_size, len(S.reports.errors) > 0))
    S.check('all bits', S.and_(p.get_packed_bits() == p.m_bits, p.get_bits() == p.m_bits))


ALPHA = 'aZ09 _.-äß€\u4e2d\U0001f600\x01\x7f'


def rnd_fields(S, depth, meta, last=True):
    """a random class layout: list of (kind, flag, detail)"""
    out = []
    for i in range(S.int('d%s.n' % depth, 0, 4)):
        q = 'd%s.%d' % (depth, i)
        k = S.choice(q + '.k', ['int', 'int', 'str', 'obj'])
        skip = S.choice(q + '.skip', [False, False, False, True])
        if k == 'str' and not meta and not skip:
            k = 'int'
        if k == 'obj':
            if len(depth) >= 3:
                k = 'int'
            else:
                out.append(('obj', skip, rnd_fields(S, depth + str(i), meta)))
                continue
        out.append((k, skip, None))
    return out


def build(S, fields, tag, top_str=False):
    class C(UVMObject):
        def __init__(self, name='o'):
            UVMObject.__init__(self, name)
    C.__name__ = 'PackC' + tag
    C.type_name = 'PackC' + tag
    names, sub = [], {}
    for i, (k, skip, det) in enumerate(fields):
        names.append('f%d' % i)
        if k == 'obj':
            sub['f%d' % i] = build(S, det, tag + str(i))
    import uvm.macros.uvm_object_defines as D
    D.uvm_field_utils_start(C)
    old = getattr(D, '__CURR_OBJ')
    setattr(D, '__CURR_OBJ', C)
    for i, (k, skip, det) in enumerate(fields):
        {'int': uvm_field_int, 'str': uvm_field_string, 'obj': uvm_field_object}[k](
            'f%d' % i, UVM_DEFAULT + UVM_NOPACK if skip else UVM_DEFAULT)
    setattr(D, '__CURR_OBJ', old)

    def make(fill, path=''):
        o = C()
        for i, (k, skip, det) in enumerate(fields):
            n = 'f%d' % i
            q = path + n
            if k == 'obj':
                v = sub[n](fill, q)
            else:
                v = fill(k, q)
            setattr(o, n, v)
        return o
    return make


def content(o, fields, skipped=False):
    """the packed fields (or those left out) with nested ones"""
    out = []
    for i, (k, skip, det) in enumerate(fields):
        v = getattr(o, 'f%d' % i)
        if k == 'obj':
            if skip:
                out.append(content(v, det, False) + content(v, det, True) if skipped else None)
            else:
                out.append(content(v, det, skipped))
        elif skip == skipped:
            out.append(v & 0xFFFFFFFF if k == 'int' else v)
    return out


def size_of(o, fields, meta):
    n = 0
    for i, (k, skip, det) in enumerate(fields):
        v = getattr(o, 'f%d' % i)
        if skip:
            continue
        n += 32 if k == 'int' else 8 * len(v.encode()) + 8 * meta if k == 'str' else size_of(v, det, meta) + 4 * meta
    return n


@search(runs=300)
def objects(S):
    """a whole object through bits, bytes or words"""
    meta = S.choice('meta', [0, 1])
    fields = rnd_fields(S, '0', meta)
    if not meta and S.bool('tail'):
        fields.append(('str', False, None))
    make = build(S, fields, 'x')

    def fill(k, q):
        if k == 'int':
            return S.choice(q + '.s', [1, 1, -1]) * S.bits(q, S.choice(q + '.w', [1, 8, 31, 32, 40]))
        return S.str(q, alphabet=ALPHA, maxlen=5)
    a = make(lambda k, q: fill(k, 'a.' + q))
    b = make(lambda k, q: fill(k, 'b.' + q))
    want, keep = content(a, fields), content(b, fields, True)
    p = UVMPacker()
    p.use_metadata = meta
    p.big_endian = S.choice('big', [0, 1])
    way = S.choice('way', ['bits', 'int', 'bytes', 'ints'])
    n = size_of(a, fields, meta)
    if way in ('bits', 'int'):
        r = a.pack(p)
        S.check('the size is the sum of the fields', r[0] == n)
        got = b.unpack(r if way == 'bits' else r[1], p)
    elif way == 'bytes':
        L = []
        S.check('the size is the sum of the fields', a.pack_bytes(L, p) == n)
        S.check('as many bytes as needed', len(L) == (n + 7) // 8 and all(0 <= x < 256 for x in L))
        got = b.unpack_bytes(L, p)
    else:
        L = []
        S.check('the size is the sum of the fields', a.pack_ints(L, p) == n)
        S.check('as many words as needed', len(L) == (n + 31) // 32 and all(0 <= x < 1 << 32 for x in L))
        got = b.unpack_ints(L, p)
    S.check('all fields come back', content(b, fields) == want, (content(b, fields), want))
    S.check('fields left out stay', content(b, fields, True) == keep)
    S.check('the packed object stays', content(a, fields) == want)
    S.check('no errors', len(S.reports.errors) == 0, list(S.reports))
    tail = bool(fields) and fields[-1][0] == 'str' and not meta
    S.check('as many bits are unpacked', got == n if not tail else got >= n)


@search(runs=300)
def sequences(S):
    """values of all kinds one after the other"""
    meta = S.choice('meta', [0, 1])

    class Hand(UVMObject):
        def do_pack(self, p):
            for k, v, w in self.items:
                if k == 'int':
                    p.pack_field_int(v, w)
                elif k == 'big':
                    p.pack_field(v, w)
                elif k == 'bytes':
                    p.pack_bytes(v, w)
                elif k == 'ints':
                    p.pack_ints(v, w)
                elif k == 'str':
                    p.pack_string(v)
                else:
                    p.pack_object(v)

        def do_unpack(self, p):
            self.got = []
            for k, v, w in self.items:
                if k == 'int':
                    self.got.append(p.unpack_field_int(w))
                elif k == 'big':
                    self.got.append(p.unpack_field(w))
                elif k == 'bytes':
                    self.got.append(list(p.unpack_bytes([0] * len(v), w)))
                elif k == 'ints':
                    self.got.append(list(p.unpack_ints([0] * len(v), w)))
                elif k == 'str':
                    self.got.append(p.unpack_string() if meta else p.unpack_string(len(v.encode())))
                else:
                    p.unpack_object(v)
                    self.got.append(v.got if v is not None else None)

    def rnd(path, deep):
        o = Hand(path)
        o.items, o.want, o.size = [], [], 0
        for i in range(S.int(path + '.n', 0, 5)):
            q = '%s.%d' % (path, i)
            k = S.choice(q + '.k', ['int', 'big', 'bytes', 'ints', 'str', 'obj'])
            if k in ('int', 'big'):
                w = S.int(q + '.w', 1, 64 if k == 'int' else 200)
                v = S.choice(q + '.s', [1, 1, -1]) * S.bits(q, S.choice(q + '.vw', [1, 8, w, w + 5]))
                o.items.append((k, v, w))
                o.want.append(v & ((1 << w) - 1))
                o.size += w
            elif k in ('bytes', 'ints'):
                u = 8 if k == 'bytes' else 32
                v = [S.bits('%s.%d' % (q, j), u) for j in range(S.int(q + '.len', 0, 4))]
                w = S.int(q + '.w', -1, u * len(v))
                n = u * len(v) if w < 0 else w
                o.items.append((k, v, w))
                o.want.append([x & (((1 << n) - 1) >> (u * j)) & ((1 << u) - 1) for j, x in enumerate(v)])
                o.size += n
            elif k == 'str':
                v = S.str(q, alphabet=ALPHA, maxlen=5)
                o.items.append((k, v, 0))
                o.want.append(v)
                o.size += 8 * len(v.encode()) + 8 * meta
            else:
                v = rnd(q, deep + 1) if deep < 2 and S.bool(q + '.there') else None
                if v is None and not meta:
                    continue
                o.items.append((k, v, 0))
                o.want.append(v.want if v is not None else None)
                o.size += (v.size if v is not None else 0) + 4 * meta
        return o
    o = rnd('o', 0)
    p = UVMPacker()
    p.use_metadata = meta
    p.big_endian = S.choice('big', [0, 1])
    r = o.pack(p)
    S.check('the size is the sum of the fields', r[0] == o.size, (r[0], o.size))
    n = o.unpack(r, p)
    S.check('every value comes back', o.got == o.want, (o.got, o.want))
    S.check('as many bits are unpacked', n == o.size)
    S.check('no errors', len(S.reports.errors) == 0, list(S.reports))
    first = o.pack(p)
    S.check('packing again gives the same', first == r)


@search(runs=200)
def terminated(S):
    """a string up to its terminator; marks of empty objects"""
    p = UVMPacker()
    p.use_metadata = 1
    p.big_endian = S.choice('big', [0, 1])
    t = S.str('t', alphabet=ALPHA, maxlen=6)
    c = S.int('c', 0, 20)
    v = S.bits('v', 40)
    p.pack_field_int(S.bits('pre', c), c)
    p.pack_string(t)
    p.pack_object(None)
    p.pack_field_int(v, 40)
    p.set_packed_size()
    p.unpack_field(c)
    S.check('the string up to its terminator', p.unpack_string() == t)
    p.unpack_object(None)
    S.check('an empty object where one was packed is fine', len(S.reports.errors) == 0)
    S.check('behind both', p.unpack_field_int(40) == v)
    p.count -= 40
    p.m_bits |= 1 << p.count
    p.unpack_object(None)
    S.check('an object to unpack and nowhere to put it', len(S.reports.errors) == 1)
