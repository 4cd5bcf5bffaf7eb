"""P02: printing of objects."""
from vc.unit import unit, search
from uvm.base.uvm_object import UVMObject
from uvm.base.uvm_component import UVMComponent
from uvm.base.uvm_scope_stack import UVMScopeStack
from uvm.base.uvm_printer import UVMTablePrinter, UVMTreePrinter, UVMLinePrinter
from uvm.base.uvm_object_globals import (UVM_DEFAULT, UVM_ALL_ON, UVM_NOPRINT, UVM_PRINT, UVM_COPY, UVM_REFERENCE, UVM_BIN, UVM_OCT, UVM_DEC, UVM_HEX,
                                         UVM_UNSIGNED, UVM_TIME, UVM_NORADIX)
from uvm.macros.uvm_object_defines import uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int, uvm_field_string, uvm_field_object

PROPERTY = {
 'title': 'A printed object shows every field once, in order, as it is',
 'statement': 'Printing an object shows, after a row for the object itself, one row for every field which is to be printed and has a value, in the order of their declaration and then of the print hook, with the name, type, size and value of the field; the rows of a nested object, of the elements of an array or of the child components follow the row of their owner one level deeper. An object declared as a reference, one below the depth asked for, or one which is already being printed shows only its own row. Numbers read in the radix of their field, or else in that of the printer, are the values; the columns of a table line up, and a printer can be used again.',
 'over': ['inputs'],
 'text': 'object graphs and component trees with any fields, radices and printer settings; every number up to 32 bits',
 'why': 'tests print single numbers and strings and look for them somewhere in the text',
 'files': ['src/uvm/base/uvm_printer.py', 'src/uvm/base/uvm_misc.py', 'src/uvm/base/uvm_scope_stack.py', 'src/uvm/macros/uvm_object_defines.py'],
 'mech': [['UVMPrinter.print_object, print_object_header, print_field, print_string, print_array_header', 'src/uvm/base/uvm_printer.py'], ['UVMTablePrinter.emit, UVMTreePrinter.emit', 'src/uvm/base/uvm_printer.py'], ['UVMScopeStack', 'src/uvm/base/uvm_scope_stack.py']],
 'note': 'the widths of a table are proved for any rows, the names of nested scopes to a stated depth; the printed text of whole object graphs is a bounded search; fields without a value (None) are not shown',
}
PATCH_METHODS = True

PREFIX = {UVM_BIN: ("'b", 2), UVM_OCT: ("'o", 8), UVM_DEC: ("'d", 10), UVM_UNSIGNED: ("'d", 10), UVM_HEX: ("'h", 16), UVM_TIME: ('', 10)}


class Row:
    def __init__(self, level, name, type_name, size, val): self.level, self.name, self.type_name, self.size, self.val = level, name, type_name, size, val


@unit('UVMTablePrinter.calculate_max_widths')
def widths(S):
    rows = S.list('rows', lambda e: Row(e.int('level', 0, None), e.str('name'), e.str('type'), e.str('size'), e.str('val')))
    p = UVMTablePrinter()
    p.m_rows = rows
    p.knobs.indent = S.int('indent', 0, 8)
    top = lambda of, least: S.fold(rows, lambda e, w: S.ite(of(e) > w, of(e), w), least)
    want = [top(lambda e: p.knobs.indent * e.level + S.length(e.name), 4), top(lambda e: S.length(e.type_name), 4), top(lambda e: S.length(e.size), 4),
            top(lambda e: S.length(e.val), 5)]
    p.m_max_name = p.m_max_type = p.m_max_size = p.m_max_value = 0
    p.calculate_max_widths()
    S.check('the widest name, type, size and value, or the headers', S.and_(p.m_max_name == want[0], p.m_max_type == want[1], p.m_max_size == want[2],
                                                                            p.m_max_value == want[3]))


@unit('UVMScopeStack.down', 'UVMScopeStack.up', 'UVMScopeStack.get', limit='four levels')
def scope(S):
    st = UVMScopeStack()
    names = []
    for i in range(S.choice('n', [0, 1, 2, 3, 4])):
        names.append('[%d]' % i if i and S.bool('element%d' % i) else S.choice('name%d' % i, ['a', 'bc']))
        st.down(names[-1])
    S.check('the depth', st.depth() == len(names))
    arg = S.choice('arg', ['', 'x', '[7]'])
    st.set_arg(arg)
    full = names[0] if names else ''
    for x in names[1:]:
        full += x if x[0] == '[' else '.' + x
    if arg:
        full += ('.' if full else '') + arg
    S.check('the name', st.get() == full)
    sep = S.choice('sep', ['.', '['])
    while names:
        x = names.pop()
        if (x[0] == '[') == (sep == '['):
            break
    st.up(sep)
    S.check('up to the owner', st.depth() == len(names) and st.get_arg() == '')
    left = names[0] if names else ''
    for x in names[1:]:
        left += x if x[0] == '[' else '.' + x
    S.check('the name there', st.get() == left)


# ---------------------------------------------------------------- whole objects
def make_class(name, base, fields):
    def init(self, nm='o', *a):
        base.__init__(self, nm, *a)
        for f, k, m in fields:
            setattr(self, f, {'int': 0, 'str': '', 'obj': None}[k])
    T = type(name, (base,), {'__init__': init, 'do_print': lambda self, p: hook(self, p)})
    T.hooks = []
    uvm_object_utils_begin(T)
    for f, k, m in fields:
        {'str': uvm_field_string, 'obj': uvm_field_object}.get(k, uvm_field_int)(f, m)
    uvm_object_utils_end(T)
    T.decl = fields
    return T


def hook(self, p):
    for h in getattr(self, 'hooked', []):
        k = h[0]
        if k == 'int':
            (p.print_field if h[4] else p.print_field_int)(h[1], h[2], 32, h[3])
        elif k == 'str':
            p.print_string(h[1], h[2])
        elif k == 'real':
            p.print_real(h[1], h[2])
        elif k == 'time':
            p.print_time(h[1], h[2])
        elif k == 'gen':
            p.print_generic(h[1], h[2], h[3], h[4])
        elif k == 'obj':
            p.print_object(h[1], h[2])
        else:
            p.print_array_header(h[1], len(h[2]), h[3])
            for i, x in enumerate(h[2]):
                if isinstance(x, UVMObject):
                    p.print_object(p.index_string(i), x)
                else:
                    p.print_field(p.index_string(i), x, 32)
            p.print_array_footer(len(h[2]))


def fields_of(o):
    out = []
    for T in reversed(type(o).__mro__):
        out += T.__dict__.get('decl', [])
    return out


def rows_of(o, name, level, knobs, busy, out):
    """the rows an object is to have: (level, name, type, size, value or (number, radix))"""
    ref = lambda x: '@%d' % x.get_inst_id() if knobs['reference'] else '-'
    out.append((level, name, o.get_type_name(), '-', ref(o)))
    if o in busy or not (knobs['depth'] == -1 or knobs['depth'] > level):
        return
    busy = busy + [o]
    num = lambda v, r: (v, knobs['radix'] if r == UVM_NORADIX else r)
    typ = lambda r: 'time' if r == UVM_TIME else 'integral'
    text = lambda v: v if v != '' else '""'
    if isinstance(o, UVMComponent):
        for c in o.kids:
            if c.print_enabled:
                rows_of(c, c.get_name(), level + 1, knobs, busy, out)
    for f, k, m in fields_of(o):
        v = getattr(o, f)
        if m & UVM_NOPRINT or not m & UVM_PRINT or v is None:
            continue
        if k == 'int':
            r = m & 0xf000000
            out.append((level + 1, f, typ(r), '32', num(v, r)))
        elif k == 'str':
            out.append((level + 1, f, 'string', str(len(v)), text(v)))
        elif m & UVM_REFERENCE:
            out.append((level + 1, f, v.get_type_name(), '-', ref(v)))
        else:
            rows_of(v, f, level + 1, knobs, busy, out)
    for h in getattr(o, 'hooked', []):
        k = h[0]
        if k == 'int':
            out.append((level + 1, h[1], typ(h[3]), '32', num(h[2], h[3])))
        elif k == 'str':
            out.append((level + 1, h[1], 'string', str(len(h[2])), text(h[2])))
        elif k == 'real':
            out.append((level + 1, h[1], 'real', '64', str(h[2])))
        elif k == 'time':
            out.append((level + 1, h[1], 'time', '64', num(h[2], UVM_TIME)))
        elif k == 'gen':
            out.append((level + 1, h[1], h[2], str(h[3]), text(h[4])))
        elif k == 'obj':
            rows_of(h[2], h[1], level + 1, knobs, busy, out)
        else:
            out.append((level + 1, h[1], h[3], str(len(h[2])), '-'))
            for i, x in enumerate(h[2]):
                if isinstance(x, UVMObject):
                    rows_of(x, '[%d]' % i, level + 2, knobs, busy, out)
                else:
                    out.append((level + 2, '[%d]' % i, 'integral', '32', num(x, UVM_NORADIX)))


def shows(text, want, radix_shown, bits=32):
    """the text of a value shows it"""
    if not isinstance(want, tuple):
        return text == want
    v, r = want
    pre, base = PREFIX[r]
    if radix_shown and not (r == UVM_DEC and (v >> (bits - 1)) != 0):
        if not text.startswith(pre):
            return False
        text = text[len(pre):]
    try:
        return (int(text, base) - v) % (1 << bits) == 0
    except ValueError:
        return False


def values(S, name):
    return S.choice(name, [0, 1, 7, 8, 9, 10, 255, 0x1234, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, -1, -300])


RADIX = [UVM_NORADIX, UVM_NORADIX, UVM_BIN, UVM_OCT, UVM_DEC, UVM_UNSIGNED, UVM_HEX, UVM_TIME]
MASKS = [UVM_DEFAULT, UVM_ALL_ON, UVM_ALL_ON | UVM_NOPRINT, UVM_COPY, UVM_PRINT]


def world(S):
    classes = []
    for i in range(3):
        base = UVMObject if not classes or S.bool('root%d' % i) else S.choice('base%d' % i, classes)
        fields = []
        for j in range(S.int('nf%d' % i, 0, 3)):
            k = S.choice('k%d_%d' % (i, j), ['int', 'str', 'obj'])
            m = S.choice('m%d_%d' % (i, j), MASKS)
            if k == 'int':
                m |= S.choice('x%d_%d' % (i, j), RADIX)
            if k == 'obj' and S.choice('ref%d_%d' % (i, j), [False, False, True]):
                m |= UVM_REFERENCE
            fields.append(('f%d_%d' % (i, j), k, m))
        classes.append(make_class('C%d' % i, base, fields))
    objs = []
    for i in range(S.int('objs', 1, 4)):
        T = S.choice('t%d' % i, classes)
        objs.append(T('obj%d' % i))
    comps = []
    if S.bool('comps'):
        K = make_class('K', UVMComponent, [('kf', 'int', UVM_DEFAULT), ('ko', 'obj', UVM_DEFAULT)][:S.int('kn', 0, 2)])
        for i in range(S.int('nc', 1, 4)):
            par = S.choice('p%d' % i, comps) if comps else None
            c = K('c%d' % i, par)
            c.kids = []
            if par is not None:
                par.kids.append(c)
                c.print_enabled = S.choice('pe%d' % i, [True, True, False])
            comps.append(c)
    for i, o in enumerate(objs + comps):
        for f, k, m in fields_of(o):
            key = 'v%d%s' % (i, f)
            setattr(o, f, values(S, key) if k == 'int' else S.choice(key, ['', 'a', 'some text']) if k == 'str' else S.choice(key, [None] + objs))
        o.hooked = []
        for j in range(S.int('nh%d' % i, 0, 3)):
            key = 'h%d_%d' % (i, j)
            n = 'h%d' % j
            k = S.choice(key, ['int', 'str', 'real', 'time', 'gen', 'obj', 'arr', 'arr'])
            if k == 'int':
                o.hooked.append((k, n, values(S, key + 'v'), S.choice(key + 'r', RADIX), S.bool(key + 'w')))
            elif k == 'str':
                o.hooked.append((k, n, S.choice(key + 'v', ['', 'x', 'a longer text than others'])))
            elif k == 'real':
                o.hooked.append((k, n, S.choice(key + 'v', [0.5, 1.25, -3.0])))
            elif k == 'time':
                o.hooked.append((k, n, S.int(key + 'v', 0, 1000)))
            elif k == 'gen':
                o.hooked.append((k, n, S.choice(key + 't', ['my_type', 't']), S.int(key + 's', 0, 200), S.choice(key + 'v', ['v', '', 'vv'])))
            elif k == 'obj':
                o.hooked.append((k, n, S.choice(key + 'v', objs)))
            else:
                o.hooked.append((k, n, [S.choice('%se%d' % (key, q), objs + [3, 200]) for q in range(S.int(key + 'n', 0, 3))], S.choice(key + 't', ['array', 'queue(int)'])))
    return objs, comps


def check_table(S, text, rows, radix_shown):
    lines = text.split('\n')
    lines = [x for x in lines if x.strip() and set(x.strip()) != {'-'}]
    S.check('one row each', len(lines) == len(rows) + 1, dict(text=text))
    if len(lines) != len(rows) + 1:
        return
    head = lines[0]
    at = [head.index(x) for x in ('Name', 'Type', 'Size', 'Value')]
    starts = None
    for line, (level, name, typ, size, val) in zip(lines[1:], rows):
        line = line + ' '
        cells = [line[a:b] for a, b in zip(at, at[1:] + [len(line)])]
        S.check('the name, deeper for each level', cells[0].strip() == name and len(cells[0]) - len(cells[0].lstrip()) == 2 * level, dict(text=text, row=name))
        S.check('the type and the size in their columns', cells[1].rstrip() == typ and cells[2].rstrip() == size, dict(text=text, row=name))
        S.check('the value', shows(cells[3].rstrip(), val, radix_shown, 64 if size == '64' else 32), dict(text=text, row=name, val=val))


@search(runs=200, weight=2)
def table(S):
    """object graphs in tables"""
    objs, comps = world(S)
    p = UVMTablePrinter()
    for k in range(S.int('prints', 1, 2)):
        knobs = dict(depth=S.choice('depth%d' % k, [-1, -1, 0, 1, 2]), reference=S.bool('refs%d' % k), radix=S.choice('radix%d' % k, [UVM_HEX, UVM_DEC, UVM_BIN, UVM_OCT]))
        p.knobs.depth, p.knobs.reference, p.knobs.default_radix = knobs['depth'], knobs['reference'], knobs['radix']
        shown = S.bool('show%d' % k)
        p.knobs.show_radix = shown
        o = S.choice('what%d' % k, objs + comps)
        rows = []
        rows_of(o, o.get_name(), 0, knobs, [], rows)
        check_table(S, o.sprint(p), rows, shown)
    S.check('no report', not S.reports.errors)


@search(runs=100)
def tree(S):
    """object graphs in trees and lines"""
    objs, comps = world(S)
    line = S.bool('line')
    p = UVMLinePrinter() if line else UVMTreePrinter()
    for k in range(S.int('prints', 1, 2)):
        knobs = dict(depth=S.choice('depth%d' % k, [-1, -1, 0, 1, 2]), reference=True, radix=UVM_HEX)
        p.knobs.depth = knobs['depth']
        o = S.choice('what%d' % k, objs + comps)
        rows = []
        rows_of(o, o.get_name(), 0, knobs, [], rows)
        text = o.sprint(p)
        rest, level = text, 0
        for i, (lv, name, typ, size, val) in enumerate(rows):
            opens = i + 1 < len(rows) and rows[i + 1][0] > lv
            at = rest.find(name + ': ')
            S.check('every row in order', at >= 0, dict(text=text, row=name))
            if at < 0:
                return
            between, rest = rest[:at], rest[at + len(name) + 2:]
            level -= between.count('}')
            S.check('in the braces of its owner', level == lv and between.replace('}', '').strip() == '', dict(text=text, row=name, level=level))
            if not line:
                S.check('deeper for each level', len(between) - len(between.rstrip(' ')) == 2 * lv, dict(text=text, row=name))
            here = rest[:rest.find('{')] if opens else rest[:len(rest) if i + 1 == len(rows) else rest.find(rows[i + 1][1] + ': ')]
            if opens:
                level += 1
                rest = rest[rest.find('{') + 1:]
            else:
                here = here.rstrip(' \n}')
                here0 = here
                rest = rest[len(here):]
            if isinstance(val, str) and val.startswith('@'):
                S.check('the type and identity', '(%s%s)' % (typ, val) in here, dict(text=text, row=name))
            elif not opens:
                S.check('the value', shows(here.strip(), val, True, 64 if size == '64' else 32), dict(text=text, row=name, here=here))
        S.check('every brace closes', level - rest.count('}') == 0, dict(text=text))
