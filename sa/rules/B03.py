"""Whatever goes wrong while a buffer is packed or unpacked surfaces as an InstructBufferError that names the class and the field at fault,
whichever step of the field fails, and leaves the object and the class usable."""
from ..run import Case
from ._bcat import PRE

COVERAGE = """Every step of a field (condition, value, assignment, encoding, position, placement, nested buffer, list element, selector, conversion) x pack and
unpack x failing field first/middle/last x own, inherited and nested class; values outside the range as whole intervals; truncated input
at every length; the operation repeated with good data afterwards."""

SRC = PRE + r'''
class Oops(Exception):
    pass

def oops(*args, **kw):
    raise Oops('broken')

class In(Buffer):
    p = u8(bytes_ref[0])
    q = u8(bytes_ref[1])

def blames(tag, f, cls, name):
    try:
        f()
    except InstructBufferError as e:
        same(tag + '-field', e.attr_name, name)
        holds(tag + '-class', e.clazz is cls)
        holds(tag + '-library', isinstance(e, InstructError))
        holds(tag + '-named', ("'" + name + "'") in str(e.args[0]))
    except Exception as e:
        bad(tag, e)
    else:
        bad(tag)

def cls_with(pos, how):
    def fld(at):
        w = bytes_ref[4 * at]
        w2 = bytes_ref[4 * at:4 * at + 2]
        if how == 'plain':
            return u8(w)
        if how == 'cond':
            return u8(w, pack_if=member_func_ref(oops), unpack_if=member_func_ref(oops))
        if how == 'before':
            return u8(w, set_before_pack=oops)
        if how == 'after':
            return u8(w, set_after_unpack=oops)
        if how == 'pos':
            return u8(bytes_ref[num_ref(member_func_ref(oops))])
        if how == 'attr':
            return u8(w, set_before_pack=self_ref.nothing)
        if how == 'nested':
            return buffer_field(type=In, where=w2)
        if how == 'list':
            return list_field(type=uint8, where=w2)
        if how == 'nestedlist':
            return list_field(type=In, where=w2)
        if how == 'selector':
            return buffer_field(type=In, where=w2, unpack_selector=oops)
        if how == 'selbad':
            return buffer_field(type=In, where=w2, unpack_selector=lambda obj, buffer, **kw: 5)
        if how == 'lselector':
            return list_field(type=In, where=w2, unpack_selector=oops)
        if how == 'str':
            return str_field(where=w2)
        if how == 'json':
            return json_field(where=w2)
        if how == 'overlap':
            return u8(bytes_ref[num_ref(self_ref.k):num_ref(self_ref.k) + 2] + bytes_ref[4 * at])
        return float_field(where=bytes_ref[4 * at:4 * at + 4])
    class C(Buffer):
        a = fld(0) if pos == 'a' else u8(bytes_ref[0])
        m = fld(1) if pos == 'm' else u8(bytes_ref[4])
        z = fld(2) if pos == 'z' else u8(bytes_ref[8])
        k = {'a': 0, 'm': 4, 'z': 8}[pos]
    return C

def others(pos, x):
    kw = {}
    for n in ['a', 'm', 'z']:
        if n != pos:
            kw[n] = x
    return kw

def pack_value(pos, how):
    """values that cannot be packed"""
    C = cls_with(pos, how)
    x = any_uint('x', 8)
    kw = others(pos, x)
    k = any_uint('k', 8)
    vals = {'plain': [('unset', None), ('big', 256 + k), ('negative', -1 - k), ('text', 'text')],
            'nested': [('unset', None), ('other', 5), ('half', In(p=x)), ('inner-big', In(p=x, q=256 + k))],
            'list': [('unset', None), ('other', 5), ('element', [x, None]), ('element-big', [x, 256 + k]), ('short', [x])],
            'nestedlist': [('unset', None), ('element', [5]), ('half', [In(p=x)])],
            'float': [('unset', None), ('text', 'text')],
            'str': [('non-ascii', '\xe9\xe9')]}[how]
    for t, v in vals:
        kw[pos] = v
        o = C(**kw)
        blames(t, lambda: o.pack(), C, pos)
        for n in ['a', 'm', 'z']:
            if n != pos:
                same(t + '-kept-' + n, getattr(o, n), x)

def pack_step(pos, how):
    C = cls_with(pos, how)
    x = any_uint('x', 8)
    kw = others(pos, x)
    kw[pos] = x
    o = C(**kw)
    blames('pack', lambda: o.pack(), C, pos)
    blames('again', lambda: o.pack(), C, pos)
    for n in ['a', 'm', 'z']:
        same('kept-' + n, getattr(o, n), x)

def unpack_step(pos, how):
    C = cls_with(pos, how)
    w = any_bytes('w', 12)
    blames('unpack', lambda: C().unpack(w), C, pos)
    o = C()
    blames('again-1', lambda: o.unpack(w), C, pos)
    blames('again-2', lambda: o.unpack(w), C, pos)

def short(n):
    """a truncated input is blamed on a field whose bytes are missing"""
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = be_uint_field(where=bytes_ref[1:4])
        c = be_uint_field(where=bytes_ref[4:8])
        d = le_uint_field(where=bytes_ref[8:10])
        e = buffer_field(type=In, where=bytes_ref[10:12])
    ends = [('a', 1), ('b', 4), ('c', 8), ('d', 10), ('e', 12)]
    w = any_bytes('w', n)
    o = C()
    try:
        o.unpack(w)
    except InstructBufferError as e:
        missing = [f for f, end in ends if end > n]
        holds('blamed', e.attr_name in missing)
        holds('class', e.clazz is C)
    except Exception as e:
        bad('library-error', e)
    else:
        bad('accepted')
    good = b'\1\0\0\2\0\0\0\3\6\0\4\5'
    o.unpack(good)
    same('usable', (o.a, o.b, o.c, o.d, o.e.p, o.e.q), (1, 2, 3, 6, 4, 5))

def recovery(pos):
    """an object whose packing failed packs as usual once its value is corrected, and so do its siblings"""
    C = cls_with(pos, 'plain')
    x, k = any_uint('x', 8), any_uint('k', 8)
    kw = others(pos, x)
    kw[pos] = 256 + k
    o, p = C(**kw), C(a=x, m=x, z=x)
    want = be(x) + b'\0\0\0' + be(x) + b'\0\0\0' + be(x)
    blames('bad', lambda: o.pack(), C, pos)
    same('sibling', raw(p.pack()), want)
    setattr(o, pos, x)
    same('corrected', raw(o.pack()), want)
    blames('bad-read', lambda: o.unpack(b''), C, 'a')
    w = any_bytes('w', 9)
    o.unpack(w)
    same('read', (o.a, o.m, o.z), (w[0], w[4], w[8]))

def inherited(field):
    class B1(Buffer):
        a = u8(bytes_ref[0])
    class B2(B1):
        b = u8(bytes_ref[1])
    k = any_uint('k', 8)
    kw = dict(a=1, b=2)
    kw[field] = 256 + k
    blames('pack', lambda: B2(**kw).pack(), B2, field)
    blames('unpack', lambda: B2().unpack(b''), B2, _first(B2))

def _first(cls):
    """the field reported for an empty input is the one the class visits first"""
    try:
        cls().unpack(b'')
    except InstructBufferError as e:
        return e.attr_name
    return None

def nested_blame():
    """the outer error names the outer field"""
    class C(Buffer):
        n = buffer_field(type=In, where=bytes_ref[0:2])
    k, x = any_uint('k', 8), any_uint('x', 8)
    blames('pack', lambda: C(n=In(p=x, q=256 + k)).pack(), C, 'n')
    blames('inner', lambda: In(p=x, q=256 + k).pack(), In, 'q')
    blames('unpack', lambda: C().unpack(be(x)), C, 'n')

def positions():
    """a field that overlaps itself"""
    def make():
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = be_uint_field(where=bytes_ref[1:3, 2:4])
    try:
        make()
    except InstructBufferError as e:
        same('static-field', e.attr_name, 'b')
    except Exception as e:
        bad('static', e)
    else:
        bad('static')
    class D(Buffer):
        a = u8(bytes_ref[0])
        b = be_uint_field(where=bytes_ref[a:a + 2] + bytes_ref[2:4])
    blames('pack', lambda: D(a=1, b=5).pack(), D, 'b')
    blames('unpack', lambda: D().unpack(b'\3\0\0\0\0\0\0'), D, 'b')
    class E(Buffer):
        a = u8(bytes_ref[0])
        b = be_uint_field(where=bytes_ref[2:a])
    blames('pack-reversed', lambda: E(a=1, b=5).pack(), E, 'b')
    blames('unpack-reversed', lambda: E().unpack(b'\1\0\0\0'), E, 'b')

def measured(pos, how):
    """the size of an object that cannot be determined is blamed on the field it depends on"""
    def fld(at):
        if how == 'cond':
            return u8(bytes_ref[at], pack_if=member_func_ref(oops))
        if how == 'pos':
            return u8(bytes_ref[num_ref(member_func_ref(oops))])
        if how == 'after':
            return u8(bytes_ref[after_ref(self_ref.nothing)])
        if how == 'bytes':
            return bytearray_field(where_when_pack=bytes_ref[at:], where_when_unpack=bytes_ref[at:at + 1])
        if how == 'list':
            return list_field(type=uint8, n=2, where=bytes_ref[at:])
        if how == 'bufs':
            return list_field(type=Var, n=1, where=bytes_ref[at:])
        return buffer_field(type=Var, where=bytes_ref[at:])
    class Var(Buffer):
        n = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.v))
        v = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + n])
    class C(Buffer):
        a = fld(0) if pos == 'a' else u8(bytes_ref[0])
        m = fld(1) if pos == 'm' else u8(bytes_ref[1])
        z = fld(2) if pos == 'z' else u8(bytes_ref[2])
        open = bytearray_field(where_when_pack=bytes_ref[9:], where_when_unpack=bytes_ref[9:10])
    x = any_uint('x', 8)
    kw = others(pos, x)
    kw['open'] = bytearray(b'o')
    vals = {'bytes': [('unset', None)], 'list': [('unset', None), ('number', 5), ('element', [None, x])],
            'nested': [('unset', None), ('number', 5), ('half', Var())], 'bufs': [('unset', None), ('half', [Var()])]}
    for t, v in vals.get(how, [('set', x)]):
        kw[pos] = v
        o = C(**kw)
        blames(t, lambda: o.calc_byte_size(), C, pos)
        blames(t + '-again', lambda: o.calc_byte_size(), C, pos)

def unused(kind):
    """input missing for a field whose value comes from elsewhere"""
    class C(Buffer):
        n = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.v))
        v = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + n])
        if kind == 'int':
            z = be_uint_field(where=bytes_ref[after_ref(v):after_ref(v) + 2], set_after_unpack=self_ref.late(n))
        else:
            z = buffer_field(type=In, where=bytes_ref[after_ref(v):after_ref(v) + 2], set_after_unpack=self_ref.late(n))
        def late(self, n):
            return n
    k, w = 2, any_bytes('w', 4)
    for i in (1, 0):
        blames('unpack-%d' % i, lambda: C().unpack(be(k) + w[:k] + w[:i]), C, 'z')
    o = C()
    same('consumed', o.unpack(be(k) + w[:k] + w[:2]), k + 3)
    same('read', (o.n, raw(o.v), o.z), (k, w[:k], k))
'''


def cases():
    for pos in ('a', 'm', 'z'):
        for how in ('plain', 'nested', 'list', 'nestedlist', 'float', 'str'):
            yield Case('value/%s/%s' % (how, pos), SRC, 'pack_value', (pos, how))
        for how in ('cond', 'before', 'pos', 'attr', 'overlap'):
            yield Case('pack/%s/%s' % (how, pos), SRC, 'pack_step', (pos, how))
        for how in ('cond', 'after', 'pos', 'selector', 'selbad', 'lselector', 'overlap'):
            yield Case('unpack/%s/%s' % (how, pos), SRC, 'unpack_step', (pos, how))
        yield Case('recovery/%s' % pos, SRC, 'recovery', (pos,))
    for n in range(12):
        yield Case('short/%d' % n, SRC, 'short', (n,))
    for f in ('a', 'b'):
        yield Case('inherited/' + f, SRC, 'inherited', (f,))
    yield Case('nested', SRC, 'nested_blame')
    yield Case('positions', SRC, 'positions')
    for pos in ('a', 'm', 'z'):
        for how in ('cond', 'pos', 'after', 'bytes', 'list', 'nested', 'bufs'):
            yield Case('measured/%s/%s' % (how, pos), SRC, 'measured', (pos, how))
    for k in ('int', 'buffer'):
        yield Case('unused/' + k, SRC, 'unused', (k,))
