"""The string interface is the stream interface: create_from_string decodes exactly what create_from_stream decodes from the same bytes,
write_to_string and to_bytes return exactly what write_to_stream writes, from wherever the stream stands; text is refused with
TypeError instead of being guessed at, and objects cannot be turned into text by accident."""
import itertools
from ..run import Case
from ._cat import PRE, ALL

COVERAGE = """Every field kind of the catalogue (thorough: every pair) through both interfaces, streams positioned behind other content, trailing
content, marshals and structs, extra read arguments, text of every length class for every entry point, str() of objects."""

SRC = PRE + r'''
def same_value(id, names, a, b):
    for n in names:
        same(id + '-' + n, getattr(a, n), getattr(b, n))

def both(*kinds):
    S, kw, enc, dec, fixed = build(kinds)
    o = S(**kw)
    st = BytesIO()
    st.write(b'##')
    S.write_to_stream(o, st)
    st.write(b'$$')
    same('stream', st.getvalue(), b'##' + enc + b'$$')
    same('string', S.write_to_string(o), enc)
    same('to-bytes', o.to_bytes(), enc)
    same('bytes-type', type(o.to_bytes()) is bytes, True)
    st = BytesIO(b'##' + enc + b'$$')
    st.read(2)
    a = S.create_from_stream(st)
    same('position', st.tell(), 2 + len(enc))
    b = S.create_from_string(enc)
    c = S.create_from_string(enc + b'$$')
    same('types', (type(a) is S, type(b) is S, type(c) is S), (True, True, True))
    same_value('read', sorted(dec), a, b)
    same_value('trailing', sorted(dec), a, c)
    same('rewrite', (S.write_to_string(a), b.to_bytes(), c.to_bytes()), (enc, enc, enc))
    try:
        o.__str__()
    except NotImplementedError:
        ok('str-refused')
    except Exception as e:
        bad('str-refused', e)
    else:
        bad('str-refused')

def text(kinds, n):
    S, kw, enc, dec, fixed = build(kinds)
    try:
        S.create_from_string('a' * n)
    except TypeError:
        ok('text-refused')
    except Exception as e:
        bad('text-refused', e)
    else:
        bad('text-refused')

MARSHALS = [('u8', UBInt8), ('u16', ULInt16), ('s64', SNInt64), ('f32', BFloat32), ('fbuf', FixedSizeBufferMarshal(2)),
            ('pstr', PaddedStringMarshal(3)), ('vbuf', VarSizeBufferMarshal(UBInt8)), ('vstr', VarSizeStringMarshal(UBInt8)),
            ('farr', FixedSizeArrayMarshal(1, UBInt8)), ('varr', VarSizeArrayMarshal(UBInt8, UBInt8)),
            ('sarr', SumSizeArrayMarshal(UBInt8, UBInt8)), ('map', FixedSizeMappingMarshal({'a': 0, 'b': 1}, UBInt8)),
            ('sel', StructSelector(UBInt8, {1: KA, 2: KB}, KD)), ('raw', UBInt32Marshal)]

def marshal_text(i, n):
    try:
        MARSHALS[i][1].create_from_string('a' * n)
    except TypeError:
        ok('text-refused')
    except Exception as e:
        bad('text-refused', e)
    else:
        bad('text-refused')

def marshal_both(i):
    name, m = MARSHALS[i]
    if name == 'vbuf':
        b = any_bytes('b', 2)
        v, d = b, b'\2' + b
    elif name == 'vstr':
        v, d = b'xyz', b'\3xyz'
    elif name == 'fbuf':
        v = d = any_bytes('b', 2)
    elif name == 'pstr':
        v, d = b'ab', b'ab\0'
    elif name == 'u16':
        v = any_uint('v', 16)
        d = v.to_bytes(2, 'little')
    elif name == 'farr':
        x = any_uint('v', 8)
        v, d = [x], x.to_bytes(1, 'big')
    elif name in ('varr', 'sarr'):
        x, y = any_uint('x', 8), any_uint('y', 8)
        v, d = [x, y], b'\2' + x.to_bytes(1, 'big') + y.to_bytes(1, 'big')
    elif name == 'map':
        v, d = 'b', b'\1'
    else:
        return
    same('write', m.write_to_string(v), d)
    st = BytesIO()
    m.write_to_stream(v, st)
    same('write-stream', st.getvalue(), d)
    same('read', m.create_from_string(d), v)
    same('read-trailing', m.create_from_string(d + b'zz'), v)
    same('read-stream', m.create_from_stream(BytesIO(d)), v)

def subclass_entry():
    """the string interface of a subclass, or through the base class, uses the object's own declaration"""
    class B(Struct):
        _fields_ = [UBInt8('a')]
    class C(B):
        _fields_ = B._fields_ + [UBInt16('b')]
    x, y = any_uint('x', 8), any_uint('y', 16)
    c = C(a=x, b=y)
    want = x.to_bytes(1, 'big') + y.to_bytes(2, 'big')
    same('base', B.write_to_string(c), want)
    same('own', C.write_to_string(c), want)
    same('to-bytes', c.to_bytes(), want)
    st = BytesIO()
    B.write_to_stream(c, st)
    same('stream', st.getvalue(), want)
    r = C.create_from_string(want)
    same('read', (type(r) is C, r.a, r.b), (True, x, y))
    q = B.create_from_string(want)
    same('read-base', (type(q) is B, q.a), (True, x))

def arguments():
    """positional and keyword arguments of a read reach the constructor through both interfaces"""
    log = []
    class S(Struct):
        _fields_ = [UBInt8('a')]
        def __init__(self, x, y=0):
            super(S, self).__init__()
            self.x, self.y = x, y
    x, y, w = any_obj('x'), any_obj('y'), any_bytes('w', 1)
    from infi.instruct.base import EMPTY_CONTEXT
    a = S.create_from_string(w, EMPTY_CONTEXT, x, y=y)
    b = S.create_from_stream(BytesIO(w), EMPTY_CONTEXT, x, y=y)
    same('string', (a.a, a.x, a.y), (w[0], x, y))
    same('stream', (b.a, b.x, b.y), (w[0], x, y))

def errors_alike(kind):
    """both interfaces fail on the same inputs"""
    S, kw, enc, dec, fixed = build((kind,))
    for k in range(len(enc)):
        res = []
        for f in (0, 1):
            try:
                if f:
                    S.create_from_string(enc[:k])
                else:
                    S.create_from_stream(BytesIO(enc[:k]))
            except InstructError:
                res.append('instruct')
            except Exception as e:
                res.append('other')
            else:
                res.append('ok')
        same('cut-%d' % k, res[0], res[1])
'''


def cases():
    for k in ALL:
        yield Case('both/' + k, SRC, 'both', (k,))
        yield Case('errors/' + k, SRC, 'errors_alike', (k,))
        for n in (0, 1, 4):
            yield Case('text/%s/%d' % (k, n), SRC, 'text', ((k,), n))
    for a, b in itertools.product(ALL, ALL):
        if ('opt' in a) and ('opt' in b):
            continue
        yield Case('both/%s+%s' % (a, b), SRC, 'both', (a, b), tier='thorough')
    for i in range(14):
        for n in (0, 1, 3):
            yield Case('marshal-text/%d/%d' % (i, n), SRC, 'marshal_text', (i, n))
        yield Case('marshal-both/%d' % i, SRC, 'marshal_both', (i,))
    for f in ('subclass_entry', 'arguments'):
        yield Case(f, SRC, f)
