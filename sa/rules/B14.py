"""A buffer class adapted to the struct interface: what is written, measured and read is what the buffer itself packs and unpacks; reads take
exactly the bytes of the buffer; input that is missing, not bytes or of unknown length is an error."""
from ..run import Case
from ._bkinds import PRE_KINDS, KINDNAMES

COVERAGE = """17 kinds of buffer classes x every operation of the adapter; streams with every shortage, with bytes before and after, that deliver nothing or
report their reads; the adapter as a struct field, array element (fixed, counted, summed) and optional field; declared and fractional
sizes; every kind of non-bytes input."""

SRC = PRE_KINDS + r'''
from io import BytesIO
from infi.instruct.buffer.compat import buffer_to_struct_adapter
from infi.instruct.struct import Field
from infi.instruct.errors import NotEnoughDataError
from infi.instruct import Struct, UBInt8, UBInt16, FixedSizeArray, VarSizeArray, SumSizeArray, OptionalField, FixedSizeBuffer

class Spy(object):
    """a stream that reports what is asked of it"""
    def __init__(self, data=b''):
        self.io = BytesIO(data)
        self.asked, self.written = [], []
    def read(self, n=-1):
        self.asked.append(n)
        return self.io.read(n)
    def write(self, data):
        self.written.append(bytes(data))

def operations(kind):
    C, mk, enc, dec = KINDS[kind]('')
    A = buffer_to_struct_adapter(C)
    for i in range(2):
        o = C(**mk())
        same('string', raw(A.write_to_string(o)), enc)
        same('size', A.sizeof(o), len(enc))
        st = BytesIO()
        st.write(b'<')
        A.write_to_stream(o, st)
        st.write(b'>')
        same('stream', st.getvalue(), b'<' + enc + b'>')
        spy = Spy()
        A.write_to_stream(o, spy)
        same('written', b''.join(spy.written), enc)
        r = A.create_from_string(enc)
        holds('type', isinstance(r, C))
        got = values(r, dec)
        for n in sorted(dec):
            same('read-' + n, got[n], dec[n])
        if C.byte_size is None:
            st = BytesIO(enc)
            try:
                A.create_from_stream(st)
            except ValueError:
                ok('refused')
            except Exception as e:
                bad('refused', e)
            else:
                bad('refused')
            same('untouched', st.tell(), 0)
        else:
            rest = b'tail'
            st = BytesIO(b'#' + enc + rest)
            st.read(1)
            r = A.create_from_stream(st)
            same('rest', st.read(), rest)
            holds('type', isinstance(r, C))
            got = values(r, dec)
            for n in sorted(dec):
                same('streamed-' + n, got[n], dec[n])
            spy = Spy(enc + rest)
            r = A.create_from_stream(spy, None)
            same('asked', spy.asked, [len(enc)])

def short(kind):
    C, mk, enc, dec = KINDS[kind]('')
    A = buffer_to_struct_adapter(C)
    for k in range(len(enc)):
        failing('short-%d' % k, lambda: A.create_from_stream(BytesIO(enc[:k])), NotEnoughDataError)
    r = A.create_from_stream(BytesIO(enc))
    same('later', raw(A.write_to_string(r)), enc)

def text(kind):
    C, mk, enc, dec = KINDS[kind]('')
    A = buffer_to_struct_adapter(C)
    for name, s in [('text', any_text('s', len(enc))), ('empty text', ''), ('none', None), ('number', 5), ('list', [1, 2, 3]),
                    ('object', C(**mk()))]:
        failing(name, lambda: A.create_from_string(s), TypeError)
    got = values(A.create_from_string(enc), dec)
    for n in sorted(dec):
        same('read-' + n, got[n], dec[n])

def errors(what):
    """failures of the buffer are the buffer's own, and nothing is written"""
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = be_uint_field(where=bytes_ref[1:3])
    A = buffer_to_struct_adapter(C)
    k, x = any_uint('k', 8), any_uint('x', 8)
    if what == 'write':
        for name, o in [('unset', C()), ('big', C(a=256 + k, b=1)), ('half', C(a=x)), ('text', C(a='text', b=1))]:
            st = Spy()
            failing(name, lambda: A.write_to_stream(o, st), InstructBufferError)
            same(name + '-written', st.written, [])
            failing(name + '-string', lambda: A.write_to_string(o), InstructBufferError)
            failing(name + '-size', lambda: A.sizeof(o), InstructBufferError)
    else:
        for n in range(3):
            failing('cut-%d' % n, lambda: A.create_from_string(any_bytes('w%d' % n, n)), InstructError)

def whole(size, how):
    """a size that is not a whole number of bytes takes the bytes it reaches into"""
    class C(Buffer):
        if how == 'declared':
            byte_size = size
            a = u8(bytes_ref[0])
        else:
            a = u8(bytes_ref[0])
            z = u8(bytes_ref[0:9].bits[int(8 * size) - 4:int(8 * size)])
    A = buffer_to_struct_adapter(C)
    n = int(size) if int(size) == size else int(size) + 1
    x, z = any_uint('x', 8), any_uint('z', 4)
    o = C(a=x) if how == 'declared' else C(a=x, z=z)
    s = raw(A.write_to_string(o))
    same('written', len(s), n)
    spy = Spy(s + b'rest')
    r = A.create_from_stream(spy)
    same('asked', spy.asked, [n])
    same('read', r.a, x)
    if how != 'declared':
        same('read z', r.z, z)
    failing('short', lambda: A.create_from_stream(BytesIO(s[:n - 1])), NotEnoughDataError)

def nothing(how):
    """a class of no bytes has a size like any other"""
    if how == 'fields':
        class C(Buffer):
            pass
    elif how == 'declared':
        class C(Buffer):
            byte_size = 0
    elif how == 'text':
        class C(Buffer):
            a = str_field(where=bytes_ref[0:0], default='')
    else:
        class Base(Buffer):
            byte_size = 0
        class C(Base):
            pass
    A = buffer_to_struct_adapter(C)
    same('written', raw(A.write_to_string(C())), b'')
    same('size', A.sizeof(C()), 0)
    st = BytesIO(b'rest')
    r = A.create_from_stream(st)
    holds('type', isinstance(r, C))
    same('rest', st.read(), b'rest')
    holds('empty', isinstance(A.create_from_stream(BytesIO(b'')), C))
    holds('string', isinstance(A.create_from_string(b''), C))
    class S(Struct):
        _fields_ = [UBInt8('h'), Field('b', A), UBInt8('t')]
    h, t = any_uint('h', 8), any_uint('t', 8)
    same('in struct', S.write_to_string(S(h=h, b=C(), t=t)), be(h) + be(t))
    r = S.create_from_string(be(h) + be(t))
    same('from struct', (r.h, r.t), (h, t))
    holds('type in struct', isinstance(r.b, C))

# --- inside structs

def in_struct(kind):
    C, mk, enc, dec = KINDS[kind]('')
    A = buffer_to_struct_adapter(C)
    class S(Struct):
        _fields_ = [UBInt8('h'), Field('b', A), UBInt16('t')]
    h, t = any_uint('h', 8), any_uint('t', 16)
    want = be(h) + enc + t.to_bytes(2, 'big')
    o = S(h=h, b=C(**mk()), t=t)
    same('written', S.write_to_string(o), want)
    same('size', S.sizeof(o), len(want))
    if C.byte_size is None:
        failing('refused', lambda: S.create_from_string(want), ValueError)
        return
    r = S.create_from_stream(BytesIO(want + b'rest'))
    same('read-h', (r.h, r.t), (h, t))
    holds('type', isinstance(r.b, C))
    got = values(r.b, dec)
    for n in sorted(dec):
        same('read-' + n, got[n], dec[n])
    for k in range(len(want)):
        failing('short-%d' % k, lambda: S.create_from_string(want[:k]), NotEnoughDataError)

def in_array(how):
    A = buffer_to_struct_adapter(Fix)
    p, q, x = any_uint('p', 8), any_uint('q', 16), any_uint('x', 8)
    e1, e2 = be(p) + q.to_bytes(2, 'big'), be(x) + b'\0\7'
    class S(Struct):
        if how == 'fixed':
            _fields_ = [FixedSizeArray('l', 2, A), UBInt8('z')]
        elif how == 'counted':
            _fields_ = [VarSizeArray('l', UBInt8, A), UBInt8('z')]
        elif how == 'summed':
            _fields_ = [SumSizeArray('l', UBInt8, A), UBInt8('z')]
        elif how == 'nested':
            _fields_ = [FixedSizeArray('l', 2, buffer_to_struct_adapter(Fix)), UBInt8('z')]
    want = {'fixed': b'', 'nested': b'', 'counted': b'\2', 'summed': b'\6'}[how] + e1 + e2 + be(x)
    o = S(l=[Fix(p=p, q=q), Fix(p=x, q=7)], z=x)
    same('written', S.write_to_string(o), want)
    same('size', S.sizeof(o), len(want))
    r = S.create_from_string(want)
    same('read', ([(e.p, e.q) for e in r.l], r.z), ([(p, q), (x, 7)], x))
    holds('type', all(isinstance(e, Fix) for e in r.l))
    failing('short', lambda: S.create_from_string(want[:-3]), NotEnoughDataError)
    same('value', [(e.p, e.q) for e in o.l], [(p, q), (x, 7)])

def in_optional(on):
    A = buffer_to_struct_adapter(Fix)
    def there(obj, stream, context):
        return obj.h != 0
    class S(Struct):
        _fields_ = [UBInt8('h'), OptionalField('b', A, there), UBInt8('z')]
    p, q, z = any_uint('p', 8), any_uint('q', 16), any_uint('z', 8)
    e = be(p) + q.to_bytes(2, 'big')
    if on:
        o = S(h=5, b=Fix(p=p, q=q), z=z)
        want = b'\5' + e + be(z)
    else:
        o = S(h=0, z=z)
        want = b'\0' + be(z)
    same('written', S.write_to_string(o), want)
    r = S.create_from_string(want)
    same('read', (r.h, r.z), (5 if on else 0, z))
    if on:
        same('read-b', (r.b.p, r.b.q), (p, q))
        same('size', S.sizeof(o), 5)

def two():
    """adapters of different classes, and of one class, do not share anything"""
    class D(Buffer):
        a = le_uint_field(where=bytes_ref[0:2])
    A, B, E = buffer_to_struct_adapter(Fix), buffer_to_struct_adapter(D), buffer_to_struct_adapter(Fix)
    p, q, a = any_uint('p', 8), any_uint('q', 16), any_uint('a', 16)
    st = BytesIO()
    f = Fix(p=p, q=q)
    A.write_to_stream(f, st)
    B.write_to_stream(D(a=a), st)
    E.write_to_stream(f, st)
    want = be(p) + q.to_bytes(2, 'big') + a.to_bytes(2, 'little') + be(p) + q.to_bytes(2, 'big')
    same('written', st.getvalue(), want)
    st = BytesIO(want)
    x, y, z = A.create_from_stream(st), B.create_from_stream(st), E.create_from_stream(st)
    same('read', (x.p, x.q, y.a, z.p, z.q), (p, q, a, p, q))
    holds('objects', x is not z)
    holds('fresh', A.create_from_string(want[:3]) is not A.create_from_string(want[:3]))

def representation():
    A = buffer_to_struct_adapter(Fix)
    o = Fix(p=1, q=2)
    same('repr', A.to_repr(o), repr(o))
    same('repr in context', A.to_repr(o, None), repr(o))
'''


def cases():
    for k in KINDNAMES:
        yield Case('operations/' + k, SRC, 'operations', (k,))
        yield Case('text/' + k, SRC, 'text', (k,))
        yield Case('struct/' + k, SRC, 'in_struct', (k,))
        if k in ('num', 'bits', 'closed', 'text', 'nested', 'inherit', 'sized', 'default', 'float'):
            yield Case('short/' + k, SRC, 'short', (k,))
    for w in ('write', 'read'):
        yield Case('errors/' + w, SRC, 'errors', (w,))
    for size in (1, 1.5, 2, 2.5, 3.5, 5):
        yield Case('computed size/%s' % size, SRC, 'whole', (size, 'computed')) if size > 1 else \
            Case('declared size/1', SRC, 'whole', (1, 'declared'))
        if size > 1 and int(size) == size:
            yield Case('declared size/%s' % size, SRC, 'whole', (size, 'declared'))
    for h in ('fixed', 'counted', 'summed', 'nested'):
        yield Case('array/' + h, SRC, 'in_array', (h,))
    for on in (True, False):
        yield Case('optional/%s' % on, SRC, 'in_optional', (on,))
    for how in ('fields', 'declared', 'text', 'inherited'):
        yield Case('no bytes/' + how, SRC, 'nothing', (how,))
    yield Case('two adapters', SRC, 'two')
    yield Case('representation', SRC, 'representation', opaque_repr=False)
