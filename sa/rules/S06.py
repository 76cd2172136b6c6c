"""Constant fields: the encoding of a constant is always written and read back, whatever the constructor or an assignment
supplied; a stream that carries any other value ends in the library's error, and so does assigning any other value."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Constants of every numeric width and both byte orders, byte string constants and struct constants; the stream value is
an opaque vector of the field width (all values at once), the assigned value an opaque integer."""

SRC = PRE + '''

def numeric(name, width, order, value):
    m = getattr(M, name)
    class S(Struct):
        _fields_ = [UBInt8('h'), ConstField('c', value, m), UBInt8('t')]
    want = value.to_bytes(width, order)
    h, t = any_uint('h', 8), any_uint('t', 8)
    s = S(h=h, t=t)
    same('value', s.c, value)
    same('class-value', S.c, value)
    same('written', S.write_to_string(s), h.to_bytes(1, 'big') + want + t.to_bytes(1, 'big'))
    same('sizeof', S.sizeof(s), width + 2)
    b = any_bytes('b', width)
    try:
        r = S.create_from_string(h.to_bytes(1, 'big') + b + t.to_bytes(1, 'big'))
    except InstructError:
        holds('error-only-on-mismatch', b != want)
    except Exception as e:
        bad('library-error', e)
    else:
        same('only-constant-accepted', b, want)
        same('read', (r.h, r.c, r.t), (h, value, t))

def mismatch(width, order, value, other):
    m = {1: UBInt8, 2: ULInt16}[width]
    class S(Struct):
        _fields_ = [ConstField('c', value, m)]
    try:
        S.create_from_string(other.to_bytes(width, order))
    except InstructError:
        ok('mismatch')
    except Exception as e:
        bad('mismatch', e)
    else:
        bad('mismatch')

def assign(value):
    class S(Struct):
        _fields_ = [ConstField('c', value, UBInt16)]
    s = S()
    x = any_uint('x', 16)
    try:
        s.c = x
    except InstructError:
        holds('error-only-on-difference', x != value)
    except Exception as e:
        bad('library-error', e)
    else:
        same('only-constant-accepted', x, value)
    same('unchanged', s.c, value)
    same('still-written', S.write_to_string(s), value.to_bytes(2, 'big'))

def ctor(value):
    """a constructor argument never replaces the constant in the output"""
    class S(Struct):
        _fields_ = [ConstField('c', value, UBInt8), UBInt8('x')]
    x = any_uint('x', 8)
    try:
        s = S(c=any_uint('k', 8), x=x)
    except Exception:
        return
    same('written', S.write_to_string(s), value.to_bytes(1, 'big') + x.to_bytes(1, 'big'))

def bytes_const():
    b = any_bytes('b', 3)
    class S(Struct):
        _fields_ = [ConstField('c', b'abc', FixedSizeBufferMarshal(3))]
    same('written', S.write_to_string(S()), b'abc')
    try:
        r = S.create_from_string(b)
    except InstructError:
        holds('error-only-on-mismatch', b != b'abc')
    else:
        same('only-constant-accepted', b, b'abc')
        same('read', r.c, b'abc')

def struct_const():
    x, y = any_uint('x', 8), any_uint('y', 16)
    k = Inner(p=3, q=0x1234)
    class S(Struct):
        _fields_ = [ConstField('c', k), UBInt8('t')]
    t = any_uint('t', 8)
    same('written', S.write_to_string(S(t=t)), b'\\x03\\x34\\x12' + t.to_bytes(1, 'big'))

def struct_const_read():
    x = any_bytes('x', 4)
    class S(Struct):
        _fields_ = [ConstField('c', Inner(p=3, q=0x1234)), UBInt8('t')]
    try:
        r = S.create_from_string(x)
    except InstructError:
        holds('error-only-on-mismatch', x[:3] != b'\\x03\\x34\\x12')
    except Exception as e:
        bad('library-error', e)
    else:
        same('only-constant-accepted', x[:3], b'\\x03\\x34\\x12')
        same('read', (r.c.p, r.c.q, r.t), (3, 0x1234, x[3]))
        same('rewrite', S.write_to_string(r), x)

def struct_const_assign():
    x, y = any_uint('x', 8), any_uint('y', 16)
    class S(Struct):
        _fields_ = [ConstField('c', Inner(p=3, q=0x1234)), UBInt8('t')]
    s = S(t=1)
    try:
        s.c = Inner(p=x, q=y)
    except InstructError:
        holds('error-only-on-difference', x.to_bytes(1, 'big') + y.to_bytes(2, 'little') != b'\\x03\\x34\\x12')
    except Exception as e:
        bad('library-error', e)
    else:
        same('only-constant-accepted', (x, y), (3, 0x1234))
    same('still-written', S.write_to_string(s), b'\\x03\\x34\\x12\\x01')
    try:
        s.c = 5
    except InstructError:
        ok('other-type')
    except Exception as e:
        bad('other-type', e)
    else:
        bad('other-type')

def missing_marshal():
    try:
        f = ConstField('c', 5)
    except InstructError:
        ok('rejected')
    except Exception as e:
        bad('rejected', e)
    else:
        bad('rejected')

def independent():
    """two declarations of the same name do not influence each other"""
    class A(Struct):
        _fields_ = [ConstField('c', 1, UBInt8)]
    class B(Struct):
        _fields_ = [ConstField('c', 2, UBInt8)]
    class C(A):
        _fields_ = [ConstField('c', 3, UBInt8)]
    same('a', (A().c, A.write_to_string(A())), (1, b'\\1'))
    same('b', (B().c, B.write_to_string(B())), (2, b'\\2'))
    same('c', (C().c, C.write_to_string(C())), (3, b'\\3'))

def in_bits():
    x = any_uint('x', 5)
    class S(Struct):
        _fields_ = [BitFields(BitField('x', 5), BitField('y', 3))]
    y = any_uint('y', 3)
    same('written', S.write_to_string(S(x=x, y=y)), (x | y << 5).to_bytes(1, 'big'))
'''


def cases():
    for p, order in (('B', 'big'), ('L', 'little')):
        for w in (1, 2, 4, 8):
            for v in (0, 1, (1 << 8 * w) - 1, 0x5a):
                yield Case('numeric/U%sInt%d/%d' % (p, 8 * w, v), SRC, 'numeric', ('U%sInt%d' % (p, 8 * w), w, order, v))
    for v in (0, 1, 200):
        for o in (0, 1, 2, 255):
            if v != o:
                yield Case('mismatch/1/%d/%d' % (v, o), SRC, 'mismatch', (1, 'big', v, o))
                yield Case('mismatch/2/%d/%d' % (v, o), SRC, 'mismatch', (2, 'little', v, o << 8))
    for v in (0, 7, 65535):
        yield Case('assign/%d' % v, SRC, 'assign', (v,))
    for v in (0, 7):
        yield Case('ctor/%d' % v, SRC, 'ctor', (v,))
    for f in ('bytes_const', 'struct_const', 'struct_const_read', 'struct_const_assign', 'missing_marshal', 'independent'):
        yield Case(f, SRC, f)
