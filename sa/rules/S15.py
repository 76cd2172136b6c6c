"""Fixed size means fixed size: a fixed-size buffer, padded string, fixed-count array or padding writes exactly its declared size for every
value it accepts, and a value that does not fit is rejected with the library's error, never truncated, extended or written short."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Buffers and strings of declared sizes 0..9 with contents of symbolic length (all lengths at once); arrays of declared count 0..4 with
0..6 elements; byte padding of sizes 0..9; declared defaults of every length; as field, array element, optional and nested field."""

SRC = PRE + r'''
def buffer(n, where):
    b = any_bytes('b')
    m = FixedSizeBufferMarshal(n)
    if where == 'field':
        class S(Struct):
            _fields_ = [FixedSizeBuffer('x', n)]
        o, lead = S(x=b), 0
    elif where == 'marshal':
        S, o, lead = m, b, 0
    elif where == 'array':
        class S(Struct):
            _fields_ = [VarSizeArray('x', UBInt8, m)]
        o, lead = S(x=[b]), 1
    elif where == 'optional':
        class S(Struct):
            _fields_ = [OptionalField('x', m, lambda o, s, c: True)]
        o, lead = S(x=b), 0
    st = BytesIO()
    try:
        S.write_to_stream(o, st)
    except InstructError:
        holds('error-only-on-misfit', len(b) != n)
    except Exception as e:
        bad('library-error', e)
    else:
        same('exact', len(b), n)
        same('size', len(st.getvalue()), n + lead)
        same('content', st.getvalue()[lead:], b)

def padded(n, where):
    b = any_bytes('b')
    m = PaddedStringMarshal(n)
    if where == 'field':
        class S(Struct):
            _fields_ = [PaddedString('x', n)]
        o = S(x=b)
    else:
        S, o = m, b
    st = BytesIO()
    core = b.rstrip(b'\0')
    try:
        S.write_to_stream(o, st)
    except InstructError:
        holds('error-only-on-misfit', len(core) > n)
    except Exception as e:
        bad('library-error', e)
    else:
        holds('fits', len(core) <= n)
        same('size', len(st.getvalue()), n)
        same('content', st.getvalue()[:len(core)], core)

def array(n, count):
    xs = []
    for i in range(count):
        xs.append(any_uint('x%d' % i, 16))
    class S(Struct):
        _fields_ = [UBInt8('h', 1), FixedSizeArray('x', n, UBInt16), UBInt8('t', 2)]
    st = BytesIO()
    try:
        S.write_to_stream(S(x=xs), st)
    except InstructError:
        holds('error-only-on-misfit', count != n)
    except Exception as e:
        bad('library-error', e)
    else:
        same('exact', count, n)
        same('size', len(st.getvalue()), 2 * n + 2)

def array_marshal(n, count):
    xs = []
    for i in range(count):
        xs.append(any_bytes('x%d' % i, 2))
    m = FixedSizeArrayMarshal(n, FixedSizeBufferMarshal(2))
    try:
        d = m.write_to_string(xs)
    except InstructError:
        holds('error-only-on-misfit', count != n)
    except Exception as e:
        bad('library-error', e)
    else:
        same('exact', count, n)
        same('content', d, b''.join(xs))

def element_misfit(n):
    """an element that does not fit is rejected like a field"""
    b = any_bytes('b')
    m = FixedSizeArrayMarshal(2, FixedSizeBufferMarshal(n))
    try:
        d = m.write_to_string([b'z' * n, b])
    except InstructError:
        holds('error-only-on-misfit', len(b) != n)
    except Exception as e:
        bad('library-error', e)
    else:
        same('content', d, b'z' * n + b)

def padding(n, char):
    class S(Struct):
        _fields_ = [UBInt8('h', 1), BytePadding(n, char) if char != b'\0' else BytePadding(n), UBInt8('t', 2)]
    same('written', S.write_to_string(S()), b'\1' + char * n + b'\2')
    same('sizeof', S.sizeof(S()), n + 2)
    w = any_bytes('w', n + 2)
    r = S.create_from_string(w)
    same('read', (r.h, r.t), (w[0], w[n + 1]))

def default_size(n, k):
    try:
        class S(Struct):
            _fields_ = [FixedSizeBuffer('x', n, default=b'a' * k)]
    except Exception:
        holds('rejected-only-on-misfit', n != k)
    else:
        try:
            d = S.write_to_string(S())
        except InstructError:
            holds('rejected-on-write', n != k)
        else:
            same('written', d, b'a' * n)

def default_count(n, k):
    try:
        class S(Struct):
            _fields_ = [FixedSizeArray('x', n, UBInt8, default=[1] * k)]
    except Exception:
        holds('rejected-only-on-misfit', n != k)
    else:
        try:
            d = S.write_to_string(S())
        except InstructError:
            holds('rejected-on-write', n != k)
        else:
            same('written', d, b'\1' * n)

def reading(n):
    """reading takes exactly the declared number of bytes"""
    w = any_bytes('w', n + 2)
    class S(Struct):
        _fields_ = [FixedSizeBuffer('x', n), UBInt8('a'), UBInt8('b')]
    r = S.create_from_string(w)
    same('value', r.x, w[:n])
    same('rest', (r.a, r.b), (w[n], w[n + 1]))
    class T(Struct):
        _fields_ = [PaddedString('x', n), UBInt8('a'), UBInt8('b')]
    r = T.create_from_string(w)
    same('padded', r.x, w[:n].rstrip(b'\0'))
    same('padded-rest', (r.a, r.b), (w[n], w[n + 1]))
'''


def cases():
    for n in (0, 1, 2, 3, 5, 9):
        for w in ('field', 'marshal', 'array', 'optional'):
            yield Case('buffer/%s/%d' % (w, n), SRC, 'buffer', (n, w))
        for w in ('field', 'marshal'):
            yield Case('padded/%s/%d' % (w, n), SRC, 'padded', (n, w))
        yield Case('element/%d' % n, SRC, 'element_misfit', (n,))
        yield Case('reading/%d' % n, SRC, 'reading', (n,))
        for c in (b'\0', b'x'):
            yield Case('padding/%d/%r' % (n, c), SRC, 'padding', (n, c))
    for n in range(5):
        for k in range(7):
            yield Case('array/%d/%d' % (n, k), SRC, 'array', (n, k))
            yield Case('array-marshal/%d/%d' % (n, k), SRC, 'array_marshal', (n, k))
            yield Case('default/%d/%d' % (n, k), SRC, 'default_size', (n, k))
            yield Case('default-count/%d/%d' % (n, k), SRC, 'default_count', (n, k))
