"""Optional fields: a field whose value is set is written in full, including falsy values, an unset one contributes nothing;
on reading, the caller's condition alone decides presence, it sees the fields before it, and it is asked once per read."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Optional numeric, byte string, array and struct fields with opaque values and opaque conditions, at the first, middle and last
position; both outcomes of the condition explored; falsy values 0, b'' and [] enumerated."""

SRC = PRE + '''

def written(pos):
    x, y = any_uint('x', 16), any_uint('y', 8)
    def cond(o, s, c):
        return opaque_bool('cond')
    fs = [UBInt8('y')]
    fs.insert(pos, OptionalField('x', UBInt16, cond))
    class S(Struct):
        _fields_ = fs
    px, py = x.to_bytes(2, 'big'), y.to_bytes(1, 'big')
    same('present', S.write_to_string(S(x=x, y=y)), px + py if pos == 0 else py + px)
    same('absent', S.write_to_string(S(y=y)), py)
    same('none', S.write_to_string(S(x=None, y=y)), py)
    same('size-present', S.sizeof(S(x=x, y=y)), 3)
    same('size-absent', S.sizeof(S(y=y)), 1)

def read(pos):
    x, y = any_uint('x', 16), any_uint('y', 8)
    p = opaque_bool('cond')
    calls = []
    def cond(o, s, c):
        calls.append(o)
        return p
    fs = [UBInt8('y'), UBInt8('z')]
    fs.insert(pos, OptionalField('x', UBInt16, cond))
    class S(Struct):
        _fields_ = fs
    d = [b'\\x11', b'\\x22']
    if p:
        d.insert(pos, x.to_bytes(2, 'big'))
    st = BytesIO(b''.join(d) + b'tail')
    r = S.create_from_stream(st)
    same('value', r.x, x if p else None)
    same('others', (r.y, r.z), (0x11, 0x22))
    same('rest', st.read(), b'tail')
    same('asked-once', len(calls), 1)
    holds('asked-object', calls[0] is r)

def sees_earlier():
    n = any_uint('n', 8)
    seen = []
    def cond(o, s, c):
        seen.append(o.n)
        return o.n > 7
    class S(Struct):
        _fields_ = [UBInt8('n'), OptionalField('x', UBInt8, cond), UBInt8('t')]
    d = n.to_bytes(1, 'big') + any_bytes('b', 2)
    st = BytesIO(d)
    r = S.create_from_stream(st)
    same('seen', seen, [n])
    if n > 7:
        same('present', (r.x, r.t), (d[1], d[2]))
        same('consumed', st.tell(), 3)
    else:
        same('absent', (r.x, r.t), (None, d[1]))
        same('consumed', st.tell(), 2)
    same('rewrite', S.write_to_string(r), d[:st.tell()])

def falsy(kind):
    m = [UBInt8, VarSizeBufferMarshal(UBInt8), VarSizeArrayMarshal(UBInt8, UBInt8), FixedSizeArrayMarshal(0, UBInt8), SBInt32][kind]
    v = [0, b'', [], [], 0][kind]
    e = [b'\\0', b'\\0', b'\\0', b'', b'\\0\\0\\0\\0'][kind]
    class S(Struct):
        _fields_ = [UBInt8('h'), OptionalField('x', m, lambda o, s, c: True), UBInt8('t')]
    s = S(h=1, x=v, t=2)
    same('written', S.write_to_string(s), b'\\1' + e + b'\\2')
    same('sizeof', S.sizeof(s), 2 + len(e))
    r = S.create_from_string(b'\\1' + e + b'\\2')
    same('read', (r.h, r.t), (1, 2))
    same('value', r.x, v)

def default_used():
    x = any_uint('x', 8)
    class S(Struct):
        _fields_ = [OptionalField('x', UBInt8, lambda o, s, c: True, 5)]
    same('default', S.write_to_string(S()), b'\\5')
    same('given', S.write_to_string(S(x=x)), x.to_bytes(1, 'big'))
    same('zero', S.write_to_string(S(x=0)), b'\\0')

def two():
    p, q = opaque_bool('p'), opaque_bool('q')
    x, y = any_uint('x', 8), any_uint('y', 16)
    class S(Struct):
        _fields_ = [OptionalField('x', UBInt8, lambda o, s, c: p), OptionalField('y', UBInt16, lambda o, s, c: q), UBInt8('t')]
    d = (x.to_bytes(1, 'big') if p else b'') + (y.to_bytes(2, 'big') if q else b'') + b'\\x7f'
    r = S.create_from_string(d)
    same('read', (r.x, r.y, r.t), (x if p else None, y if q else None, 0x7f))
    same('rewrite', S.write_to_string(r), d)

def sub():
    p = opaque_bool('p')
    x = any_uint('x', 8)
    class S(Struct):
        _fields_ = [UBInt8('h'), OptionalField('i', Inner, lambda o, s, c: p)]
    d = b'\\1' + (x.to_bytes(1, 'big') + b'\\5\\0' if p else b'')
    r = S.create_from_string(d)
    if p:
        same('read', (r.i.p, r.i.q), (x, 5))
    else:
        same('read', r.i, None)
    same('rewrite', S.write_to_string(r), d)

def error_propagates():
    class MyError(Exception):
        pass
    def cond(o, s, c):
        raise MyError()
    class S(Struct):
        _fields_ = [OptionalField('x', UBInt8, cond)]
    try:
        S.create_from_string(b'\\1')
    except MyError:
        ok('condition-error')
    except Exception as e:
        bad('condition-error', e)
    else:
        bad('condition-error')

def truncated():
    class S(Struct):
        _fields_ = [OptionalField('x', UBInt16, lambda o, s, c: True)]
    try:
        S.create_from_string(any_bytes('b', 1))
    except InstructError:
        ok('truncated')
    else:
        bad('truncated')
'''


def cases():
    for p in (0, 1):
        yield Case('written/%d' % p, SRC, 'written', (p,))
    for p in (0, 1, 2):
        yield Case('read/%d' % p, SRC, 'read', (p,))
    for k in range(5):
        yield Case('falsy/%d' % k, SRC, 'falsy', (k,))
    for f in ('sees_earlier', 'default_used', 'two', 'sub', 'error_propagates', 'truncated'):
        yield Case(f, SRC, f)
