"""Selectors: the class used to read is determined by the key alone (or by the caller's function), the key bytes remain part of
what that class reads, an unmapped key without default is an error, and bytes read ahead but not consumed are an error, never
dropped; writing dispatches on the object's own class."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Selectors with mapped keys, unmapped keys (an opaque key vector: every other value at once), with and without default, key
marshals of one and two bytes, function selectors with opaque choice and read-ahead of 0..4 bytes over structs of 2..4 bytes;
the underlying stream carries trailing bytes that must stay unread."""

SRC = PRE + '''

def select(width, order, default):
    m = {(1, 'big'): UBInt8, (2, 'big'): UBInt16, (2, 'little'): ULInt16}[(width, order)]
    class A(Struct):
        _fields_ = [m('k'), UBInt16('a')]
    class B(Struct):
        _fields_ = [m('k'), FixedSizeBuffer('b', 3)]
    class D(Struct):
        _fields_ = [m('k'), UBInt8('d')]
    sel = StructSelector(m, {1: A, 2: B}, D) if default else StructSelector(m, {1: A, 2: B})
    k = any_uint('k', 8 * width)
    rest = any_bytes('rest', 6)
    d = k.to_bytes(width, order) + rest
    st = BytesIO(d)
    try:
        r = sel.create_from_stream(st)
    except InstructError:
        holds('error-only-unmapped', not default and k != 1 and k != 2)
    except Exception as e:
        bad('library-error', e)
    else:
        if k == 1:
            holds('class-1', type(r) is A)
            same('value-1', (r.k, r.a), (1, rest[0] << 8 | rest[1]))
            same('rest-1', st.read(), rest[2:])
        elif k == 2:
            holds('class-2', type(r) is B)
            same('value-2', (r.k, r.b), (2, rest[:3]))
            same('rest-2', st.read(), rest[3:])
        else:
            holds('default-only-if-declared', default)
            holds('class-d', type(r) is D)
            same('value-d', (r.k, r.d), (k, rest[0]))
            same('rest-d', st.read(), rest[1:])

def falsy_key():
    class A(Struct):
        _fields_ = [UBInt8('k'), UBInt8('a')]
    class D(Struct):
        _fields_ = [UBInt8('k'), UBInt16('d')]
    x = any_uint('x', 8)
    sel = StructSelector(UBInt8, {0: A}, D)
    r = sel.create_from_string(b'\\0' + x.to_bytes(1, 'big') + b'zz')
    holds('class', type(r) is A)
    sel = StructSelector(UBInt8, {0: A})
    r = sel.create_from_string(b'\\0' + x.to_bytes(1, 'big'))
    holds('class-nodefault', type(r) is A)
    same('value', r.a, x)

def bytes_key():
    class A(Struct):
        _fields_ = [FixedSizeBuffer('k', 2), UBInt8('a')]
    class B(Struct):
        _fields_ = [FixedSizeBuffer('k', 2), UBInt16('b')]
    sel = StructSelector(FixedSizeBufferMarshal(2), {b'aa': A, b'bb': B})
    k = any_bytes('k', 2)
    try:
        r = sel.create_from_string(k + b'\\1\\2')
    except InstructError:
        holds('error-only-unmapped', k != b'aa' and k != b'bb')
    else:
        if k == b'aa':
            holds('class-a', type(r) is A)
        else:
            same('key', k, b'bb')
            holds('class-b', type(r) is B)
            same('value', r.b, 0x0102)

def leftover(n):
    """a key wider than the selected struct leaves bytes: error"""
    m = {2: UBInt16, 4: UBInt32}[n]
    class A(Struct):
        _fields_ = [UBInt8('k')]
    sel = StructSelector(m, {}, A)
    try:
        sel.create_from_string(any_bytes('b', 6))
    except InstructError:
        ok('leftover')
    except Exception as e:
        bad('leftover', e)
    else:
        bad('leftover')

def by_func(ahead, pick, need):
    n = 2 if pick == 'A' else 4
    class A(Struct):
        _fields_ = [UBInt8('a'), UBInt8('b')]
    class B(Struct):
        _fields_ = [FixedSizeBuffer('x', 3), UBInt8('y')]
    got = []
    def choose(obj, stream, context):
        if ahead:
            got.append(stream.read(ahead))
        return A if pick == 'A' else B
    class S(Struct):
        _fields_ = [UBInt8('h'), SelectStructByFunc('s', choose), UBInt8('t')]
    d = any_bytes('d', 8)
    st = BytesIO(d)
    try:
        r = S.create_from_stream(st)
    except InstructError:
        holds('error-only-leftover', ahead > n)
    except Exception as e:
        bad('library-error', e)
    else:
        holds('leftover-is-error', ahead <= n)
        if ahead:
            same('peeked', got[0], d[1:1 + ahead])
        if pick == 'A':
            holds('class', type(r.s) is A)
            same('value', (r.h, r.s.a, r.s.b, r.t), (d[0], d[1], d[2], d[3]))
        else:
            holds('class', type(r.s) is B)
            same('value', (r.h, r.s.x, r.s.y, r.t), (d[0], d[1:4], d[4], d[5]))
        same('consumed', st.tell(), n + 2)

def func_sees_struct():
    seen = []
    def choose(obj, stream, context):
        seen.append(obj.h)
        return Inner
    class S(Struct):
        _fields_ = [UBInt8('h'), SelectStructByFunc('s', choose)]
    d = any_bytes('d', 4)
    r = S.create_from_string(d)
    same('seen', seen, [d[0]])
    same('value', (r.s.p, r.s.q), (d[1], d[2] | d[3] << 8))

def writes_own_class():
    sel = StructSelector(UBInt8, {1: KA, 2: KB}, KD)
    x, y = any_uint('x', 16), any_bytes('y', 3)
    same('a', sel.write_to_string(KA(a=x)), b'\\1' + x.to_bytes(2, 'big'))
    same('b', sel.write_to_string(KB(b=y)), b'\\2' + y)
    same('d', sel.write_to_string(KD(k=9, d=4)), b'\\x09\\4')
    same('sizes', (sel.sizeof(KA(a=x)), sel.sizeof(KB(b=y)), sel.sizeof(KD(k=9, d=4))), (3, 4, 2))

def in_array():
    x, y = any_uint('x', 16), any_bytes('y', 3)
    class S(Struct):
        _fields_ = [VarSizeArray('a', UBInt8, StructSelector(UBInt8, {1: KA, 2: KB})), UBInt8('t')]
    d = b'\\3\\1' + x.to_bytes(2, 'big') + b'\\2' + y + b'\\1\\0\\1' + b'\\x55'
    r = S.create_from_string(d)
    same('count', len(r.a), 3)
    holds('classes', type(r.a[0]) is KA and type(r.a[1]) is KB and type(r.a[2]) is KA)
    same('values', (r.a[0].a, r.a[1].b, r.a[2].a, r.t), (x, y, 1, 0x55))
    same('rewrite', S.write_to_string(r), d)

def nested():
    """a selector whose classes contain selectors"""
    class In1(Struct):
        _fields_ = [ConstField('k', 1, UBInt8), UBInt8('v')]
    class In2(Struct):
        _fields_ = [ConstField('k', 2, UBInt8), UBInt16('v')]
    class O1(Struct):
        _fields_ = [ConstField('o', 1, UBInt8), Field('i', StructSelector(UBInt8, {1: In1, 2: In2}))]
    class O2(Struct):
        _fields_ = [ConstField('o', 2, UBInt8), Field('i', StructSelector(UBInt8, {1: In1, 2: In2})), UBInt8('e')]
    sel = StructSelector(UBInt8, {1: O1, 2: O2})
    x = any_uint('x', 16)
    r = sel.create_from_string(b'\\2\\2' + x.to_bytes(2, 'big') + b'\\x77')
    holds('class', type(r) is O2 and type(r.i) is In2)
    same('value', (r.i.v, r.e), (x, 0x77))

def bad_mapping(v):
    try:
        StructSelector(UBInt8, {1: [5, UBInt8, 'x', int][v]})
    except ValueError:
        ok('rejected')
    except Exception as e:
        bad('rejected', e)
    else:
        bad('rejected')

def truncated(k):
    sel = StructSelector(UBInt16, {1: Wide})
    try:
        sel.create_from_string(b'\\0\\1abc'[:k])
    except InstructError:
        ok('truncated')
    except Exception as e:
        bad('truncated', e)
    else:
        bad('truncated')

class Wide(Struct):
    _fields_ = [UBInt16('k'), FixedSizeBuffer('b', 4)]

def map_snapshot():
    """a later change of the caller's mapping does not change the declaration"""
    d = {1: KA}
    sel = StructSelector(UBInt8, d)
    d[1] = KB
    d[2] = KB
    r = sel.create_from_string(b'\\1\\0\\2')
    holds('class', type(r) is KA)
'''


def cases():
    for w, o in ((1, 'big'), (2, 'big'), (2, 'little')):
        for d in (False, True):
            yield Case('select/%d%s/%s' % (w, o, 'default' if d else 'strict'), SRC, 'select', (w, o, d))
    for n in (2, 4):
        yield Case('leftover/%d' % n, SRC, 'leftover', (n,))
    for a in range(7):
        for p in 'AB':
            yield Case('func/%s/%d' % (p, a), SRC, 'by_func', (a, p, 0))
    for v in range(4):
        yield Case('bad-mapping/%d' % v, SRC, 'bad_mapping', (v,))
    for k in range(6):
        yield Case('truncated/%d' % k, SRC, 'truncated', (k,))
    for f in ('falsy_key', 'bytes_key', 'func_sees_struct', 'writes_own_class', 'in_array', 'nested'):
        yield Case(f, SRC, f)
