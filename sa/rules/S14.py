"""Mapped values: a name is written as exactly the encoding of the value it maps to and a value is read as exactly the name that maps to
it; names and values outside the mapping are errors, never another entry; a mapping with two names for one value is rejected."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Mappings of 1..4 entries over numeric, byte string, constant-size string and bit carriers in both byte orders; every entry both ways; an
opaque stream value (all values at once); opaque names; duplicates at every pair of positions; the user's dictionary afterwards."""

SRC = PRE + r'''
def carrier(kind):
    """(marshal, values, encodings)"""
    if kind == 'u8':
        return UBInt8, [0, 1, 7, 255], [b'\0', b'\1', b'\7', b'\xff']
    if kind == 'u16b':
        return UBInt16, [1, 0x0102, 0, 0xffff], [b'\0\1', b'\1\2', b'\0\0', b'\xff\xff']
    if kind == 'u16l':
        return ULInt16, [1, 0x0102, 0, 0xffff], [b'\1\0', b'\2\1', b'\0\0', b'\xff\xff']
    if kind == 's8':
        return SBInt8, [-1, 0, 127, -128], [b'\xff', b'\0', b'\x7f', b'\x80']
    if kind == 'buf':
        return FixedSizeBufferMarshal(2), [b'ab', b'\0\0', b'cd', b'a\0'], [b'ab', b'\0\0', b'cd', b'a\0']
    return PaddedStringMarshal(3), [b'ab', b'', b'cde', b'f'], [b'ab\0', b'\0\0\0', b'cde', b'f\0\0']

NAMES = ['one', 'two', None, 4]

def every(kind, n):
    m, vals, encs = carrier(kind)
    d = {}
    for i in range(n):
        d[NAMES[i]] = vals[i]
    before = dict(d)
    class S(Struct):
        _fields_ = [UBInt8('h'), MappingField('x', m, d), UBInt8('t')]
    for i in range(n):
        if NAMES[i] is not None:
            w = S.write_to_string(S(h=1, x=NAMES[i], t=2))
            same('write-%d' % i, w, b'\1' + encs[i] + b'\2')
        r = S.create_from_string(b'\1' + encs[i] + b'\2')
        same('read-%d' % i, (r.h, r.x, r.t), (1, NAMES[i], 2))
    same('caller-mapping', d, before)
    same('size', S.sizeof(S(h=1, x=NAMES[0], t=2)), len(encs[0]) + 2)
    same('bounds', S.min_max_sizeof(), (len(encs[0]) + 2, len(encs[0]) + 2))

def read_any(kind, n):
    m, vals, encs = carrier(kind)
    d = {}
    for i in range(n):
        d[NAMES[i]] = vals[i]
    class S(Struct):
        _fields_ = [MappingField('x', m, d)]
    b = any_bytes('b', len(encs[0]))
    try:
        r = S.create_from_string(b)
    except Exception:
        for i in range(n):
            holds('error-only-when-unmapped-%d' % i, b != encs[i])
    else:
        hit = False
        for i in range(n):
            if r.x == NAMES[i]:
                hit = True
                same('read-%d' % i, b, encs[i])
        same('some-entry', hit, True)

def write_unknown(kind):
    m, vals, encs = carrier(kind)
    class S(Struct):
        _fields_ = [MappingField('x', m, {'one': vals[0], 'two': vals[1]})]
    for bad_name in ('three', None, 1, vals[0]):
        st = BytesIO()
        try:
            S.write_to_stream(S(x=bad_name), st)
        except Exception:
            ok('rejected')
        else:
            bad('rejected')
        same('nothing-written', st.getvalue(), b'')

def duplicate(kind, n, i, j):
    m, vals, encs = carrier(kind)
    d = {}
    for k in range(n):
        d['n%d' % k] = vals[j] if k == i else vals[k]
    try:
        class S(Struct):
            _fields_ = [MappingField('x', m, d)]
    except Exception:
        ok('rejected')
    else:
        bad('rejected')

def default():
    class S(Struct):
        _fields_ = [MappingField('x', UBInt8, {'one': 1, 'two': 2}, 'two')]
    same('written', S.write_to_string(S()), b'\2')
    same('value', S().x, 'two')

def independent():
    class A(Struct):
        _fields_ = [MappingField('x', UBInt8, {'one': 1}), MappingField('y', UBInt8, {'one': 2})]
    same('written', A.write_to_string(A(x='one', y='one')), b'\1\2')
    r = A.create_from_string(b'\1\2')
    same('read', (r.x, r.y), ('one', 'one'))

def in_array():
    class A(Struct):
        _fields_ = [VarSizeArray('x', UBInt8, FixedSizeMappingMarshal({'one': 1, 'two': 2}, UBInt16))]
    same('written', A.write_to_string(A(x=['two', 'one', 'two'])), b'\3\0\2\0\1\0\2')
    same('read', A.create_from_string(b'\3\0\2\0\1\0\2').x, ['two', 'one', 'two'])

def bits_carrier():
    class A(Struct):
        _fields_ = [MappingField('x', UBInt8, {'a': 0, 'b': 3}), BitFields(BitField('y', 8))]
    y = any_uint('y', 8)
    same('written', A.write_to_string(A(x='b', y=y)), b'\3' + y.to_bytes(1, 'big'))
'''


def cases():
    for k in ('u8', 'u16b', 'u16l', 's8', 'buf', 'pstr'):
        for n in (1, 2, 4):
            yield Case('every/%s/%d' % (k, n), SRC, 'every', (k, n))
            if k != 'pstr':
                yield Case('read-any/%s/%d' % (k, n), SRC, 'read_any', (k, n))
        yield Case('unknown/' + k, SRC, 'write_unknown', (k,))
        for n in (2, 3, 4):
            for i in range(n):
                for j in range(n):
                    if i != j:
                        yield Case('duplicate/%s/%d/%d.%d' % (k, n, i, j), SRC, 'duplicate', (k, n, i, j),
                                   tier='quick' if k in ('u8', 'buf') else 'thorough')
    for f in ('default', 'independent', 'in_array', 'bits_carrier'):
        yield Case(f, SRC, f)
