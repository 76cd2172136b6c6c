"""The size reported for an object equals the number of bytes writing it produces.  Product comparison of the size walk and
the write walk over opaque values for every field kind, every ordered pair, and symbolic-length strings and buffers."""
import itertools
from ..run import Case
from ._cat import PRE, ALL
from .S03 import twice

COVERAGE = """Every field kind and every ordered pair with opaque values (thorough: triples); reported size compared with the length
of the written bytes; for variable size strings the comparison is symbolic in the length and the padding direction."""

SRC = PRE + '''
def size(kinds):
    S, kw, enc, dec, fixed = build(kinds)
    s = S(**kw)
    same('sizeof', S.sizeof(s), len(enc))
    same('written', S.sizeof(s), len(S.write_to_string(s)))
    r = S.create_from_string(enc)
    same('after-read', S.sizeof(r), len(enc))
    class O(Struct):
        _fields_ = [UBInt8('h'), Field('s', S)]
    o = O(h=1, s=s)
    same('nested', O.sizeof(o), 1 + len(enc))
    same('nested-written', len(O.write_to_string(o)), 1 + len(enc))
    class A(Struct):
        _fields_ = [VarSizeArray('x', UBInt16, S)]
    a = A(x=[s, s])
    same('array', A.sizeof(a), 2 + 2 * len(enc))
    same('array-written', len(A.write_to_string(a)), 2 + 2 * len(enc))

def derived():
    class B(Struct):
        _fields_ = [UBInt8('a')]
    class E(B):
        _fields_ = B._fields_ + [UBInt16('c')]
    e = E(a=1, c=any_uint('c', 16))
    same('dynamic-class', B.sizeof(e), len(B.write_to_string(e)))
    class O(Struct):
        _fields_ = [Field('s', B)]
    o = O(s=e)
    same('nested-dynamic', O.sizeof(o), len(O.write_to_string(o)))

def buffer_len():
    b = any_bytes('b')
    class S(Struct):
        _fields_ = [VarSizeBuffer('b', UBInt16)]
    s = S(b=b)
    n = S.sizeof(s)
    same('sizeof', n, 2 + len(b))
    try:
        d = S.write_to_string(s)
    except InstructError:
        pass
    else:
        same('written', n, len(d))

def string_strip(direction, n):
    b = any_bytes('b', n)
    m = VarSizeStringMarshal(UBInt8, b'\\0', direction)
    same('sizeof', m.sizeof(b), len(m.write_to_string(b)))

def string_strip_any(direction):
    b = any_bytes('b')
    m = VarSizeStringMarshal(UBInt8, b' \\0', direction)
    try:
        d = m.write_to_string(b)
    except InstructError:
        pass
    else:
        same('sizeof', m.sizeof(b), len(d))

def optional_falsy(v):
    class S(Struct):
        _fields_ = [UBInt8('flag'), OptionalField('o', [UBInt8, VarSizeBufferMarshal(UBInt8), VarSizeArrayMarshal(UBInt8, UBInt8)][v], wants)]
    s = S(flag=1, o=[0, b'', []][v])
    same('sizeof', S.sizeof(s), len(S.write_to_string(s)))
    same('present', S.sizeof(s), 2)
    s = S(flag=0)
    same('absent', S.sizeof(s), len(S.write_to_string(s)))
    same('absent1', S.sizeof(s), 1)
'''
SRC = SRC.replace("from io import", "from io import", 1)


def cases():
    for k in ALL:
        yield Case('size/' + k, SRC, 'size', ([k],))
    for d in range(4):
        for n in (0, 1, 2, 3):
            yield Case('strip/%d/%d' % (d, n), SRC, 'string_strip', (d, n))
        yield Case('strip-any/%d' % d, SRC, 'string_strip_any', (d,))
    for v in range(3):
        yield Case('optional-falsy/%d' % v, SRC, 'optional_falsy', (v,))
    yield Case('derived', SRC, 'derived')
    yield Case('buffer-len', SRC, 'buffer_len')
    for a, b in itertools.product(ALL, ALL):
        if not twice(a, b):
            yield Case('size/%s+%s' % (a, b), SRC, 'size', ([a, b],))
    for i, (a, b, c) in enumerate(itertools.product(ALL, ALL, ALL)):
        if i % 5 == 0 and not (twice(a, b) or twice(b, c) or twice(a, c)):
            yield Case('size/%s+%s+%s' % (a, b, c), SRC, 'size', ([a, b, c],), tier='thorough')
