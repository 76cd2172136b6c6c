"""Writer and reader walk the declared fields in the same order: the written bytes are exactly the concatenation, in
declaration order, of the bytes each field promises (length prefixes counting exactly what follows them), and reading those
bytes yields the written values, leaving the following bytes untouched.  Product comparison of both walks over opaque values
for every field kind and every ordered pair of kinds."""
import itertools
from ..run import Case
from ._cat import PRE, ALL

COVERAGE = """Every field kind alone and every ordered pair (thorough: also every third ordered triple) with opaque values;
writer output compared byte by byte with the promised encoding, reader result value by value; symbolic-length buffers and
arrays of opaque elements cover the length prefixes for arbitrary counts."""

SRC = PRE + '''
def walk(kinds):
    S, kw, enc, dec, fixed = build(kinds)
    s = S(**kw)
    same('string', S.write_to_string(s), enc)
    same('to_bytes', s.to_bytes(), enc)
    st = BytesIO()
    st.write(b'##')
    S.write_to_stream(s, st)
    same('stream', st.getvalue(), b'##' + enc)
    st = BytesIO(b'##' + enc + b'@@')
    st.read(2)
    r = S.create_from_stream(st)
    same('consumed', st.read(), b'@@')
    for n in sorted(dec):
        same('value-' + n, getattr(r, n), dec[n])
    same('rewrite', S.write_to_string(r), enc)
    r = S.create_from_string(enc)
    same('rewrite-string', S.write_to_string(r), enc)

def prefix_buffer(width):
    """the prefix of a variable size buffer equals the number of bytes that follow, for every length"""
    b = any_bytes('b')
    P = [UBInt8, UBInt16][width - 1]
    class S(Struct):
        _fields_ = [VarSizeBuffer('b', P), UBInt8('t')]
    st = BytesIO()
    try:
        S.write_to_stream(S(b=b, t=0xee), st)
    except InstructError:
        holds('error-only-when-too-long', len(b) >= 1 << (8 * width))
    else:
        d = st.getvalue()
        same('prefix', d[:width], len(b).to_bytes(width, 'big'))
        same('body', d[width:width + len(b)], b)
        same('total', len(d), width + len(b) + 1)

class Elem(Struct):
    _fields_ = [UBInt8('e')]

def array_order(n, what):
    xs = []
    for i in range(n):
        xs.append(any_uint('x%d' % i, 8))
    if what == 'fixed':
        class S(Struct):
            _fields_ = [FixedSizeArray('a', n, UBInt8), UBInt8('t')]
        pre = b''
    elif what == 'var':
        class S(Struct):
            _fields_ = [VarSizeArray('a', ULInt16, UBInt8), UBInt8('t')]
        pre = n.to_bytes(2, 'little')
    else:
        class S(Struct):
            _fields_ = [SumSizeArray('a', UBInt16, UBInt8), UBInt8('t')]
        pre = n.to_bytes(2, 'big')
    d = S.write_to_string(S(a=xs, t=9))
    same('written', d, pre + bytes(bytearray(xs)) + b'\\x09')
    r = S.create_from_string(d)
    same('read', r.a, xs)
    same('tail', r.t, 9)

def array_struct_elements(n, what):
    es = []
    for i in range(n):
        es.append(Elem(e=any_uint('x%d' % i, 8)))
    if what == 'var':
        class S(Struct):
            _fields_ = [VarSizeArray('a', UBInt8, Elem)]
    elif what == 'fixed':
        class S(Struct):
            _fields_ = [FixedSizeArray('a', n, Elem)]
    else:
        class S(Struct):
            _fields_ = [SumSizeArray('a', UBInt8, Elem)]
    r = S.create_from_string(S.write_to_string(S(a=es)))
    same('count', len(r.a), n)
    for i in range(n):
        same('elem', r.a[i].e, es[i].e)

def inherited():
    """a derived class without its own declaration uses the inherited one; a derived declaration replaces it"""
    class B(Struct):
        _fields_ = [UBInt8('a'), UBInt8('b')]
    class D(B):
        pass
    class E(B):
        _fields_ = B._fields_ + [UBInt16('c')]
    x, y, z = any_uint('x', 8), any_uint('y', 8), any_uint('z', 16)
    same('inherited', D.write_to_string(D(a=x, b=y)), x.to_bytes(1, 'big') + y.to_bytes(1, 'big'))
    same('extended', E.write_to_string(E(a=x, b=y, c=z)), x.to_bytes(1, 'big') + y.to_bytes(1, 'big') + z.to_bytes(2, 'big'))
    same('dynamic-class', B.write_to_string(E(a=x, b=y, c=z)), x.to_bytes(1, 'big') + y.to_bytes(1, 'big') + z.to_bytes(2, 'big'))
    r = E.create_from_string(E.write_to_string(E(a=x, b=y, c=z)))
    same('read', (r.a, r.b, r.c), (x, y, z))
    r = D.create_from_string(D.write_to_string(D(a=x, b=y)))
    same('read-inherited', (r.a, r.b, type(r) is D), (x, y, True))

def tuple_fields():
    class B(Struct):
        _fields_ = (UBInt8('a'), ULInt16('b'))
    x, y = any_uint('x', 8), any_uint('y', 16)
    d = B.write_to_string(B(a=x, b=y))
    same('written', d, x.to_bytes(1, 'big') + y.to_bytes(2, 'little'))
    r = B.create_from_string(d)
    same('read', (r.a, r.b), (x, y))

def pointer():
    """a size taken from an earlier field counts exactly the elements that follow"""
    from infi.instruct import ReadPointer
    class P(Struct):
        _fields_ = [UBInt8('n'), VarSizeArray('a', ReadPointer('n'), UBInt16), UBInt8('t')]
    x, y = any_uint('x', 16), any_uint('y', 16)
    d = P.write_to_string(P(n=2, a=[x, y], t=7))
    same('written', d, b'\\2' + x.to_bytes(2, 'big') + y.to_bytes(2, 'big') + b'\\7')
    r = P.create_from_string(d)
    same('read', (r.n, r.a, r.t), (2, [x, y], 7))

def pointer_buffer():
    from infi.instruct import ReadPointer
    class P(Struct):
        _fields_ = [UBInt8('n'), UBInt8('m'), VarSizeBuffer('b', ReadPointer('n')), UBInt8('t')]
    x = any_bytes('x', 3)
    d = P.write_to_string(P(n=3, m=1, b=x, t=7))
    same('written', d, b'\\3\\1' + x + b'\\7')
    r = P.create_from_string(d)
    same('read', (r.n, r.m, r.b, r.t), (3, 1, x, 7))

class NoTell(object):
    def __init__(self, data):
        self.io = BytesIO(data)
    def read(self, n):
        return self.io.read(n)

def padded_elements(what, tell):
    """elements whose wire form is longer than their shortest form: the prefix counts wire bytes"""
    x, y = any_bytes('x', 2), any_bytes('y', 1)
    el = b'\\4' + x + b'\\0\\0' + b'\\2' + y + b'\\0'
    if what == 'sum':
        class S(Struct):
            _fields_ = [SumSizeArray('a', UBInt8, VarSizeStringMarshal(UBInt8)), UBInt8('t')]
        wire = b'\\x08' + el
    elif what == 'var':
        class S(Struct):
            _fields_ = [VarSizeArray('a', UBInt8, VarSizeStringMarshal(UBInt8)), UBInt8('t')]
        wire = b'\\2' + el
    else:
        class S(Struct):
            _fields_ = [FixedSizeArray('a', 2, VarSizeStringMarshal(UBInt8)), UBInt8('t')]
        wire = el
    st = BytesIO(wire + b'\\x07@') if tell else NoTell(wire + b'\\x07@')
    r = S.create_from_stream(st)
    same('elements', r.a, [x.rstrip(b'\\0'), y.rstrip(b'\\0')])
    same('tail', r.t, 7)
    same('rest', st.read(1), b'@')

def sum_mismatch(total):
    """a byte sum that the elements do not add up to is an error, never a silently misaligned read"""
    class S(Struct):
        _fields_ = [SumSizeArray('a', UBInt8, UBInt16), UBInt8('t')]
    b = any_bytes('b', 5)
    try:
        r = S.create_from_string(total.to_bytes(1, 'big') + b)
    except InstructError:
        holds('error-only-on-mismatch', total % 2 == 1 or total > 4)
    except Exception as e:
        bad('library-error', e)
    else:
        same('even', total % 2, 0)
        same('count', len(r.a), total // 2)
        same('tail', r.t, b[total])
'''


def twice(a, b):
    return a.startswith('opt') and b.startswith('opt')


def cases():
    for k in ALL:
        yield Case('walk/' + k, SRC, 'walk', ([k],))
    for w in (1, 2):
        yield Case('prefix-buffer/%d' % w, SRC, 'prefix_buffer', (w,))
    for what in ('fixed', 'var', 'sum'):
        for n in (0, 1, 2, 5):
            yield Case('array/%s/%d' % (what, n), SRC, 'array_order', (n, what))
            yield Case('array-struct/%s/%d' % (what, n), SRC, 'array_struct_elements', (n, what))
        yield Case('array/%s/40' % what, SRC, 'array_order', (40, what), tier='thorough')
    for what in ('fixed', 'var', 'sum'):
        yield Case('padded-elements/%s/tell' % what, SRC, 'padded_elements', (what, True))
        if what != 'sum':
            yield Case('padded-elements/%s/no-tell' % what, SRC, 'padded_elements', (what, False))
    for n in range(7):
        yield Case('sum-mismatch/%d' % n, SRC, 'sum_mismatch', (n,))
    for f in ('inherited', 'tuple_fields', 'pointer', 'pointer_buffer'):
        yield Case(f, SRC, f)
    for a, b in itertools.product(ALL, ALL):
        if not twice(a, b):
            yield Case('walk/%s+%s' % (a, b), SRC, 'walk', ([a, b],))
    for i, (a, b, c) in enumerate(itertools.product(ALL, ALL, ALL)):
        if i % 3 == 0 and not (twice(a, b) or twice(b, c) or twice(a, c)):
            yield Case('walk/%s+%s+%s' % (a, b, c), SRC, 'walk', ([a, b, c],), tier='thorough')
