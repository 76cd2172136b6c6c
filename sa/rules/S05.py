"""Size bounds are sound: the reported minimum and maximum bracket the size of every value that can be written, they coincide
exactly when the declaration is reported to be of fixed size, sums of bounds add up, and no bound leaves [0, maxsize]."""
import itertools
from ..run import Case
from ._cat import PRE, ALL, FIXED, VAR
from .S03 import twice

COVERAGE = """Every field kind and ordered pair with opaque values; length-prefixed strings, buffers and arrays of every prefix width with
symbolic element counts and the extreme counts; optional fields present and absent; selectors over structs of different sizes;
bound arithmetic over arbitrary integers."""

SRC = PRE + '''

def bracket(kinds):
    S, kw, enc, dec, fixed = build(kinds)
    s = S(**kw)
    mm = S.min_max_sizeof()
    holds('min', mm.min <= len(enc))
    holds('max', len(enc) <= mm.max)
    if fixed:
        same('fixed-min', mm.min, len(enc))
        same('fixed-max', mm.max, len(enc))
    else:
        holds('var', mm.min < mm.max)
    class O(Struct):
        _fields_ = [UBInt8('h'), Field('s', S), UBInt16('t')]
    om = O.min_max_sizeof()
    same('nested-min', om.min, mm.min + 3)
    same('nested-max', om.max, min(mm.max + 3, sys.maxsize))

def field_fixed(kind):
    """a field reports a fixed size exactly when it is one"""
    S, kw, enc, dec, fixed = build([kind])
    same('fixed', FieldBase_fixed(S), fixed)

def FieldBase_fixed(S):
    r = True
    for f in S._fields_:
        r = r and f.is_fixed_size()
    return r

def prefixed(width, what):
    """whatever can be written is inside the bounds; n is the symbolic number of bytes"""
    P = {1: UBInt8, 2: ULInt16, 4: SBInt32, 8: UBInt64}[width]
    b = any_bytes('b')
    if what == 'buffer':
        m = VarSizeBufferMarshal(P)
    else:
        m = VarSizeStringMarshal(P, b'', PADDING_DIRECTION_NONE)
    n = m.sizeof(b)
    st = BytesIO()
    try:
        m.write_to_stream(b, st)
    except InstructError:
        return
    mm = m.min_max_sizeof()
    holds('min', mm.min <= n)
    if width < 8:
        holds('max', n <= mm.max)

def tight(what):
    """the bounds of length-prefixed declarations include the empty and the longest value"""
    if what == 'buffer':
        mm = VarSizeBufferMarshal(UBInt8).min_max_sizeof()
        lo, hi = 1, 1 + 255
    elif what == 'string':
        mm = VarSizeStringMarshal(UBInt16).min_max_sizeof()
        lo, hi = 2, 2 + 65535
    elif what == 'array':
        mm = VarSizeArrayMarshal(UBInt8, UBInt32).min_max_sizeof()
        lo, hi = 1, 1 + 255 * 4
    elif what == 'array16':
        mm = VarSizeArrayMarshal(UBInt16, UBInt8).min_max_sizeof()
        lo, hi = 2, 2 + 65535
    elif what == 'fixed-array':
        mm = FixedSizeArrayMarshal(3, VarSizeBufferMarshal(UBInt8)).min_max_sizeof()
        lo, hi = 3, 3 * 256
    elif what == 'sum':
        mm = SumSizeArrayMarshal(UBInt8, UBInt16).min_max_sizeof()
        lo, hi = 1, 1 + 254
    elif what == 'array-of-var':
        mm = VarSizeArrayMarshal(UBInt8, VarSizeBufferMarshal(UBInt8)).min_max_sizeof()
        lo, hi = 1, 1 + 255 * 256
    elif what == 'nested-fixed':
        mm = FixedSizeArrayMarshal(4, FixedSizeArrayMarshal(3, UBInt16)).min_max_sizeof()
        same('exact', (mm.min, mm.max), (24, 24))
        lo, hi = 24, 24
    holds('min', mm.min <= lo)
    holds('max', mm.max >= hi)

def optional():
    class S(Struct):
        _fields_ = [UBInt8('flag'), OptionalField('o', UBInt32, wants)]
    mm = S.min_max_sizeof()
    same('bounds', (mm.min, mm.max), (1, 5))
    holds('absent', mm.min <= S.sizeof(S(flag=0)))
    x = any_uint('x', 32)
    holds('present', S.sizeof(S(flag=1, o=x)) <= mm.max)
    same('not-fixed', S._fields_[1].is_fixed_size(), False)

def selector():
    class K1(Struct):
        _fields_ = [ConstField('k', 1, UBInt8)]
    class K2(Struct):
        _fields_ = [ConstField('k', 2, UBInt8), UBInt64('v')]
    class K3(Struct):
        _fields_ = [ConstField('k', 3, UBInt8), UBInt16('v'), VarSizeBuffer('w', UBInt8)]
    mm = StructSelector(UBInt8, {1: K1, 2: K2}).min_max_sizeof()
    same('mapped', (mm.min, mm.max), (1, 9))
    mm = StructSelector(UBInt8, {2: K2}, K1).min_max_sizeof()
    same('default-smaller', (mm.min, mm.max), (1, 9))
    mm = StructSelector(UBInt8, {1: K1}, K2).min_max_sizeof()
    same('default-larger', (mm.min, mm.max), (1, 9))
    mm = StructSelector(UBInt8, {1: K1, 2: K2, 3: K3}).min_max_sizeof()
    holds('all', mm.min <= 1 and mm.max >= 3 + 256)

def read_pointer():
    """a size taken from another field is not bounded by the number of bytes the pointer itself occupies"""
    from infi.instruct import ReadPointer
    class P(Struct):
        _fields_ = [UBInt8('n'), VarSizeBuffer('b', ReadPointer('n'))]
    mm = P.min_max_sizeof()
    holds('min', mm.min <= 1)

def unknown_bounds():
    class S(Struct):
        _fields_ = [UBInt8('a'), SelectStructByFunc('s', lambda o, s, c: Inner)]
    mm = S.min_max_sizeof()
    holds('unbounded', mm.is_unbounded())
    same('max', mm.max, sys.maxsize)
    holds('min', mm.min <= 1 + 0)
    class T(Struct):
        _fields_ = [UBInt8('a'), SelectStructByFunc('s', lambda o, s, c: Inner, (2, 5))]
    mm = T.min_max_sizeof()
    same('given', (mm.min, mm.max), (3, 6))

def algebra():
    a, d, b, e = any_int('a'), any_nat('d'), any_int('b'), any_nat('e')
    m = MinMax(a, a + d)
    same('clip-low', m.min, max(0, a))
    holds('in-range', m.min >= 0)
    same('clip-high', m.max, min(sys.maxsize, a + d))

def algebra_add():
    a, d, b, e = any_uint('a', 20), any_uint('d', 20), any_uint('b', 20), any_uint('e', 20)
    m = MinMax(a, a + d) + MinMax(b, b + e)
    same('add-min', m.min, a + b)
    same('add-max', m.max, a + d + b + e)
    m = MinMax(a) + MinMax(b, b + e)
    same('unbounded-min', m.min, a + b)
    same('unbounded-max', m.max, sys.maxsize)
    holds('unbounded', m.is_unbounded())
    same('copy', MinMax(MinMax(a, a + d)), MinMax(a, a + d))
    same('tuple', MinMax((a, a + d)).max, a + d)
    same('list', MinMax([a, a + d]).min, a)
    same('index', (m[0], m[1]), (m.min, m.max))
    same('bounded', MinMax(a, a + d).is_unbounded(), False)

def fixed_marshal():
    for m, n in ((UBInt32, 4), (FixedSizeBufferMarshal(7), 7), (PaddedStringMarshal(9), 9), (FixedSizeArrayMarshal(3, UBInt16), 6)):
        same('fixed', m.is_fixed_size(), True)
        same('min', m.min_max_sizeof().min, n)
        same('max', m.min_max_sizeof().max, n)
    for m in (VarSizeBufferMarshal(UBInt8), VarSizeArrayMarshal(UBInt8, UBInt8), SumSizeArrayMarshal(UBInt8, UBInt8),
              FixedSizeArrayMarshal(2, VarSizeBufferMarshal(UBInt8))):
        same('variable', m.is_fixed_size(), False)
'''


def cases():
    for k in ALL:
        yield Case('bracket/' + k, SRC, 'bracket', ([k],))
    for k in FIXED + [k for k in VAR if k not in ('farr0',)]:
        yield Case('field-fixed/' + k, SRC, 'field_fixed', (k,))
    for w in (1, 2, 4, 8):
        for what in ('buffer', 'string'):
            yield Case('prefixed/%s/%d' % (what, w), SRC, 'prefixed', (w, what))
    for what in ('buffer', 'string', 'array', 'array16', 'fixed-array', 'sum', 'array-of-var', 'nested-fixed'):
        yield Case('tight/' + what, SRC, 'tight', (what,))
    for f in ('optional', 'selector', 'read_pointer', 'unknown_bounds', 'algebra', 'algebra_add', 'fixed_marshal'):
        yield Case(f, SRC, f)
    for a, b in itertools.product(ALL, ALL):
        if not twice(a, b):
            yield Case('bracket/%s+%s' % (a, b), SRC, 'bracket', ([a, b],), tier='quick' if a == 'u8' or b == 'vbuf' else 'thorough')
