"""Lazy groups are indistinguishable from eager ones except for when they decode: reading consumes exactly the group's bytes without
decoding them, the first access to any field decodes the whole group once with the context and arguments of the read, every access,
assignment and write after that sees the same values an eager group would have, and groups of different objects never mix."""
from ..run import Case
from ._cat import PRE

COVERAGE = """Groups of 1..3 fields of opaque content, every order of get/set/write/size/repr accesses up to length 3, two groups in one struct,
two objects of one class, defaults and constructor values, context and argument hand-over, truncated input at every cut."""

SRC = PRE + r'''
class Counter(Marshal):
    """a two byte marshal that counts decodes"""
    def __init__(self):
        super(Counter, self).__init__()
        self.reads, self.seen = [], []
    def create_from_stream(self, stream, context, *args, **kwargs):
        self.reads.append((args, kwargs, context.get('tag', None)))
        return stream.read(2)
    def write_to_stream(self, obj, stream, context):
        self.seen.append(context.get('tag', None))
        stream.write(obj)
    def sizeof(self, obj):
        return 2
    def min_max_sizeof(self):
        return MinMax(2, 2)

def make():
    c = Counter()
    class S(Struct):
        _fields_ = [UBInt8('h'), Lazy(Field('a', c), UBInt16('b'), BytePadding(1), FixedSizeBuffer('d', 2)), UBInt8('t')]
    class E(Struct):
        _fields_ = [UBInt8('h'), FixedSizeBuffer('a', 2), UBInt16('b'), BytePadding(1), FixedSizeBuffer('d', 2), UBInt8('t')]
    return S, E, c

def data():
    h, a, b, d, t = any_uint('h', 8), any_bytes('a', 2), any_uint('b', 16), any_bytes('d', 2), any_uint('t', 8)
    return h.to_bytes(1, 'big') + a + b.to_bytes(2, 'big') + b'\0' + d + t.to_bytes(1, 'big')

def act(s, S, op, i):
    if op == 'get-a':
        return s.a
    if op == 'get-b':
        return s.b
    if op == 'get-d':
        return s.d
    if op == 'set-a':
        s.a = any_bytes('na%d' % i, 2)
        return None
    if op == 'set-b':
        s.b = any_uint('nb%d' % i, 16)
        return None
    if op == 'write':
        return S.write_to_string(s)
    if op == 'sizeof':
        return S.sizeof(s)
    if op == 'head':
        s.h = any_uint('nh%d' % i, 8)
        return (s.h, s.t)

def history(ops):
    S, E, c = make()
    wire = data()
    st = BytesIO(wire + b'@')
    s, e = S.create_from_stream(st), E.create_from_string(wire)
    same('consumed', st.tell(), len(wire))
    same('deferred', len(c.reads), 0)
    i = 0
    for op in ops:
        same('%d-%s' % (i, op), act(s, S, op, i), act(e, E, op, i))
        i += 1
    same('stream-untouched', st.tell(), len(wire))
    same('decoded-at-most-once', len(c.reads) <= 1, True)
    same('fields', (s.h, s.a, s.b, s.d, s.t), (e.h, e.a, e.b, e.d, e.t))
    same('decoded-once', len(c.reads), 1)
    same('rewrite', S.write_to_string(s), E.write_to_string(e))
    same('still-once', len(c.reads), 1)

def repr_history(first):
    """representing an object neither fails nor changes what it holds"""
    S, E, c = make()
    wire = data()
    s = S.create_from_string(wire)
    if first == 'get':
        s.b
    n = len(c.reads)
    repr(s)
    same('no-decode', len(c.reads), n)
    same('rewrite', S.write_to_string(s), wire)

def args_and_context():
    from infi.instruct.base import WritableContext
    S, E, c = make()
    wire = data()
    s = S.create_from_stream(BytesIO(wire), WritableContext({'tag': 7}))
    s.b
    same('context', c.reads[0][2], 7)
    S.write_to_stream(s, BytesIO(), WritableContext({'tag': 9}))
    same('write-context', c.seen, [9])

def two_objects():
    S, E, c = make()
    w1 = b'\1' + any_bytes('p', 2) + any_bytes('q', 2) + b'\0' + any_bytes('r', 2) + b'\2'
    w2 = b'\3' + any_bytes('u', 2) + any_bytes('v', 2) + b'\0' + any_bytes('w', 2) + b'\4'
    s1 = S.create_from_string(w1)
    s2 = S.create_from_string(w2)
    same('second', s2.a, w2[1:3])
    same('first', s1.a, w1[1:3])
    s1.d = b'zz'
    same('second-d', s2.d, w2[6:8])
    same('write-1', S.write_to_string(s1), w1[:6] + b'zz' + w1[8:])
    same('write-2', S.write_to_string(s2), w2)

def two_groups(order):
    class S(Struct):
        _fields_ = [Lazy(UBInt8('a'), UBInt8('b')), Lazy(UBInt16('c'), UBInt8('d'))]
    w = any_bytes('w', 5)
    s = S.create_from_string(w)
    e = {'a': w[0], 'b': w[1], 'c': w[2] << 8 | w[3], 'd': w[4]}
    for n in order:
        same(n, getattr(s, n), e[n])
    same('rewrite', S.write_to_string(s), w)
    s.c = 1
    same('set', S.write_to_string(s), w[:2] + b'\0\1' + w[4:])

def equal_groups(order):
    """groups of equal shape stay apart: in one struct, in a nested struct, in another class, and when one declaration is used twice"""
    shared = Lazy(UBInt8('x'), UBInt8('y'))
    class I(Struct):
        _fields_ = [Lazy(UBInt8('a'), UBInt8('b'))]
    class S(Struct):
        _fields_ = [Lazy(UBInt8('a'), UBInt8('b')), Lazy(UBInt8('c'), UBInt8('d')), Field('i', I), shared]
    class T(Struct):
        _fields_ = [shared, Lazy(UBInt8('a'), UBInt8('b'))]
    w, v = any_bytes('w', 8), any_bytes('v', 4)
    s = S.create_from_string(w)
    t = T.create_from_string(v)
    e = {'a': w[0], 'b': w[1], 'c': w[2], 'd': w[3], 'x': w[6], 'y': w[7]}
    f = {'x': v[0], 'y': v[1], 'a': v[2], 'b': v[3]}
    for n in order:
        if n == 'i':
            same('i-b', s.i.b, w[5])
            same('i-a', s.i.a, w[4])
        else:
            same(n, getattr(s, n), e[n])
            if n in f:
                same('t-' + n, getattr(t, n), f[n])
    same('rewrite', S.write_to_string(s), w)
    same('t-rewrite', T.write_to_string(t), v)
    s.y = 9
    same('set', S.write_to_string(s), w[:7] + b'\x09')
    same('t-kept', T.write_to_string(t), v)

def unset(kw):
    class S(Struct):
        _fields_ = [Lazy(UBInt8('a', 5), UBInt8('b', 6)), UBInt8('c', 7)]
    given = {}
    for n in kw:
        given[n] = any_uint(n, 8)
    s = S(**given)
    a, b, c = given.get('a', 5), given.get('b', 6), given.get('c', 7)
    same('values', (s.a, s.b, s.c), (a, b, c))
    same('written', S.write_to_string(s), bytes(bytearray([a, b, c])))
    s.b = any_uint('nb', 8)
    same('values-set', (s.a, s.b, s.c), (a, any_uint('nb', 8), c))
    same('written-set', S.write_to_string(s), bytes(bytearray([a, any_uint('nb', 8), c])))

def unread(set_first):
    """fields of a lazy group without default are unset, like other fields, until they are given a value"""
    class S(Struct):
        _fields_ = [Lazy(UBInt8('a'), UBInt8('b'))]
    s = S()
    same('unset', (s.a, s.b), (None, None))
    x, y = any_uint('x', 8), any_uint('y', 8)
    if set_first == 'a':
        s.a = x
        s.b = y
    else:
        s.b = y
        s.a = x
    same('values', (s.a, s.b), (x, y))
    same('written', S.write_to_string(s), x.to_bytes(1, 'big') + y.to_bytes(1, 'big'))

def mutable_default():
    """instances do not share a mutable default"""
    class S(Struct):
        _fields_ = [Lazy(FixedSizeArray('a', 2, UBInt8, [1, 2]))]
    s, t = S(), S()
    s.a.append(3)
    same('isolated', t.a, [1, 2])
    same('fresh', S().a, [1, 2])

def cut(k):
    S, E, c = make()
    wire = data()
    try:
        S.create_from_string(wire[:k])
    except InstructError:
        ok('short')
    except Exception as e:
        bad('short', e)
    else:
        bad('short')

def dynamic_rejected():
    try:
        Lazy(VarSizeBuffer('a', UBInt8))
    except Exception:
        ok('variable-size-rejected')
    else:
        bad('variable-size-rejected')

def nested(kind, order):
    """fields of a group inside a lazy group can be accessed, and assigned, in any order"""
    if kind == 'bits':
        inner = BitFields(BitField('a', 3), BitField('b', 5))
    elif kind == 'pbits':
        inner = BitFields(BitField('a', Bits[0:3]), BitField('b', Bits[3:8]))
    else:
        inner = Lazy(BitFields(BitField('a', 3), BitField('b', 5)))
    class S(Struct):
        _fields_ = [Lazy(inner, UBInt8('c')), UBInt8('t')]
    w = any_bytes('w', 3)
    s = S.create_from_string(w)
    want = {'a': w[0] & 7, 'b': w[0] >> 3, 'c': w[1]}
    for n in order:
        same(n, getattr(s, n), want[n])
    same('rewrite', S.write_to_string(s), w)
    s = S.create_from_string(w)
    n = order[0]
    x = any_uint('x', 3)
    setattr(s, n, x)
    want[n] = x
    for n in order:
        same('after-set-' + n, getattr(s, n), want[n])
    same('rewrite-set', S.write_to_string(s), (want['a'] | want['b'] << 3).to_bytes(1, 'big') + want['c'].to_bytes(1, 'big') + w[2:])

def const_inside(first):
    class S(Struct):
        _fields_ = [Lazy(UBInt8('a'), ConstField('k', 7, UBInt8))]
    x = any_uint('x', 8)
    s = S.create_from_string(x.to_bytes(1, 'big') + b'\x07')
    if first == 'k':
        same('const', s.k, 7)
    same('a', s.a, x)
    same('const-after', s.k, 7)
    same('rewrite', S.write_to_string(s), x.to_bytes(1, 'big') + b'\x07')

def struct_inside():
    class S(Struct):
        _fields_ = [Lazy(Field('i', Inner), FixedSizeArray('l', 2, Inner))]
    w = any_bytes('w', 9)
    s = S.create_from_string(w)
    same('p', s.i.p, w[0])
    s.i.p = 1
    s.l[1].p = 2
    same('rewrite', S.write_to_string(s), b'\1' + w[1:6] + b'\2' + w[7:])

def reread():
    """the same object class read twice in a row from one stream"""
    S, E, c = make()
    w1, w2 = any_bytes('w1', 9), any_bytes('w2', 9)
    st = BytesIO(w1 + w2)
    a = S.create_from_stream(st)
    b = S.create_from_stream(st)
    same('b', (b.h, b.a, b.d, b.t), (w2[0], w2[1:3], w2[6:8], w2[8]))
    same('a', (a.h, a.a, a.d, a.t), (w1[0], w1[1:3], w1[6:8], w1[8]))
'''


def cases():
    import itertools
    OPS = ['get-a', 'get-b', 'get-d', 'set-a', 'set-b', 'write', 'sizeof', 'head']
    yield Case('history/none', SRC, 'history', ((),))
    for n in (1, 2):
        for s in itertools.product(OPS, repeat=n):
            yield Case('history/' + '.'.join(s), SRC, 'history', (s,))
    for s in itertools.product(OPS, repeat=3):
        yield Case('history/' + '.'.join(s), SRC, 'history', (s,), tier='thorough')
    for f in ('get', 'none'):
        yield Case('repr/' + f, SRC, 'repr_history', (f,))
    for f in ('args_and_context', 'two_objects', 'mutable_default', 'dynamic_rejected', 'struct_inside', 'reread'):
        yield Case(f, SRC, f)
    for o in itertools.permutations('abcd'):
        yield Case('two-groups/' + ''.join(o), SRC, 'two_groups', (''.join(o),))
    for o in ('', 'a', 'c', 'd', 'x', 'y', 'i', 'ca', 'dx', 'iab', 'xi', 'yc', 'abcdxyi', 'iyxdcba'):
        yield Case('equal-groups/' + o, SRC, 'equal_groups', (o,))
    for k in ('bits', 'pbits', 'lazy'):
        for o in itertools.permutations('abc'):
            yield Case('nested/%s/%s' % (k, ''.join(o)), SRC, 'nested', (k, ''.join(o)))
    for f in 'ak':
        yield Case('const-inside/' + f, SRC, 'const_inside', (f,))
    for kw in ('', 'a', 'b', 'c', 'ab', 'abc', 'bc'):
        yield Case('unset/' + kw, SRC, 'unset', (kw,))
    for f in 'ab':
        yield Case('unread/' + f, SRC, 'unread', (f,))
    for k in range(9):
        yield Case('cut/%d' % k, SRC, 'cut', (k,))
