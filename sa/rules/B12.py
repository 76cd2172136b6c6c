"""Buffer declarations are immutable in use: whatever happened before, however it failed, and whatever else is in progress, a buffer class
packs and unpacks as on its first use, and classes, fields, references and defaults may be shared."""
import itertools
from ..run import Case
from ._bkinds import PRE_KINDS, KINDNAMES

COVERAGE = """17 kinds of buffer classes x every history of one of 12 operations, all of them, and (thorough) all pairs: good, unset, wrong, oversized
packs; truncated, noisy, foreign unpacks; sizes, repr, constructor misuse; re-entrant use of the class from a callback of its own
field; subclasses and mixins declared before and between uses; references, ranges and fields shared by fields and classes."""

SRC = PRE_KINDS + r'''
def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception:
        return None

BAD = (None, 'text', 1 << 200, [None], -1, [1] * 300, b'z' * 300)
FEW = (None, 1 << 200)

def act(C, mk, enc, op, mk2, enc2):
    if op == 'pack':
        C(**mk()).pack()
    elif op == 'other':
        C(**mk2()).pack()
        C().unpack(enc2)
    elif op == 'unpack':
        C().unpack(enc)
    elif op == 'unset':
        attempt(lambda: C().pack())
        attempt(lambda: C().calc_byte_size())
    elif op in ('wrong', 'wrongs'):
        for n in sorted(mk2()):
            for v in (BAD if op == 'wrongs' else FEW):
                kw = mk2()
                kw[n] = v
                o = C(**kw)
                attempt(o.pack)
                attempt(o.calc_byte_size)
    elif op == 'cut':
        for k in range(len(enc2)):
            attempt(C().unpack, enc2[:k])
    elif op == 'noise':
        attempt(C().unpack, b'\xff' * len(enc))
        attempt(C().unpack, b'\x01' * 20)
        attempt(C().unpack, b'')
    elif op == 'foreign':
        for x in (None, 5, 'text', [1, 2]):
            attempt(C().unpack, x)
    elif op == 'size':
        C(**mk2()).calc_byte_size()
    elif op == 'repr':
        attempt(lambda: repr(C(**mk2())))
        attempt(lambda: repr(C()))
        attempt(lambda: repr(C))
    elif op == 'misuse':
        attempt(lambda: C(1, 2))
        attempt(lambda: C(nonsense=1))
    elif op == 'spoil':
        # an object is its owner's: whatever is put into one is not in the next
        o = C(**mk2())
        o.pack()
        for n in sorted(mk2()):
            setattr(o, n, None)
        r = C()
        r.unpack(enc2)
        for n in sorted(mk2()):
            v = getattr(r, n)
            if isinstance(v, list):
                v.append(1)
            elif isinstance(v, bytearray):
                v[:] = b'zzzz'
            elif isinstance(v, dict):
                v.clear()
            elif isinstance(v, Fix):
                v.p = None
            elif isinstance(v, Dyn):
                v.v = None

def history(kind, ops):
    C, mk, enc, dec = KINDS[kind]('')
    mk2, enc2 = KINDS[kind]('o')[1:3]
    size = C.byte_size
    for op in ops:
        act(C, mk, enc, op, mk2, enc2)
    verify('', C, mk, enc, dec)
    same('static size', C.byte_size, size)

def twice(kind):
    """objects do not share anything: changing one leaves the others"""
    C, mk, enc, dec = KINDS[kind]('')
    a, b = C(**mk()), C(**mk())
    other = KINDS[kind]('o')[1]()
    for n in sorted(other):
        setattr(a, n, other[n])
    for n in sorted(dec):
        v = getattr(a, n)
        if isinstance(v, list):
            v.append(0)
        elif isinstance(v, bytearray):
            v += b'!!'
    same('other object', raw(b.pack()), enc)
    verify('', C, mk, enc, dec)

def subclassed(kind, when):
    """subclasses with more fields do not change the class, nor the other subclasses"""
    C, mk, enc, dec = KINDS[kind]('')
    if when == 'used':
        C(**mk()).pack()
    class D(C):
        u_extra = u8(bytes_ref[40])
    class E(C):
        u_more = u8(bytes_ref[41])
    class Plain(C):
        pass
    verify('c-', C, mk, enc, dec)
    if kind not in ('bytes', 'json', 'bufs', 'sized', 'computed'):
        x = any_uint('extra', 8)
        o = D(u_extra=x, **mk())
        d = raw(o.pack())
        same('d-packed', (len(d), d[:len(enc)], d[40]), (41, enc, x))
        o = E(u_more=x, **mk())
        d = raw(o.pack())
        same('e-packed', (len(d), d[:len(enc)], d[41]), (42, enc, x))
        r = D()
        r.unpack(enc + bytes(40 - len(enc)) + be(x))
        same('d-read', r.u_extra, x)
        got = values(r, dec)
        for n in sorted(dec):
            if n != 'size':
                same('d-read-' + n, got[n], dec[n])
    if kind != 'sized':
        verify('p-', Plain, mk, enc, dec)
    verify('c-again-', C, mk, enc, dec)
    failing('foreign field', lambda: C(u_extra=1), AssertionError)
    failing('sibling field', lambda: D(u_more=1), AssertionError)

# --- use from within

def reentrant(where, inner):
    """a callback of a field uses the class itself for other objects"""
    x, y, s, t = any_uint('x', 8), any_uint('y', 8), any_bytes('s', 2), any_bytes('t', 3)
    busy = []

    def other():
        if busy:
            return
        busy.append(1)
        if inner in ('pack', 'both'):
            same('inner packed', raw(C(a=y, v=bytearray(t)).pack()), be(y) + b'\3' + t + b'\x0b')
        if inner in ('unpack', 'both'):
            r = C()
            same('inner consumed', r.unpack(be(y) + b'\3' + t + b'\x0b'), 6)
            same('inner read', (r.a, r.n, raw(r.v), r.z), (y, 3, t, 11))
        if inner == 'size':
            same('inner size', C(a=y, v=bytearray(t)).calc_byte_size(), 6)
        if inner == 'fail':
            failing('inner failure', lambda: C(a=None, v=bytearray(t)).pack(), InstructError)
            failing('inner short', lambda: C().unpack(be(y) + b'\3'), InstructError)
        busy.pop()

    def value(self):
        if where == 'value':
            other()
        return 11

    def cond(self):
        if where == 'condition':
            other()
        return True

    def after(v):
        if where == 'after':
            other()
        return v

    class C(Buffer):
        a = u8(bytes_ref[0])
        n = u8(bytes_ref[1], set_before_pack=len_ref(self_ref.v), set_after_unpack=after)
        v = bytearray_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:2 + n], pack_if=member_func_ref(cond),
                            unpack_if=member_func_ref(cond))
        z = u8(bytes_ref[after_ref(v)], set_before_pack=value, set_after_unpack=self_ref.late(a))
        def late(self, a):
            if where == 'call':
                other()
            return 11
    want = be(x) + b'\2' + s + b'\x0b'
    o = C(a=x, v=bytearray(s))
    same('packed', raw(o.pack()), want)
    same('size', o.calc_byte_size(), 5)
    r = C()
    same('consumed', r.unpack(want), 5)
    same('read', (r.a, r.n, raw(r.v), r.z), (x, 2, s, 11))
    same('packed again', raw(o.pack()), want)

def nested_self(direction):
    """a class whose elements are of the class itself"""
    class Node(Buffer):
        x = u8(bytes_ref[0])
        n = u8(bytes_ref[1], set_before_pack=len_ref(self_ref.kids))
        def choose(self, buffer, **kwargs):
            return Node
        kids = list_field(type=Fix, n=n, unpack_selector=choose, where=bytes_ref[2:])
    a, b, c, d = [any_uint(q, 8) for q in 'abcd']
    o = Node(x=a, kids=[Node(x=b, kids=[Node(x=c, kids=[])]), Node(x=d, kids=[])])
    want = be(a) + b'\2' + be(b) + b'\1' + be(c) + b'\0' + be(d) + b'\0'
    same('packed', raw(o.pack()), want)
    r = Node()
    same('consumed', r.unpack(want + b'tail'), len(want))
    same('read', (r.x, r.n, r.kids[0].x, r.kids[0].kids[0].x, r.kids[0].kids[0].kids, r.kids[1].x, r.kids[1].n), (a, 2, b, c, [], d, 0))
    same('repacked', raw(r.pack()), want)

# --- sharing

def shared_refs():
    """positions, expressions, conditions and values may be shared by fields and by classes"""
    where, bits = bytes_ref[1:3], bytes_ref[0].bits[0:4]
    size, flag = len_ref('v'), num_ref(self_ref.on) > 0
    class A(Buffer):
        x = u8(bits)
        y = be_uint_field(where=where)
        n = u8(bytes_ref[3], set_before_pack=size)
        v = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:4 + n])
        on = 0
    class B(Buffer):
        y = le_uint_field(where=where)
        x = u8(bits)
        z = u8(bits, pack_if=flag, unpack_if=flag)
        n = u8(bytes_ref[3], set_before_pack=size)
        v = list_field(type=uint8, n=n, where=bytes_ref[5:], pack_if=flag, unpack_if=flag)
        on = 1
    x, y, z, v = any_uint('x', 4), any_uint('y', 16), any_uint('z', 4), any_bytes('v', 2)
    for i in range(2):
        a = A(x=x, y=y, v=bytearray(v))
        same('a%d' % i, raw(a.pack()), be(x) + y.to_bytes(2, 'big') + b'\2' + v)
        b = B(x=x, y=y, z=x, v=[q for q in v])
        same('b%d' % i, raw(b.pack()), be(x) + y.to_bytes(2, 'little') + b'\2\0' + v)
        b.on = 0
        same('b off %d' % i, raw(b.pack()), be(x) + y.to_bytes(2, 'little') + b'\2')
        r = A()
        r.unpack(be(x) + y.to_bytes(2, 'big') + b'\2' + v)
        same('ra%d' % i, (r.x, r.y, r.n, raw(r.v)), (x, y, 2, v))
        r = B()
        r.unpack(be(z) + y.to_bytes(2, 'little') + b'\2\0' + v)
        same('rb%d' % i, (r.x, r.y, r.z, r.n, r.v), (z, y, z, 2, [q for q in v]))

def shared_types():
    """element types may be shared by lists of different classes, sizes and byte orders"""
    t = str_type_factory(byte_size=2, padding=b'-')
    class A(Buffer):
        l = list_field(type=t, where=bytes_ref[0:4])
        m = list_field(type=l_uint16, where=bytes_ref[4:8])
    class B(Buffer):
        m = list_field(type=l_uint16, n=1, where=bytes_ref[0:])
        l = list_field(type=t, n=1, where=bytes_ref[2:])
    a, b = 'ab', 'c'
    x, y = any_uint('x', 16), any_uint('y', 16)
    for i in range(2):
        r = A()
        r.unpack(a.encode('ascii') + b.encode('ascii') + b'-' + x.to_bytes(2, 'little') + y.to_bytes(2, 'little'))
        same('a%d' % i, (r.l, r.m), ([a, b], [x, y]))
        r = B()
        r.unpack(y.to_bytes(2, 'little') + a.encode('ascii'))
        same('b%d' % i, (r.m, r.l), ([y], [a]))

def mixin(order):
    """fields declared in a plain class belong to every buffer class made with it"""
    class Header(object):
        kind = u8(bytes_ref[0])
        size = u8(bytes_ref[1], set_before_pack=len_ref('body'))
    class A(Header, Buffer):
        body = bytearray_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:2 + Header.size])
    if order == 'used':
        A(kind=1, body=bytearray(b'q')).pack()
    class B(Header, Buffer):
        body = list_field(type=uint8, n=Header.size, where=bytes_ref[3:])
        flag = u8(bytes_ref[2])
    class C(A):
        last = u8(bytes_ref[9])
    class D(Buffer, Header):
        body = str_field(where=bytes_ref[2:5])
    k, v, f = any_uint('k', 8), any_bytes('v', 2), any_uint('f', 8)
    w = 'wxy'
    same('a', raw(A(kind=k, body=bytearray(v)).pack()), be(k) + b'\2' + v)
    same('b', raw(B(kind=k, body=[q for q in v], flag=f).pack()), be(k) + b'\2' + be(f) + v)
    same('c', raw(C(kind=k, body=bytearray(v), last=f).pack()), be(k) + b'\2' + v + bytes(5) + be(f))
    same('d', raw(D(kind=k, body=w).pack()), be(k) + b'\3' + w.encode('ascii'))
    r = A()
    r.unpack(be(k) + b'\2' + v)
    same('ra', (r.kind, r.size, raw(r.body)), (k, 2, v))
    r = B()
    r.unpack(be(k) + b'\2' + be(f) + v)
    same('rb', (r.kind, r.size, r.flag, r.body), (k, 2, f, [q for q in v]))
    r = D()
    r.unpack(be(k) + b'\3' + w.encode('ascii'))
    same('rd', (r.kind, r.size, r.body), (k, 3, w))
    same('sizes', (A.byte_size, B.byte_size, D.byte_size), (None, None, 5))

def diamond():
    """a class inherited over two ways contributes its fields once"""
    class A(Buffer):
        a = u8(bytes_ref[0])
    class B(A):
        b = u8(bytes_ref[1])
    class C(A):
        c = u8(bytes_ref[2])
        a = u8(bytes_ref[3])
    class D(B, C):
        d = u8(bytes_ref[4])
    a, b, c, d = [any_uint(q, 8) for q in 'abcd']
    same('d', raw(D(a=a, b=b, c=c, d=d).pack()), b'\0' + be(b) + be(c) + be(a) + be(d))
    same('b', raw(B(a=a, b=b).pack()), be(a) + be(b))
    same('c', raw(C(a=a, c=c).pack()), b'\0\0' + be(c) + be(a))
    same('a', raw(A(a=a).pack()), be(a))
    r = D()
    r.unpack(be(d) + be(b) + be(c) + be(a) + be(d))
    same('r', (r.a, r.b, r.c, r.d), (a, b, c, d))

def owned():
    """what the user declared with belongs to the user"""
    dl, db, dd = [1, 2], bytearray(b'ab'), {'k': [1]}
    locs, after, sel = [0, slice(3, 4)], [], []
    class C(Buffer):
        l = list_field(type=uint8, where=bytes_ref[1:3], default=dl)
        b = bytearray_field(where=bytes_ref[locs], default=db)
        j = json_field(where=bytes_ref[4:], default=dd, unpack_after=after)
    o = C()
    same('packed', raw(o.pack()), b'a\1\2b{"k": [1]}')
    o.l.append(3)
    o.b[0] = 0
    o.j['x'] = 1
    r = C()
    r.unpack(b'a\1\2b{"k": [1]}')
    r.l.append(3)
    r.b[:] = b'zz'
    r.j['k'].append(2)
    same('defaults', (dl, raw(db), dd), ([1, 2], b'ab', {'k': [1]}))
    same('lists', (len(locs), locs[0], len(after)), (2, 0, 0))
    locs.append(7)
    same('again', raw(C().pack()), b'a\1\2b{"k": [1]}')
'''
OPS = ('pack', 'other', 'unpack', 'unset', 'wrong', 'cut', 'noise', 'foreign', 'size', 'repr', 'misuse', 'spoil')


def cases():
    for k in KINDNAMES:
        for op in OPS:
            yield Case('history/%s/%s' % (k, op), SRC, 'history', (k, (op,)))
        yield Case('history/%s/all' % k, SRC, 'history', (k, OPS), tier='thorough')
        yield Case('history/%s/wrongs' % k, SRC, 'history', (k, ('wrongs',)), tier='thorough')
        for ops in itertools.product(('other', 'wrong', 'cut', 'noise', 'spoil'), repeat=2):
            yield Case('history/%s/%s' % (k, '.'.join(ops)), SRC, 'history', (k, ops), tier='thorough')
        yield Case('twice/' + k, SRC, 'twice', (k,))
        for w in ('fresh', 'used'):
            yield Case('subclassed/%s/%s' % (k, w), SRC, 'subclassed', (k, w))
    for w in ('value', 'condition', 'after', 'call'):
        for i in ('pack', 'unpack', 'both', 'size', 'fail'):
            yield Case('reentrant/%s/%s' % (w, i), SRC, 'reentrant', (w, i))
    yield Case('nested in itself', SRC, 'nested_self', ('both',))
    for o in ('fresh', 'used'):
        yield Case('mixin/' + o, SRC, 'mixin', (o,))
    for f in ('shared_refs', 'shared_types', 'diamond', 'owned'):
        yield Case(f, SRC, f)
