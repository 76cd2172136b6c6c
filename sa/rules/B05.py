"""The static size of a buffer class: byte_size is the highest position any own or inherited field can reach when all positions are constant, a
declared byte_size overrides it, and None stands for a size that varies; packing always yields exactly that many whole bytes, padded with
zeros, and refuses content that does not fit."""
from ..run import Case
from ._bcat import PRE

COVERAGE = """Layouts of 1..4 fields: adjacent, gaps, reordered, sub-byte ends, lists of ranges, bit ranges over them, open, dependent and conditional ones x
inheritance (own, inherited, overridden, declared in base) x declared sizes below, at and above the computed one; opaque field values;
class attribute, unpack result, calc_byte_size and length of the packed data compared."""

SRC = PRE + r'''
def check(C, kw, size, enc):
    """enc: promised bytes"""
    same('byte_size', C.byte_size, size)
    o = C(**kw)
    d = raw(o.pack())
    same('packed', d, enc)
    if size is not None:
        same('calc', o.calc_byte_size(), size)
        whole = int(size) if int(size) == size else int(size) + 1
        same('length', len(d), whole)
        r = C()
        same('unpacked-size', r.unpack(enc), size)
    else:
        same('calc-length', o.calc_byte_size(), len(d))

def layout(kind):
    x, y, z = any_uint('x', 8), any_uint('y', 8), any_uint('z', 16)
    if kind == 'one':
        class C(Buffer):
            a = u8(bytes_ref[0])
        check(C, dict(a=x), 1, be(x))
    elif kind == 'adjacent':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = be_uint_field(where=bytes_ref[1:3])
        check(C, dict(a=x, b=z), 3, be(x) + z.to_bytes(2, 'big'))
    elif kind == 'gap':
        class C(Buffer):
            a = u8(bytes_ref[2])
            b = u8(bytes_ref[5])
        check(C, dict(a=x, b=y), 6, b'\0\0' + be(x) + b'\0\0' + be(y))
    elif kind == 'reversed':
        class C(Buffer):
            a = u8(bytes_ref[3])
            b = be_uint_field(where=bytes_ref[1:3])
            c = u8(bytes_ref[0])
        check(C, dict(a=x, b=z, c=y), 4, be(y) + z.to_bytes(2, 'big') + be(x))
    elif kind == 'middle-last':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = u8(bytes_ref[9])
            c = u8(bytes_ref[4])
        check(C, dict(a=x, b=y, c=x), 10, be(x) + b'\0\0\0' + be(x) + b'\0\0\0\0' + be(y))
    elif kind == 'bits':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = u8(bytes_ref[1].bits[0:4])
        k = any_uint('k', 4)
        check(C, dict(a=x, b=k), 1.5, be(x) + be(k))
    elif kind == 'high-bits':
        class C(Buffer):
            a = u8(bytes_ref[0:2].bits[4:12])
        check(C, dict(a=x), 1.5, (x << 4).to_bytes(2, 'little'))
    elif kind == 'one-bit':
        class C(Buffer):
            a = u8(bytes_ref[2].bits[0])
        k = any_uint('k', 1)
        check(C, dict(a=k), 2.125, b'\0\0' + be(k))
    elif kind == 'list':
        class C(Buffer):
            a = le_uint_field(where=bytes_ref[4, 1])
            b = u8(bytes_ref[0])
        check(C, dict(a=z, b=y), 5, be(y) + be(z >> 8) + b'\0\0' + be(z & 255))
    elif kind == 'sum':
        class C(Buffer):
            a = le_uint_field(where=bytes_ref[3:4] + bytes_ref[0:1])
        check(C, dict(a=z), 4, be(z >> 8) + b'\0\0' + be(z & 255))
    elif kind == 'open':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = bytearray_field(where=bytes_ref[1:])
        t = any_bytes('t', 3)
        check(C, dict(a=x, b=t), None, be(x) + t)
    elif kind == 'dependent':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = bytearray_field(where=bytes_ref[1:1 + a])
        t = any_bytes('t', 3)
        check(C, dict(a=3, b=t), None, b'\3' + t)
    elif kind == 'pack-open':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
        t = any_bytes('t', 3)
        check(C, dict(a=x, b=t), None, be(x) + t)
    elif kind == 'unpack-open':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = bytearray_field(where_when_pack=bytes_ref[1:3], where_when_unpack=bytes_ref[1:])
        t = any_bytes('t', 2)
        check(C, dict(a=x, b=t), None, be(x) + t)
    elif kind == 'after':
        class C(Buffer):
            a = be_uint_field(where=bytes_ref[0:2])
            b = u8(bytes_ref[after_ref(a)])
        same('byte_size-after', C(a=z, b=x).calc_byte_size(), 3)
        same('packed', raw(C(a=z, b=x).pack()), z.to_bytes(2, 'big') + be(x))
    elif kind == 'nested':
        class D(Buffer):
            p = u8(bytes_ref[0])
            q = u8(bytes_ref[1])
        class C(Buffer):
            a = u8(bytes_ref[0])
            d = buffer_field(type=D, where=bytes_ref[1:1 + D.byte_size])
        check(C, dict(a=x, d=D(p=y, q=x)), 3, be(x) + be(y) + be(x))
    elif kind == 'no-fields':
        class C(Buffer):
            pass
        same('byte_size', C.byte_size, 0)
        same('packed', raw(C().pack()), b'')
    elif kind == 'conditional':
        class C(Buffer):
            a = u8(bytes_ref[0])
            b = u8(bytes_ref[1], pack_if=a, unpack_if=a)
        same('byte_size', C.byte_size, 2)
        f = any_uint('f', 8)
        d = raw(C(a=f, b=x).pack())
        same('packed', d, be(f) + (be(x) if f != 0 else b'\0'))

def inherited(kind):
    x, y, z = any_uint('x', 8), any_uint('y', 8), any_uint('z', 8)
    class B1(Buffer):
        a = u8(bytes_ref[3])
    if kind == 'smaller':
        class C(B1):
            b = u8(bytes_ref[1])
        check(C, dict(a=x, b=y), 4, b'\0' + be(y) + b'\0' + be(x))
    elif kind == 'larger':
        class C(B1):
            b = u8(bytes_ref[5])
        check(C, dict(a=x, b=y), 6, b'\0\0\0' + be(x) + b'\0' + be(y))
        same('base', B1.byte_size, 4)
    elif kind == 'none':
        class C(B1):
            pass
        check(C, dict(a=x), 4, b'\0\0\0' + be(x))
    elif kind == 'override':
        class C(B1):
            a = u8(bytes_ref[1])
        check(C, dict(a=x), 2, b'\0' + be(x))
        same('base', B1.byte_size, 4)
    elif kind == 'open':
        class C(B1):
            b = bytearray_field(where=bytes_ref[4:])
        t = any_bytes('t', 2)
        check(C, dict(a=x, b=t), None, b'\0\0\0' + be(x) + t)
        class D(C):
            c = u8(bytes_ref[0])
        check(D, dict(a=x, b=t, c=y), None, be(y) + b'\0\0' + be(x) + t)
    elif kind == 'two':
        class B2(Buffer):
            b = u8(bytes_ref[6])
        class C(B1, B2):
            c = u8(bytes_ref[0])
        check(C, dict(a=x, b=y, c=z), 7, be(z) + b'\0\0' + be(x) + b'\0\0' + be(y))
    elif kind == 'declared-base':
        class B3(Buffer):
            byte_size = 8
            a = u8(bytes_ref[0])
        class C(B3):
            b = u8(bytes_ref[1])
        same('base', (B3.byte_size, len(B3(a=x).pack())), (8, 8))
        d = raw(C(a=x, b=y).pack())
        same('sub', d[:2], be(x) + be(y))
        same('sub-size', len(d), C.byte_size)

def declared(n):
    """a declared size over three bytes of fields"""
    x, y = any_uint('x', 8), any_uint('y', 16)
    class C(Buffer):
        byte_size = n
        a = u8(bytes_ref[0])
        b = be_uint_field(where=bytes_ref[1:3])
    same('byte_size', C.byte_size, n)
    o = C(a=x, b=y)
    m = int(n) if int(n) == n else int(n) + 1
    if m < 3:
        try:
            o.pack()
        except Exception:
            ok('refused')
        else:
            bad('refused')
    else:
        same('padded', raw(o.pack()), be(x) + y.to_bytes(2, 'big') + b'\0' * (m - 3))
        same('calc', o.calc_byte_size(), n)
        w = any_bytes('w', m)
        r = C()
        same('unpacked-size', r.unpack(w), n)
        same('read', (r.a, r.b), (w[0], int.from_bytes(w[1:3], 'big')))

def declared_dynamic(n):
    """a declared size over a variable content"""
    class C(Buffer):
        byte_size = 4
        a = u8(bytes_ref[0])
        b = bytearray_field(where=bytes_ref[1:])
    t, x = any_bytes('t', n), any_uint('x', 8)
    same('byte_size', C.byte_size, 4)
    if n > 3:
        try:
            C(a=x, b=t).pack()
        except Exception:
            ok('refused')
        else:
            bad('refused')
    else:
        same('padded', raw(C(a=x, b=t).pack()), be(x) + t + b'\0' * (3 - n))

def partial_conditional():
    """a static size is kept even when trailing fields are not packed"""
    class C(Buffer):
        f = u8(bytes_ref[0])
        a = be_uint_field(where=bytes_ref[1:3], pack_if=f)
        b = be_uint_field(where=bytes_ref[3:5], pack_if=f)
    x = any_uint('x', 16)
    same('all', raw(C(f=1, a=x, b=x).pack()), b'\1' + x.to_bytes(2, 'big') * 2)
    same('none', raw(C(f=0).pack()), b'\0' * 5)
    same('size', (C(f=0).calc_byte_size(), C(f=1, a=x, b=x).calc_byte_size()), (5, 5))
'''


def cases():
    for k in ('one', 'adjacent', 'gap', 'reversed', 'middle-last', 'bits', 'high-bits', 'one-bit', 'list', 'sum', 'open', 'dependent',
              'pack-open', 'unpack-open', 'after', 'nested', 'no-fields', 'conditional'):
        yield Case('layout/' + k, SRC, 'layout', (k,))
    for k in ('smaller', 'larger', 'none', 'override', 'open', 'two', 'declared-base'):
        yield Case('inherited/' + k, SRC, 'inherited', (k,))
    for n in (1, 2, 2.5, 3, 3.5, 4, 7):
        yield Case('declared/%s' % n, SRC, 'declared', (n,))
    for n in range(6):
        yield Case('declared-dynamic/%d' % n, SRC, 'declared_dynamic', (n,))
    yield Case('partial-conditional', SRC, 'partial_conditional')
