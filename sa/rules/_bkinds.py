"""Catalogue of buffer classes: one class for every kind of field, with values, encoding and the forms they read back as."""
from ._bcat import PRE

PRE_KINDS = PRE.replace('import sys\n', 'import sys, struct\n') + r'''
class Fix(Buffer):
    p = u8(bytes_ref[0])
    q = be_uint_field(where=bytes_ref[1:3])

class Dyn(Buffer):
    k = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.v))
    v = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + k])

def form(x):
    """a comparable form of a field value"""
    if isinstance(x, Fix):
        return ('Fix', x.p, x.q)
    if isinstance(x, Dyn):
        return ('Dyn', x.k, raw(x.v))
    if isinstance(x, (bytearray, bytes)):
        return raw(x)
    if isinstance(x, list):
        return [form(e) for e in x]
    return x

def k_num(t):
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = be_int_field(where=bytes_ref[1:3])
        c = le_uint_field(where=bytes_ref[3:6])
    a, b, c = any_uint(t + 'a', 8), any_sint(t + 'b', 16), any_uint(t + 'c', 24)
    return C, lambda: dict(a=a, b=b, c=c), be(a) + b.to_bytes(2, 'big', signed=True) + c.to_bytes(3, 'little'), dict(a=a, b=b, c=c)

def k_bits(t):
    class C(Buffer):
        a = u8(bytes_ref[0].bits[0:3])
        b = u8(bytes_ref[0].bits[3])
        c = u8(bytes_ref[0:2].bits[4:12])
        d = u8(bytes_ref[1].bits[4:8])
    a, b, c, d = any_uint(t + 'a', 3), any_uint(t + 'b', 1), any_uint(t + 'c', 8), any_uint(t + 'd', 4)
    return C, lambda: dict(a=a, b=b, c=c, d=d), (a + (b << 3) + (c << 4) + (d << 12)).to_bytes(2, 'little'), dict(a=a, b=b, c=c, d=d)

def k_bytes(t):
    class C(Buffer):
        h = u8(bytes_ref[0])
        v = bytearray_field(where=bytes_ref[1:])
    h, v = any_uint(t + 'h', 8), any_bytes(t + 'v', 3)
    return C, lambda: dict(h=h, v=bytearray(v)), be(h) + v, dict(h=h, v=v)

def k_closed(t):
    class C(Buffer):
        v = bytearray_field(where=bytes_ref[0:4])
        w = bytearray_field(where=bytes_ref[4:6, 7:8])
    v, w = any_bytes(t + 'v', 4), any_bytes(t + 'w', 3)
    return C, lambda: dict(v=bytearray(v), w=bytearray(w)), v + w[:2] + b'\0' + w[2:], dict(v=v, w=w)

def k_text(t):
    class C(Buffer):
        a = str_field(where=bytes_ref[0:4])
        b = str_field(where=bytes_ref[4:8], justify='right', padding=b'*')
    a, b = ('xyz', '-Q') if len(t) % 2 else ('abc', 'de')
    return C, lambda: dict(a=a, b=b), a.encode('ascii') + b' **' + b.encode('ascii'), dict(a=a, b=b)

def k_json(t):
    class C(Buffer):
        h = u8(bytes_ref[0])
        j = json_field(where=bytes_ref[1:])
    h = any_uint(t + 'h', 8)
    v = {'k': [1, len(t)], 'x': None}
    return C, lambda: dict(h=h, j={'k': [1, len(t)], 'x': None}), be(h) + ('{"k": [1, %d], "x": null}' % len(t)).encode('ascii'), dict(h=h, j=v)

def k_list(t):
    class C(Buffer):
        n = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.l))
        l = list_field(type=b_uint16, n=n, where=bytes_ref[1:])
    xs = [any_uint(t + 'x%d' % i, 16) for i in range(2 + len(t) % 2)]
    return C, lambda: dict(l=list(xs)), be(len(xs)) + b''.join([x.to_bytes(2, 'big') for x in xs]), dict(n=len(xs), l=xs)

def k_bufs(t):
    class C(Buffer):
        l = list_field(type=Dyn, where=bytes_ref[0:])
    vs = [any_bytes(t + 'v%d' % i, i + len(t) % 2) for i in range(3)]
    return C, lambda: dict(l=[Dyn(v=bytearray(v)) for v in vs]), b''.join([be(len(v)) + v for v in vs]), \
        dict(l=[('Dyn', len(v), v) for v in vs])

def k_nested(t):
    class C(Buffer):
        a = u8(bytes_ref[0])
        f = buffer_field(type=Fix, where=bytes_ref[1:4])
    a, p, q = any_uint(t + 'a', 8), any_uint(t + 'p', 8), any_uint(t + 'q', 16)
    return C, lambda: dict(a=a, f=Fix(p=p, q=q)), be(a) + be(p) + q.to_bytes(2, 'big'), dict(a=a, f=('Fix', p, q))

def k_dynamic(t):
    class C(Buffer):
        f = buffer_field(type=Dyn, where=bytes_ref[0:])
        z = u8(bytes_ref[after_ref(f)])
    v, z = any_bytes(t + 'v', 1 + len(t) % 2), any_uint(t + 'z', 8)
    return C, lambda: dict(f=Dyn(v=bytearray(v)), z=z), be(len(v)) + v + be(z), dict(f=('Dyn', len(v), v), z=z)

def k_select(t):
    class C(Buffer):
        def choose(self, buffer, **kwargs):
            return Dyn if self.a else Fix
        a = u8(bytes_ref[0])
        f = buffer_field(type=Fix, unpack_selector=choose, unpack_after=a, where=bytes_ref[1:])
    v, p, q = any_bytes(t + 'v', 2), any_uint(t + 'p', 8), any_uint(t + 'q', 16)
    if len(t) % 2:
        return C, lambda: dict(a=1, f=Dyn(v=bytearray(v))), b'\1\2' + v, dict(a=1, f=('Dyn', 2, v))
    return C, lambda: dict(a=0, f=Fix(p=p, q=q)), b'\0' + be(p) + q.to_bytes(2, 'big'), dict(a=0, f=('Fix', p, q))

def k_cond(t):
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = be_uint_field(where=bytes_ref[1:3], pack_if=a, unpack_if=a)
        c = u8(bytes_ref[a * 2 + 1])
    on = len(t) % 2
    b, c = any_uint(t + 'b', 16), any_uint(t + 'c', 8)
    if on:
        return C, lambda: dict(a=1, b=b, c=c), b'\1' + b.to_bytes(2, 'big') + be(c), dict(a=1, b=b, c=c)
    return C, lambda: dict(a=0, c=c), b'\0' + be(c), dict(a=0, b=None, c=c)

def k_computed(t):
    class C(Buffer):
        size = u8(bytes_ref[0], set_before_pack=total_size)
        n = u8(bytes_ref[1], set_before_pack=len_ref(self_ref.v))
        s = u8(bytes_ref[2], set_before_pack=lambda self: self.k, set_after_unpack=lambda x: x)
        v = bytearray_field(where_when_pack=bytes_ref[3:], where_when_unpack=bytes_ref[3:3 + n])
        z = be_uint_field(where=bytes_ref[after_ref(v):after_ref(v) + 2])
        k = 9
    v, z = any_bytes(t + 'v', 1 + len(t) % 2), any_uint(t + 'z', 16)
    return C, lambda: dict(v=bytearray(v), z=z), be(5 + len(v)) + be(len(v)) + be(9) + v + z.to_bytes(2, 'big'), \
        dict(size=5 + len(v), n=len(v), s=9, v=v, z=z)

def k_inherit(t):
    class A(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1])
    class B(A):
        c = u8(bytes_ref[2])
    class C(B):
        b = be_uint_field(where=bytes_ref[3:5])
        d = u8(bytes_ref[1], default=7)
    a, b, c = any_uint(t + 'a', 8), any_uint(t + 'b', 16), any_uint(t + 'c', 8)
    return C, lambda: dict(a=a, b=b, c=c), be(a) + b'\7' + be(c) + b.to_bytes(2, 'big'), dict(a=a, b=b, c=c, d=7)

def k_sized(t):
    class C(Buffer):
        byte_size = 6
        a = u8(bytes_ref[1])
        l = list_field(type=uint8, where=bytes_ref[2:4])
    a, x, y = any_uint(t + 'a', 8), any_uint(t + 'x', 8), any_uint(t + 'y', 8)
    return C, lambda: dict(a=a, l=[x, y]), b'\0' + be(a) + be(x) + be(y) + b'\0\0', dict(a=a, l=[x, y])

def k_default(t):
    class C(Buffer):
        a = u8(bytes_ref[0], default=3)
        l = list_field(type=uint8, where=bytes_ref[1:3], default=[4, 5])
        v = bytearray_field(where=bytes_ref[3:5], default=bytearray(b'xy'))
        s = str_field(where=bytes_ref[5:8], default='de')
    if len(t) % 2:
        a, v = any_uint(t + 'a', 8), any_bytes(t + 'v', 2)
        return C, lambda: dict(a=a, v=bytearray(v)), be(a) + b'\4\5' + v + b'de ', dict(a=a, l=[4, 5], v=v, s='de')
    return C, lambda: {}, b'\3\4\5xyde ', dict(a=3, l=[4, 5], v=b'xy', s='de')

def k_float(t):
    class C(Buffer):
        f = float_field(where=bytes_ref[0:4])
        g = float_field(endian='big', where=bytes_ref[4:12])
    n = len(t)
    return C, lambda: dict(f=0.5, g=2.0 + n), struct.pack('<f', 0.5) + struct.pack('>d', 2.0 + n), dict(f=0.5, g=2.0 + n)

KINDS = {'num': k_num, 'bits': k_bits, 'bytes': k_bytes, 'closed': k_closed, 'text': k_text, 'json': k_json, 'list': k_list, 'bufs': k_bufs,
         'nested': k_nested, 'dynamic': k_dynamic, 'select': k_select, 'cond': k_cond, 'computed': k_computed, 'inherit': k_inherit,
         'sized': k_sized, 'default': k_default, 'float': k_float}

def values(o, dec):
    return dict((n, form(getattr(o, n))) for n in dec)

def verify(tag, C, mk, enc, dec):
    """the class packs, measures and unpacks as declared"""
    o = C(**mk())
    same(tag + 'packed', raw(o.pack()), enc)
    same(tag + 'size', o.calc_byte_size(), len(enc))
    r = C()
    same(tag + 'consumed', r.unpack(enc), len(enc))
    got = values(r, dec)
    for n in sorted(dec):
        same(tag + 'read-' + n, got[n], dec[n])
    same(tag + 'repacked', raw(r.pack()), enc)
'''

KINDNAMES = ('num', 'bits', 'bytes', 'closed', 'text', 'json', 'list', 'bufs', 'nested', 'dynamic', 'select', 'cond', 'computed', 'inherit',
             'sized', 'default', 'float')
