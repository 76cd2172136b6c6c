"""The size of a buffer whose layout depends on its content: what total_size, calc_byte_size and unpack report is exactly the number of bytes
packing yields and unpacking consumes, a field placed after another starts exactly where that one ends, and lengths and counts are those of
the packed values."""
import itertools
from ..run import Case
from ._layout import PRE_LAYOUT, KINDS, client

COVERAGE = """All ordered pairs (thorough: triples) of 18 field kinds placed one behind the other with after_ref, declared in and against position order, with
total_size in front; contents opaque; pack, calc_byte_size, unpack with 0..3 trailing bytes, and repack compared; references to lengths,
minima, maxima, casts and the input length over opaque values."""

SRC = PRE_LAYOUT + r'''
def lengths(kind):
    x, t = any_uint('x', 8), any_bytes('t', 3)
    if kind == 'by-field':
        class C(Buffer):
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
            a = u8(bytes_ref[0], set_before_pack=len_ref(b))
    elif kind == 'by-name':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=len_ref('b'))
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
    elif kind == 'by-self':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.b))
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
    elif kind == 'attr':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.extra))
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
            extra = [1, 2, 3]
    elif kind == 'arith':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.b) * 2 - 3)
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
    elif kind == 'call':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=self_ref.calc(1))
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
            def calc(self, n):
                return n + len(self.b) - 1
    elif kind == 'member':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=member_func_ref(lambda o: len(o.b)))
            b = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:4])
    o = C(b=bytearray(t))
    same('packed', raw(o.pack()), b'\3' + t)
    same('assigned', o.a, 3)
    same('size', o.calc_byte_size(), 4)
    r = C()
    same('unpack', r.unpack(be(x) + t + b'zz'), 4)
    same('read', (r.a, raw(r.b)), (x, t))

def count(n):
    class C(Buffer):
        a = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.l))
        b = u8(bytes_ref[1], set_before_pack=total_size)
        l = list_field(type=b_uint32, where=bytes_ref[2:])
    xs = [any_uint('x%d' % i, 32) for i in range(n)]
    o = C(l=list(xs))
    same('packed', raw(o.pack()), bytes([n, 2 + 4 * n]) + b''.join([x.to_bytes(4, 'big') for x in xs]))
    same('assigned', (o.a, o.b), (n, 2 + 4 * n))
    same('size', o.calc_byte_size(), 2 + 4 * n)

def text(n):
    class C(Buffer):
        a = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.s))
        b = u8(bytes_ref[1], set_before_pack=total_size)
        s = str_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:2 + a])
    s = 'abcdefgh'[:n]
    o = C(s=s)
    same('packed', raw(o.pack()), bytes([n, n + 2]) + s.encode('ascii'))
    r = C()
    same('unpack', r.unpack(bytes([n, n + 2]) + s.encode('ascii') + b'more'), n + 2)
    same('read', (r.a, r.b, r.s), (n, n + 2, s))

def minmax(op):
    f = min_ref if op == 'min' else max_ref
    g = min if op == 'min' else max
    x, y = any_uint('x', 3), any_uint('y', 3)
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1])
        c = u8(bytes_ref[2], set_before_pack=f(a, b, 5))
        d = u8(bytes_ref[3], set_before_pack=f(a + 1, num_ref(self_ref.b)))
    same('packed', raw(C(a=x, b=y).pack()), be(x) + be(y) + be(g(x, y, 5)) + be(g(x + 1, y)))
    class D(Buffer):
        a = u8(bytes_ref[0])
        t = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:f(a, 3)])
    t = any_bytes('t', 5)
    for n in (1, 2, 3, 4, 6):
        r = D()
        same('size-%d' % n, r.unpack(bytes([n]) + t), g(n, 3))
        same('read-%d' % n, raw(r.t), t[:g(n, 3) - 1])

def input_length(n, how):
    class C(Buffer):
        a = u8(bytes_ref[0])
        t = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:input_buffer_length - 1])
        z = uint_field(where_when_pack=bytes_ref[after_ref(t)], where_when_unpack=bytes_ref[input_buffer_length - 1])
    x, t, z = any_uint('x', 8), any_bytes('t', n), any_uint('z', 8)
    o = C(a=x, t=bytearray(t), z=z)
    d = be(x) + t + be(z)
    same('packed', raw(o.pack()), d)
    same('size', o.calc_byte_size(), n + 2)
    r = C()
    if how == 'bytes':
        same('unpack', r.unpack(d), n + 2)
    elif how == 'bytearray':
        same('unpack', r.unpack(bytearray(d)), n + 2)
    else:
        class W(Buffer):
            head = u8(bytes_ref[0])
            body = buffer_field(type=C, where=bytes_ref[1:])
        w = W()
        same('unpack', w.unpack(b'h' + d), n + 3)
        r = w.body
    same('read', (r.a, raw(r.t), r.z), (x, t, z))

def spread(order):
    """the size is where the last byte ends, whichever field holds it"""
    x, y, z = any_uint('x', 8), any_uint('y', 8), any_bytes('z', 2)
    p, q, s = order
    class C(Buffer):
        n = u8(bytes_ref[0], set_before_pack=total_size)
        a = u8(bytes_ref[p])
        b = u8(bytes_ref[q])
        c = bytearray_field(where_when_pack=bytes_ref[s:], where_when_unpack=bytes_ref[s:s + 2])
    e = [0] * max(p + 1, q + 1, s + 2)
    e[0], e[p], e[q], e[s], e[s + 1] = len(e), x, y, z[0], z[1]
    o = C(a=x, b=y, c=bytearray(z))
    d = b''.join([be(v) for v in e])
    same('packed', raw(o.pack()), d)
    same('size', o.calc_byte_size(), len(e))
    r = C()
    same('unpack', r.unpack(d + b'tail'), len(e))
    same('read', (r.n, r.a, r.b, raw(r.c)), (len(e), x, y, z))
    same('size-read', r.calc_byte_size(), len(e))

def after_spread(kind):
    """after a field in several places comes after its last byte"""
    x, t = any_uint('x', 8), any_bytes('t', 3)
    if kind == 'ascending':
        class C(Buffer):
            a = bytearray_field(where=bytes_ref[0:2, 5:6])
            b = u8(bytes_ref[after_ref(a)])
        e = t[:2] + b'\0\0\0' + t[2:] + be(x)
    elif kind == 'descending':
        class C(Buffer):
            a = bytearray_field(where=bytes_ref[5:6, 0:2])
            b = u8(bytes_ref[after_ref(a)])
        e = t[1:] + b'\0\0\0' + t[:1] + be(x)
    elif kind == 'open-last':
        class C(Buffer):
            a = bytearray_field(where_when_pack=bytes_ref[0:1, 4:], where_when_unpack=bytes_ref[0:1, 4:6])
            b = u8(bytes_ref[after_ref(a)])
        e = t[:1] + b'\0\0\0' + t[1:] + be(x)
    elif kind == 'open-list-first':
        class C(Buffer):
            a = bytearray_field(where_when_pack=bytes_ref[3:, 0:1], where_when_unpack=bytes_ref[3:5, 0:1])
            b = u8(bytes_ref[after_ref(a)])
        e = t[2:] + b'\0\0' + t[:2] + be(x)
    elif kind == 'open-list-middle':
        class C(Buffer):
            a = bytearray_field(where_when_pack=bytes_ref[1:2, 4:, 0:1], where_when_unpack=bytes_ref[1:2, 4:5, 0:1])
            b = u8(bytes_ref[after_ref(a)])
        e = t[2:] + t[:1] + b'\0\0' + t[1:2] + be(x)
    elif kind == 'open-unpack':
        class C(Buffer):
            b = u8(bytes_ref[0])
            a = bytearray_field(where=bytes_ref[4:, 1:2])
        o = C(a=bytearray(t), b=x)
        e = be(x) + t[2:] + b'\0\0' + t[:2]
        same('packed', raw(o.pack()), e)
        same('size', o.calc_byte_size(), 6)
        r = C()
        same('unpack', r.unpack(e), 6)
        same('read', (raw(r.a), r.b), (t, x))
        return
    elif kind == 'open-first':
        class C(Buffer):
            a = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:7])
            b = u8(bytes_ref[after_ref(a)])
        e = b'\0\0\0\0' + t + be(x)
    elif kind == 'chain':
        class C(Buffer):
            a = bytearray_field(where=bytes_ref[1:4])
            c = u8(bytes_ref[after_ref(a) + 2])
            b = u8(bytes_ref[after_ref(c) - 3])
        y = any_uint('y', 8)
        o = C(a=bytearray(t), c=x, b=y)
        e = b'\0' + t + be(y) + b'\0' + be(x)
        same('packed', raw(o.pack()), e)
        r = C()
        same('unpack', r.unpack(e), 7)
        same('read', (raw(r.a), r.b, r.c), (t, y, x))
        return
    o = C(a=bytearray(t), b=x)
    same('packed', raw(o.pack()), e)
    same('size', o.calc_byte_size(), len(e))
    r = C()
    same('unpack', r.unpack(e + b'tail'), len(e))
    same('read', (raw(r.a), r.b), (t, x))
    same('repacked', raw(r.pack()), e)

def absent(which):
    """a field that is not there takes no room"""
    x, y, f = any_uint('x', 8), any_uint('y', 8), any_bytes('f', 3)
    class C(Buffer):
        n = u8(bytes_ref[0], set_before_pack=total_size)
        g = u8(bytes_ref[1])
        a = u8(bytes_ref[2], pack_if=g, unpack_if=g)
        c = u8(bytes_ref[3])
        b = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:7], pack_if=num_ref(self_ref.g) - 2, unpack_if=num_ref(self_ref.g) - 2)
    o = C(g=which, a=x, b=bytearray(f), c=y)
    d = bytes([7 if which != 2 else 4, which]) + (be(x) if which else b'\0') + be(y) + (f if which != 2 else b'')
    same('packed', raw(o.pack()), d)
    same('size', o.calc_byte_size(), len(d))
    r = C()
    same('unpack', r.unpack(d + b'trailing'), len(d))
    same('read', (r.n, r.g, r.a, r.c), (len(d), which, x if which else None, y))
    same('b', raw(r.b) if r.b is not None else None, f if which != 2 else None)
'''


def chain_src(chain, names):
    body, setup, kw, enc, chk = client(chain, names)
    f = ['def chain():']
    f += ['    ' + s for s in setup]
    f += ['    class C(Buffer):'] + ['        ' + b for b in body]
    f += ['    enc = ' + enc, '    n = 1 + len(enc)', '    d = bytes([n]) + enc',
          '    o = C(%s)' % kw,
          "    same('packed', raw(o.pack()), d)",
          "    same('size', o.calc_byte_size(), n)",
          "    same('total', o.size, n)",
          "    for trail in (b'', b'\\xff', b'zzz'):",
          "        r = C()",
          "        same('unpack-%d' % len(trail), r.unpack(d + trail), n)",
          "        same('size-%d' % len(trail), r.calc_byte_size(), n)"]
    for i, (a, v) in enumerate(chk):
        f.append("        same('field-%d-%%d' %% len(trail), %s, %s)" % (i, a, v))
    f += ["    same('repacked', raw(r.pack()), d)", "    same('again', raw(o.pack()), d)"]
    return PRE_LAYOUT + '\n'.join(f) + '\n'


def cases():
    for k in ('by-field', 'by-name', 'by-self', 'attr', 'arith', 'call', 'member'):
        yield Case('length/' + k, SRC, 'lengths', (k,))
    for n in (0, 1, 3):
        yield Case('count/%d' % n, SRC, 'count', (n,))
    for n in (0, 1, 5, 8):
        yield Case('text/%d' % n, SRC, 'text', (n,))
    for op in ('min', 'max'):
        yield Case('minmax/' + op, SRC, 'minmax', (op,))
    for n in (0, 1, 4):
        for how in ('bytes', 'bytearray', 'nested'):
            yield Case('input/%s/%d' % (how, n), SRC, 'input_length', (n, how))
    for o in itertools.permutations((1, 2, 3)):
        yield Case('spread/%d%d%d' % o, SRC, 'spread', ((o[0], o[1], o[2] + (2 if o[2] < 3 else 0)) if o[2] == 3 else (o[0] + 3, o[1] + 3, o[2]),))
    for k in ('ascending', 'descending', 'open-last', 'open-list-first', 'open-list-middle', 'open-unpack', 'open-first', 'chain'):
        yield Case('after/' + k, SRC, 'after_spread', (k,))
    for w in (0, 1, 2):
        yield Case('absent/%d' % w, SRC, 'absent', (w,))
    ks = sorted(KINDS)
    for k in ks:
        yield Case('one/' + k, chain_src([k], ['a']), 'chain', ())
    for p in itertools.product(ks, repeat=2):
        for names in ('ab', 'ba'):
            yield Case('pair/%s-%s/%s' % (p[0], p[1], names), chain_src(p, names), 'chain', (), tier='quick' if names == 'ab' or hash_pick(p) else 'thorough')
    small = ['num', 'split', 'bits', 'var1', 'list1', 'open-list1', 'dyn0', 'dyn1']
    for p in itertools.product(small, repeat=3):
        for names in ('abc', 'bca', 'cba'):
            yield Case('triple/%s/%s' % ('-'.join(p), names), chain_src(p, names), 'chain', (), tier='thorough')


def hash_pick(p):
    return sum(map(ord, p[0] + p[1])) % 3 == 0
