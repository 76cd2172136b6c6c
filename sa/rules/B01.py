"""Integer and float buffer fields write exactly the value they are given at exactly their declared width, signedness and byte order and read
exactly the bytes of their range: every bit of every whole-byte width and of every sub-byte range is traced from the value to the packed
bytes and back; values that do not fit are errors."""
from ..run import Case

COVERAGE = """int/uint/be_*/le_* fields of 1..16 bytes x 'native', 'big', 'little', 'unspecified' x both host byte orders, at offset 0 and in the middle;
bit ranges of 1..24 bits at every bit offset; float fields of 4 and 8 bytes; element types of the int8..uint64 families; the values
just outside each range as whole intervals."""

SRC = r'''
from infi.instruct.buffer import *
from infi.instruct.errors import InstructError
from struct import pack, unpack
import sys
from vlab import *

MAKERS = {'int': int_field, 'uint': uint_field, 'be_int': be_int_field, 'be_uint': be_uint_field, 'le_int': le_int_field,
          'le_uint': le_uint_field}

def order_of(name, endian):
    if name.startswith('be_'):
        return 'big'
    if name.startswith('le_'):
        return 'little'
    return endian if endian in ('big', 'little') else sys.byteorder

def make(name, endian, **kw):
    if endian is not None:
        kw['endian'] = endian
    return MAKERS[name](**kw)

def raw(b):
    return bytes(b)

def whole(name, endian, n):
    o = order_of(name, endian)
    signed = name.endswith('_int') or name == 'int'
    class B(Buffer):
        a = uint_field(where=bytes_ref[0])
        f = make(name, endian, where=bytes_ref[1:1 + n])
        z = uint_field(where=bytes_ref[1 + n])
    if signed and n in (1, 2, 4, 8):
        x = any_sint('x', 8 * n)
        ref = x.to_bytes(n, o, signed=True)
    else:
        x = any_uint('x', 8 * n)
        ref = x.to_bytes(n, o)
    a, z = any_uint('a', 8), any_uint('z', 8)
    d = B(a=a, f=x, z=z).pack()
    same('packed', raw(d), a.to_bytes(1, 'big') + ref + z.to_bytes(1, 'big'))
    w = any_bytes('w', n + 2)
    r = B()
    same('size', r.unpack(w), n + 2)
    same('unpacked', r.f, int.from_bytes(w[1:1 + n], o, signed=signed and n in (1, 2, 4, 8)))
    same('neighbours', (r.a, r.z), (w[0], w[n + 1]))

def explicit(name, endian, n):
    """an open range with an explicit byte_size"""
    o = order_of(name, endian)
    signed = (name.endswith('_int') or name == 'int') and n in (1, 2, 4, 8)
    class B(Buffer):
        f = make(name, endian, where=bytes_ref[0:], byte_size=n)
    x = any_sint('x', 8 * n) if signed else any_uint('x', 8 * n)
    same('packed', raw(B(f=x).pack()), x.to_bytes(n, o, signed=signed))
    w = any_bytes('w', n + 3)
    r = B()
    r.unpack(w)
    same('unpacked', r.f, int.from_bytes(w[:n], o, signed=signed))

def failing(tag, f):
    try:
        f()
    except InstructError:
        ok(tag)
    except Exception as e:
        bad(tag, e)
    else:
        bad(tag)

def limits(name, n):
    signed = name.endswith('_int') or name == 'int'
    class B(Buffer):
        f = MAKERS[name](where=bytes_ref[0:n])
    if signed and n in (1, 2, 4, 8):
        k = any_uint('k', 8 * n - 1)
        failing('above', lambda: B(f=(1 << (8 * n - 1)) + k).pack())
        failing('below', lambda: B(f=-(1 << (8 * n - 1)) - 1 - k).pack())
    else:
        k = any_uint('k', 8 * n)
        failing('above', lambda: B(f=(1 << (8 * n)) + k).pack())
        failing('below', lambda: B(f=-1 - k).pack())
    failing('unset', lambda: B().pack())
    failing('text', lambda: B(f='text').pack())

def bit_range(o, k):
    """k bits starting at bit o (least significant first) of the bytes they lie in, all other bits a neighbour's"""
    total = (o + k + 7) // 8
    rest = total * 8 - o - k
    class B(Buffer):
        if o:
            lo = uint_field(where=bytes_ref[0:total].bits[0:o])
        f = uint_field(where=bytes_ref[0:total].bits[o:o + k])
        if rest:
            hi = uint_field(where=bytes_ref[0:total].bits[o + k:8 * total])
    x = any_uint('x', k)
    kw = {'f': x}
    v = x << o
    if o:
        kw['lo'] = any_uint('lo', o)
        v = v + kw['lo']
    if rest:
        kw['hi'] = any_uint('hi', rest)
        v = v + (kw['hi'] << (o + k))
    same('packed', raw(B(**kw).pack()), v.to_bytes(total, 'little'))
    w = any_bytes('w', total)
    r = B()
    r.unpack(w)
    n = int.from_bytes(w, 'little')
    same('unpacked', r.f, (n >> o) & ((1 << k) - 1))
    if o:
        same('unpacked-low', r.lo, n & ((1 << o) - 1))
    if rest:
        same('unpacked-high', r.hi, n >> (o + k))

def bit_limits(o, k):
    total = (o + k + 7) // 8
    class B(Buffer):
        f = uint_field(where=bytes_ref[0:total].bits[o:o + k])
    x = any_uint('x', k)
    failing('above', lambda: B(f=(1 << k) + x).pack())
    failing('below', lambda: B(f=-1 - x).pack())
    if o + k < 8 * total or o:
        same('rest-zero', raw(B(f=x).pack()), (x << o).to_bytes(total, 'little'))

def floats(n, endian):
    class B(Buffer):
        a = uint_field(where=bytes_ref[0])
        if endian is None:
            f = float_field(where=bytes_ref[1:1 + n])
        else:
            f = float_field(where=bytes_ref[1:1 + n], endian=endian)
    fmt = ('>' if order_of('', endian) == 'big' else '<') + ('f' if n == 4 else 'd')
    x, a = any_float('x'), any_uint('a', 8)
    b = B(a=a, f=x)
    try:
        d = b.pack()
    except InstructError:
        if n == 8:
            bad('in-range-error')
    except Exception as e:
        bad('library-error', e)
    else:
        try:
            ref = pack(fmt, x)
        except Exception as e:
            bad('overflow-packed', e)
            return
        same('packed', raw(d), a.to_bytes(1, 'big') + ref)
    w = any_bytes('w', n + 1)
    r = B()
    r.unpack(w)
    same('unpacked', r.f, unpack(fmt, w[1:])[0])

def float_open(n):
    class B(Buffer):
        f = float_field(where=bytes_ref[0:], byte_size=n) if n else float_field(where=bytes_ref[0:])
    m = n or 4
    w = any_bytes('w', m)
    r = B()
    r.unpack(w)
    same('unpacked', r.f, unpack('<f' if m == 4 else '<d', w)[0])

def float_sizes(n):
    """floats are 4 or 8 bytes"""
    class B(Buffer):
        f = float_field(where=bytes_ref[0:n])
    failing('pack', lambda: B(f=any_float('x')).pack())
    failing('unpack', lambda: B().unpack(any_bytes('w', n)))

def element(name, n, signed, order):
    """the predefined element types, through a list field"""
    o = order or sys.byteorder
    t = TYPES[name]
    class B(Buffer):
        l = list_field(type=t, where=bytes_ref[0:])
    x = any_sint('x', 8 * n) if signed else any_uint('x', 8 * n)
    y = any_sint('y', 8 * n) if signed else any_uint('y', 8 * n)
    same('packed', raw(B(l=[x, y]).pack()), x.to_bytes(n, o, signed=signed) + y.to_bytes(n, o, signed=signed))
    w = any_bytes('w', 2 * n)
    r = B()
    r.unpack(w)
    same('unpacked', r.l, [int.from_bytes(w[:n], o, signed=signed), int.from_bytes(w[n:], o, signed=signed)])
'''
TYPES = {}
for _s in ('int', 'uint'):
    for _b in (8, 16, 32, 64):
        for _p, _o in (('', None), ('n_', None), ('b_', 'big'), ('l_', 'little')):
            TYPES['%s%s%d' % (_p, _s, _b)] = (_b // 8, _s == 'int', _o)
SRC += '\nTYPES = {%s}\n' % ', '.join('%r: %s' % (n, n) for n in sorted(TYPES))


def cases():
    for bo in ('little', 'big'):
        for name in ('int', 'uint', 'be_int', 'be_uint', 'le_int', 'le_uint'):
            for endian in (None, 'native', 'big', 'little', 'unspecified') if name in ('int', 'uint') else (None,):
                for n in range(1, 17):
                    main = n in (1, 2, 3, 4, 5, 8) and endian not in ('native', 'unspecified') or n in (2, 3)
                    t = 'quick' if main and (bo == 'little' or n in (2, 3)) else 'thorough'
                    yield Case('whole/%s/%s/%d/%s-host' % (name, endian, n, bo), SRC, 'whole', (name, endian, n), tier=t, byteorder=bo)
                    if n in (1, 2, 3, 4, 8):
                        yield Case('explicit/%s/%s/%d/%s-host' % (name, endian, n, bo), SRC, 'explicit', (name, endian, n),
                                   tier='quick' if bo == 'little' and n in (2, 3, 8) else 'thorough', byteorder=bo)
        for n in (4, 8):
            for endian in (None, 'native', 'big', 'little', 'unspecified'):
                yield Case('float/%d/%s/%s-host' % (n, endian, bo), SRC, 'floats', (n, endian), byteorder=bo,
                           tier='quick' if endian in (None, 'big', 'little') else 'thorough')
        for name, (n, s, o) in sorted(TYPES.items()):
            yield Case('element/%s/%s-host' % (name, bo), SRC, 'element', (name, n, s, o), byteorder=bo,
                       tier='quick' if bo == 'little' else 'thorough')
    for name in ('int', 'uint'):
        for n in (1, 2, 3, 4, 5, 8, 16):
            yield Case('limits/%s/%d' % (name, n), SRC, 'limits', (name, n), tier='quick' if n in (1, 3, 8) else 'thorough')
    for o in range(8):
        for k in range(1, 25):
            t = 'quick' if k in (1, 3, 7, 9) or k == 8 and o else 'thorough'
            yield Case('bits/%d+%d' % (o, k), SRC, 'bit_range', (o, k), tier=t)
            if (o, k) in ((0, 1), (0, 3), (2, 3), (5, 7), (0, 9), (4, 12)):
                yield Case('bit-limits/%d+%d' % (o, k), SRC, 'bit_limits', (o, k))
    for n in (1, 2, 3, 5, 6, 7, 16):
        yield Case('float-size/%d' % n, SRC, 'float_sizes', (n,), tier='quick' if n in (2, 16) else 'thorough')
    for n in (None, 4, 8):
        yield Case('float-open/%s' % n, SRC, 'float_open', (n,))
