"""Bit groups: fields of a sequential group occupy consecutive bits from the least significant bit of the first byte on, fields of a
positional group exactly the bit ranges they name; writing a field touches no other bit, padding and unnamed bits are written as
zero and ignored on reading, and a group that does not fill whole bytes is rejected when declared.  Bit-provenance analysis over
opaque values, for every composition of one byte and selected wider layouts."""
import itertools
from ..run import Case
from ._cat import PRE

COVERAGE = """All 128 compositions of one byte into fields and padding positions, compositions of 2..4 bytes crossing byte boundaries, flags;
positional groups with single, split and permuted ranges; opaque field values, opaque wider values, opaque input bytes; all group
widths 1..25 for the byte boundary rule; bit stream operation sequences with seeks and reads/writes past the end."""

SRC = PRE + r'''
from infi.instruct.utils.bitstringio import BitStringIO

def layout(widths, pads):
    fields, pos, where = [], 0, []
    for i in range(len(widths)):
        w = widths[i]
        if i in pads:
            fields.append(BitPadding(w))
        else:
            n = 'f%d' % i
            fields.append(BitFlag(n) if w == 1 and i % 2 == 0 else BitField(n, w))
            where.append((n, pos, w))
        pos += w
    class S(Struct):
        _fields_ = [UBInt8('h'), BitFields(*fields), UBInt8('t')]
    return S, where, pos // 8

def sequential(widths, pads):
    S, where, size = layout(widths, pads)
    kw, want = {'h': 0xa5, 't': 0x5a}, 0
    for n, pos, w in where:
        kw[n] = any_uint(n, w)
        want |= kw[n] << pos
    d = S.write_to_string(S(**kw))
    same('written', d, b'\xa5' + want.to_bytes(size, 'little') + b'\x5a')
    r = S.create_from_string(d)
    for n, pos, w in where:
        same('back-' + n, getattr(r, n), kw[n])
    same('tail', r.t, 0x5a)

def reading(widths, pads):
    S, where, size = layout(widths, pads)
    v = any_uint('v', size * 8)
    r = S.create_from_string(b'\xa5' + v.to_bytes(size, 'little') + b'\x5a')
    keep = 0
    for n, pos, w in where:
        same('read-' + n, getattr(r, n), (v >> pos) & ((1 << w) - 1))
        keep |= ((1 << w) - 1) << pos
    same('rewrite', S.write_to_string(r), b'\xa5' + (v & keep).to_bytes(size, 'little') + b'\x5a')

def wide(widths, pads, which):
    """a value wider than its field never disturbs another field"""
    S, where, size = layout(widths, pads)
    kw, want = {'h': 1, 't': 2}, 0
    for n, pos, w in where:
        kw[n] = any_uint(n, w)
        want |= kw[n] << pos
    n, pos, w = where[which]
    kw[n] = any_uint('wide', w + 9)
    want &= ~(((1 << w) - 1) << pos)
    try:
        d = S.write_to_string(S(**kw))
    except InstructError:
        return
    got = int.from_bytes(d[1:1 + size], 'little') & ~(((1 << w) - 1) << pos)
    same('others', got, want)
    same('length', len(d), size + 2)

def boundary(total):
    try:
        g = BitFields(BitField('a', total // 2), BitField('b', total - total // 2)) if total > 1 else BitFields(BitFlag('a'))
        class S(Struct):
            _fields_ = [g]
    except InstructError:
        holds('error-only-off-boundary', total % 8 != 0)
    else:
        same('whole-bytes', total % 8, 0)
        same('size', S.min_max_sizeof(), (total // 8, total // 8))

def pos_boundary(top):
    try:
        class S(Struct):
            _fields_ = [BitFields(BitField('a', Bits[0:3]), BitField('b', Bits[top - 2:top]))]
    except InstructError:
        holds('error-only-off-boundary', top % 8 != 0)
    else:
        same('whole-bytes', top % 8, 0)
        same('size', S.min_max_sizeof(), (top // 8, top // 8))

def bits(ranges):
    out = []
    for a, b in ranges:
        out.append(slice(a, b))
    return out

def positional(fields, size, order):
    fs, where = [], []
    for i in order:
        fs.append(BitField('f%d' % i, bits(fields[i])))
    class S(Struct):
        _fields_ = [UBInt8('h'), BitFields(*fs), UBInt8('t')]
    kw, want = {'h': 3, 't': 4}, 0
    for i in range(len(fields)):
        w = sum(b - a for a, b in fields[i])
        x = kw['f%d' % i] = any_uint('f%d' % i, w)
        o = 0
        for a, b in fields[i]:
            want |= ((x >> o) & ((1 << (b - a)) - 1)) << a
            o += b - a
    d = S.write_to_string(S(**kw))
    same('written', d, b'\3' + want.to_bytes(size, 'little') + b'\4')
    r = S.create_from_string(d)
    for i in range(len(fields)):
        same('back', getattr(r, 'f%d' % i), kw['f%d' % i])
    v = any_uint('v', size * 8)
    r = S.create_from_string(b'\3' + v.to_bytes(size, 'little') + b'\4')
    keep = 0
    for i in range(len(fields)):
        x, o = 0, 0
        for a, b in fields[i]:
            m = (1 << (b - a)) - 1
            x |= ((v >> a) & m) << o
            o += b - a
            keep |= m << a
        same('read', getattr(r, 'f%d' % i), x)
    same('rewrite', S.write_to_string(r), b'\3' + (v & keep).to_bytes(size, 'little') + b'\4')

def positional_slice():
    """one plain range is accepted like a list of one range"""
    class S(Struct):
        _fields_ = [BitFields(BitField('a', slice(0, 3)), BitField('b', Bits[3:8]))]
    v = any_uint('v', 8)
    r = S.create_from_string(v.to_bytes(1, 'little'))
    same('a', r.a, v & 7)
    same('b', r.b, v >> 3)
    same('rewrite', S.write_to_string(r), v.to_bytes(1, 'little'))

def defaults():
    class S(Struct):
        _fields_ = [BitFields(BitField('a', 3, 5), BitFlag('b', 1), BitField('c', 4, 0))]
    same('written', S.write_to_string(S()), b'\x0d')
    x = any_uint('x', 4)
    same('mixed', S.write_to_string(S(c=x)), (13 | x << 4).to_bytes(1, 'big'))

def two_groups():
    """two groups of one struct are independent"""
    class S(Struct):
        _fields_ = [BitFields(BitField('a', 3), BitField('b', 5)), UBInt8('m'), BitFields(BitField('c', 12), BitField('d', 4))]
    a, b, c, d, m = any_uint('a', 3), any_uint('b', 5), any_uint('c', 12), any_uint('d', 4), any_uint('m', 8)
    s = S.write_to_string(S(a=a, b=b, c=c, d=d, m=m))
    same('written', s, (a | b << 3).to_bytes(1, 'little') + m.to_bytes(1, 'little') + (c | d << 12).to_bytes(2, 'little'))
    r = S.create_from_string(s)
    same('read', (r.a, r.b, r.m, r.c, r.d), (a, b, m, c, d))

def stream_read(n, ops):
    """('s', p) seeks to bit p, ('r', k) reads k bits: little endian bit order, errors leave the position alone"""
    v = any_uint('v', n * 8)
    st = BitStringIO(v.to_bytes(n, 'little'))
    pos = 0
    for i in range(len(ops)):
        op, k = ops[i]
        if op == 's':
            st.seek(k)
            pos = k
        else:
            try:
                got = st.read(k)
            except IOError:
                holds('error-only-past-end-%d' % i, pos + k > n * 8)
            else:
                holds('within-%d' % i, pos + k <= n * 8)
                same('read-%d' % i, got, (v >> pos) & ((1 << k) - 1))
                pos += k
    same('unchanged', st.getvalue(), v.to_bytes(n, 'little'))

def stream_write(n, ops):
    """writes into a zeroed stream: each bit lands at its position and nowhere else"""
    st = BitStringIO(n)
    pos, want = 0, 0
    for i in range(len(ops)):
        op, k = ops[i]
        if op == 's':
            st.seek(k)
            pos = k
        else:
            x = any_uint('x%d' % i, k + 3)
            try:
                st.write(x, k)
            except IOError:
                holds('error-only-past-end-%d' % i, pos + k > n * 8)
            else:
                holds('within-%d' % i, pos + k <= n * 8)
                want |= (x & ((1 << k) - 1)) << pos
                pos += k
        same('value-%d' % i, st.getvalue(), want.to_bytes(n, 'little'))
'''


def compositions(n):
    for mask in range(1 << (n - 1)):
        out, w = [], 1
        for i in range(n - 1):
            if mask >> i & 1:
                out.append(w)
                w = 1
            else:
                w += 1
        yield tuple(out + [w])


WIDE = [(3, 13), (13, 3), (9, 7), (1, 14, 1), (7, 2, 7), (4, 8, 4), (1, 16, 7), (12, 12), (3, 10, 11), (24,), (23, 1), (5, 5, 5, 9), (17, 15),
        (31, 1), (1, 31), (32,), (7, 18, 7), (2, 7, 9, 6, 8), (40,), (3, 33, 4)]
POS = [([[(0, 4)], [(4, 8)]], 1), ([[(4, 8)], [(0, 4)]], 1), ([[(0, 2), (6, 8)], [(2, 6)]], 1), ([[(6, 8), (0, 2)], [(2, 6)]], 1),
       ([[(2, 4), (12, 16)], [(4, 12)]], 2), ([[(12, 16), (2, 4)], [(5, 11)]], 2), ([[(0, 16)]], 2), ([[(3, 8)]], 1), ([[(9, 16)], [(0, 1)]], 2),
       ([[(1, 3), (5, 6), (7, 10)], [(14, 16)]], 2), ([[(0, 1)], [(1, 2)], [(2, 3)], [(3, 8)]], 1), ([[(8, 24)], [(0, 8)]], 3),
       ([[(20, 24), (0, 4), (10, 13)], [(4, 10), (13, 20)]], 3), ([[(0, 12)], [(12, 32)]], 4)]


def cases():
    for c in compositions(8):
        yield Case('seq/%s' % (c,), SRC, 'sequential', (c, ()))
        yield Case('read/%s' % (c,), SRC, 'reading', (c, ()))
    for c in WIDE:
        yield Case('seq/%s' % (c,), SRC, 'sequential', (c, ()))
        yield Case('read/%s' % (c,), SRC, 'reading', (c, ()))
    some = [c for i, c in enumerate(compositions(8)) if 2 <= len(c) <= 4] + [c for c in WIDE if len(c) > 1]
    for j, c in enumerate(some):
        for i in range(len(c)):
            t = 'quick' if (i + j) % 2 == 0 else 'thorough'
            yield Case('pad/%s/%d' % (c, i), SRC, 'sequential', (c, (i,)), tier=t)
            yield Case('padread/%s/%d' % (c, i), SRC, 'reading', (c, (i,)), tier=t)
            yield Case('wide/%s/%d' % (c, i), SRC, 'wide', (c, (), i), tier=t)
    for c in compositions(12):
        if len(c) <= 4:
            c = c + (4,)
            yield Case('seq/%s' % (c,), SRC, 'sequential', (c, ()), tier='thorough')
            yield Case('read/%s' % (c,), SRC, 'reading', (c, ()), tier='thorough')
    for n in range(1, 26):
        yield Case('boundary/%d' % n, SRC, 'boundary', (n,))
        if n > 5:
            yield Case('pos-boundary/%d' % n, SRC, 'pos_boundary', (n,))
    for f, n in POS:
        for o in itertools.permutations(range(len(f))) if len(f) < 4 else [(0, 1, 2, 3), (3, 1, 0, 2)]:
            yield Case('positional/%s/%s' % (f, o), SRC, 'positional', (f, n, o))
    for f in ('positional_slice', 'defaults', 'two_groups'):
        yield Case(f, SRC, f)
    R = [('r', 1), ('r', 3), ('r', 8), ('r', 11)]
    for s in itertools.product(R, repeat=2):
        yield Case('io-read/2/%s' % (s,), SRC, 'stream_read', (2, s))
        yield Case('io-write/2/%s' % (s,), SRC, 'stream_write', (2, s))
    for p in range(0, 16, 1):
        for k in (1, 5, 8, 9):
            yield Case('io-seek-read/%d/%d' % (p, k), SRC, 'stream_read', (2, (('s', p), ('r', k))))
            yield Case('io-seek-write/%d/%d' % (p, k), SRC, 'stream_write', (2, (('s', p), ('r', k))))
    for s in itertools.product(R, repeat=3):
        yield Case('io-read/4/%s' % (s,), SRC, 'stream_read', (4, s))
        yield Case('io-write/4/%s' % (s,), SRC, 'stream_write', (4, s))
