"""Overlapping positions and open ranges: a field whose own ranges overlap is rejected whenever it is packed or unpacked and never writes or
yields a value; ranges that merely touch are accepted; an open range takes exactly the bytes the other ranges of its field leave when
packing and everything up to the end of the input when unpacking."""
import itertools
from ..run import Case
from ._bcat import PRE

COVERAGE = """All lists of two and three ranges over a five byte grid including open ones and bit ranges, in every order, constant and dependent; ranges with
opaque bounds; open ranges at every place of a list with opaque content of every length up to six, packed and unpacked."""

SRC = PRE + r'''
from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
from infi.instruct.buffer.reference import Context

def mk(rs):
    return SequentialRangeList([SequentialRange(a, b) for a, b in rs])

def overlap_of(rs):
    for i in range(len(rs)):
        for j in range(i + 1, len(rs)):
            a, b = rs[i]
            c, d = rs[j]
            if (d is None or a < d) and (b is None or c < b):
                return True
    return False

def grid(lists):
    for rs in lists:
        same('overlap', mk(rs).has_overlaps(), overlap_of(rs))

def opaque2():
    a, n, c, m = any_uint('a', 30), any_uint('n', 30), any_uint('c', 30), any_uint('m', 30)
    l = mk([(a, a + n + 1), (c, c + m + 1)])
    if a + n + 1 <= c or c + m + 1 <= a:
        same('disjoint', l.has_overlaps(), False)
    else:
        same('overlap', l.has_overlaps(), True)

def opaque_open():
    a, c, m = any_uint('a', 30), any_uint('c', 30), any_uint('m', 30)
    for l in (mk([(a, None), (c, c + m + 1)]), mk([(c, c + m + 1), (a, None)])):
        if c + m + 1 <= a:
            same('disjoint', l.has_overlaps(), False)
        else:
            same('overlap', l.has_overlaps(), True)

def opaque3(perm):
    """three ranges one behind the other with gaps, listed in any order, never overlap; a fourth one inside any of them does"""
    a, n, g, m, h, k = any_uint('a', 30), any_uint('n', 30), any_uint('g', 30), any_uint('m', 30), any_uint('h', 30), any_uint('k', 30)
    p = [(a, a + n + 1), (a + n + 1 + g, a + n + 2 + g + m), (a + n + 2 + g + m + h, a + n + 3 + g + m + h + k)]
    same('disjoint', mk([p[i] for i in perm]).has_overlaps(), False)
    for i in range(3):
        q = [p[j] for j in perm]
        q[1] = (p[perm[0]][0], p[perm[0]][0] + 1)
        same('inside', mk(q).has_overlaps(), True)

def field_of(kind, pos):
    if kind == 'bytes':
        return bytearray_field(where=pos)
    return le_uint_field(where=pos)

def rejected(kind, pos_kind, value_len):
    if pos_kind == 'same':
        pos = bytes_ref[0:2, 0:2]
    elif pos_kind == 'inside':
        pos = bytes_ref[0:4, 1:3]
    elif pos_kind == 'around':
        pos = bytes_ref[1:3, 0:4]
    elif pos_kind == 'tail':
        pos = bytes_ref[2:4, 0:3]
    elif pos_kind == 'third':
        pos = bytes_ref[0:1, 4:6, 5:6]
    elif pos_kind == 'sum':
        pos = bytes_ref[0:2] + bytes_ref[1:3]
    elif pos_kind == 'bits':
        pos = bytes_ref[0].bits[0:5] + bytes_ref[0].bits[4:8]
    elif pos_kind == 'bit-byte':
        pos = bytes_ref[0:2] + bytes_ref[1].bits[7]
    elif pos_kind == 'bit-list':
        pos = bytes_ref[0:2].bits[0:9, 8:12]
    elif pos_kind == 'open-closed':
        pos = bytes_ref[1:, 3:4]
    elif pos_kind == 'closed-open':
        pos = bytes_ref[3:5, 4:]
    elif pos_kind == 'two-open':
        pos = bytes_ref[1:, 5:]
    class C(Buffer):
        a = bytearray_field(where=bytes_ref[8:])
        b = field_of(kind, pos)
    v = any_uint('v', 8) if kind == 'int' else any_bytes('v', value_len)
    o = C(a=b'', b=v if kind == 'int' else bytearray(v))
    failing('pack', lambda: o.pack(), InstructBufferError)
    w = any_bytes('w', 10)
    failing('unpack', lambda: C().unpack(w), InstructBufferError)
    failing('size', lambda: o.calc_byte_size(), Exception)

def declared(pos_kind):
    """constant positions are checked when the class is declared or when it is used, never ignored"""
    if pos_kind == 'same':
        pos = bytes_ref[0:2, 0:2]
    elif pos_kind == 'tail':
        pos = bytes_ref[2:4, 0:3]
    elif pos_kind == 'bits':
        pos = bytes_ref[0].bits[0:5] + bytes_ref[0].bits[4:8]
    v = any_uint('v', 8)
    def use():
        class C(Buffer):
            b = le_uint_field(where=pos)
        return C(b=v).pack()
    failing('static', use, InstructBufferError)

def dependent():
    class C(Buffer):
        n = u8(bytes_ref[0])
        a = bytearray_field(where=bytes_ref[1 + n:3 + n, 4:6])
    t = any_bytes('t', 4)
    w = any_bytes('w', 9)
    for n in range(6):
        o = C(n=n, a=bytearray(t))
        if n in (0, 1, 5):
            d = [n, 0, 0, 0, 0, 0, 0, 0]
            d[1 + n], d[2 + n], d[4], d[5] = t[0], t[1], t[2], t[3]
            d = d[:max(3 + n, 6)]
            same('packed-%d' % n, raw(o.pack()), b''.join([be(x) for x in d]))
            r = C()
            r.unpack(bytes([n]) + w)
            u = bytes([n]) + w
            same('read-%d' % n, raw(r.a), u[1 + n:3 + n] + u[4:6])
        else:
            failing('pack-%d' % n, lambda: o.pack(), InstructBufferError)
            failing('unpack-%d' % n, lambda: C().unpack(bytes([n]) + w), InstructBufferError)

def touching(perm):
    p = [slice(1, 3), slice(3, 4), slice(4, 7)]
    q = [p[i] for i in perm]
    class C(Buffer):
        a = bytearray_field(where=bytes_ref[q[0], q[1], q[2]])
    t = any_bytes('t', 6)
    e, k = [0] * 7, 0
    for s in q:
        for i in range(s.start, s.stop):
            e[i] = t[k]
            k += 1
    d = b''.join([be(x) for x in e])
    same('packed', raw(C(a=bytearray(t)).pack()), d)
    r = C()
    same('unpack', r.unpack(d), 7)
    same('read', raw(r.a), t)

def open_list(where, n):
    """an open range among closed ones"""
    if where == 'alone':
        pos, closed, base = bytes_ref[2:], [], 2
    elif where == 'last':
        pos, closed, base = bytes_ref[0:1, 2:], [(0, 1)], 2
    elif where == 'last3':
        pos, closed, base = bytes_ref[1:2, 0:1, 3:], [(1, 2), (0, 1)], 3
    elif where == 'sum':
        pos, closed, base = bytes_ref[0:1] + bytes_ref[2:], [(0, 1)], 2
    elif where == 'first':
        pos, closed, base = bytes_ref[4:, 0:2], [(0, 2)], 4
    elif where == 'middle':
        pos, closed, base = bytes_ref[0:1, 4:, 2:3], [(0, 1), (2, 3)], 4
    class C(Buffer):
        a = bytearray_field(where=pos)
    t = any_bytes('t', n)
    order = {'alone': [None], 'last': [0, None], 'last3': [0, 1, None], 'sum': [0, None], 'first': [None, 0], 'middle': [0, None, 1]}[where]
    left = n - sum([b - a for a, b in closed])
    o = C(a=bytearray(t))
    if left < 0:
        failing('pack', lambda: o.pack(), InstructBufferError)
        return
    e, k = [0] * (base + left), 0
    for x in order:
        s, f = (base, base + left) if x is None else closed[x]
        for i in range(s, f):
            e[i] = t[k]
            k += 1
    d = b''.join([be(x) for x in e])
    same('packed', raw(o.pack())[:len(d)], d)
    if left:
        same('length', len(o.pack()), len(d))
    r = C()
    size = r.unpack(d)
    same('read', raw(r.a), t)
    same('repacked', raw(r.pack())[:len(d)], d)
    if left:
        same('unpack', size, len(d))
        same('size', r.calc_byte_size(), len(d))

def open_kinds(kind):
    t = any_bytes('t', 4)
    if kind == 'str':
        class C(Buffer):
            h = u8(bytes_ref[0])
            a = str_field(where=bytes_ref[1:])
        v, e = 'abcd', b'abcd'
    elif kind == 'list':
        class C(Buffer):
            h = u8(bytes_ref[0])
            a = list_field(type=uint8, where=bytes_ref[1:])
        v, e = [t[0], t[1], t[2], t[3]], t
    elif kind == 'list2':
        class C(Buffer):
            h = u8(bytes_ref[0])
            a = list_field(type=b_uint16, where=bytes_ref[1:])
        x, y = any_uint('x', 16), any_uint('y', 16)
        v, e = [x, y], x.to_bytes(2, 'big') + y.to_bytes(2, 'big')
    elif kind == 'bytes':
        class C(Buffer):
            h = u8(bytes_ref[0])
            a = bytearray_field(where=bytes_ref[1:])
        v, e = bytearray(t), t
    x = any_uint('h', 8)
    o = C(h=x, a=v)
    same('packed', raw(o.pack()), be(x) + e)
    r = C()
    same('unpack', r.unpack(be(x) + e), 5)
    same('read', r.a if kind != 'bytes' else raw(r.a), v if kind != 'bytes' else t)

def shared_between_fields():
    """different fields may look at the same bytes"""
    class C(Buffer):
        a = le_uint_field(where=bytes_ref[0:2])
        b = u8(bytes_ref[0].bits[0:4])
        c = u8(bytes_ref[1])
    w = any_bytes('w', 2)
    r = C()
    same('unpack', r.unpack(w), 2)
    same('read', (r.a, r.b, r.c), (w[0] + (w[1] << 8), w[0] & 15, w[1]))
'''


def cases():
    rs = [(a, b) for a in range(4) for b in range(a + 1, 5)] + [(0, None), (2, None), (4, None)]
    pairs = [list(p) for p in itertools.product(rs, repeat=2)]
    for i in range(0, len(pairs), 40):
        yield Case('grid2/%d' % i, SRC, 'grid', (pairs[i:i + 40],))
    small = [(0, 1), (0, 3), (1, 2), (1, 4), (2, 3), (3, 4), (3, None)]
    triples = [list(p) for p in itertools.product(small, repeat=3)]
    for i in range(0, len(triples), 40):
        yield Case('grid3/%d' % i, SRC, 'grid', (triples[i:i + 40],))
    fr = [(0, 0.5), (0.5, 1), (0.25, 0.75), (0, 1), (1, 1.5), (0.875, 1.125)]
    fl = [list(p) for p in itertools.product(fr, repeat=2)]
    yield Case('grid-bits', SRC, 'grid', (fl,))
    fl = [list(p) for p in itertools.product(fr, repeat=3)]
    for i in range(0, len(fl), 40):
        yield Case('grid-bits3/%d' % i, SRC, 'grid', (fl[i:i + 40],), tier='thorough')
    quads = [list(p) for p in itertools.permutations([(0, 10), (2, 3), (12, 13), (20, None)])] + \
            [list(p) for p in itertools.permutations([(0, 2), (2, 3), (12, 13), (20, None)])] + \
            [list(p) for p in itertools.permutations([(5, 6), (2, 3), (12, 20), (14, 15)])]
    yield Case('grid4', SRC, 'grid', (quads,))
    yield Case('opaque2', SRC, 'opaque2')
    yield Case('opaque-open', SRC, 'opaque_open')
    for p in itertools.permutations(range(3)):
        yield Case('opaque3/%d%d%d' % p, SRC, 'opaque3', (p,))
        yield Case('touching/%d%d%d' % p, SRC, 'touching', (p,))
    for k, n in (('same', 4), ('inside', 6), ('around', 6), ('tail', 5), ('third', 4), ('sum', 4), ('open-closed', 4), ('closed-open', 4), ('two-open', 4)):
        yield Case('rejected/bytes/' + k, SRC, 'rejected', ('bytes', k, n))
    for k in ('same', 'inside', 'around', 'tail', 'third', 'sum', 'bits', 'bit-byte', 'bit-list'):
        yield Case('rejected/int/' + k, SRC, 'rejected', ('int', k, 0))
    for k in ('same', 'tail', 'bits'):
        yield Case('static/' + k, SRC, 'declared', (k,))
    yield Case('dependent', SRC, 'dependent')
    for w in ('alone', 'last', 'last3', 'sum', 'first', 'middle'):
        for n in (0, 1, 2, 3, 4, 6):
            yield Case('open/%s/%d' % (w, n), SRC, 'open_list', (w, n))
    for k in ('str', 'list', 'list2', 'bytes'):
        yield Case('open-kind/' + k, SRC, 'open_kinds', (k,))
    yield Case('shared', SRC, 'shared_between_fields')
