"""Every packed field lands at exactly the bits its position names and nowhere else: whatever order the fields are processed in, however their
bits interleave within the same bytes, the packed bytes are the bitwise placement of the values with zeros everywhere else, and unpacking
gathers exactly those bits again, whatever lies between them."""
import itertools
import random
from ..run import Case
from ._bcat import PRE

COVERAGE = """Generated classes of 1..4 fields over 1..6 bytes: partitions of the bits into fields and gaps, whole-byte fields with gaps, fields of
several pieces interleaved with others, in every assignment of names (which decides the processing order); every bit of every value and of
every input byte symbolic."""

SRC = PRE


def ref(pieces, total):
    if all(a % 8 == 0 and b % 8 == 0 for a, b in pieces):
        return 'bytes_ref[%s]' % ', '.join('%d:%d' % (a // 8, b // 8) for a, b in pieces)
    return ' + '.join('bytes_ref[0:%d].bits[%d:%d]' % (total, a, b) for a, b in pieces)


def width(pieces):
    return sum(b - a for a, b in pieces)


def place(var, pieces):
    out, pos = [], 0
    for a, b in pieces:
        if b > a:
            out.append('(((%s >> %d) & %d) << %d)' % (var, pos, (1 << (b - a)) - 1, a))
        pos += b - a
    return ' + '.join(out) or '0'


def gather(var, pieces):
    out, pos = [], 0
    for a, b in pieces:
        if b > a:
            out.append('(((%s >> %d) & %d) << %d)' % (var, a, (1 << (b - a)) - 1, pos))
        pos += b - a
    return ' + '.join(out) or '0'


def program(fields, total, upieces=None, size=None):
    """fields: [(name, kind, pieces)]; total: bytes packed; upieces: name -> pieces when unpacking"""
    f = ['def placed():', '    class C(Buffer):']
    if size is not None:
        f.append('        byte_size = %d' % size)
    maker = {'uint': 'le_uint_field', 'bytes': 'bytearray_field'}
    ut = total
    for name, kind, pieces in fields:
        up = (upieces or {}).get(name, pieces)
        ut = max([ut] + [-(-b // 8) for _, b in up])
        w = 'where=' + ref(pieces, total) if up == pieces else 'where_when_pack=%s, where_when_unpack=%s' % (ref(pieces, total), ref(up, ut))
        f.append('        %s = %s(%s)' % (name, maker[kind], w))
    kw, val = [], []
    for name, kind, pieces in fields:
        n = width(pieces)
        if kind == 'uint':
            f.append("    v_%s = any_uint('%s', %d)" % (name, name, n))
            kw.append('%s=v_%s' % (name, name))
            val.append(place('v_' + name, pieces))
        else:
            f.append("    t_%s = any_bytes('%s', %d)" % (name, name, n // 8))
            f.append("    v_%s = int.from_bytes(t_%s, 'little')" % (name, name))
            kw.append('%s=bytearray(t_%s)' % (name, name))
            val.append(place('v_' + name, pieces))
    f.append('    e = (%s).to_bytes(%d, "little")' % (' + '.join(val), max(total, size or 0)))
    f.append('    o = C(%s)' % ', '.join(kw))
    f.append("    same('packed', raw(o.pack()), e)")
    f.append("    same('again', raw(o.pack()), e)")
    f.append("    w = any_bytes('w', %d)" % (ut + 1))
    f.append("    n = int.from_bytes(w, 'little')")
    f.append('    r = C()')
    f.append('    r.unpack(w)')
    for name, kind, pieces in fields:
        up = (upieces or {}).get(name, pieces)
        e = gather('n', up)
        if kind == 'bytes':
            f.append("    same('read-%s', raw(r.%s), (%s).to_bytes(%d, 'little'))" % (name, name, e, width(up) // 8))
        else:
            f.append("    same('read-%s', r.%s, %s)" % (name, name, e))
    return SRC + '\n'.join(f) + '\n'


OVERLAY = SRC + r'''
def over(a0, a1, b0, b1, bits):
    """two fields share positions: the one packed last (in the order of their names) decides the shared ones"""
    k = 1 if bits else 8
    T = (max(a1, b1) * k + 7) // 8
    class C(Buffer):
        if bits:
            a = le_uint_field(where=bytes_ref[0:T].bits[a0:a1])
            b = le_uint_field(where=bytes_ref[0:T].bits[b0:b1])
        else:
            a = le_uint_field(where=bytes_ref[a0:a1])
            b = le_uint_field(where=bytes_ref[b0:b1])
    x, y = any_uint('x', (a1 - a0) * k), any_uint('y', (b1 - b0) * k)
    mask = ((1 << ((b1 - b0) * k)) - 1) << (b0 * k)
    full = (1 << (8 * T)) - 1
    e = ((x << (a0 * k)) & (full ^ mask)) + (y << (b0 * k))
    same('packed', raw(C(a=x, b=y).pack()), e.to_bytes(T, 'little'))
    w = any_bytes('w', T)
    n = int.from_bytes(w, 'little')
    r = C()
    r.unpack(w)
    same('a', r.a, (n >> (a0 * k)) & ((1 << ((a1 - a0) * k)) - 1))
    same('b', r.b, (n >> (b0 * k)) & ((1 << ((b1 - b0) * k)) - 1))

def short(n, have, split):
    """a value shorter than its range is refused"""
    class C(Buffer):
        if split:
            a = bytearray_field(where=bytes_ref[2:2 + n - 1, 0:1])
        else:
            a = bytearray_field(where=bytes_ref[1:1 + n])
    o = C(a=bytearray(any_bytes('t', have)))
    failing('refused', lambda: o.pack(), InstructBufferError)

def inherited(order):
    """fields of base classes are placed exactly as declared, whatever the order of the names"""
    x, y, z = any_uint('x', 8), any_uint('y', 4), any_uint('z', 4)
    n1, n2, n3 = order
    class A(Buffer):
        if n1 == 'a':
            a = u8(bytes_ref[0])
        elif n1 == 'b':
            b = u8(bytes_ref[0])
        else:
            c = u8(bytes_ref[0])
    class B(A):
        if n2 == 'a':
            a = u8(bytes_ref[2].bits[4:8])
        elif n2 == 'b':
            b = u8(bytes_ref[2].bits[4:8])
        else:
            c = u8(bytes_ref[2].bits[4:8])
    class C(B):
        if n3 == 'a':
            a = u8(bytes_ref[2].bits[0:4])
        elif n3 == 'b':
            b = u8(bytes_ref[2].bits[0:4])
        else:
            c = u8(bytes_ref[2].bits[0:4])
    o = C(**{n1: x, n2: y, n3: z})
    d = be(x) + b'\0' + be(z + (y << 4))
    same('packed', raw(o.pack()), d)
    same('static', C.byte_size, 3)
    same('base-static', (A.byte_size, B.byte_size), (1, 3))
    r = C()
    same('size', r.unpack(d), 3)
    same('read', (getattr(r, n1), getattr(r, n2), getattr(r, n3)), (x, y, z))
    same('base', raw(A(**{n1: x}).pack()), be(x))
'''


def bit_layouts():
    for total, cuts in ((1, (0, 1, 3, 4, 5, 7, 8)), (2, (0, 3, 5, 8, 11, 12, 16)), (2, (0, 1, 7, 9, 15, 16)), (3, (0, 5, 8, 13, 16, 20, 23, 24)), (4, (0, 4, 15, 17, 28, 31, 32))):
        for k in (1, 2, 3, 4):
            for inner in itertools.combinations(cuts, k + 1):
                segs = list(zip(inner, inner[1:]))
                for used in itertools.product((True, False), repeat=len(segs)):
                    s = [x for x, u in zip(segs, used) if u]
                    if not s or (len(s) < len(segs) and (not used[0] or not used[-1])):
                        continue
                    yield s


def pick(seq, n, seed):
    seq = list(seq)
    r = random.Random(seed)
    keep = set(r.sample(range(len(seq)), min(n, len(seq))))
    return [(x, i in keep) for i, x in enumerate(seq)]


def named(fields):
    return '+'.join('%s%s%s' % (n, 'u' if k == 'uint' else 't', ','.join('%d-%d' % p for p in ps)) for n, k, ps in fields)


def cases():
    seen = set()
    def emit(fields, tier, **kw):
        total = max([-(-b // 8) for _, _, ps in fields for _, b in ps])
        key = named(fields) + repr(sorted(kw.items()))
        if key in seen:
            return None
        seen.add(key)
        return Case('place/' + named(fields) + (('/' + repr(kw)) if kw else ''), program(fields, total, **kw), 'placed', (), tier=tier, limit=300)
    r = random.Random(8)
    # bits of the same bytes
    allbits = []
    for s in bit_layouts():
        for names in itertools.permutations('abcd'[:len(s)]):
            allbits.append([(n, 'uint', [p]) for n, p in zip(names, s)])
    for x, q in pick(allbits, 220, 1):
        if q or r.random() < 0.12:
            c = emit(x, 'quick' if q else 'thorough')
            if c:
                yield c
    # whole bytes with gaps
    byts = []
    for k in (1, 2, 3):
        for sizes in itertools.product((1, 2, 3), repeat=k):
            for gaps in itertools.product((0, 1, 3), repeat=k):
                pos, segs = 0, []
                for n, g in zip(sizes, gaps):
                    segs.append((8 * (pos + g), 8 * (pos + g + n)))
                    pos += g + n
                for names in itertools.permutations('abc'[:k]):
                    for kinds in itertools.product(('uint', 'bytes'), repeat=k):
                        byts.append([(n, kd, [p]) for n, kd, p in zip(names, kinds, segs)])
    for x, q in pick(byts, 140, 2):
        if q or r.random() < 0.04:
            c = emit(x, 'quick' if q else 'thorough')
            if c:
                yield c
    # several pieces
    multi = []
    for total in (2, 3, 4):
        cells = list(range(total * 2))        # half bytes
        for _ in range(60):
            r.shuffle(cells)
            k = r.choice((1, 2, 3))
            use = cells[:r.randint(k, len(cells))]
            fs = []
            for j in range(k):
                own = use[j::k]
                if own:
                    fs.append(('abc'[j], 'uint', [(4 * c, 4 * c + 4) for c in own]))
            multi.append(fs)
        cells = list(range(total + 2))
        for _ in range(40):
            r.shuffle(cells)
            k = r.choice((1, 2))
            use = cells[:r.randint(k, len(cells))]
            fs = []
            for j in range(k):
                own = use[j::k]
                if own:
                    fs.append(('abc'[j], r.choice(('uint', 'bytes')), [(8 * c, 8 * c + 8) for c in own]))
            multi.append(fs)
    for x, q in pick(multi, 160, 3):
        c = emit(x, 'quick' if q else 'thorough')
        if c:
            yield c
    # different positions for packing and unpacking
    for a, b in itertools.permutations(((0, 8), (4, 12), (16, 24), (3, 11)), 2):
        c = emit([('a', 'uint', [a])], 'quick', upieces={'a': [b]})
        yield c
    c = emit([('a', 'uint', [(0, 8), (16, 24)]), ('b', 'bytes', [(8, 16)])], 'quick', upieces={'a': [(8, 24)], 'b': [(0, 8)]})
    yield c
    # larger declared sizes
    for size in (3, 4, 8):
        yield emit([('b', 'uint', [(4, 12)]), ('a', 'uint', [(16, 24)])], 'quick', size=size)
    for a in ((0, 16), (4, 12), (0, 8), (3, 13)):
        for b in ((0, 16), (4, 12), (8, 16), (6, 17), (0, 1), (7, 9)):
            yield Case('over/bits/%r-%r' % (a, b), OVERLAY, 'over', a + b + (True,))
    for a in ((0, 2), (1, 4), (0, 1)):
        for b in ((0, 2), (1, 2), (0, 4)):
            yield Case('over/bytes/%r-%r' % (a, b), OVERLAY, 'over', a + b + (False,))
    for n in (1, 2, 4):
        for have in range(n):
            for split in ((False, True) if n > 1 else (False,)):
                yield Case('short/%d-%d-%s' % (n, have, split), OVERLAY, 'short', (n, have, split))
    for o in itertools.permutations('abc'):
        yield Case('inherited/' + ''.join(o), OVERLAY, 'inherited', (o,))
