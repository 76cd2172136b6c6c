"""Position arithmetic: bytes_ref[...], .bits[...], lists and sums of them select exactly the bytes and bits they name, counting bits along the
byte ranges in the order given; impossible positions are errors; range lists measure, order and map offsets consistently."""
import itertools
from ..run import Case
from ._bcat import PRE

COVERAGE = """All byte ranges and lists of up to three of them (gaps, adjacent, any order, open end) over seven bytes x every bit index, every bit slice, open
slices and lists of slices over them; constant and opaque reference bounds; single ranges and range lists with opaque bounds."""

SRC = PRE + r'''
from infi.instruct.buffer.range import SequentialRange, SequentialRangeList, BIT
from infi.instruct.buffer.reference import Context, Reference
from infi.instruct.buffer.reference.range import ByteRangeFactory

class Num(Reference):
    def __init__(self, v):
        super(Num, self).__init__(True)
        self.v = v
    def evaluate(self, ctx):
        return self.v

def res(ref):
    return ref.deref(Context())

def pairs(ref):
    return [(r.start, r.stop) for r in res(ref)]

def bits_of(ps):
    out = []
    for a, b in ps:
        out.extend(range(int(a * 8), int(b * 8)))
    return out

def pick(bits):
    return bits_of_runs(bits)

def mk(rs):
    if len(rs) == 1:
        a, b = rs[0]
        return bytes_ref[a:b]
    return bytes_ref[[slice(a, b) for a, b in rs]]

def model(rs, limit):
    out = []
    for a, b in rs:
        out.extend(range(8 * a, 8 * (b if b is not None else limit)))
    return out

def bit_index(rs):
    ref, m = mk(rs), model(rs, 12)
    closed = rs[-1][1] is not None
    for k in range(len(m) if closed else 40):
        same('bit', bits_of(pairs(ref.bits[k])), [m[k]])
        same('width', len(res(ref.bits[k])), 1)
    if closed:
        for k in (len(m), len(m) + 1, len(m) + 8, len(m) + 100):
            failing('past-end', lambda: res(ref.bits[k]), Exception)

def bit_slices(rs, step):
    ref, m = mk(rs), model(rs, 12)
    closed = rs[-1][1] is not None
    n = len(m) if closed else 40
    for k in range(0, n, 1):
        for j in range(k + 1, n + 1, step):
            same('slice', bits_of(pairs(ref.bits[k:j])), m[k:j])
        if closed:
            same('open', bits_of(pairs(ref.bits[k:])), m[k:])
            failing('past-end', lambda: res(ref.bits[k:n + 1]), Exception)
        same('from-start', bits_of(pairs(ref.bits[:k + 1])), m[:k + 1])
    if closed:
        same('all', bits_of(pairs(ref.bits[:])), m)
        failing('beyond', lambda: res(ref.bits[n + 1:n + 3]), Exception)
        failing('beyond-open', lambda: res(ref.bits[n + 9:]), Exception)
    else:
        for k in (0, 4, 8, 12, 20):
            l = res(ref.bits[k:])
            holds('open', l.is_open())
            same('open-from', bits_of([(r.start, r.stop if r.stop is not None else 12) for r in l]), m[k:])

def bit_lists(rs):
    ref, m = mk(rs), model(rs, 12)
    same('list', bits_of(pairs(ref.bits[0:3, 5, 9:12])), m[0:3] + [m[5]] + m[9:12])
    same('reversed', bits_of(pairs(ref.bits[12:16, 8:12, 4:8, 0:4])), m[12:16] + m[8:12] + m[4:8] + m[0:4])
    same('sum', bits_of(pairs(ref.bits[1:4] + ref.bits[7] + ref.bits[10:13])), m[1:4] + [m[7]] + m[10:13])
    same('sum-byte', bits_of(pairs(ref.bits[1:4] + bytes_ref[20])), m[1:4] + list(range(160, 168)))
    same('byte-sum', bits_of(pairs(bytes_ref[20] + ref.bits[1:4])), list(range(160, 168)) + m[1:4])

def byte_refs():
    same('index', pairs(bytes_ref[3]), [(3, 4)])
    same('slice', pairs(bytes_ref[3:7]), [(3, 7)])
    same('from', pairs(bytes_ref[3:]), [(3, None)])
    same('to', pairs(bytes_ref[:3]), [(0, 3)])
    same('all', pairs(bytes_ref[:]), [(0, None)])
    same('empty', pairs(bytes_ref[3:3]), [(3, 3)])
    same('tuple', pairs(bytes_ref[1, 4:6, 0]), [(1, 2), (4, 6), (0, 1)])
    same('list', pairs(bytes_ref[[1, slice(4, 6), 0]]), [(1, 2), (4, 6), (0, 1)])
    same('nested', pairs(bytes_ref[1, (4, slice(6, 8)), 0]), [(1, 2), (4, 5), (6, 8), (0, 1)])
    same('factory', pairs(ByteRangeFactory()[1:2]), [(1, 2)])
    same('step-1', pairs(bytes_ref[1:3:1]), [(1, 3)])
    a, b, c = bytes_ref[1], bytes_ref[4:6], bytes_ref[0]
    same('sum', pairs(a + b + c), [(1, 2), (4, 6), (0, 1)])
    same('sum-right', pairs(a + (b + c)), [(1, 2), (4, 6), (0, 1)])
    same('sum-lists', pairs((a + b) + (c + a)), [(1, 2), (4, 6), (0, 1), (1, 2)])
    same('sum-tuple', pairs(bytes_ref[1, 2] + bytes_ref[5, 7]), [(1, 2), (2, 3), (5, 6), (7, 8)])
    same('operands', (pairs(a), pairs(b), pairs(c)), ([(1, 2)], [(4, 6)], [(0, 1)]))
    same('builtin-sum', pairs(a + b), [(1, 2), (4, 6)])

def byte_opaque():
    p, n, k = any_uint('p', 30), any_uint('n', 30), any_uint('k', 30)
    rp, rn, rk = Num(p), Num(n), Num(k)
    same('index', pairs(bytes_ref[rp]), [(p, p + 1)])
    same('slice', pairs(bytes_ref[rp:rp + rn]), [(p, p + n)])
    same('from', pairs(bytes_ref[rp:]), [(p, None)])
    same('to', pairs(bytes_ref[:rp]), [(0, p)])
    same('mixed', pairs(bytes_ref[3:rp + 3]), [(3, p + 3)])
    same('mixed2', pairs(bytes_ref[rp:rp + 4]), [(p, p + 4)])
    same('list', pairs(bytes_ref[rp, rp + rn + 1:rp + rn + rk + 1]), [(p, p + 1), (p + n + 1, p + n + k + 1)])
    same('sum', pairs(bytes_ref[rk] + bytes_ref[rp:]), [(k, k + 1), (p, None)])
    same('half', pairs(bytes_ref[rp:rp + 2].bits[4:12]), [(p + 0.5, p + 1.5)])
    same('bit', pairs(bytes_ref[rp].bits[5]), [(p + 0.625, p + 0.75)])
    same('split-bits', pairs(bytes_ref[rp, rp + 4].bits[4:12]), [(p + 0.5, p + 1), (p + 4, p + 4.5)])
    same('rest', pairs(bytes_ref[rp].bits[3:]), [(p + 0.375, p + 1)])

def bit_refs(n):
    r, q = Num(n), Num(n + 3)
    same('index', bits_of(pairs(bytes_ref[1, 4, 6].bits[r])), [bits_of([(1, 2), (4, 5), (6, 7)])[n]])
    same('slice', bits_of(pairs(bytes_ref[1, 4, 6].bits[r:q])), bits_of([(1, 2), (4, 5), (6, 7)])[n:n + 3])
    same('half', bits_of(pairs(bytes_ref[1, 4, 6].bits[r:24])), bits_of([(1, 2), (4, 5), (6, 7)])[n:])

def impossible():
    p = any_uint('p', 30)
    failing('negative-index', lambda: res(bytes_ref[-1]), Exception)
    failing('negative-start', lambda: res(bytes_ref[-2:4]), Exception)
    failing('negative-stop', lambda: res(bytes_ref[0:-1]), Exception)
    failing('backwards', lambda: res(bytes_ref[4:2]), Exception)
    failing('step', lambda: res(bytes_ref[0:8:2]), Exception)
    failing('bit-step', lambda: res(bytes_ref[0].bits[0:8:2]), Exception)
    failing('bit-backwards', lambda: res(bytes_ref[0].bits[4:2]), Exception)
    failing('bit-negative', lambda: res(bytes_ref[0].bits[-1]), Exception)
    failing('bit-negative-slice', lambda: res(bytes_ref[0].bits[-2:4]), Exception)
    failing('ref-negative', lambda: res(bytes_ref[Num(-1 - p)]), Exception)
    failing('ref-negative-start', lambda: res(bytes_ref[Num(-1 - p):]), Exception)
    failing('ref-backwards', lambda: res(bytes_ref[Num(p + 1):Num(p)]), Exception)
    failing('ref-half-backwards', lambda: res(bytes_ref[4:Num(3)]), Exception)
    failing('ref-bits', lambda: res(bytes_ref[0].bits[Num(8 + p)]), Exception)
    failing('ref-bit-slice', lambda: res(bytes_ref[0].bits[Num(0):Num(9 + p)]), Exception)
    failing('text', lambda: bytes_ref['a'], TypeError)
    failing('none', lambda: bytes_ref[None], TypeError)
    failing('float', lambda: bytes_ref[1.5], TypeError)
    failing('bytes', lambda: bytes_ref[b'a'], TypeError)
    failing('not-numeric', lambda: bytes_ref[self_ref.x], TypeError)
    failing('bit-text', lambda: bytes_ref[0].bits['a'], TypeError)
    failing('bit-none', lambda: bytes_ref[0].bits[None], TypeError)
    failing('bit-not-numeric', lambda: bytes_ref[0].bits[self_ref.x], TypeError)
    failing('sum-int', lambda: bytes_ref[0] + 1, TypeError)
    failing('sum-text', lambda: bytes_ref[0] + 'a', TypeError)

def single():
    a, n, k = any_uint('a', 30), any_uint('n', 30), any_uint('k', 30)
    r, o = SequentialRange(a, a + n), SequentialRange(a, None)
    same('fields', (r.start, r.stop, r.byte_length(), r.max_stop()), (a, a + n, n, a + n))
    same('open', (o.is_open(), o.byte_length(), o.max_stop(), r.is_open()), (True, None, None, False))
    same('default-start', (SequentialRange(None, n).start, SequentialRange(None, n).stop), (0, n))
    c = o.to_closed(a + k)
    same('closed', (c.start, c.stop, c.is_open()), (a, a + k, False))
    d = r.to_closed(a + k)
    same('keeps', (d.start, d.stop), (a, a + n))
    same('untouched', (o.stop, r.stop), (None, a + n))
    same('slice', (r.to_slice().start, r.to_slice().stop), (a, a + n))
    holds('equal', r == SequentialRange(a, a + n))
    holds('unequal-stop', not (r == SequentialRange(a, a + n + 1 + k)))
    holds('unequal-start', not (SequentialRange(a + 1 + k, a + n + k + 1) == SequentialRange(a, a + n + k + 1)))
    holds('unequal-open', not (r == o))
    holds('less', SequentialRange(a, a + 1 + n) < SequentialRange(a + 1 + n, a + 2 + n + k))
    holds('not-less', not (SequentialRange(a + 1 + n, a + 2 + n + k) < SequentialRange(a, a + 1 + n)))
    holds('open-last', SequentialRange(a, a + 1 + n) < SequentialRange(a + 1 + n, None))
    holds('contains-start', SequentialRange(a, a + n + 1).contains(a))
    holds('contains-inside', SequentialRange(a, a + n + k + 1).contains(a + n))
    holds('excludes-stop', not r.contains(a + n))
    holds('excludes-before', not SequentialRange(a + 1 + k, a + 5 + k).contains(a))
    holds('excludes-after', not r.contains(a + n + k))
    holds('open-contains', o.contains(a + k))
    failing('negative', lambda: SequentialRange(-1 - a, None), Exception)
    failing('backwards', lambda: SequentialRange(a + 1 + n, a), Exception)
    failing('close-before-start', lambda: SequentialRange(a + 1 + n, None).to_closed(a), Exception)

def overlaps():
    a, n, g, k = any_uint('a', 30), any_uint('n', 30) + 1, any_uint('g', 30), any_uint('k', 30) + 1
    x, y = SequentialRange(a, a + n), SequentialRange(a + n + g, a + n + g + k)
    holds('apart', not x.overlaps(y))
    holds('apart-swapped', not y.overlaps(x))
    z = SequentialRange(a, a + n + g + 1)
    w = SequentialRange(a + n, a + n + g + 1 + k)
    holds('partly', z.overlaps(w))
    holds('partly-swapped', w.overlaps(z))
    v = SequentialRange(a + n, a + n + 1)
    holds('inside', z.overlaps(v))
    holds('inside-swapped', v.overlaps(z))
    o = SequentialRange(a + n, None)
    holds('open-before', not x.overlaps(o))
    holds('open-before-swapped', not o.overlaps(x))
    holds('open-inside', z.overlaps(o))
    holds('open-inside-swapped', o.overlaps(z))
    holds('itself', z.overlaps(z))

def range_list(perm):
    a, n, g, m, h, k = any_uint('a', 30), any_uint('n', 30), any_uint('g', 30), any_uint('m', 30), any_uint('h', 30), any_uint('k', 30)
    p = [SequentialRange(a, a + n), SequentialRange(a + n + g, a + n + g + m), SequentialRange(a + n + g + m + h, a + n + g + m + h + k + 1)]
    l = SequentialRangeList([p[i] for i in perm])
    same('length', l.byte_length(), n + m + k + 1)
    same('stop', l.max_stop(), a + n + g + m + h + k + 1)
    holds('closed', not l.is_open())
    c = l.to_closed(a + n + g + m + h + k + 1)
    same('same-list', [(r.start, r.stop) for r in c], [(p[i].start, p[i].stop) for i in perm])
    o = l + [SequentialRange(a + n + g + m + h + k + 1, None)]
    holds('list', isinstance(o, SequentialRangeList))
    same('open', (o.is_open(), o.byte_length(), o.max_stop(), len(o)), (True, None, None, 4))
    same('original', len(l), 3)
    q = o.to_closed(a + n + g + m + h + k + 9)
    same('closed-length', (q.is_open(), q.byte_length()), (False, n + m + k + 9))
    same('offset-0', l.byte_offset(0), p[perm[0]].start)

def list_sorted(perm):
    p = [(0, 2), (2, 3), (5, 9), (9, None)]
    a = any_uint('a', 30)
    q = [(a + s, a + e if e is not None else None) for s, e in p]
    l = SequentialRangeList([SequentialRange(*q[i]) for i in perm])
    same('sorted', [(r.start, r.stop) for r in l.sorted()], [q[i] for i in range(4) if i in perm])
    same('untouched', [(r.start, r.stop) for r in l], [q[i] for i in perm])

def offsets(rs):
    l = SequentialRangeList([SequentialRange(a, b) for a, b in rs])
    pos = [rs[0][0]]
    for a, b in rs:
        pos.extend(range(a + 1, (b if b is not None else a + 9) + 1))
    for k in range(len(pos)):
        same('offset', l.byte_offset(k), pos[k])
    if rs[-1][1] is not None:
        failing('too-far', lambda: l.byte_offset(len(pos)), Exception)
        same('length', l.byte_length(), len(pos) - 1)
        same('stop', l.max_stop(), max([b for a, b in rs]))

def packed(rs, k, j):
    """a field over the bits puts and finds its value exactly there"""
    n = max([b for a, b in rs])
    m = model(rs, n)[k:j]
    class C(Buffer):
        v = uint_field(where=mk(rs).bits[k:j])
    x = any_uint('x', j - k)
    acc = 0
    for i in range(j - k):
        acc = acc + (((x >> i) & 1) << m[i])
    last = max(m) // 8 + 1
    same('packed', raw(C(v=x).pack()), acc.to_bytes(last, 'little'))
    w = any_bytes('w', n)
    t = 0
    for i in range(j - k):
        t = t + (((w[m[i] // 8] >> (m[i] % 8)) & 1) << i)
    r = C()
    r.unpack(w)
    same('read', r.v, t)
'''

SRC = SRC.replace('''def pick(bits):
    return bits_of_runs(bits)

''', '')


def cases():
    one = [[(0, 1)], [(2, 4)], [(1, 4)], [(3, None)]]
    two = [[(0, 1), (1, 2)], [(0, 1), (3, 4)], [(3, 4), (0, 1)], [(1, 3), (5, 6)], [(5, 6), (1, 3)], [(2, 3), (1, 2)], [(0, 1), (4, None)]]
    three = [[(0, 1), (2, 3), (5, 6)], [(5, 6), (2, 3), (0, 1)], [(1, 2), (0, 1), (2, 4)], [(0, 2), (3, 4), (4, 5)], [(4, 5), (0, 1), (6, None)]]
    for rs in one + two + three:
        n = '-'.join('%s:%s' % r for r in rs)
        yield Case('bit/' + n, SRC, 'bit_index', (rs,))
        yield Case('slices/' + n, SRC, 'bit_slices', (rs, 1 if len(rs) < 3 else 2), tier='quick' if len(rs) > 1 or rs[0][1] is None or rs[0][0] == 1 else 'thorough')
        if rs not in one[:1]:
            yield Case('lists/' + n, SRC, 'bit_lists', (rs,))
    for rs in three:
        yield Case('slices-all/' + '-'.join('%s:%s' % r for r in rs), SRC, 'bit_slices', (rs, 1), tier='thorough')
    yield Case('bytes', SRC, 'byte_refs')
    yield Case('bytes-opaque', SRC, 'byte_opaque')
    for n in (0, 3, 6, 8, 13, 15, 16, 21):
        yield Case('bit-refs/%d' % n, SRC, 'bit_refs', (n,))
    yield Case('impossible', SRC, 'impossible')
    yield Case('single', SRC, 'single')
    yield Case('overlaps', SRC, 'overlaps')
    for p in itertools.permutations(range(3)):
        yield Case('list/%d%d%d' % p, SRC, 'range_list', (p,))
    for k in range(5):
        for p in itertools.permutations(range(4), k):
            yield Case('sorted/%s' % ''.join(map(str, p)), SRC, 'list_sorted', (p,), tier='quick' if k < 4 else 'thorough')
    for rs in [[(0, 2), (10, 11), (40, 45)], [(3, 5)], [(5, 6), (0, 2)], [(0, 1), (4, None)], [(2, 3), (3, 4), (4, 9)], [(7, None)], [(9, 10), (4, 6), (0, 1)]]:
        yield Case('offsets/' + '-'.join('%s:%s' % r for r in rs), SRC, 'offsets', (rs,))
    for rs in two[:6] + three[:4]:
        L = sum(b - a for a, b in rs) * 8
        for k, j in ((0, 4), (4, 12), (7, 9), (8, 16), (8, 9), (3, L), (0, L), (L - 5, L), (7, 16), (1, 15)):
            if j <= L:
                yield Case('packed/%s/%d:%d' % ('-'.join('%s:%s' % r for r in rs), k, j), SRC, 'packed', (rs, k, j))
