"""Bit views and bit arrays are sequences of bits: reading, slicing, assigning, deleting, inserting, extending, filling and adding do to them
what the same operation does to a list of bits, for every content, offset and length; impossible positions and values are errors that leave
the array as it was."""
from ..run import Case
from ._bcat import PRE

COVERAGE = """Opaque contents of every bit length up to 20 at start offsets 0, 1, 3 and 8 bits with opaque surroundings x every start and stop bit (thorough:
lengths up to 33, more offsets) x opaque values of 0 to 16 bits, integers of the full width, byte lists and generators; two operations in a
row; negative, open, clamped and impossible indexes; aliasing values."""

SRC = PRE + r'''
from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray

def bits_in(w, s, n):
    return [(w[i // 8] >> (i % 8)) & 1 for i in range(s, s + n)]

def enc(bits):
    t = 0
    for i in range(len(bits)):
        t = t + (bits[i] << i)
    return t.to_bytes((len(bits) + 7) // 8, 'little')

def octets(bits):
    return list(enc(bits))

def mk(tag, n, s, extra=0, cls=BitAwareByteArray):
    w = any_bytes(tag, (n + s + 7) // 8 + extra)
    return cls(bytearray(w), s / 8, (n + s) / 8), bits_in(w, s, n)

def agrees(tag, v, bits):
    same(tag + '-length', v.length() * 8, len(bits))
    same(tag + '-bits', v.to_bytes(), enc(bits))

def reading(n, s, extra, cls, step):
    v, b = mk('w', n, s, extra, BitView if cls == 'view' else BitAwareByteArray)
    agrees('whole', v, b)
    same('len', len(v), (n + 7) // 8)
    same('iter', list(v), octets(b))
    same('bytearray', bytes(v.to_bytearray()), enc(b))
    same('reversed', list(reversed(v)), list(reversed(octets(b))) if n % 8 == 0 else list(reversed(octets(b))))
    for a in range(n + 1):
        for c in range(a, n + 1, step):
            agrees('slice', v[a / 8:c / 8], b[a:c])
        agrees('from', v[a / 8:], b[a:])
        agrees('to', v[:a / 8], b[:a])
        agrees('clamped', v[a / 8:(n + 1 + a) / 8], b[a:])
        if a > 0:
            agrees('negative', v[-a / 8:], b[-a:])
            agrees('negative-stop', v[:-a / 8], b[:-a])
        if a < n:
            same('index', v[a / 8], enc(b[a:a + 8])[0])
            same('negative-index', v[(a - n) / 8], enc(b[a:a + 8])[0])
    agrees('low-start', v[-n / 8 - 3:], b)
    agrees('nested', v[1 / 8:][2 / 8:], b[3:])
    for k in (n / 8, n / 8 + 1, n / 8 + 0.125, -n / 8 - 0.125, -n / 8 - 9):
        failing('no-index', lambda: v[k], IndexError)
    agrees('unchanged', v, b)

def text(value, n, s):
    v = BitAwareByteArray(bytearray(((value << s) | 5).to_bytes(8, 'little')), s / 8, (n + s) / 8)
    t = ''
    for i in range(n):
        t = ('1' if (((value << s) | 5) >> (i + s)) & 1 else '0') + t
    same('bitstr', v.to_bitstr(), t)

def put_view(n, s, extra, m, t, step):
    w, c = mk('m', m, t, 0, BitView)
    for a in range(n + 1):
        for z in range(a, n + 1, step):
            v, b = mk('w', n, s, extra)
            v[a / 8:z / 8] = w
            agrees('set', v, b[:a] + c + b[z:])
            v.zfill((len(v.to_bytes()) * 8 + 3) / 8)
            e = b[:a] + c + b[z:]
            agrees('then-zfill', v, e + [0] * ((len(e) + 7) // 8 * 8 + 3 - len(e)))
    agrees('value', w, c)

def put_int(n, s, extra, step):
    for a in range(n):
        for z in range(a + 1, n + 1, step):
            v, b = mk('w', n, s, extra)
            x = any_uint('x%d' % (z - a), z - a)
            v[a / 8:z / 8] = x
            agrees('set', v, b[:a] + bits_in(x.to_bytes((z - a + 7) // 8, 'little'), 0, z - a) + b[z:])
            failing('too-big', lambda: v.__setitem__(slice(a / 8, z / 8), 1 << (z - a)), ValueError)
            failing('negative', lambda: v.__setitem__(slice(a / 8, z / 8), -1), ValueError)
            agrees('refused', v, b[:a] + bits_in(x.to_bytes((z - a + 7) // 8, 'little'), 0, z - a) + b[z:])

def put_index(n, s, extra):
    for a in range(n):
        v, b = mk('w', n, s, extra)
        k = min(8, n - a)
        x = any_uint('x%d' % k, k)
        v[a / 8] = x
        e = b[:a] + bits_in(be(x), 0, k) + b[a + k:]
        agrees('set', v, e)
        v[(a - n) / 8] = x
        agrees('again', v, e)
        failing('too-big', lambda: v.__setitem__(a / 8, 1 << k), ValueError)
        agrees('kept', v, e)
    v, b = mk('w', n, s, extra)
    for k in (n / 8, n / 8 + 2, -n / 8 - 0.125):
        failing('no-index', lambda: v.__setitem__(k, 1), IndexError)
        failing('no-deletion', lambda: v.__delitem__(k), IndexError)
    agrees('kept', v, b)

def put_bytes(n, s, extra, how):
    t = any_bytes('t', 2)
    c = bits_in(t, 0, 16)
    for a in range(0, n + 1):
        z = min(n, a + 5)
        v, b = mk('w', n, s, extra)
        v[a / 8:z / 8] = t if how == 'bytes' else bytearray(t) if how == 'bytearray' else list(t) if how == 'list' else tuple(t) if how == 'tuple' else (x for x in t)
        agrees('set', v, b[:a] + c + b[z:])
        failing('not-bytes', lambda: v.__setitem__(slice(a / 8, z / 8), [1, 300]), ValueError)
        failing('not-bytes-negative', lambda: v.__setitem__(slice(a / 8, z / 8), [-1]), ValueError)
        failing('text', lambda: v.__setitem__(slice(a / 8, z / 8), 'ab'), TypeError)
        failing('none', lambda: v.__setitem__(slice(a / 8, z / 8), None), TypeError)
        failing('float', lambda: v.__setitem__(slice(a / 8, z / 8), 1.5), TypeError)
        agrees('kept', v, b[:a] + c + b[z:])

def deletion(n, s, extra, step):
    for a in range(n + 1):
        for z in range(a, n + 1, step):
            v, b = mk('w', n, s, extra)
            del v[a / 8:z / 8]
            agrees('deleted', v, b[:a] + b[z:])
            v.zfill((n + 5) / 8)
            agrees('then-zfill', v, b[:a] + b[z:] + [0] * (z - a + 5))
    for a in range(n):
        v, b = mk('w', n, s, extra)
        del v[a / 8]
        agrees('index', v, b[:a] + b[a + 8:])
    v, b = mk('w', n, s, extra)
    del v[:]
    agrees('all', v, [])

def insertion(n, s, extra, m, t):
    w, c = mk('m', m, t, 0, BitView)
    for a in range(n + 1):
        v, b = mk('w', n, s, extra)
        v.insert(a / 8, w)
        agrees('inserted', v, b[:a] + c + b[a:])
        v.insert(a / 8, w)
        agrees('twice', v, b[:a] + c + c + b[a:])
        if a > 0:
            u, b = mk('w', n, s, extra)
            u.insert(-a / 8, w)
            agrees('negative', u, b[:-a] + c + b[-a:])
    v, b = mk('w', n, s, extra)
    v.insert(n / 8 + 5, w)
    agrees('behind', v, b + c)
    agrees('value', w, c)

def appending(n, s, extra):
    x, t = any_uint('x', 8), any_bytes('t', 2)
    v, b = mk('w', n, s, extra)
    v.append(x)
    e = b + bits_in(be(x), 0, 8)
    agrees('append', v, e)
    v.extend(t)
    e = e + bits_in(t, 0, 16)
    agrees('extend-bytes', v, e)
    v.extend([x])
    e = e + bits_in(be(x), 0, 8)
    agrees('extend-list', v, e)
    v += t
    e = e + bits_in(t, 0, 16)
    agrees('iadd', v, e)
    failing('append-large', lambda: v.append(256), ValueError)
    failing('append-negative', lambda: v.append(-1), ValueError)
    agrees('kept', v, e)
    same('pop', v.pop(), enc(e[-8:])[0])
    agrees('popped', v, e[:-8])
    same('pop-first', v.pop(0), enc(e[:8])[0])
    agrees('popped-first', v, e[8:-8])

def mixins(n, s, extra):
    v, b = mk('w', n, s, extra)
    v.reverse()
    agrees('reverse', v, [x for i in reversed(range(n // 8)) for x in b[i * 8:i * 8 + 8]])
    v.clear()
    agrees('clear', v, [])
    failing('pop-empty', lambda: v.pop(), IndexError)
    v = BitAwareByteArray(bytearray(b'abcab'), 0, 5)
    same('count', (v.count(97), v.count(5)), (2, 0))
    same('index', (v.index(98), 99 in v, 7 in v), (1, True, False))
    failing('index-missing', lambda: v.index(7), ValueError)
    v.remove(98)
    same('remove', v.to_bytes(), b'acab')

def extending(n, s, extra, m, t):
    w, c = mk('m', m, t, 1, BitView)
    v, b = mk('w', n, s, extra)
    v.extend(w)
    agrees('extended', v, b + c)
    v.extend(w)
    agrees('twice', v, b + c + c)
    del v[n / 8:]
    agrees('back', v, b)
    v.zfill((n + 9) / 8)
    agrees('filled', v, b + [0] * 9)
    v.zfill(n / 8)
    agrees('not-shortened', v, b + [0] * 9)
    v, b = mk('w', n, s, extra)
    agrees('sum', v + w, b + c)
    agrees('sum-left', w + v, c + b)
    q, d = mk('q', m, 0, 0)
    agrees('sum-arrays', v + q, b + d)
    agrees('sum-three', v + w + q, b + c + d)
    agrees('left', v, b)
    agrees('right', w, c)
    r = v + w
    r[0:1 / 8] = 1 if n + m > 0 else b''
    agrees('copy', v, b)

def aliases(n, s, extra):
    def fresh():
        return mk('w', n, s, extra)
    v, b = fresh()
    v.extend(v)
    agrees('extend', v, b + b)
    v, b = fresh()
    v += v
    agrees('iadd', v, b + b)
    v, b = fresh()
    v.insert(3 / 8, v)
    agrees('insert', v, b[:3] + b + b[3:])
    v, b = fresh()
    v[1 / 8:2 / 8] = v
    agrees('set', v, b[:1] + b + b[2:])
    v, b = fresh()
    v[2 / 8:5 / 8] = v[1 / 8:7 / 8]
    agrees('own-slice', v, b[:2] + b[1:7] + b[5:])
    v, b = fresh()
    agrees('sum', v + v, b + b)
    agrees('operand', v, b)
    v, b = fresh()
    u = v[1 / 8:]
    v[1 / 8:2 / 8] = 1
    v.extend(b'ab')
    agrees('slice-kept', u, b[1:])
    u[0:1 / 8] = b''
    del u[:]
    agrees('original-kept', v, b[:1] + [1] + b[2:] + bits_in(b'ab', 0, 16))

def source():
    t = any_bytes('t', 3)
    v = BitView(t)
    agrees('bytes', v, bits_in(t, 0, 24))
    agrees('defaults', BitView(bytearray(t), None, None), bits_in(t, 0, 24))
    agrees('from', BitView(t, 0.5), bits_in(t, 4, 20))
    agrees('to', BitView(t, 0, 1.25), bits_in(t, 0, 10))
    agrees('view', BitView(BitView(t, 0.5), 0, 1), bits_in(t, 4, 8))
    a = bytearray(t)
    b = BitAwareByteArray(a)
    b[0:1] = 0
    same('shared', bytes(a), b'\0' + t[1:])
    failing('start', lambda: BitView(t, -0.125), Exception)
    failing('stop', lambda: BitView(t, 0, 3.125), Exception)
    failing('order', lambda: BitView(t, 2, 1), Exception)
    failing('immutable', lambda: BitAwareByteArray(t), Exception)
    failing('view-set', lambda: v.__setitem__(0, 1), AttributeError)
    failing('step', lambda: v[0:3:2], NotImplementedError)
    failing('backwards', lambda: v[2:1], Exception)
    failing('text', lambda: v['a'], TypeError)
    failing('none', lambda: v[None], TypeError)
    failing('add-list', lambda: b + [1], TypeError)
    failing('add-bytes', lambda: b + b'a', TypeError)
    failing('add-none', lambda: b + None, TypeError)
    failing('negative-int', lambda: b.__setitem__(slice(0, 1), -1), ValueError)

def twice(n, s, extra, p, q):
    """two operations in a row on one array"""
    w, c = mk('m', 5, 2, 1, BitView)
    for a in range(0, n + 1, 2):
        v, b = mk('w', n, s, extra)
        e = b
        for op in (p, q):
            z = min(len(e), a + 7)
            k = min(len(e), a)
            if op == 'set':
                v[k / 8:z / 8] = w
                e = e[:k] + c + e[z:]
            elif op == 'del':
                del v[k / 8:z / 8]
                e = e[:k] + e[z:]
            elif op == 'insert':
                v.insert(k / 8, w)
                e = e[:k] + c + e[k:]
            elif op == 'extend':
                v.extend(w)
                e = e + c
            elif op == 'append':
                v.append(0xA5)
                e = e + bits_in(b'\xa5', 0, 8)
            elif op == 'zfill':
                v.zfill((len(e) + 11) / 8)
                e = e + [0] * 11
            elif op == 'slice':
                v = v[k / 8:]
                e = e[k:]
            elif op == 'add':
                v = v + w
                e = e + c
        agrees('both', v, e)
        agrees('slice', v[3 / 8:], e[3:])
'''

OPS = ('set', 'del', 'insert', 'extend', 'append', 'zfill', 'slice', 'add')


def cases():
    T = 'thorough'
    quick_n = (0, 1, 7, 8, 9, 13, 16, 20)
    more_n = (2, 4, 11, 15, 17, 23, 24, 25, 33)
    for n in quick_n + more_n:
        for s in (0, 1, 3, 8, 6):
            for extra in (0, 1):
                quick = n in quick_n and (s, extra) in ((0, 0), (0, 1), (3, 0), (3, 1), (8, 0))
                small = quick and n <= 16
                g = '%d+%d,%d' % (s, n, extra)
                t = 'quick' if quick else T
                for cls in ('view', 'array'):
                    if extra == (cls == 'array'):
                        yield Case('read/%s/%s' % (cls, g), SRC, 'reading', (n, s, extra, cls, 1 if n < 12 else 3), tier=t)
                if n >= 3:
                    yield Case('int/' + g, SRC, 'put_int', (n, s, extra, 1 if n < 12 else 5), tier=t)
                if n >= 1:
                    yield Case('index/' + g, SRC, 'put_index', (n, s, extra), tier=t)
                yield Case('del/' + g, SRC, 'deletion', (n, s, extra, 1 if n < 12 else 5), tier=t)
                if n % 8 == 0:
                    yield Case('mixins/' + g, SRC, 'mixins', (n, s, extra), tier=t)
                if n >= 8:
                    yield Case('append/' + g, SRC, 'appending', (n, s, extra), tier=t)
                    yield Case('alias/' + g, SRC, 'aliases', (n, s, extra), tier=t)
                for m, o in ((0, 0), (1, 0), (8, 0), (5, 2), (16, 0), (11, 3), (13, 5), (24, 1)):
                    mt = t if m in (0, 1, 8, 5, 16, 11) and small and (m in (8, 5) or (s, extra) in ((0, 0), (3, 1))) else T
                    yield Case('set/%s/%d+%d' % (g, o, m), SRC, 'put_view', (n, s, extra, m, o, 1 if n < 9 else 4 if n < 12 else 7), tier=mt)
                    yield Case('insert/%s/%d+%d' % (g, o, m), SRC, 'insertion', (n, s, extra, m, o), tier=mt)
                    yield Case('extend/%s/%d+%d' % (g, o, m), SRC, 'extending', (n, s, extra, m, o), tier=mt)
                for how in ('bytes', 'bytearray', 'list', 'tuple', 'generator'):
                    yield Case('bytes/%s/%s' % (how, g), SRC, 'put_bytes', (n, s, extra, how), tier='quick' if small and (s, extra) in ((0, 0), (3, 1)) else T)
                if n in (9, 16, 20, 25):
                    for p in OPS:
                        for q in OPS:
                            yield Case('twice/%s/%s-%s' % (g, p, q), SRC, 'twice', (n, s, extra, p, q), tier='quick' if n in (9, 16) and (s, extra) in ((0, 0), (3, 1)) else T)
    for x in (0, 1, 0b1011001, 0x1ff, 0xfffff, 0x12345):
        for n in (0, 1, 7, 8, 9, 20):
            for s in (0, 3, 8):
                yield Case('text/%x/%d+%d' % (x, s, n), SRC, 'text', (x, n, s))
    yield Case('source', SRC, 'source')
