"""Packing and unpacking leave what they are given alone: values and input keep their contents, and results share memory with nothing."""
from ..run import Case
from ._bkinds import PRE_KINDS, KINDNAMES

COVERAGE = """17 kinds of buffer classes x packing, repeated and after the result or the values changed x unpacking from bytes, bytearray, memoryview, BitView and
lists, whole and offset, after the input or the values changed, over values set before; overlapping and split positions; packed bytes
fed to nested buffers, selectors and conversions."""

SRC = PRE_KINDS + r'''
from infi.instruct.buffer.io_buffer import BitView

def spoil(v):
    """change a value in place"""
    if isinstance(v, Fix):
        v.p = 0
        v.q = 0
    elif isinstance(v, Dyn):
        spoil(v.v)
        v.k = 77
    elif isinstance(v, list):
        for e in v:
            spoil(e)
        v.append(99)
    elif isinstance(v, bytearray):
        for i in range(len(v)):
            v[i] = 0
        v.append(99)
    elif isinstance(v, dict):
        v['spoilt'] = 1

def packing(kind, what):
    C, mk, enc, dec = KINDS[kind]('')
    kw = mk()
    o = C(**kw)
    if what == 'values':
        first = o.pack()
        for n in sorted(kw):
            if n in ('size', 'n', 's'):
                continue
            holds('same-object-' + n, getattr(o, n) is kw[n])
            if not isinstance(kw[n], dict):
                same('kept-' + n, form(kw[n]), dec[n])
        o.calc_byte_size()
        for n in sorted(kw):
            if not isinstance(kw[n], dict):
                same('sized-' + n, form(kw[n]), dec[n])
        same('packed', raw(first), enc)
    elif what == 'results':
        first, second = o.pack(), o.pack()
        holds('kind', isinstance(first, bytearray))
        holds('fresh', first is not second)
        spoil(first)
        same('second', raw(second), enc)
        same('third', raw(o.pack()), enc)
        same('fourth', raw(C(**mk()).pack()), enc)
    else:
        first = o.pack()
        for n in sorted(kw):
            spoil(kw[n])
        same('packed', raw(first), enc)
        same('others', raw(C(**mk()).pack()), enc)

def given(how, data, pad):
    """the input in a form, with what is behind it"""
    store = bytearray(pad + data)
    if how == 'bytes':
        return bytes(data), None
    if how == 'bytearray':
        store = bytearray(data)
        return store, store
    if how == 'memoryview':
        store = bytearray(data)
        return memoryview(store), store
    if how == 'view':
        return BitView(store, len(pad)), store
    if how == 'slice':
        return BitView(store)[len(pad):], store
    store = [b for b in data]
    return BitView(store), store

def unpacking(kind, how):
    C, mk, enc, dec = KINDS[kind]('')
    pad = b'' if how not in ('view', 'slice') else b'\x5a\xa5'
    data, store = given(how, enc, pad)
    r = C()
    same('consumed', r.unpack(data), len(enc))
    if store is not None:
        same('input', bytes(store) if how == 'list' else raw(store), pad + enc)
    got = values(r, dec)
    for n in sorted(dec):
        same('read-' + n, got[n], dec[n])
        holds('native-' + n, isinstance(getattr(r, n), (int, float, str, bytearray, list, dict, Buffer, type(None))))
    if store is not None:
        for i in range(len(store)):
            store[i] = 0
        got = values(r, dec)
        for n in sorted(dec):
            same('independent-' + n, got[n], dec[n])
    same('repacked', raw(r.pack()), enc)

def changing(kind, how):
    """changing unpacked values changes neither the input nor what others unpacked from it"""
    C, mk, enc, dec = KINDS[kind]('')
    pad = b'' if how not in ('view', 'slice') else b'\x5a\xa5'
    data, store = given(how, enc, pad)
    r, other = C(), C()
    r.unpack(data)
    other.unpack(data)
    for n in sorted(dec):
        spoil(getattr(r, n))
    if store is not None:
        same('input', bytes(store) if how == 'list' else raw(store), pad + enc)
    got = values(other, dec)
    for n in sorted(dec):
        same('other-' + n, got[n], dec[n])
    third = C()
    third.unpack(data)
    got = values(third, dec)
    for n in sorted(dec):
        same('later-' + n, got[n], dec[n])

def replacing(kind):
    """unpacking replaces values, it does not change them"""
    C, mk, enc, dec = KINDS[kind]('')
    kw = mk()
    enc2, dec2 = KINDS[kind]('o')[2:4]
    o = C(**kw)
    o.pack()
    o.unpack(enc2)
    for n in sorted(kw):
        if not isinstance(kw[n], dict):
            same('old-' + n, form(kw[n]), dec[n])
    got = values(o, dec2)
    for n in sorted(dec2):
        same('new-' + n, got[n], dec2[n])
    keep = dict((n, getattr(o, n)) for n in dec2)
    o.unpack(enc)
    for n in sorted(dec2):
        same('kept-' + n, form(keep[n]), dec2[n])

def overlapping(a, b):
    """fields over the same bytes read values of their own"""
    def fld(how, lo, hi):
        w = bytes_ref[lo:hi]
        if how == 'bytes':
            return bytearray_field(where=w)
        if how == 'split':
            return bytearray_field(where=bytes_ref[lo:lo + 1, lo + 1:hi])
        if how == 'bits':
            return bytearray_field(where=w.bits[0:8 * (hi - lo)])
        if how == 'half':
            return bytearray_field(where=w.bits[4:8 * (hi - lo)])
        if how == 'list':
            return list_field(type=uint8, where=w)
        return buffer_field(type=Fix, where=w)
    class C(Buffer):
        x = fld(a, 0, 3)
        y = fld(b, 0, 3)
    w = any_bytes('w', 3)
    src = bytearray(w)
    r = C()
    r.unpack(src)
    x, y = form(r.x), form(r.y)
    spoil(r.x)
    same('y', form(r.y), y)
    same('input', raw(src), w)
    r = C()
    r.unpack(src)
    spoil(r.y)
    same('x', form(r.x), x)
    src[0] = 0
    src[1] = 0
    src[2] = 0
    same('x later', form(r.x), x)

def received(where):
    """what callbacks receive is theirs"""
    seen = []
    def take(v):
        seen.append(v)
        if isinstance(v, bytearray):
            v += b'!'
        elif isinstance(v, list):
            v.append(1)
        return 7
    def give(self):
        return self.store
    class C(Buffer):
        if where == 'after':
            v = bytearray_field(where=bytes_ref[0:2], set_after_unpack=take)
        elif where == 'list':
            v = list_field(type=uint8, where=bytes_ref[0:2], set_after_unpack=take)
        else:
            v = bytearray_field(where=bytes_ref[0:2], set_before_pack=give)
        z = u8(bytes_ref[2])
        store = None
    w, z = any_bytes('w', 2), any_uint('z', 8)
    src = bytearray(w + be(z))
    r = C()
    if where == 'before':
        mine = bytearray(w)
        r.store = mine
        r.z = z
        p = r.pack()
        same('packed', raw(p), w + be(z))
        p[0] = 0
        same('given', raw(mine), w)
        same('again', raw(r.pack()), w + be(z))
        mine[0] = 0
        same('follows', raw(r.pack()), b'\0' + w[1:] + be(z))
    else:
        same('consumed', r.unpack(src), 3)
        same('input', raw(src), w + be(z))
        same('read', (r.v, r.z), (7, z))
        r.unpack(src)
        same('seen', len(seen), 2)
        holds('own', seen[0] is not seen[1])

def shared_values():
    """one value may be given to many objects and fields"""
    class C(Buffer):
        a = bytearray_field(where=bytes_ref[0:2])
        b = bytearray_field(where=bytes_ref[2:4])
        l = list_field(type=Fix, where=bytes_ref[4:10])
    w, p, q = any_bytes('w', 2), any_uint('p', 8), any_uint('q', 16)
    v, f = bytearray(w), Fix(p=p, q=q)
    e = be(p) + q.to_bytes(2, 'big')
    ls = [f, f]
    o, n = C(a=v, b=v, l=ls), C(a=v, b=v, l=ls)
    same('o', raw(o.pack()), w + w + e + e)
    same('n', raw(n.pack()), w + w + e + e)
    same('value', (raw(v), len(ls), f.p, f.q), (w, 2, p, q))
    r = C()
    r.unpack(w + w + e + e)
    holds('apart', r.a is not r.b)
    holds('elements apart', r.l[0] is not r.l[1])
    r.a[0] = 0
    r.l[0].p = 0
    same('b', raw(r.b), w)
    same('second', r.l[1].p, p)
'''
FORMS = ('bytes', 'bytearray', 'memoryview', 'view', 'slice', 'list')


def cases():
    for k in KINDNAMES:
        for w in ('values', 'results', 'later'):
            yield Case('pack/%s/%s' % (k, w), SRC, 'packing', (k, w))
        for h in FORMS:
            yield Case('unpack/%s/%s' % (k, h), SRC, 'unpacking', (k, h))
            if h != 'bytes':
                yield Case('change/%s/%s' % (k, h), SRC, 'changing', (k, h))
        yield Case('replace/' + k, SRC, 'replacing', (k,))
    fs = ('bytes', 'split', 'bits', 'half', 'list', 'buffer')
    for a in fs:
        for b in fs:
            yield Case('overlap/%s/%s' % (a, b), SRC, 'overlapping', (a, b))
    for w in ('after', 'list', 'before'):
        yield Case('received/' + w, SRC, 'received', (w,))
    yield Case('shared values', SRC, 'shared_values')
