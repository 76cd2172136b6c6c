"""Text and JSON buffer fields: packing writes the text in the declared encoding, padded to its range on the side its justification says;
unpacking takes off exactly that padding and decodes; text that cannot be encoded, bytes that cannot be decoded and input shorter than the
range are errors."""
import itertools
from ..run import Case
from ._bcat import PRE

COVERAGE = """str_field and str_type_factory x 3 justifications x padding and strip characters x encodings x all text lengths 0..n of ranges of 0..6
bytes, opaque characters; every amount of padding when reading; fixed, derived and open ranges; json_field over constants of every JSON kind
and opaque objects."""

SRC = PRE + r'''
import json

def text(n, ascii_only=True):
    return any_text('t', n)

def pad_ref(b, size, justify, padding):
    k = size - len(b)
    if justify == 'left':
        return b + padding * k
    if justify == 'right':
        return padding * k + b
    return b.center(size, padding)

def pack(n, size, justify, padding, encoding):
    kw = {}
    if justify is not None:
        kw['justify'] = justify
    if padding is not None:
        kw['padding'] = padding
    if encoding is not None:
        kw['encoding'] = encoding
    class C(Buffer):
        s = str_field(where=bytes_ref[1:1 + size], **kw)
        z = u8(bytes_ref[1 + size])
    t = any_text('t', n)
    z = any_uint('z', 8)
    b = t.encode(encoding or 'ascii')
    e = b'\0' + pad_ref(b, size, justify or 'left', padding or b' ') + be(z)
    same('packed', raw(C(s=t, z=z).pack()), e)

def pack_open(n, justify):
    class C(Buffer):
        a = u8(bytes_ref[0])
        s = str_field(where=bytes_ref[1:], justify=justify)
    t = any_text('t', n)
    x = any_uint('x', 8)
    same('packed', raw(C(a=x, s=t).pack()), be(x) + t.encode('ascii'))

def pack_derived(n):
    """the length of the text decides the range"""
    class C(Buffer):
        k = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.s))
        s = str_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + k])
        z = u8(bytes_ref[after_ref(s)])
    t = 'x' + any_word('t', n) + 'y'
    z = any_uint('z', 8)
    d = bytes([n + 2]) + t.encode('ascii') + be(z)
    same('packed', raw(C(s=t, z=z).pack()), d)
    r = C()
    same('size', r.unpack(d + b'trailing'), len(d))
    same('read', (r.k, r.s, r.z), (n + 2, t, z))

def core(n):
    """a text whose ends are neither padding nor stripped"""
    if n == 0:
        return ''
    if n == 1:
        return 'x'
    return 'x' + any_word('t', n - 2) + 'y'

def unpack(n, size, before, after, justify, padding, strip, how):
    """before/after: how many of the free bytes lie before the text, and which of them are strip characters"""
    kw = {}
    if justify is not None:
        kw['justify'] = justify
    if padding is not None:
        kw['padding'] = padding
    if strip is not None:
        kw['strip'] = strip
    p, s = padding or b' ', strip or b'\0'
    t = core(n)
    b = t.encode('ascii')
    d = before.replace(b'p', p).replace(b's', s[:1]) + b + after.replace(b'p', p).replace(b's', s[:1])
    if how == 'fixed':
        class C(Buffer):
            a = u8(bytes_ref[0])
            f = str_field(where=bytes_ref[1:1 + size], **kw)
            z = u8(bytes_ref[1 + size])
        x, z = any_uint('x', 8), any_uint('z', 8)
        w = be(x) + d + be(z)
    elif how == 'open':
        class C(Buffer):
            a = u8(bytes_ref[0])
            f = str_field(where=bytes_ref[1:], **kw)
        x, z = any_uint('x', 8), None
        w = be(x) + d
    else:
        class C(Buffer):
            a = u8(bytes_ref[0])
            f = str_field(where=bytes_ref[1:1 + a], **kw)
            z = u8(bytes_ref[after_ref(f)])
        x, z = size, any_uint('z', 8)
        w = be(x) + d + be(z)
    r = C()
    same('size', r.unpack(w), len(w))
    same('text', r.f, t)
    same('others', (r.a, r.z) if z is not None else (r.a,), (x, z) if z is not None else (x,))

def inner(pad, justify):
    """padding and strip characters inside the text, or on the other side, belong to it"""
    class C(Buffer):
        f = str_field(where=bytes_ref[0:6], justify=justify, padding=b'*', strip=b'\0')
    t = 'x' + pad + 'y'
    k = 6 - len(t)
    if justify == 'left':
        d, e = pad.encode('ascii') + b'x' + b'*' * (6 - len(pad) - 1), pad + 'x'
    elif justify == 'right':
        d, e = b'*' * (6 - len(pad) - 1) + b'x' + pad.encode('ascii'), 'x' + pad
    else:
        d, e = b'*' * (k // 2) + t.encode('ascii') + b'*' * (k - k // 2), t
    r = C()
    r.unpack(d)
    same('text', r.f, e)

def all_padding(size, what, justify):
    class C(Buffer):
        f = str_field(where=bytes_ref[0:size], justify=justify, padding=b'*')
    r = C()
    r.unpack(what * size)
    same('text', r.f, '')

def any_input(size, justify):
    """for any input the result is the text with the padding taken off"""
    class C(Buffer):
        f = str_field(where=bytes_ref[0:size], justify=justify, encoding='latin-1')
    w = any_bytes('w', size)
    r = C()
    r.unpack(w)
    if justify == 'left':
        e = w.rstrip(b'\0').rstrip(b' ')
    elif justify == 'right':
        e = w.lstrip(b'\0').lstrip(b' ')
    else:
        e = w.strip(b'\0').strip(b' ')
    same('text', r.f, e.decode('latin-1'))

def encoded(encoding, t, size, justify):
    b = t.encode(encoding)
    class C(Buffer):
        f = str_field(where=bytes_ref[0:size], encoding=encoding, justify=justify, padding=b'*', strip=b'*')
    d = pad_ref(b, size, justify, b'*')
    same('packed', raw(C(f=t).pack()), d)
    r = C()
    same('size', r.unpack(d), size)
    same('read', r.f, t)

def refused(what):
    class C(Buffer):
        f = str_field(where=bytes_ref[0:4])
    class U(Buffer):
        f = str_field(where=bytes_ref[0:4], encoding='utf-8')
    if what == 'encode':
        failing('refused', lambda: C(f=u'\xe9').pack(), InstructBufferError)
    elif what == 'decode':
        k = any_uint('k', 7)
        failing('refused', lambda: C().unpack(b'ab' + be(128 + k) + b'd'), InstructBufferError)
    elif what == 'decode-utf8':
        failing('refused', lambda: U().unpack(b'a\xff\xfeb'), InstructBufferError)
    elif what == 'short':
        for k in range(4):
            failing('refused-%d' % k, lambda: C().unpack(b'abcd'[:k]), InstructBufferError)
    elif what == 'justify':
        class J(Buffer):
            f = str_field(where=bytes_ref[0:4], justify='middle')
        failing('pack', lambda: J(f='ab').pack(), InstructBufferError)
        failing('unpack', lambda: J().unpack(b'abcd'), InstructBufferError)
    elif what == 'padding':
        for p in (b'', b'ab'):
            class P(Buffer):
                f = str_field(where=bytes_ref[0:4], padding=p)
            failing('pack-%d' % len(p), lambda: P(f='ab').pack(), InstructBufferError)
            failing('unpack-%d' % len(p), lambda: P().unpack(b'abcd'), InstructBufferError)
    elif what == 'encoding':
        class E(Buffer):
            f = str_field(where=bytes_ref[0:4], encoding='no-such-encoding')
        failing('pack', lambda: E(f='ab').pack(), InstructBufferError)
        failing('unpack', lambda: E().unpack(b'abcd'), InstructBufferError)

def numbers():
    """anything else is written as its text"""
    class C(Buffer):
        f = str_field(where=bytes_ref[0:4], justify='right', padding=b'0')
    same('int', raw(C(f=12).pack()), b'0012')
    r = C()
    r.unpack(b'0012')
    same('read', r.f, '12')

def elements(n, size, justify, padding, how):
    """text of a given size as elements of a list"""
    T = str_type_factory(justify=justify, padding=padding, byte_size=size)
    if how == 'counted':
        class C(Buffer):
            k = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.l))
            l = list_field(type=T, n=k, where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + k * size])
            z = u8(bytes_ref[after_ref(l)])
    else:
        class C(Buffer):
            k = u8(bytes_ref[0])
            l = list_field(type=T, where=bytes_ref[1:1 + n * size])
            z = u8(bytes_ref[1 + n * size])
    ts = []
    for i in range(n):
        m = min(i, size)
        ts.append('xy'[:m] if m < 2 else 'x' + any_word('t%d' % i, m - 2) + 'y')
    z = any_uint('z', 8)
    d = be(n)
    for t in ts:
        d = d + pad_ref(t.encode('ascii'), size, justify, padding)
    d = d + be(z)
    if how == 'counted':
        same('packed', raw(C(l=ts, z=z).pack()), d)
    else:
        same('packed', raw(C(k=n, l=ts, z=z).pack()), d)
    r = C()
    same('size', r.unpack(d), len(d))
    same('read', r.l, ts)
    same('others', (r.k, r.z), (n, z))

JSON = [None, True, False, 0, -5, 1.5, '', 'text', u'\xe9', 'a"b\\c', [], {}, [1, [2, None]], {'a': 1, 'b': [True, {'c': 'd'}]}, ' lead', 'trail ']

def js(i, extra, how):
    v = JSON[i]
    b = json.dumps(v).encode('ascii')
    n = len(b) + extra
    if how == 'fixed':
        class C(Buffer):
            a = u8(bytes_ref[0])
            f = json_field(where=bytes_ref[1:1 + n])
            z = u8(bytes_ref[1 + n])
    elif how == 'where2':
        class C(Buffer):
            a = u8(bytes_ref[0])
            f = json_field(where_when_pack=bytes_ref[1:1 + n], where_when_unpack=bytes_ref[1:1 + n])
            z = u8(bytes_ref[after_ref(f)])
    else:
        class C(Buffer):
            a = u8(bytes_ref[0])
            f = json_field(where=bytes_ref[1:])
    x, z = any_uint('x', 8), any_uint('z', 8)
    if how == 'open':
        d = be(x) + b
        same('packed', raw(C(a=x, f=v).pack()), d)
        w = d + b' ' * extra
        r = C()
        same('size', r.unpack(w), len(w))
    else:
        d = be(x) + b + b' ' * extra + be(z)
        same('packed', raw(C(a=x, f=v, z=z).pack()), d)
        r = C()
        same('size', r.unpack(d + b'tail'), len(d))
        same('z', r.z, z)
    same('x', r.a, x)
    same('read', r.f, v)
    same('kind', r.f is None, v is None)

def js_filled(fill, i):
    """filling by zeros or blanks, before or after, is not part of the text"""
    v = JSON[i]
    b = json.dumps(v).encode('ascii')
    class C(Buffer):
        f = json_field(where=bytes_ref[0:len(b) + len(fill)])
    r = C()
    r.unpack(b + fill)
    same('read', r.f, v)

def js_words(n, extra):
    """opaque texts and numbers inside a structure come back unchanged"""
    v = {'k': [any_word('v', n), {any_word('w', 2): any_word('v', n)}, None], 'x': 'p' + any_word('u', 1)}
    class C(Buffer):
        k = u8(bytes_ref[0], set_before_pack=total_size)
        f = json_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:k])
    b = json.dumps(v).encode('ascii')
    d = be(len(b) + 1) + b
    same('packed', raw(C(f=v).pack()), d)
    r = C()
    same('size', r.unpack(d + b'tail'), len(d))
    same('read', r.f, v)

def js_refused(what):
    class C(Buffer):
        f = json_field(where=bytes_ref[0:8])
    if what == 'short':
        for k in (0, 3, 7):
            failing('short-%d' % k, lambda: C().unpack(b'[1,2,34]'[:k]), InstructBufferError)
    elif what == 'empty':
        failing('blank', lambda: C().unpack(b'        '), InstructBufferError)
        failing('zero', lambda: C().unpack(b'\0' * 8), InstructBufferError)
    elif what == 'bad':
        failing('bad', lambda: C().unpack(b'{"a":1  '), InstructBufferError)
        failing('bytes', lambda: C().unpack(b'"\xff\xff"    '), InstructBufferError)
    else:
        failing('set', lambda: C(f=set()).pack(), InstructBufferError)
        failing('object', lambda: C(f=C()).pack(), InstructBufferError)
'''


def cases():
    J = ('left', 'right', 'center')
    for justify in (None,) + J:
        for size in range(0, 6):
            for n in range(0, size + 1):
                for padding in (None, b'*', b'\0'):
                    for enc in (None, 'ascii', 'latin-1'):
                        quick = (padding is None or (size > n and padding == b'*')) and (enc is None or n == 2)
                        yield Case('pack/%s/%d-%d/%r/%s' % (justify, size, n, padding, enc), SRC, 'pack', (n, size, justify, padding, enc), tier='quick' if quick else 'thorough')
    for n in (0, 1, 3):
        for justify in J:
            yield Case('pack-open/%d/%s' % (n, justify), SRC, 'pack_open', (n, justify))
        yield Case('pack-derived/%d' % n, SRC, 'pack_derived', (n,))
    for justify in (None,) + J:
        for n in (0, 1, 2, 4):
            fills = set()
            for k in range(0, 4):
                for f in itertools.product('ps', repeat=k):
                    f = ''.join(f)
                    # what the documented order of stripping takes off: strip characters outside, padding inside
                    good = f.strip('s') == '' or 's' not in f.lstrip('p').strip('s')
                    if f == 'p' * f.count('p') + 's' * f.count('s'):
                        fills.add(f.encode('ascii'))
            for f in sorted(fills):
                sides = {None: [(b'', f)], 'left': [(b'', f)], 'right': [(f[::-1], b'')], 'center': [(f[::-1], b''), (b'', f), (f[::-1], f)]}[justify]
                for before, after in sides:
                    for padding, strip in ((None, None), (b'*', None), (None, b'#'), (b'*', b'#\0')):
                        for how in ('fixed', 'open', 'derived'):
                            quick = (padding, strip) == (None, None) or (padding == b'*' and strip and n == 2)
                            yield Case('unpack/%s/%d/%s-%s/%r-%r/%s' % (justify, n, before.decode(), after.decode(), padding, strip, how), SRC, 'unpack',
                                       (n, n + len(before) + len(after), before, after, justify, padding, strip, how),
                                       tier='quick' if quick and (how == 'fixed' or n in (0, 2)) else 'thorough')
    for pad in ('*', '**', ' ', '\0', '\0*'):
        for justify in J:
            yield Case('inner/%r/%s' % (pad, justify), SRC, 'inner', (pad, justify))
    for size in (0, 1, 4):
        for what in (b'*', b'\0'):
            for justify in J:
                yield Case('blank/%d/%r/%s' % (size, what, justify), SRC, 'all_padding', (size, what, justify))
    for size in (1, 2, 3):
        for justify in J:
            yield Case('any/%d/%s' % (size, justify), SRC, 'any_input', (size, justify), tier='quick' if size < 3 else 'thorough', max_paths=400)
    for enc, t in (('utf-8', u'\xe9\u05d0'), ('utf-8', u'a'), ('utf-8', u''), ('latin-1', u'\xe9\xff'), ('utf-16-le', u'a\u05d0'), ('utf-16-be', u'ab'), ('cp1252', u'\u20ac')):
        for justify in J:
            for size in (4, 5, 6) if len(t.encode(enc)) <= 4 else (6,):
                yield Case('enc/%s/%s/%s/%d' % (enc, t.encode('unicode_escape').decode(), justify, size), SRC, 'encoded', (enc, t, size, justify))
    for w in ('encode', 'decode', 'decode-utf8', 'short', 'justify', 'padding', 'encoding'):
        yield Case('refused/' + w, SRC, 'refused', (w,))
    yield Case('numbers', SRC, 'numbers', ())
    for n in (0, 1, 3):
        for size in (1, 2, 3, 5):
            for justify in J:
                for padding in (b' ', b'*'):
                    for how in ('counted', 'filling'):
                        yield Case('elements/%d/%d/%s/%r/%s' % (n, size, justify, padding, how), SRC, 'elements', (n, size, justify, padding, how),
                                   tier='quick' if padding == b' ' or size == 3 else 'thorough')
    for i in range(16):
        for extra in (0, 1, 5):
            for how in ('fixed', 'open', 'where2'):
                yield Case('json/%d/%d/%s' % (i, extra, how), SRC, 'js', (i, extra, how), tier='quick' if extra != 1 or how == 'fixed' else 'thorough')
        for fill in (b'', b'\0', b' ', b' \0\0', b'\n\t '):
            yield Case('json-fill/%d/%r' % (i, fill), SRC, 'js_filled', (fill, i), tier='quick' if i in (0, 7, 12) else 'thorough')
    for n in (1, 3):
        yield Case('json-words/%d' % n, SRC, 'js_words', (n, 0))
    for w in ('short', 'empty', 'bad', 'value'):
        yield Case('json-refused/' + w, SRC, 'js_refused', (w,))
