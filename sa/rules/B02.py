"""Packing and unpacking visit every field of the class and of all its bases, exactly when its condition holds: a packed field carries its
value (assigned by set_before_pack if given), a field whose condition is false writes nothing and reads as None, overridden fields replace
the inherited ones, unset fields have their defaults, and construction accepts exactly the declared names."""
from ..run import Case
from ._bcat import PRE

COVERAGE = """Class hierarchies (single, multi-level, diamond, mixin, overriding, empty subclass) x opaque values; pack_if/unpack_if given as constants,
fields, comparisons, attribute and member-function references over opaque flags; set_before_pack as constant, callable and reference;
set_after_unpack as callable and reference; unpack_after; defaults; constructor keywords; every field observed in both directions."""

SRC = PRE + r'''
class Base(Buffer):
    a = u8(bytes_ref[0])

class Mid(Base):
    b = u8(bytes_ref[1])

class Leaf(Mid):
    c = u8(bytes_ref[2])

class Empty(Leaf):
    pass

class Other(Buffer):
    d = u8(bytes_ref[3])

class Both(Leaf, Other):
    e = u8(bytes_ref[4])

class Left(Base):
    b = u8(bytes_ref[1])

class Right(Base):
    c = u8(bytes_ref[2])

class Diamond(Left, Right):
    d = u8(bytes_ref[3])

class Over(Leaf):
    b = be_uint_field(where=bytes_ref[3:5])

class Over2(Over):
    d = u8(bytes_ref[5])

class Plain(object):
    pass

class Mixed(Plain, Mid):
    c = u8(bytes_ref[2])

def inherit(name):
    cls, lay = {'base': (Base, ['a']), 'mid': (Mid, ['a', 'b']), 'leaf': (Leaf, ['a', 'b', 'c']), 'empty': (Empty, ['a', 'b', 'c']),
                'both': (Both, ['a', 'b', 'c', 'd', 'e']), 'diamond': (Diamond, ['a', 'b', 'c', 'd']),
                'mixed': (Mixed, ['a', 'b', 'c'])}[name]
    kw, enc = {}, b''
    for n in lay:
        kw[n] = any_uint(n, 8)
        enc = enc + be(kw[n])
    o = cls(**kw)
    same('packed', raw(o.pack()), enc)
    w = any_bytes('w', len(lay))
    r = cls()
    same('size', r.unpack(w), len(lay))
    for i in range(len(lay)):
        same('read-%d' % i, getattr(r, lay[i]), w[i])
    same('repacked', raw(r.pack()), w)
    for n in lay:
        same('kept-' + n, getattr(o, n), kw[n])

def override(name):
    cls = {'over': Over, 'over2': Over2}[name]
    x, y, z = any_uint('x', 8), any_uint('y', 16), any_uint('z', 8)
    kw = dict(a=x, b=y, c=z)
    enc = be(x) + b'\0' + be(z) + y.to_bytes(2, 'big')
    if name == 'over2':
        kw['d'] = any_uint('d', 8)
        enc = enc + be(kw['d'])
    same('packed', raw(cls(**kw).pack()), enc)
    w = any_bytes('w', len(enc))
    r = cls()
    same('size', r.unpack(w), len(enc))
    same('read', (r.a, r.b, r.c), (w[0], int.from_bytes(w[3:5], 'big'), w[2]))
    # the inherited declaration still rules the base class
    same('base', raw(Leaf(a=x, b=z, c=z).pack()), be(x) + be(z) + be(z))
    l = Leaf()
    l.unpack(w[:3])
    same('base-read', l.b, w[1])

def siblings():
    """subclasses of one base do not see each other's fields"""
    x, y = any_uint('x', 8), any_uint('y', 8)
    same('left', raw(Left(a=x, b=y).pack()), be(x) + be(y))
    same('right', raw(Right(a=x, c=y).pack()), be(x) + b'\0' + be(y))
    same('base', raw(Base(a=x).pack()), be(x))
    failing('foreign', lambda: Left(c=y), AssertionError)
    failing('foreign-base', lambda: Base(b=y), AssertionError)

def condition(form, when):
    """a field under a condition on an opaque flag"""
    kw = {}
    class C(Buffer):
        flag = u8(bytes_ref[0])
        def wanted(self):
            return self.flag >= 3
        def cond(form, flag, wanted):
            return {'field': flag, 'cmp': flag >= 3, 'eq': flag == 7, 'ne': flag != 7, 'self': self_ref.flag,
                    'selfcmp': num_ref(self_ref.flag) > 2, 'true': True, 'false': False, 'func': member_func_ref(wanted),
                    'call': self_ref.wanted(), 'sum': flag + 0, 'lt': flag < 3}[form]
        if when == 'pack':
            x = u8(bytes_ref[1], pack_if=cond(form, flag, wanted))
        elif when == 'unpack':
            x = u8(bytes_ref[1], unpack_if=cond(form, flag, wanted))
        else:
            x = u8(bytes_ref[1], pack_if=cond(form, flag, wanted), unpack_if=cond(form, flag, wanted))
        z = u8(bytes_ref[2])
        byte_size = 3
    f, x, z = any_uint('f', 8), any_uint('x', 8), any_uint('z', 8)
    truth = lambda v: {'field': v != 0, 'cmp': v >= 3, 'eq': v == 7, 'ne': v != 7, 'self': v != 0, 'selfcmp': v > 2, 'true': True,
                       'false': False, 'func': v >= 3, 'call': v >= 3, 'sum': v != 0, 'lt': v < 3}[form]
    d = raw(C(flag=f, x=x, z=z).pack())
    if when == 'unpack' or truth(f):
        same('packed', d, be(f) + be(x) + be(z))
    else:
        same('not-packed', d, be(f) + b'\0' + be(z))
        same('unset-not-needed', raw(C(flag=f, z=z).pack()), d)
    w = any_bytes('w', 3)
    r = C(x=5)
    r.unpack(w)
    same('neighbours', (r.flag, r.z), (w[0], w[2]))
    if when == 'pack' or truth(w[0]):
        same('unpacked', r.x, w[1])
    else:
        holds('absent-none', r.x is None)

def later_condition():
    """the condition is a field declared, named and placed after the conditional one"""
    class C(Buffer):
        a = u8(bytes_ref[0], pack_if=self_ref.z, unpack_if=self_ref.z)
        z = u8(bytes_ref[1])
    f, x = any_uint('f', 8), any_uint('x', 8)
    d = raw(C(a=x, z=f).pack())
    same('packed', d, (be(x) if f != 0 else b'\0') + be(f))
    w = any_bytes('w', 2)
    r = C()
    r.unpack(w)
    same('z', r.z, w[1])
    if w[1] != 0:
        same('a', r.a, w[0])
    else:
        holds('a-none', r.a is None)

def before_pack(form):
    """set_before_pack provides the value, and the object has it afterwards"""
    v, k = any_uint('v', 7), any_uint('k', 8)
    calls = []
    def provide(obj):
        calls.append(obj)
        return obj.src + 1
    class C(Buffer):
        src = u8(bytes_ref[0])
        val = u8(bytes_ref[1], set_before_pack={'call': provide, 'const': k, 'field': src, 'expr': src + 1, 'self': self_ref.src,
                                               'len': len_ref(self_ref.tail), 'total': total_size}[form])
        tail = bytearray_field(where=bytes_ref[2:])
    t = any_bytes('t', 3)
    want = {'call': v + 1, 'const': k, 'field': v, 'expr': v + 1, 'self': v, 'len': 3, 'total': 5}[form]
    o = C(src=v, val=99, tail=t)
    same('packed', raw(o.pack()), be(v) + be(want) + t)
    same('assigned', o.val, want)
    same('source-kept', (o.src, raw(o.tail)), (v, t))
    if form == 'call':
        same('called-once', len(calls), 1)
        holds('with-object', calls[0] is o)
    o = C(src=v, tail=t)
    same('packed-unset', raw(o.pack()), be(v) + be(want) + t)
    w = any_bytes('w', 5)
    r = C()
    r.unpack(w)
    same('unpacked', (r.src, r.val, raw(r.tail)), (w[0], w[1], w[2:]))

def after_unpack(form):
    k = any_uint('k', 8)
    seen = []
    def conv(v):
        seen.append(v)
        return v * 2 + 1
    class C(Buffer):
        src = u8(bytes_ref[0])
        val = u8(bytes_ref[1], set_after_unpack={'call': conv, 'field': src, 'expr': src + 1, 'self': self_ref.src}[form])
        z = u8(bytes_ref[2])
    w = any_bytes('w', 3)
    r = C()
    same('size', r.unpack(w), 3)
    want = {'call': w[1] * 2 + 1, 'field': w[0], 'expr': w[0] + 1, 'self': w[0]}[form]
    same('value', r.val, want)
    same('others', (r.src, r.z), (w[0], w[2]))
    if form == 'call':
        same('called', seen, [w[1]])
    x = any_uint('x', 8)
    same('pack-unaffected', raw(C(src=x, val=k, z=x).pack()), be(x) + be(k) + be(x))

def unpack_after_order(many):
    """fields named in unpack_after are on the object when the field is unpacked"""
    seen = []
    class C(Buffer):
        z1 = u8(bytes_ref[0])
        z2 = u8(bytes_ref[1])
        def sel(self, buffer, **kw):
            seen.append((self.z1, self.z2))
            return (raw(buffer.to_bytes()), 1)
        a = buffer_field(type=Base, where=bytes_ref[2], unpack_selector=sel, unpack_after=[z1, z2] if many else z2)
    w = any_bytes('w', 3)
    r = C()
    if not many:
        r.z1 = 77
    r.unpack(w)
    same('seen', len(seen), 1)
    same('seen-z2', seen[0][1], w[1])
    if many:
        same('seen-z1', seen[0][0], w[0])
    same('values', (r.z1, r.z2), (w[0], w[1]))
    same('selected', r.a, w[2:])

def defaults():
    d, x = any_uint('d', 8), any_uint('x', 8)
    class C(Buffer):
        a = u8(bytes_ref[0], default=d)
        b = u8(bytes_ref[1], default=0)
        c = u8(bytes_ref[2])
    class D(C):
        e = u8(bytes_ref[3], default=7)
    o = C()
    same('defaults', (o.a, o.b, o.c), (d, 0, None))
    same('packed', raw(C(c=x).pack()), be(d) + b'\0' + be(x))
    same('given', raw(C(a=x, b=x, c=x).pack()), be(x) * 3)
    same('inherited', raw(D(c=x).pack()), be(d) + b'\0' + be(x) + b'\7')
    failing('no-default', lambda: C().pack())
    p = D()
    same('all-names', sorted(p.__dict__), ['a', 'b', 'c', 'e'])
    w = any_bytes('w', 3)
    o.unpack(w)
    same('overwritten', (o.a, o.b, o.c), (w[0], w[1], w[2]))
    same('fresh', C().a, d)

def constructor():
    x = any_uint('x', 8)
    failing('unknown', lambda: Base(nope=x), AssertionError)
    failing('one-unknown', lambda: Mid(a=x, bb=x), AssertionError)
    failing('positional', lambda: Base(x), TypeError)
    o = Both(e=x, a=x)
    same('given', (o.a, o.e), (x, x))
    holds('rest-none', o.b is None and o.c is None and o.d is None)
    class K(Buffer):
        a = u8(bytes_ref[0])
        def __init__(self, v):
            self.a = v
    same('own-init', raw(K(x).pack()), be(x))
    class N(Buffer):
        a = u8(bytes_ref[0], default=x)
        def __init__(self, **kw):
            super(N, self).__init__(**kw)
            self.seen = self.a
    same('cooperative', (N().seen, N(a=3).seen), (x, 3))

def extra_attributes():
    """attributes that are not fields are neither packed nor touched by unpacking"""
    x = any_uint('x', 8)
    class C(Buffer):
        K = 5
        a = u8(bytes_ref[0])
        def method(self):
            return self.K
    o = C(a=x)
    o.note = 'n'
    same('packed', raw(o.pack()), be(x))
    w = any_bytes('w', 1)
    o.unpack(w)
    same('kept', (o.note, o.K, o.method(), o.a), ('n', 5, 5, w[0]))
'''


def cases():
    for n in ('base', 'mid', 'leaf', 'empty', 'both', 'diamond', 'mixed'):
        yield Case('inherit/' + n, SRC, 'inherit', (n,))
    for n in ('over', 'over2'):
        yield Case('override/' + n, SRC, 'override', (n,))
    yield Case('siblings', SRC, 'siblings')
    for f in ('field', 'cmp', 'eq', 'ne', 'self', 'selfcmp', 'true', 'false', 'func', 'call', 'sum', 'lt'):
        for w in ('pack', 'unpack', 'both'):
            yield Case('condition/%s/%s' % (f, w), SRC, 'condition', (f, w))
    yield Case('later-condition', SRC, 'later_condition')
    for f in ('call', 'const', 'field', 'expr', 'self', 'len', 'total'):
        yield Case('set-before-pack/' + f, SRC, 'before_pack', (f,))
    for f in ('call', 'field', 'expr', 'self'):
        yield Case('set-after-unpack/' + f, SRC, 'after_unpack', (f,))
    for m in (0, 1):
        yield Case('unpack-after/%d' % m, SRC, 'unpack_after_order', (m,))
    for f in ('defaults', 'constructor', 'extra_attributes'):
        yield Case(f, SRC, f)
