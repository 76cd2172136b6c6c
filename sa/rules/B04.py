"""Resolving a reference: every reference is evaluated at most once per pack or unpack and all its users see that one value, a value that
depends on itself is reported as an error instead of recursing, a failed evaluation leaves no trace, and nothing is remembered between
operations."""
from ..run import Case
from ._bcat import PRE

COVERAGE = """Custom references and fields x shared subexpressions x evaluation histories (success, failure, failure then success, cycle, cycle then success)
of one context and of several; cycles of length 1 to 5 through values, positions, sizes and conditions in packing and unpacking; user
callables counted; repeated pack/unpack/size of one object with changed values in between."""

SRC = PRE + r'''
from infi.instruct.buffer.reference import Reference, Context, CyclicReferenceError, FuncCallReference, ObjectReference, NumericCastReference

class Custom(Reference):
    def __init__(self, f):
        super(Custom, self).__init__(True)
        self.f, self.n = f, 0
    def evaluate(self, ctx):
        self.n += 1
        return self.f(ctx)

class Oops(Exception):
    pass

def memo():
    x, y = any_int('x'), any_int('y')
    r = Custom(lambda ctx: x)
    s = Custom(lambda ctx: y)
    e = r + s
    f = e + r
    c, d = Context(), Context()
    same('value', f.deref(c), x + y + x)
    same('once', (r.n, s.n), (1, 1))
    same('again', (f.deref(c), e.deref(c), r.deref(c)), (x + y + x, x + y, x))
    same('still-once', (r.n, s.n), (1, 1))
    same('other-context', f.deref(d), x + y + x)
    same('per-context', (r.n, s.n), (2, 2))

def memo_none():
    """a value of None (or any false value) is remembered like any other"""
    for v in (None, 0, False, b''):
        r = Custom(lambda ctx: v)
        c = Context()
        same('first', r.deref(c), v)
        same('second', r.deref(c), v)
        same('once', r.n, 1)

def failure():
    x = any_int('x')
    state = {'fail': True}
    def f(ctx):
        if state['fail']:
            raise Oops('no')
        return x
    r = Custom(f)
    e = r + 1
    g = e + r
    c = Context()
    failing('first', lambda: g.deref(c), Oops)
    failing('second', lambda: g.deref(c), Oops)
    failing('inner', lambda: r.deref(c), Oops)
    same('evaluated-each-time', r.n, 3)
    state['fail'] = False
    same('recovers', g.deref(c), x + 1 + x)
    same('value-once', r.n, 4)

def cycle(n):
    """a cycle of n references"""
    rs = []
    def mk(i):
        return Custom(lambda ctx: rs[(i + 1) % n].deref(ctx))
    for i in range(n):
        rs.append(mk(i))
    c = Context()
    for k in (0, n - 1, 0):
        failing('cycle', lambda: rs[k].deref(c), CyclicReferenceError)
    holds('library-error', issubclass(CyclicReferenceError, InstructError))
    x = any_int('x')
    rs[0].f = lambda ctx: x
    same('broken-cycle', rs[n - 1].deref(c), x)
    same('entry', rs[0].deref(c), x)

def diamond():
    """two users of one reference are not a cycle"""
    x = any_int('x')
    r = Custom(lambda ctx: x)
    a, b = r + 1, r + 2
    e = a + b
    c = Context()
    same('value', e.deref(c), x + x + 3)
    same('once', r.n, 1)
    same('caught-inside', Custom(lambda ctx: tolerant(r, ctx)).deref(c), x)

def tolerant(r, ctx):
    try:
        return r.deref(ctx)
    except CyclicReferenceError:
        return None

def caught_cycle():
    """a reference that survives a cycle below it evaluates normally and is remembered"""
    x = any_int('x')
    box = []
    inner = Custom(lambda ctx: box[0].deref(ctx))
    def f(ctx):
        try:
            return inner.deref(ctx)
        except CyclicReferenceError:
            return x
    outer = Custom(f)
    box.append(outer)
    c = Context()
    same('outer', outer.deref(c), x)
    same('inner-now', inner.deref(c), x)
    same('evaluations', (outer.n, inner.n), (1, 2))

def call_reference():
    x, y = any_int('x'), any_int('y')
    seen = []
    def f(a, b, k=None):
        seen.append((a, b, k))
        return a + b
    r = Custom(lambda ctx: x)
    e = FuncCallReference(True, f, r, y, k=r)
    g = e + e
    c = Context()
    same('value', g.deref(c), x + y + x + y)
    same('args', seen, [(x, y, x)])
    same('once', r.n, 1)
    o = ObjectReference(False, seen)
    holds('object', o.deref(c) is seen)
    same('cast', NumericCastReference(r).deref(c), x)

def is_static():
    calls = []
    def dyn(ctx):
        calls.append(1)
        return ctx.obj
    r = Custom(dyn)
    x = any_int('x')
    s = Custom(lambda ctx: x)
    holds('dynamic', r.is_static() is False)
    holds('static', s.is_static() is True)
    holds('sum', (s + 1).is_static() is True)
    holds('mixed', (s + r).is_static() is False)
    holds('again', s.is_static() is True and r.is_static() is False)
    holds('range', bytes_ref[0:4].is_static() is True)
    holds('open', bytes_ref[0:].is_static() is True)
    holds('dynamic-range', bytes_ref[0:r].is_static() is False)

# ------------------------------------------------------------------------------------ through buffers
def counted(op):
    """a provider used by several fields runs once per operation and everyone sees its value"""
    calls = []
    def provide(obj):
        calls.append(1)
        return obj.src + len(calls)
    class C(Buffer):
        src = u8(bytes_ref[0])
        val = u8(bytes_ref[1], set_before_pack=provide)
        cpy = u8(bytes_ref[2], set_before_pack=val)
        sum = u8(bytes_ref[3], set_before_pack=val + num_ref(self_ref.cpy))
        t = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:])
    v, t = any_uint('v', 6), any_bytes('t', 2)
    o = C(src=v, t=t)
    same('first', raw(o.pack()), be(v) + be(v + 1) + be(v + 1) + be(v + v + 2) + t)
    same('once', len(calls), 1)
    same('second', raw(o.pack()), be(v) + be(v + 2) + be(v + 2) + be(v + v + 4) + t)
    same('twice', len(calls), 2)
    if op == 'size':
        same('size', o.calc_byte_size(), 6)
        same('third', raw(o.pack())[:2], be(v) + be(v + len(calls)))

def unpack_counted():
    calls = []
    def conv(v):
        calls.append(v)
        return v + len(calls)
    class C(Buffer):
        n = u8(bytes_ref[0], set_after_unpack=conv)
        m = u8(bytes_ref[1], unpack_if=n)
        t = bytearray_field(where_when_pack=bytes_ref[2:], where_when_unpack=bytes_ref[2:2 + n])
    w = b'\1' + any_bytes('w', 5)
    o = C()
    same('size', o.unpack(w), 4)
    same('read', (o.n, o.m, raw(o.t)), (2, w[1], w[2:4]))
    same('once', calls, [1])
    same('size-2', o.unpack(w), 5)
    same('read-2', (o.n, raw(o.t)), (3, w[2:5]))
    same('twice', calls, [1, 1])

def fresh(op):
    """values changed between operations are the ones used"""
    class C(Buffer):
        n = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.t))
        t = bytearray_field(where=bytes_ref[1:1 + n])
        z = u8(bytes_ref[after_ref(t)])
    x, t, t2, z = any_uint('x', 8), any_bytes('t', 2), any_bytes('t2', 4), any_uint('z', 8)
    o = C(t=t, z=x)
    same('first', raw(o.pack()), b'\2' + t + be(x))
    o.t, o.z = t2, z
    same('second', raw(o.pack()), b'\4' + t2 + be(z))
    same('size', o.calc_byte_size(), 6)
    p = C(t=t, z=z)
    same('other', raw(p.pack()), b'\2' + t + be(z))
    same('first-again', raw(o.pack()), b'\4' + t2 + be(z))
    w = any_bytes('w', 3)
    same('unpack', p.unpack(b'\1' + w), 3)
    same('read', (p.n, raw(p.t), p.z), (1, w[:1], w[1]))
    same('unpack-2', p.unpack(b'\0' + w), 2)
    same('read-2', (p.n, raw(p.t), p.z), (0, b'', w[0]))
    same('repack', raw(p.pack()), b'\0' + be(w[0]))

def buffer_cycle(kind):
    if kind == 'self':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=num_ref(self_ref.a) + 1)
        op = 'pack'
    elif kind == 'two':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=self_ref.b)
            b = u8(bytes_ref[1], set_before_pack=self_ref.a)
        op = 'pack'
    elif kind == 'three':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=self_ref.b)
            b = u8(bytes_ref[1], set_before_pack=self_ref.c)
            c = u8(bytes_ref[2], set_before_pack=self_ref.a)
        op = 'pack'
    elif kind == 'size':
        class C(Buffer):
            a = u8(bytes_ref[0], set_before_pack=total_size)
            t = str_field(where=bytes_ref[1:a])
        op = 'pack'
    elif kind == 'position':
        class C(Buffer):
            a = u8(bytes_ref[num_ref(self_ref.b)])
            b = u8(bytes_ref[num_ref(self_ref.a)])
        op = 'unpack'
    elif kind == 'condition':
        class C(Buffer):
            a = u8(bytes_ref[0], unpack_if=self_ref.b)
            b = u8(bytes_ref[1], set_after_unpack=self_ref.c)
            c = u8(bytes_ref[2], set_after_unpack=self_ref.b)
        op = 'unpack'
    elif kind == 'own-position':
        class C(Buffer):
            a = u8(bytes_ref[num_ref(self_ref.a)])
        op = 'unpack'
    x, w = any_uint('x', 8), any_bytes('w', 8)
    o = C()
    for n in ['a', 'b', 'c', 't']:
        setattr(o, n, x)
    if op == 'pack':
        failing('cycle', lambda: o.pack(), InstructBufferError)
        failing('again', lambda: o.pack(), InstructBufferError)
    else:
        failing('cycle', lambda: o.unpack(w), InstructBufferError)
        failing('again', lambda: o.unpack(w), InstructBufferError)
'''


def cases():
    for f in ('memo', 'memo_none', 'failure', 'diamond', 'caught_cycle', 'call_reference', 'is_static', 'unpack_counted'):
        yield Case(f, SRC, f)
    for n in (1, 2, 3, 5):
        yield Case('cycle/%d' % n, SRC, 'cycle', (n,))
    for o in ('pack', 'size'):
        yield Case('counted/' + o, SRC, 'counted', (o,))
    yield Case('fresh', SRC, 'fresh', (0,))
    for k in ('self', 'two', 'three', 'size', 'position', 'condition', 'own-position'):
        yield Case('buffer-cycle/' + k, SRC, 'buffer_cycle', (k,))
