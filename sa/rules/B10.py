"""List fields: the elements are packed back to back in order with nothing between them, and reading yields exactly the elements that fill the
range, or the first n of them, each starting where the one before it ended, whatever the element type or the selector that chooses it."""
import itertools
from ..run import Case
from ._bcat import PRE

COVERAGE = """24+ named integer element types, text, fixed, dynamic, sub-byte and nested-list buffers, selectors by index, content, owner, container
and (value, size) pairs x 0..4 elements x open, closed, counted (constant, field, expression, member function) lists with a field behind
them; partial, endless, miscounted and ill-typed lists; opaque element contents."""

SRC = PRE + r'''
ORDER = {'': None, 'n': None, 'b': 'big', 'l': 'little'}
TYPES = {'int8': (int8, 1, True), 'n_int8': (n_int8, 1, True), 'b_int8': (b_int8, 1, True), 'l_int8': (l_int8, 1, True),
         'uint8': (uint8, 1, False), 'n_uint8': (n_uint8, 1, False), 'b_uint8': (b_uint8, 1, False), 'l_uint8': (l_uint8, 1, False),
         'int16': (int16, 2, True), 'n_int16': (n_int16, 2, True), 'b_int16': (b_int16, 2, True), 'l_int16': (l_int16, 2, True),
         'uint16': (uint16, 2, False), 'n_uint16': (n_uint16, 2, False), 'b_uint16': (b_uint16, 2, False), 'l_uint16': (l_uint16, 2, False),
         'int32': (int32, 4, True), 'n_int32': (n_int32, 4, True), 'b_int32': (b_int32, 4, True), 'l_int32': (l_int32, 4, True),
         'uint32': (uint32, 4, False), 'n_uint32': (n_uint32, 4, False), 'b_uint32': (b_uint32, 4, False), 'l_uint32': (l_uint32, 4, False),
         'int64': (int64, 8, True), 'n_int64': (n_int64, 8, True), 'b_int64': (b_int64, 8, True), 'l_int64': (l_int64, 8, True),
         'uint64': (uint64, 8, False), 'n_uint64': (n_uint64, 8, False), 'b_uint64': (b_uint64, 8, False), 'l_uint64': (l_uint64, 8, False)}

class Fix(Buffer):
    p = u8(bytes_ref[0])
    q = be_uint_field(where=bytes_ref[1:3])

class Dyn(Buffer):
    k = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.v))
    v = bytearray_field(where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:1 + k])

class Nib(Buffer):
    a = u8(bytes_ref[0].bits[1:5])

class Mid(Buffer):
    a = u8(bytes_ref[0])
    b = le_uint_field(where=bytes_ref[1:3].bits[0:11])

class Lst(Buffer):
    k = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.v))
    v = list_field(type=b_uint16, n=k, where=bytes_ref[1:])

class Opt(Buffer):
    f = u8(bytes_ref[0])
    g = be_uint_field(where=bytes_ref[1:3], pack_if=f, unpack_if=f)

class Gap(Buffer):
    byte_size = 4
    a = u8(bytes_ref[1])

def elem(kind, i):
    """(value to pack, encoding, function giving a comparable form, expected form)"""
    t = str(i)
    if kind in TYPES:
        ty, n, signed = TYPES[kind]
        o = 'big' if kind[:2] == 'b_' else 'little' if kind[:2] == 'l_' else sys.byteorder
        x = any_sint('x' + t, 8 * n) if signed else any_uint('x' + t, 8 * n)
        return x, x.to_bytes(n, o, signed=signed), lambda e: e, x
    if kind == 'fix':
        x, y = any_uint('x' + t, 8), any_uint('y' + t, 16)
        return Fix(p=x, q=y), be(x) + y.to_bytes(2, 'big'), lambda e: (e.p, e.q), (x, y)
    if kind == 'dyn':
        b = any_bytes('b' + t, i % 3)
        return Dyn(v=bytearray(b)), be(len(b)) + b, lambda e: (e.k, raw(e.v)), (len(b), b)
    if kind == 'nib':
        x = any_uint('x' + t, 4)
        return Nib(a=x), be(x << 1), lambda e: e.a, x
    if kind == 'mid':
        x, y = any_uint('x' + t, 8), any_uint('y' + t, 11)
        return Mid(a=x, b=y), be(x) + y.to_bytes(2, 'little'), lambda e: (e.a, e.b), (x, y)
    if kind == 'lst':
        xs = [any_uint('x%d_%d' % (i, j), 16) for j in range((i + 1) % 3)]
        return Lst(v=xs), be(len(xs)) + b''.join([x.to_bytes(2, 'big') for x in xs]), lambda e: (e.k, e.v), (len(xs), xs)
    if kind == 'opt':
        x, y = i % 2, any_uint('y' + t, 16)
        return Opt(f=x, g=y), be(x) + (y.to_bytes(2, 'big') if x else b'\0\0'), lambda e: (e.f, e.g), (x, y if x else None)
    if kind == 'gap':
        x = any_uint('x' + t, 8)
        return Gap(a=x), b'\0' + be(x) + b'\0\0', lambda e: e.a, x

BUF = {'fix': Fix, 'dyn': Dyn, 'nib': Nib, 'mid': Mid, 'lst': Lst, 'opt': Opt, 'gap': Gap}

def ty(kind):
    return TYPES[kind][0] if kind in TYPES else BUF[kind]

def lists(kind, n, how):
    es = [elem(kind, i) for i in range(n)]
    enc = b''.join([e[1] for e in es])
    m = len(enc)
    z = any_uint('z', 8)
    tail = be(z)
    kw = {'z': z}
    if how == 'open':
        class C(Buffer):
            h = u8(bytes_ref[0])
            l = list_field(type=ty(kind), where=bytes_ref[1:])
        kw = {}
        tail = b''
    elif how == 'closed':
        class C(Buffer):
            h = u8(bytes_ref[0])
            l = list_field(type=ty(kind), where=bytes_ref[1:1 + m])
            z = u8(bytes_ref[1 + m])
    elif how == 'const':
        class C(Buffer):
            h = u8(bytes_ref[0])
            l = list_field(type=ty(kind), n=n, where=bytes_ref[1:])
            z = u8(bytes_ref[after_ref(l)])
    elif how == 'field':
        class C(Buffer):
            h = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.l))
            l = list_field(type=ty(kind), n=h, where=bytes_ref[1:])
            z = u8(bytes_ref[after_ref(l)])
    elif how == 'expression':
        class C(Buffer):
            h = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.l) * 2 + 1)
            l = list_field(type=ty(kind), n=(h - 1) // 2, where=bytes_ref[1:])
            z = u8(bytes_ref[after_ref(l)])
    elif how == 'member':
        class C(Buffer):
            def count(self):
                return self.h - 1
            h = u8(bytes_ref[0], set_before_pack=len_ref(self_ref.l) + 1)
            l = list_field(type=ty(kind), n=member_func_ref(count), unpack_after=h, where=bytes_ref[1:])
            z = u8(bytes_ref[after_ref(l)])
    elif how == 'bytes':
        class C(Buffer):
            h = u8(bytes_ref[0], set_before_pack=total_size)
            l = list_field(type=ty(kind), where_when_pack=bytes_ref[1:], where_when_unpack=bytes_ref[1:h - 1])
            z = u8(bytes_ref[after_ref(l)])
    x = {'field': n, 'expression': 2 * n + 1, 'member': n + 1, 'bytes': m + 2}.get(how)
    if x is None:
        x = any_uint('h', 8)
        kw['h'] = x
    d = be(x) + enc + tail
    o = C(l=[e[0] for e in es], **kw)
    same('packed', raw(o.pack()), d)
    same('again', raw(o.pack()), d)
    for trail in ((b'',) if how == 'open' else (b'', b'\xff\xff')):
        r = C()
        same('size-%d' % len(trail), r.unpack(d + trail), len(d))
        same('count-%d' % len(trail), len(r.l), n)
        for i in range(n):
            same('element-%d-%d' % (i, len(trail)), es[i][2](r.l[i]), es[i][3])
        same('head-%d' % len(trail), r.h, x)
        if tail:
            same('tail-%d' % len(trail), r.z, z)
        same('repacked-%d' % len(trail), raw(r.pack()), d)
    if n:
        same('fresh', r.l is o.l, False)

def selected(how, n):
    """the selector is asked for every element with the rest of the range and everything read so far"""
    log = []
    class C(Buffer):
        def choose(self, buffer, index, container, **kwargs):
            log.append((self, raw(buffer.to_bytes()), index, list(container), kwargs.get('n')))
            if how == 'index':
                return Dyn if index % 2 else Fix
            if how == 'content':
                return Dyn if buffer[0] < 128 else Fix
            if how == 'owner':
                return Dyn if self.h else Fix
            if how == 'container':
                return Dyn if len(container) % 2 else Fix
            if how == 'pair':
                return raw(buffer[0:index + 1].to_bytes()), index + 1
            if how == 'list':
                return [raw(buffer[0:index + 1].to_bytes()), index + 1]
        h = u8(bytes_ref[0])
        l = list_field(type=Fix, n=n, unpack_selector=choose, unpack_after=h, where=bytes_ref[1:])
        z = u8(bytes_ref[after_ref(l)])
    encs, exp = [], []
    h = any_uint('h', 7) + 128 if how == 'owner' else any_uint('h', 8)
    for i in range(n):
        if how in ('pair', 'list'):
            e = any_bytes('b%d' % i, i + 1)
            encs.append(e)
            exp.append(e)
        elif how == 'owner' or i % 2:
            b = any_bytes('b%d' % i, i % 3)
            encs.append(be(len(b)) + b)
            exp.append(b)
        else:
            p, q = any_uint('p%d' % i, 7) + 128, any_uint('q%d' % i, 16)
            encs.append(be(p) + q.to_bytes(2, 'big'))
            exp.append((p, q))
    z = any_uint('z', 8)
    body = b''.join(encs) + be(z)
    r = C()
    same('size', r.unpack(be(h) + body), 1 + len(body))
    same('count', len(r.l), n)
    for i in range(n):
        e = r.l[i]
        same('element-%d' % i, e if how in ('pair', 'list') else raw(e.v) if isinstance(e, Dyn) else (e.p, e.q), exp[i])
    same('tail', r.z, z)
    same('calls', len(log), n)
    at = 0
    for i in range(n):
        o, b, index, cont, k = log[i]
        same('owner-%d' % i, o is r, True)
        same('rest-%d' % i, b, body[at:])
        same('index-%d' % i, index, i)
        same('count-arg-%d' % i, k, n)
        same('container-%d' % i, len(cont), i)
        for j in range(i):
            same('container-%d-%d' % (i, j), cont[j] is r.l[j], True)
        at = at + len(encs[i])

PAIRED = {'zero': lambda: 0, 'none': lambda: None, 'text': lambda: '', 'bytes': lambda: b'', 'list': lambda: [], 'dict': lambda: {},
          'false': lambda: False, 'tuple': lambda: (), 'pair': lambda: (1, 2), 'object': lambda: any_obj('value_obj'), 'type': lambda: int,
          'buffer': lambda: Fix(p=1), 'buffer type': lambda: Fix, 'float': lambda: 0.0}

def paired(what, form, where):
    """the value a selector returns with a size is taken as it is, whatever it is"""
    v = PAIRED[what]()
    class C(Buffer):
        def choose(self, buffer, **kwargs):
            return (v, 2) if form == 'tuple' else [v, 2]
        if where == 'list':
            l = list_field(type=Fix, unpack_selector=choose, where=bytes_ref[1:7])
        elif where == 'count':
            l = list_field(type=Fix, n=2, unpack_selector=choose, where=bytes_ref[1:])
        else:
            l = buffer_field(type=Fix, unpack_selector=choose, where=bytes_ref[1:])
        z = u8(bytes_ref[after_ref(l)])
    r = C()
    d = any_bytes('d', 9)
    n = {'list': 3, 'count': 2, 'one': 1}[where]
    end = 1 + 2 * n if where != 'list' else 7
    same('size', r.unpack(d), end + 1)
    same('tail', r.z, d[end])
    if where == 'one':
        holds('value', r.l is v)
    else:
        same('count', len(r.l), n)
        for i in range(n):
            holds('value-%d' % i, r.l[i] is v)

def misselected(how, where):
    """what is neither a buffer type, a pair nor nothing is an error"""
    class C(Buffer):
        def choose(self, buffer, **kwargs):
            return {'one': (1,), 'three': (1, 1, 1), 'no': (), 'empty': [], 'number': 1, 'zero': 0, 'text': 'ab', 'bytes': b'ab', 'false': False,
                    'true': True, 'instance': Fix(), 'dict': {}, 'other type': int, 'zeros': [0]}[how]
        if where == 'list':
            l = list_field(type=Fix, unpack_selector=choose, where=bytes_ref[1:7])
        else:
            l = buffer_field(type=Fix, unpack_selector=choose, where=bytes_ref[1:4])
    failing('refused', lambda: C().unpack(any_bytes('d', 7)))

def nothing(n):
    """a selector may say there is nothing"""
    class C(Buffer):
        def choose(self, buffer, index, **kwargs):
            return Fix if index == 1 else None
        l = list_field(type=Fix, n=n, unpack_selector=choose, where=bytes_ref[0:])
        z = u8(bytes_ref[after_ref(l)])
    p, q, z = any_uint('p', 8), any_uint('q', 16), any_uint('z', 8)
    d = (be(p) + q.to_bytes(2, 'big') if n > 1 else b'') + be(z)
    r = C()
    same('size', r.unpack(d), len(d))
    same('none', [e is None for e in r.l], [i != 1 for i in range(n)])
    if n > 1:
        same('element', (r.l[1].p, r.l[1].q), (p, q))
    same('tail', r.z, z)

def one_selected(how):
    """the selector of a single buffer"""
    class C(Buffer):
        def choose(self, buffer, **kwargs):
            if how == 'none':
                return None
            if how == 'pair':
                return raw(buffer[0:2].to_bytes()), 2
            return Dyn if self.h % 2 else Fix
        h = u8(bytes_ref[0])
        f = buffer_field(type=Fix, unpack_selector=choose, unpack_after=h, where=bytes_ref[1:])
        z = u8(bytes_ref[after_ref(f)])
    z = any_uint('z', 8)
    if how == 'odd':
        h, b = any_uint('h', 7) * 2 + 1, any_bytes('b', 2)
        enc, val = b'\2' + b, b
    elif how == 'even':
        h, p, q = any_uint('h', 7) * 2, any_uint('p', 8), any_uint('q', 16)
        enc, val = be(p) + q.to_bytes(2, 'big'), (p, q)
    elif how == 'none':
        h, enc, val = any_uint('h', 8), b'', None
    else:
        h, enc = any_uint('h', 8), any_bytes('b', 2)
        val = enc
    d = be(h) + enc + be(z)
    r = C()
    same('size', r.unpack(d + b'trail'), len(d))
    f = r.f
    same('value', raw(f.v) if isinstance(f, Dyn) else (f.p, f.q) if isinstance(f, Fix) else f, val)
    same('tail', (r.h, r.z), (h, z))

def refused(what):
    if what == 'partial':
        for m in (1, 3, 5):
            class C(Buffer):
                l = list_field(type=b_uint16, where=bytes_ref[0:m])
            failing('closed-%d' % m, lambda: C().unpack(any_bytes('w', 8)), InstructBufferError)
        class D(Buffer):
            l = list_field(type=b_uint32, where=bytes_ref[0:])
        for m in (1, 2, 3, 5, 7):
            failing('open-%d' % m, lambda: D().unpack(any_bytes('v%d' % m, m)), InstructBufferError)
        class E(Buffer):
            l = list_field(type=Fix, where=bytes_ref[0:])
        for m in (1, 2, 4, 5):
            failing('buffer-%d' % m, lambda: E().unpack(any_bytes('u%d' % m, m)), InstructBufferError)
        class F(Buffer):
            l = list_field(type=b_uint16, n=2, where=bytes_ref[0:])
        failing('counted', lambda: F().unpack(any_bytes('t', 3)), InstructBufferError)
    elif what == 'endless':
        class Empty(Buffer):
            pass
        class Z(Buffer):
            def choose(self, buffer, **kwargs):
                return None
            l = list_field(type=Fix, unpack_selector=choose, where=bytes_ref[0:])
        failing('none', lambda: Z().unpack(b'abc'), InstructBufferError)
        class P(Buffer):
            def choose(self, buffer, **kwargs):
                return 1, 0
            l = list_field(type=Fix, unpack_selector=choose, where=bytes_ref[0:])
        failing('pair', lambda: P().unpack(b'abc'), InstructBufferError)
    elif what == 'selector':
        class S(Buffer):
            def choose(self, buffer, **kwargs):
                return 'x'
            l = list_field(type=Fix, unpack_selector=choose, where=bytes_ref[0:])
        failing('text', lambda: S().unpack(b'abc'), InstructBufferError)
        class T(Buffer):
            def choose(self, buffer, **kwargs):
                return 1, 2, 3
            f = buffer_field(type=Fix, unpack_selector=choose, where=bytes_ref[0:])
        failing('triple', lambda: T().unpack(b'abc'), InstructBufferError)
        class U(Buffer):
            def choose(self, buffer, **kwargs):
                raise KeyError('k')
            f = buffer_field(type=Fix, unpack_selector=choose, where=bytes_ref[0:])
        failing('raises', lambda: U().unpack(b'abc'), InstructBufferError)
    elif what == 'count':
        class N(Buffer):
            h = str_field(where=bytes_ref[0:1])
            l = list_field(type=b_uint16, n=h, where=bytes_ref[1:])
        failing('text', lambda: N().unpack(b'2abcd'), InstructBufferError)
        class M(Buffer):
            l = list_field(type=b_uint16, n=1.5, where=bytes_ref[0:])
        failing('float', lambda: M().unpack(b'abcd'), InstructBufferError)
    elif what == 'values':
        k = any_uint('k', 16)
        class V(Buffer):
            l = list_field(type=b_uint16, where=bytes_ref[0:])
        failing('large', lambda: V(l=[1, 65536 + k]).pack(), InstructBufferError)
        failing('negative', lambda: V(l=[1, -1 - k]).pack(), InstructBufferError)
        failing('text', lambda: V(l=[1, 'a']).pack(), InstructBufferError)
        failing('unset', lambda: V().pack(), InstructBufferError)
        class W(Buffer):
            l = list_field(type=b_uint16, where=bytes_ref[0:6])
        failing('few', lambda: W(l=[1, 2]).pack(), InstructBufferError)
        failing('none', lambda: W(l=[]).pack(), InstructBufferError)
        class X(Buffer):
            l = list_field(type=Fix, where=bytes_ref[0:])
        failing('element', lambda: X(l=[Fix(p=1, q=2), Fix(p=256 + k, q=2)]).pack(), InstructBufferError)
    elif what == 'type':
        for t in (int, 'int8', None, 5):
            failing('type', lambda: list_field(type=t, where=bytes_ref[0:]), AssertionError)

def bounds(n):
    """a count above what is there gives what is there, a count of none or less gives nothing"""
    class C(Buffer):
        l = list_field(type=b_uint16, n=n, where=bytes_ref[0:4])
        z = u8(bytes_ref[4])
    w = any_bytes('w', 5)
    r = C()
    same('size', r.unpack(w), 5)
    e = [int.from_bytes(w[0:2], 'big'), int.from_bytes(w[2:4], 'big')]
    same('list', r.l, e[:max(n, 0)])
    same('tail', r.z, w[4])

def scattered(kind):
    """a list in several places is read as if they were one"""
    es = [elem(kind, i) for i in range(3)]
    enc = b''.join([e[1] for e in es])
    m = len(enc)
    class C(Buffer):
        a = u8(bytes_ref[0])
        l = list_field(type=ty(kind), where=bytes_ref[4:3 + m, 1:2])
        b = u8(bytes_ref[2])
    a, b = any_uint('a', 8), any_uint('b', 8)
    d = be(a) + enc[m - 1:] + be(b) + b'\0' + enc[:m - 1]
    same('packed', raw(C(a=a, b=b, l=[e[0] for e in es]).pack()), d)
    r = C()
    same('size', r.unpack(d), len(d))
    same('count', len(r.l), 3)
    for i in range(3):
        same('element-%d' % i, es[i][2](r.l[i]), es[i][3])
    same('others', (r.a, r.b), (a, b))

def empty_buffers():
    class C(Buffer):
        l = list_field(type=Fix, where=bytes_ref[0:])
    same('packed', raw(C(l=[]).pack()), b'')
    r = C()
    same('size', r.unpack(b''), 0)
    same('list', r.l, [])
'''
INTS = [p + s + 'int' + b for p in ('', 'n_', 'b_', 'l_') for s in ('', 'u') for b in ('8', '16', '32', '64')]
BUFS = ['fix', 'dyn', 'nib', 'mid', 'lst', 'opt', 'gap']
HOWS = ['open', 'closed', 'const', 'field', 'expression', 'member', 'bytes']


def cases():
    for i, k in enumerate(INTS):
        for n in (0, 1, 2, 4):
            for j, how in enumerate(HOWS):
                yield Case('list/%s/%d/%s' % (k, n, how), SRC, 'lists', (k, n, how), tier='quick' if n == 2 and (i + j) % 7 in (0, 3) else 'thorough')
    for k in BUFS:
        for n in (0, 1, 2, 3, 4):
            for how in HOWS:
                yield Case('list/%s/%d/%s' % (k, n, how), SRC, 'lists', (k, n, how), tier='quick' if n in (0, 1, 3) else 'thorough')
        yield Case('scattered/' + k, SRC, 'scattered', (k,))
    for k in ('b_uint16', 'l_int32', 'uint8'):
        yield Case('scattered/' + k, SRC, 'scattered', (k,))
    for how in ('index', 'content', 'owner', 'container', 'pair', 'list'):
        for n in (0, 1, 2, 3, 5):
            yield Case('selected/%s/%d' % (how, n), SRC, 'selected', (how, n), tier='quick' if n < 5 else 'thorough')
    for w in ('zero', 'none', 'text', 'bytes', 'list', 'dict', 'false', 'tuple', 'pair', 'object', 'type', 'buffer', 'buffer type', 'float'):
        for form in ('tuple', 'list'):
            for where in ('list', 'count', 'one'):
                yield Case('paired/%s/%s/%s' % (w, form, where), SRC, 'paired', (w, form, where))
    for w in ('one', 'three', 'no', 'empty', 'number', 'zero', 'text', 'bytes', 'false', 'true', 'instance', 'dict', 'other type', 'zeros'):
        for where in ('list', 'one'):
            yield Case('misselected/%s/%s' % (w, where), SRC, 'misselected', (w, where))
    for n in (1, 2, 3):
        yield Case('nothing/%d' % n, SRC, 'nothing', (n,))
    for how in ('odd', 'even', 'none', 'pair'):
        yield Case('one/' + how, SRC, 'one_selected', (how,))
    for w in ('partial', 'endless', 'selector', 'count', 'values', 'type'):
        yield Case('refused/' + w, SRC, 'refused', (w,))
    for n in (-2, -1, 0, 1, 2, 3, 9):
        yield Case('bounds/%d' % n, SRC, 'bounds', (n,))
    yield Case('empty', SRC, 'empty_buffers', ())
