"""Expressions over references: each stands for the value the same Python expression over the current values has, operand order included;
what is not defined for references is refused where it is written, and an expression has no truth value of its own."""
import itertools
from ..run import Case
from ._bcat import PRE

COVERAGE = """11 binary operators, negation, min/max/len, calls x 9 operand forms on either side (field, constant, cast attribute, cast
forward field, length, minimum, nested expression, total size, input length) x packing and unpacking, as value, condition, position and
argument; operators recorded on opaque operands; every unsupported operator and every non-numeric operand form."""

SRC = PRE + r'''
import operator
OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'floordiv': operator.floordiv, 'truediv': operator.truediv,
       'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}
MIRROR = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}

class Val(object):
    """An operand that records what is done to it and in which order."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __hash__(self):
        return 1

def _install():
    def make(op, swap):
        def f(self, other):
            l, r = (other, self) if swap else (self, other)
            return (op, getattr(l, 'name', l), getattr(r, 'name', r))
        return f
    for op in OPS:
        setattr(Val, '__' + op + '__', make(op, False))
        if op not in MIRROR:
            setattr(Val, '__r' + op + '__', make(op, True))
    Val.__neg__ = lambda self: ('neg', self.name)
_install()

def build(mk, call=None):
    """A class with operands of every form whose expression mk(operands) is handed to a method when packing and when unpacking."""
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = int_field(endian='big', where=bytes_ref[1:3])
        n = u8(bytes_ref[3], set_before_pack=len_ref(self_ref.v))
        v = bytearray_field(where_when_pack=bytes_ref[5:], where_when_unpack=bytes_ref[5:5 + n])
        z = u8(bytes_ref[4], set_before_pack=self_ref.take(mk(dict(
                   field=a, signed=b, attr=num_ref(self_ref.w), fwd=num_ref(self_ref.y), length=len_ref(self_ref.v), name=len_ref('v'),
                   least=min_ref(a, b), most=max_ref(b, a), const=5, negconst=-3, flt=0.5, sum=a + b, diff=a - 1, twice=a + a, neg=-b,
                   total=total_size, after=after_ref(v), flag=True))),
               set_after_unpack=self_ref.take(mk(dict(
                   field=a, signed=b, attr=num_ref(self_ref.w), fwd=num_ref(self_ref.y), length=len_ref(self_ref.v), name=len_ref('v'),
                   least=min_ref(a, b), most=max_ref(b, a), const=5, negconst=-3, flt=0.5, sum=a + b, diff=a - 1, twice=a + a, neg=-b,
                   total=input_buffer_length, after=after_ref(v), flag=True))))
        y = u8(bytes_ref[after_ref(v)])
        w = 0

        def take(self, *args):
            self.seen = args
            return 7
    return C

def values(w, n):
    a, b, y = any_uint('a', 8), any_sint('b', 16), any_uint('y', 8)
    v = any_bytes('v', n)
    vals = dict(field=a, signed=b, attr=w, fwd=y, length=n, name=n, least=b if b < a else a, most=a if a > b else b, const=5, negconst=-3,
                flt=0.5, sum=a + b, diff=a - 1, twice=a + a, neg=-b, total=6 + n, after=5 + n, flag=True)
    return dict(a=a, b=b, y=y, v=bytearray(v)), vals

def seen(C, w, given, n, direction):
    if direction == 'pack':
        o = C(**given)
        o.w = w
        data = o.pack()
        same('packed', data, be(given['a']) + given['b'].to_bytes(2, 'big', signed=True) + be(n) + be(7) + raw(given['v']) + be(given['y']))
        same('assigned', o.z, 7)
    else:
        o = C()
        o.w = w
        o.unpack(be(given['a']) + given['b'].to_bytes(2, 'big', signed=True) + be(n) + be(any_uint('z', 8)) + raw(given['v']) +
                 be(given['y']))
        same('unpacked', (o.a, o.b, o.n, o.z, o.y), (given['a'], given['b'], n, 7, given['y']))
    return o.seen

def binary(op, left, right, n, direction):
    given, vals = values(any_sint('w', 32), n)
    f = OPS[op]
    if 'div' in op:
        if vals[right] == 0:
            ok('divided by zero')
            return
    C = build(lambda d: f(d[left], d[right]))
    got = seen(C, vals['attr'], given, n, direction)
    same('one value', len(got), 1)
    same('value', got[0], f(vals[left], vals[right]))

def recorded(op, shape, direction):
    # operands of any kind: the operator is applied once, to the operands in the order they are written
    x = Val('x')
    C = build({'ref op const': lambda d: OPS[op](d['attr'], 5), 'const op ref': lambda d: OPS[op](5, d['attr']),
               'ref op ref': lambda d: OPS[op](d['attr'], d['field']), 'other op ref': lambda d: OPS[op](d['const'] + d['field'], d['attr'])}[shape])
    given, vals = values(x, 1)
    got = seen(C, x, given, 1, direction)[0]
    a = vals['field']
    if shape == 'ref op const':
        want = (op, 'x', 5)
    elif shape == 'ref op ref':
        want = (op, 'x', a)
    else:
        l = 5 if shape == 'const op ref' else 5 + a
        # a comparison written with the reference on the right is asked of the reference by Python itself, mirrored
        want = (op, l, 'x') if op not in MIRROR else (MIRROR[op], 'x', l)
    same('recorded', got, want)

def unary(form, n, direction):
    given, vals = values(any_sint('w', 32), n)
    got = seen(build(lambda d: -d[form]), vals['attr'], given, n, direction)
    same('negated', got, (-vals[form],))
    got = seen(build(lambda d: -(-d[form])), vals['attr'], given, n, direction)
    same('twice negated', got, (vals[form],))

def unary_recorded(direction):
    x = Val('x')
    given, vals = values(x, 0)
    same('negated', seen(build(lambda d: -d['attr']), x, given, 0, direction), (('neg', 'x'),))

TREES = {
    'left assoc': lambda d: d['field'] - d['signed'] - d['fwd'],
    'right grouped': lambda d: d['field'] - (d['signed'] - d['fwd']),
    'precedence': lambda d: d['field'] + d['signed'] * d['fwd'] - 2,
    'grouped': lambda d: (d['field'] + d['signed']) * (d['fwd'] - 2),
    'constants': lambda d: 100 - d['field'] - 7 * d['length'],
    'deep': lambda d: 1 + (2 - (3 * (4 + (5 - (6 + d['signed']))))),
    'negated group': lambda d: -(d['field'] - d['signed']) + -d['fwd'],
    'floor': lambda d: (d['signed'] + 7) // 8 * 8,
    'floor of negative': lambda d: -(d['signed'] // -8),
    'compare': lambda d: (d['field'] + d['signed'] < d['fwd'] * 2),
    'count': lambda d: (d['field'] > 3) + (d['signed'] <= d['fwd']) + (d['fwd'] != 0),
    'scaled flag': lambda d: (d['field'] >= d['fwd']) * d['signed'],
    'equal': lambda d: (d['field'] == d['fwd']) * 2 + (d['field'] == 9),
    'shared': lambda d: (lambda s: s * s - s)(d['field'] + d['signed']),
    'same object': lambda d: d['field'] - d['field'] + d['field'] * d['field'],
    'sizes': lambda d: d['total'] - d['length'] * 2 + d['after'],
    'least of': lambda d: min_ref(d['field'] * 2, d['signed'] + 1, 40) - max_ref(d['fwd'], 3),
    'of least': lambda d: max_ref(min_ref(d['field'], 9), min_ref(d['fwd'], 200)),
    'augmented': lambda d: (lambda s: operator.iadd(s, 3) * s)(d['field']),
    'float': lambda d: d['length'] / 2 + 0.25,
    'reflected': lambda d: 9 // (d['length'] + 2) + 8 / (d['length'] + 2) - 3,
    'bool constant': lambda d: d['field'] + True - d['flag'] * d['signed'],
}

def _py(d):
    return d

def tree(which, n, direction):
    given, vals = values(any_sint('w', 32), n)
    f = TREES[which]
    got = seen(build(f), vals['attr'], given, n, direction)
    if which == 'least of':
        want = min(vals['field'] * 2, vals['signed'] + 1, 40) - max(vals['fwd'], 3)
    elif which == 'of least':
        want = max(min(vals['field'], 9), min(vals['fwd'], 200))
    else:
        want = f(vals)
    same('value', got, (want,))

# --- arguments and calls

def calls(direction):
    # a call hands over its evaluated arguments, positional and named, in order, and yields what the method returns
    given, vals = values(any_sint('w', 32), 1)
    r = any_uint('r', 8)
    log = []

    class C(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1], set_before_pack=self_ref.m(1, a, a + 1, self_ref.w, last=a * 2, text='t'),
               set_after_unpack=self_ref.m(1, a, a + 1, self_ref.w, last=a * 2, text='t'))
        c = u8(bytes_ref[2], set_before_pack=self_ref.k(), set_after_unpack=self_ref.k())
        w = None

        def m(self, *args, **kwargs):
            log.append((self, args, kwargs))
            return r

        def k(self):
            return 3
    o = C()
    w = any_obj('w_obj')
    o.w = w
    if direction == 'pack':
        o.a = vals['field']
        same('bytes', o.pack(), be(vals['field']) + be(r) + be(3))
    else:
        o.unpack(be(vals['field']) + be(0) * 2)
    same('value', (o.a, o.b, o.c), (vals['field'], r, 3))
    same('called once', len(log), 1)
    holds('of the object', log[0][0] is o)
    same('arguments', log[0][1][:3], (1, vals['field'], vals['field'] + 1))
    holds('object itself', log[0][1][3] is w)
    same('number of arguments', len(log[0][1]), 4)
    same('named', log[0][2], dict(last=vals['field'] * 2, text='t'))

def lookup(direction):
    # a name stands for the field of that name where there is one, also an inherited or overriding one, else for the attribute
    x, y = any_uint('x', 7), any_uint('y', 7)

    class Base(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1], set_before_pack=num_ref(self_ref.p) + num_ref(self_ref.q), set_after_unpack=num_ref(self_ref.p) + num_ref(self_ref.q))
        p = 1
        q = 2

    class Derived(Base):
        p = u8(bytes_ref[2])

        @property
        def q(self):
            return 5

    for C, want in ((Base, lambda: 3), (Derived, lambda: x + 5)):
        o = C()
        if direction == 'pack':
            o.a = y
            if C is Derived:
                o.p = x
            same('bytes of ' + C.__name__, o.pack(), be(y) + be(want()) + (be(x) if C is Derived else b''))
        else:
            o.unpack(be(y) + be(0) + be(x))
        same('value of ' + C.__name__, (o.a, o.b), (y, want()))

def current(direction, source):
    """a name stands for the field's value in this operation, never for what an earlier one left in the object"""
    x, y, s, t = any_uint('x', 7), any_uint('y', 7), any_uint('s', 7), any_uint('t', 7)
    v, w = any_bytes('v', 2), any_bytes('w', 4)

    class C(Buffer):
        first = u8(bytes_ref[0], set_before_pack=num_ref(self_ref.mid) + 1, set_after_unpack=num_ref(self_ref.mid) + 1)
        if source == 'length':
            mid = u8(bytes_ref[1], set_before_pack=len_ref(self_ref.v))
        elif source == 'number':
            mid = u8(bytes_ref[1], set_before_pack=num_ref(self_ref.base) * 1)
        elif source == 'function':
            mid = u8(bytes_ref[1], set_before_pack=lambda self: self.base)
        elif source == 'call':
            mid = u8(bytes_ref[1], set_before_pack=self_ref.get())
        else:
            mid = u8(bytes_ref[1])
        n = u8(bytes_ref[2], set_before_pack=len_ref('v'))
        v = bytearray_field(where_when_pack=bytes_ref[3:], where_when_unpack=bytes_ref[3:3 + n])
        base = 0

        def get(self):
            return self.base

    def image(m, c):
        return be(m + 1) + be(m) + be(len(c)) + c
    o = C()
    for i, (c, b) in enumerate(((v, x), (w, y))):
        m = len(c) if source == 'length' else b
        if direction == 'pack' or direction == 'mixed' and i:
            o.v = bytearray(c)
            o.base = b
            if source == 'field':
                o.mid = b
            elif direction == 'pack' and not i:
                o.mid = s       # whatever is in there beforehand
            if direction == 'pack' and not i:
                o.first = t
            same('packed %d' % i, o.pack(), image(m, c))
        else:
            o.unpack(be(s) + be(m) + be(len(c)) + c)
        same('values %d' % i, (o.first, o.mid, o.n, raw(o.v)), (m + 1, m, len(c), c))

def results(direction, what):
    """the result of a call is used as it is"""
    r = {'false': lambda: False, 'true': lambda: True, 'zero': lambda: 0, 'int': lambda: any_uint('r', 6)}[what]()
    a = any_uint('a', 8)

    class C(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1], set_before_pack=70 - num_ref(self_ref.get(1, k=a)), set_after_unpack=70 - num_ref(self_ref.get(1, k=a)))
        c = u8(bytes_ref[2], set_before_pack=self_ref.same(self_ref.get(2, k=r)), set_after_unpack=self_ref.same(self_ref.get(2, k=r)))
        d = u8(bytes_ref[3], pack_if=num_ref(member_func_ref(lambda self: r)) != 0, unpack_if=num_ref(member_func_ref(lambda self: r)) != 0)

        def get(self, i, k):
            return r

        def same(self, x):
            self.seen = x
            return 1
    o = C(a=a, d=3)
    data = be(a) + be(int(70 - r)) + be(1) + (be(3) if r != 0 else be(0))
    if direction == 'pack':
        same('bytes', o.pack(), data)
    else:
        o.unpack(data + b'zz')
        same('values', (o.a, o.b, o.c), (a, 70 - r, 1))
    holds('handed on', o.seen is r if what in ('false', 'true') else o.seen == r)

def member(direction):
    # member functions are called with the object, plain functions too
    x, y = any_uint('x', 7), any_uint('y', 7)
    got = []

    def outside(obj):
        got.append(obj)
        return y

    class C(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1], set_before_pack=member_func_ref(outside), set_after_unpack=member_func_ref(outside))
        c = u8(bytes_ref[2], pack_if=member_func_ref(outside), unpack_if=member_func_ref(outside))
        d = u8(bytes_ref[3], set_before_pack=num_ref(member_func_ref(outside)) - a, set_after_unpack=num_ref(member_func_ref(outside)) - a)
    if y < x:
        ok('negative')
        return
    if direction == 'pack':
        o = C(a=x, c=5)
        same('bytes', o.pack(), be(x) + be(y) + (be(5) if y != 0 else be(0)) + be(y - x))
    else:
        o = C()
        o.unpack(be(x) + be(1) + be(5) + be(0))
    same('value', (o.a, o.b, o.d), (x, y, y - x))
    same('condition', o.c, 5 if y != 0 else (None if direction == 'unpack' else 5))
    for g in got:
        holds('the object', g is o)
    same('calls', len(got), 3)

# --- uses

def position(direction):
    # expressions as byte positions, bit positions, slice ends, conditions and list counts
    a, b, v = any_uint('a', 2), any_uint('b', 3), any_uint('v', 16)

    class C(Buffer):
        a = u8(bytes_ref[0].bits[0:2])
        b = u8(bytes_ref[0].bits[2:5])
        c = be_uint_field(where=bytes_ref[a * 2 + 1:a * 2 + 3])
        d = u8(bytes_ref[8 - b].bits[4 + (b > 3):7], pack_if=(b != 7) * (a < 3), unpack_if=(b != 7) * (a < 3))
    at = 1 + 2 * a
    for i in range(4):
        if a == i:
            break
    else:
        return
    for j in range(8):
        if b == j:
            break
    else:
        return
    if 8 - j == 0 or 8 - j in (1 + 2 * i, 2 + 2 * i):
        return
    d = any_uint('d', 2)
    shift = 5 if j > 3 else 4
    on = j != 7 and i < 3
    want = bytearray(9)
    want[0] = i | j << 2
    want[1 + 2 * i:3 + 2 * i] = v.to_bytes(2, 'big')
    if on:
        want[8 - j] = d << shift
    size = max(3 + 2 * i, 9 - j) if on else 3 + 2 * i
    if direction == 'pack':
        o = C(a=i, b=j, c=v, d=d)
        same('bytes', o.pack(), raw(want[:size]))
    else:
        o = C()
        o.unpack(raw(want[:size]))
        same('values', (o.a, o.b, o.c, o.d), (i, j, v, d if on else None))

def counts(direction):
    a, k = any_uint('a', 2), any_bytes('k', 12)

    class C(Buffer):
        a = u8(bytes_ref[0])
        l = list_field(type=uint8, n=(a + 1) * 2, where=bytes_ref[1:])
        m = u8(bytes_ref[a + 1], pack_if=a == 9, unpack_if=a < 0)
    for i in range(4):
        if a == i:
            break
    else:
        return
    o = C()
    o.unpack(be(i) + k)
    same('values', (o.a, o.l, o.m), (i, [x for x in k[:2 * (i + 1)]], None))

# --- refused

class Other(object):
    pass

NONNUM = {'bytes': lambda: bytearray_field(where=bytes_ref[5:7]), 'text': lambda: str_field(where=bytes_ref[5:7]),
          'json': lambda: json_field(where=bytes_ref[5:7]), 'list': lambda: list_field(type=uint8, where=bytes_ref[5:7]),
          'self': lambda: self_ref.w, 'call': lambda: self_ref.f(1), 'range': lambda: bytes_ref[1], 'bits': lambda: bytes_ref[1].bits[0:2],
          'ranges': lambda: bytes_ref[0, 2], 'member': lambda: member_func_ref(len)}
PLAIN = {'none': lambda: None, 'str': lambda: any_text('s', 2), 'bytes': lambda: any_bytes('s', 2), 'list': lambda: [1], 'tuple': lambda: (),
         'object': lambda: Other(), 'type': lambda: int, 'dict': lambda: {}}

ARITH = ('add', 'sub', 'mul', 'floordiv', 'truediv')
ORDER = ('lt', 'le', 'gt', 'ge')

def numrefs():
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = float_field(where=bytes_ref[1:5])
        c = int_field(where=bytes_ref[5])
        keep = [a, b, c, a + 1, -a, len_ref('a'), num_ref(self_ref.x), min_ref(a, 1), max_ref(a, 1), a < 3, total_size, after_ref(a),
                input_buffer_length]
    return C.keep

def refused(op, form):
    if op == 'add' and form in ('range', 'bits', 'ranges'):
        ok('sums with ranges are up to the ranges')
        return
    """combining a number with what is not a number is an error where it is written"""
    for i, ref in enumerate(numrefs()):
        other = (NONNUM.get(form) or PLAIN[form])()
        failing('ref op %d' % i, lambda: OPS[op](ref, other), TypeError)
        failing('op ref %d' % i, lambda: OPS[op](other, ref), TypeError)

def refused_nonnum(op, form):
    other = NONNUM[form]()
    if op == 'add' and form in ('range', 'bits', 'ranges'):
        ok('sums of ranges are ranges')
        return
    for i, x in enumerate((1, 0, 2.5, True)):
        failing('number %d' % i, lambda: OPS[op](other, x), TypeError)
        failing('by number %d' % i, lambda: OPS[op](x, other), TypeError)
    failing('itself', lambda: OPS[op](other, other), TypeError)

def refused_negation(form):
    failing('negated', lambda: -NONNUM[form](), TypeError)

def range_sum(form):
    failing('range + number', lambda: bytes_ref[0] + 1, TypeError)
    failing('range list + number', lambda: bytes_ref[0, 1] + 1, TypeError)
    failing('bits + text', lambda: bytes_ref[0].bits[1] + 'x', TypeError)
    failing('number + range', lambda: 1 + bytes_ref[0], TypeError)
    failing('none + range', lambda: None + bytes_ref[0], TypeError)

UNSUPPORTED = {'mod': lambda x, y: x % y, 'pow': lambda x, y: x ** y, 'lshift': lambda x, y: x << y, 'rshift': lambda x, y: x >> y,
               'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'divmod': divmod,
               'matmul': operator.matmul}

def unsupported(which):
    """operators references do not define are refused, and never computed on something else"""
    f = UNSUPPORTED[which]
    for i, ref in enumerate(numrefs()):
        failing('ref op number %d' % i, lambda: f(ref, 3), TypeError)
        failing('number op ref %d' % i, lambda: f(3, ref), TypeError)
        failing('ref op ref %d' % i, lambda: f(ref, ref), TypeError)

def unsupported_unary():
    for i, ref in enumerate(numrefs()):
        failing('abs %d' % i, lambda: abs(ref), TypeError)
        failing('invert %d' % i, lambda: ~ref, TypeError)
        failing('plus %d' % i, lambda: +ref, TypeError)
        failing('int %d' % i, lambda: int(ref), TypeError)
        failing('float %d' % i, lambda: float(ref), TypeError)
        failing('index %d' % i, lambda: [1, 2][ref], TypeError)
        failing('range %d' % i, lambda: range(ref), TypeError)
        failing('len %d' % i, lambda: len(ref), TypeError)

def no_truth():
    """an expression has no truth value before it is evaluated"""
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = u8(bytes_ref[1])
        keep = [a + 1, 1 - a, a * b, a // 2, a / 2, -a, a < b, a <= 1, a > b, a >= 1, a == b, a != b, 1 < a, -(-a), (a + 1) - (b < 2)]
        pair = [a, b]
    for i, e in enumerate(C.keep):
        failing('bool %d' % i, lambda: bool(e), NotImplementedError)
        failing('not %d' % i, lambda: not e, NotImplementedError)
        failing('and %d' % i, lambda: e and 1, NotImplementedError)
        failing('or %d' % i, lambda: e or 1, NotImplementedError)
        failing('if %d' % i, lambda: 1 if e else 2, NotImplementedError)
    a, b = C.pair
    failing('chained', lambda: 1 < a < 5, NotImplementedError)
    failing('chained refs', lambda: a <= b <= a, NotImplementedError)
    failing('contained', lambda: b in [a], NotImplementedError)

def identity():
    """references are usable as keys: each stands for itself, whatever it is equal to when evaluated"""
    class C(Buffer):
        a = u8(bytes_ref[0])
        b = bytearray_field(where=bytes_ref[1:3])
        keep = [a, b, a + 1, a + 1, len_ref('b'), bytes_ref[0], bytes_ref[0], -a, self_ref.x]
    d = {}
    for i, ref in enumerate(C.keep):
        d[ref] = i
    same('all kept', len(d), len(C.keep))
    for i, ref in enumerate(C.keep):
        same('own entry %d' % i, d[ref], i)
    x, y = C.keep[5], C.keep[6]
    same('equal to itself only', (x == x, x == y, x != x, x != y, C.keep[1] == 1, C.keep[1] == None), (True, False, False, True, False, False))

def unchanged(direction):
    """an expression does not change its operands, nor an operand the expressions made from it"""
    x = any_uint('x', 6)

    def mk(d):
        s = d['field'] + 1
        t = s
        t += 5
        u = s * 2
        t -= u
        s2 = -s
        return [s, t, u, s2, s]
    given, vals = values(0, 1)
    for i in range(5):
        got = seen(build(lambda d: mk(d)[i]), 0, given, 1, direction)
        s = vals['field'] + 1
        same('value %d' % i, got, ((s, s + 5 - s * 2, s * 2, -s, s)[i],))
'''

FORMS = ('field', 'signed', 'attr', 'fwd', 'length', 'name', 'least', 'most', 'sum', 'diff', 'twice', 'neg', 'total', 'after')
CONSTS = ('const', 'negconst', 'flag')
OPNAMES = ('add', 'sub', 'mul', 'floordiv', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne')


def cases():
    out = []
    for op in OPNAMES:
        for i, l in enumerate(FORMS + CONSTS):
            for j, r in enumerate(FORMS + CONSTS):
                if l in CONSTS and r in CONSTS:
                    continue
                quick = (i + j) % 5 == 0 or l == 'field' and r in ('const', 'signed') or l == 'const' and r == 'signed'
                for k, d in enumerate(('pack', 'unpack')):
                    tier = 'quick' if quick and (i + j + k) % 2 == 0 else 'thorough'
                    out.append(Case('%s %s %s/%s' % (l, op, r, d), SRC, 'binary', [op, l, r, (i + j) % 3, d], tier=tier))
        for shape in ('ref op const', 'const op ref', 'ref op ref', 'other op ref'):
            for d in ('pack', 'unpack'):
                out.append(Case('recorded %s %s/%s' % (op, shape, d), SRC, 'recorded', [op, shape, d]))
    for d in ('pack', 'unpack'):
        for f in FORMS:
            out.append(Case('unary %s/%s' % (f, d), SRC, 'unary', [f, 2, d]))
        out.append(Case('unary recorded/%s' % d, SRC, 'unary_recorded', [d]))
        for t in TREENAMES:
            for n in (0, 2):
                out.append(Case('tree %s %d/%s' % (t, n, d), SRC, 'tree', [t, n, d], tier='quick' if n else 'thorough'))
        for f in ('calls', 'lookup', 'member', 'position', 'unchanged'):
            out.append(Case('%s/%s' % (f, d), SRC, f, [d]))
    for d in ('pack', 'unpack', 'mixed'):
        for w in ('length', 'number', 'function', 'call', 'field'):
            out.append(Case('current %s/%s' % (w, d), SRC, 'current', [d, w]))
    for d in ('pack', 'unpack'):
        for w in ('false', 'true', 'zero', 'int'):
            out.append(Case('results %s/%s' % (w, d), SRC, 'results', [d, w]))
    out.append(Case('counts', SRC, 'counts', ['unpack']))
    for op in OPNAMES[:9]:
        for form in NONNUM + PLAIN:
            out.append(Case('refused %s %s' % (op, form), SRC, 'refused', [op, form]))
        for form in NONNUM:
            out.append(Case('refused number %s %s' % (op, form), SRC, 'refused_nonnum', [op, form]))
    for form in NONNUM:
        out.append(Case('refused negation %s' % form, SRC, 'refused_negation', [form]))
    out.append(Case('range sums', SRC, 'range_sum', ['']))
    for w in ('mod', 'pow', 'lshift', 'rshift', 'and', 'or', 'xor', 'divmod', 'matmul'):
        out.append(Case('unsupported %s' % w, SRC, 'unsupported', [w]))
    out.append(Case('unsupported unary', SRC, 'unsupported_unary', []))
    out.append(Case('no truth value', SRC, 'no_truth', []))
    out.append(Case('identity', SRC, 'identity', []))
    return out


NONNUM = ('bytes', 'text', 'json', 'list', 'self', 'call', 'range', 'bits', 'ranges', 'member')
PLAIN = ('none', 'str', 'bytes', 'list', 'tuple', 'object', 'type', 'dict')
TREENAMES = ('left assoc', 'right grouped', 'precedence', 'grouped', 'constants', 'deep', 'negated group', 'floor', 'floor of negative',
             'compare', 'count', 'scaled flag', 'equal', 'shared', 'same object', 'sizes', 'least of', 'of least', 'augmented', 'float',
             'reflected', 'bool constant')
