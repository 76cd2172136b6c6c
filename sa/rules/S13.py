"""Context hand-over: the caller's context reaches every component however deeply it is nested, on reading and on writing, together with
the arguments of the read; references from a field to its struct mean the struct that declares the field; and no operation changes
the caller's context, the context a class declares, or the context of another operation."""
from ..run import Case
from ._cat import PRE

COVERAGE = """A probe component inside every kind of container (plain, optional, lazy, fixed/var/sum arrays, nested struct, selector by key and by
function, constants) and every pair of containers, x {read, write}; opaque context values; class-declared contexts; two operations in a row."""

SRC = PRE + r'''
from infi.instruct.base import WritableContext, ReadOnlyContext, EMPTY_CONTEXT

class Probe(Marshal):
    """a one byte marshal that records what it is given"""
    def __init__(self):
        super(Probe, self).__init__()
        self.r, self.w = [], []
    def create_from_stream(self, stream, context, *args, **kwargs):
        self.r.append((context.get('k', None), args, kwargs))
        if len(stream.read(1)) < 1:
            raise InstructError('short')
        return 1
    def write_to_stream(self, obj, stream, context):
        self.w.append(context.get('k', None))
        stream.write(b'\1')
    def sizeof(self, obj):
        return 1
    def min_max_sizeof(self):
        return MinMax(1, 1)

def contain(kind, m):
    """(marshal, value factory, prefix bytes, suffix bytes) wrapping marshal m whose value is v"""
    if kind == 'plain':
        return m, lambda v: v, b''
    if kind == 'farr':
        return FixedSizeArrayMarshal(1, m), lambda v: [v], b''
    if kind == 'varr':
        return VarSizeArrayMarshal(UBInt8, m), lambda v: [v], b'\1'
    if kind == 'sarr':
        return SumSizeArrayMarshal(UBInt8, m), lambda v: [v], None
    if kind == 'struct':
        class N(Struct):
            _fields_ = [UBInt8('z', 7), Field('v', m)]
        return N, lambda v: N(v=v), b'\7'
    if kind == 'optional':
        class N(Struct):
            _fields_ = [OptionalField('v', m, lambda o, s, c: True)]
        return N, lambda v: N(v=v), b''
    if kind == 'lazy':
        class N(Struct):
            _fields_ = [Lazy(Field('v', m))]
        return N, lambda v: N(v=v), b''
    if kind == 'ctxclass':
        class N(Struct):
            _context_ = {'k': 'class', 'other': 1}
            _fields_ = [Field('v', m)]
        return N, lambda v: N(v=v), b''
    if kind == 'selector':
        class N(Struct):
            _fields_ = [UBInt8('key', 5), Field('v', m)]
        return StructSelector(UBInt8, {5: N}), lambda v: N(v=v), b'\5'
    if kind == 'func':
        class N(Struct):
            _fields_ = [Field('v', m)]
        class O(Struct):
            _fields_ = [SelectStructByFunc('f', lambda o, s, c: N)]
        return O, lambda v: O(f=N(v=v)), b''
    raise ValueError(kind)

def wire(kinds):
    """the encoding of the nested containers, innermost last"""
    d = b'\1'
    for k in reversed(kinds):
        p = {'varr': b'\1', 'struct': b'\7', 'selector': b'\5'}.get(k, b'')
        if k == 'sarr':
            p = len(d).to_bytes(1, 'big')
        d = p + d
    return d

def nest(kinds, p):
    m, mk = p, lambda v: v
    for k in reversed(kinds):
        m2, f, _ = contain(k, m)
        mk = (lambda f, g: lambda v: f(g(v)))(f, mk)
        m = m2
    return m, mk

def touch(kinds, v):
    """force decoding of lazy parts"""
    for k in kinds:
        if k in ('struct', 'optional', 'lazy', 'selector', 'ctxclass'):
            v = v.v
        elif k in ('farr', 'varr', 'sarr'):
            v = v[0]
        elif k == 'func':
            v = v.f.v
    return v

def reading(kinds):
    p = Probe()
    m, mk = nest(kinds, p)
    class S(Struct):
        _fields_ = [UBInt8('h'), Field('x', m)]
    v = any_obj('v')
    ctx = WritableContext({'k': v, 'mine': 2})
    s = S.create_from_stream(BytesIO(b'\0' + wire(kinds) + b'@'), ctx)
    touch(kinds, s.x)
    same('reads', len(p.r), 1)
    same('context', p.r[0][0], v)
    same('caller', ctx.get_dict(), {'k': v, 'mine': 2})
    same('empty', EMPTY_CONTEXT.get_dict(), {})
    s = S.create_from_stream(BytesIO(b'\0' + wire(kinds) + b'@'))
    touch(kinds, s.x)
    same('next-read', p.r[1][0], 'class' if 'ctxclass' in kinds else None)

def writing(kinds):
    p = Probe()
    m, mk = nest(kinds, p)
    class S(Struct):
        _fields_ = [UBInt8('h'), Field('x', m)]
    v = any_obj('v')
    ctx = WritableContext({'k': v, 'mine': 2})
    s = S(h=0, x=mk(1))
    st = BytesIO()
    S.write_to_stream(s, st, ctx)
    same('bytes', st.getvalue(), b'\0' + wire(kinds))
    same('writes', p.w, [v])
    same('caller', ctx.get_dict(), {'k': v, 'mine': 2})
    st = BytesIO()
    S.write_to_stream(s, st)
    same('next-write', p.w[1], 'class' if 'ctxclass' in kinds else None)
    same('string', S.write_to_string(s, ctx), b'\0' + wire(kinds))
    same('string-context', p.w[2], v)

def arguments(kinds):
    """read arguments reach the components (a field read gives its marshal the arguments of the read)"""
    p = Probe()
    m, mk = nest(kinds, p)
    class S(Struct):
        _fields_ = [Field('x', m)]
    a = any_obj('a')
    s = S.create_from_stream(BytesIO(wire(kinds)), EMPTY_CONTEXT, a)
    touch(kinds, s.x)
    same('args', p.r[0][1], (a,))
    s = S.create_from_string(wire(kinds), EMPTY_CONTEXT, a)
    touch(kinds, s.x)
    same('string-args', p.r[1][1], (a,))

def declared():
    """a context declared by the class is handed to its fields and stays as declared"""
    p = Probe()
    v = any_obj('v')
    decl = {'k': v}
    class S(Struct):
        _context_ = decl
        _fields_ = [Field('x', p)]
    S.create_from_string(b'\1')
    S.write_to_string(S(x=1))
    same('read', p.r[0][0], v)
    same('write', p.w, [v])
    w = any_obj('w')
    S.create_from_stream(BytesIO(b'\1'), WritableContext({'k': w}))
    same('caller-wins', p.r[1][0], w)
    same('declared-unchanged', decl, {'k': v})
    S.create_from_string(b'\1')
    same('declared-again', p.r[2][0], v)

def writer_context(deep):
    """what one component puts into the context is not seen by the caller nor by the next operation"""
    class Putter(Marshal):
        def create_from_stream(self, stream, context, *args, **kwargs):
            context.put('k', 'leak')
            return stream.read(1)
        def write_to_stream(self, obj, stream, context):
            context.put('k', 'leak')
            stream.write(b'p')
        def sizeof(self, obj):
            return 1
        def min_max_sizeof(self):
            return MinMax(1, 1)
    p = Probe()
    class N(Struct):
        _fields_ = [Field('q', Putter())]
    class S(Struct):
        _fields_ = [Field('n', N if deep else Putter())]
    class T(Struct):
        _fields_ = [Field('x', p)]
    v = any_obj('v')
    ctx = WritableContext({'k': v})
    S.create_from_stream(BytesIO(b'a'), ctx)
    same('caller', ctx.get_dict(), {'k': v})
    S.create_from_stream(BytesIO(b'a'))
    same('empty', EMPTY_CONTEXT.get_dict(), {})
    T.create_from_string(b'\1')
    same('next', p.r[0][0], None)
    S.write_to_stream(S(n=N(q=1) if deep else 1), BytesIO(), ctx)
    same('caller-write', ctx.get_dict(), {'k': v})
    same('empty-write', EMPTY_CONTEXT.get_dict(), {})

def own_struct(kind):
    """a reference from a field to its struct means the declaring struct, also inside another struct with equal field names"""
    from infi.instruct import ReadPointer
    class I(Struct):
        _fields_ = [UBInt8('n'), VarSizeBuffer('b', ReadPointer('n')), UBInt8('t')]
    if kind == 'field':
        class S(Struct):
            _fields_ = [UBInt8('n'), Field('i', I), UBInt8('t')]
        pre = b''
    elif kind == 'array':
        class S(Struct):
            _fields_ = [UBInt8('n'), FixedSizeArray('i', 1, I), UBInt8('t')]
        pre = b''
    else:
        class S(Struct):
            _fields_ = [UBInt8('n'), VarSizeArray('i', UBInt8, I), UBInt8('t')]
        pre = b'\1'
    b = any_bytes('b', 2)
    r = S.create_from_string(b'\1' + pre + b'\2' + b + b'\3\4')
    i = r.i if kind == 'field' else r.i[0]
    same('inner', (i.n, i.b, i.t), (2, b, 3))
    same('outer', (r.n, r.t), (1, 4))

def own_struct_func(nested):
    log = []
    class A(Struct):
        _fields_ = [UBInt8('a')]
    def pick(obj, stream, context):
        log.append((obj.tag, type(obj).__name__))
        return A
    class I(Struct):
        _fields_ = [UBInt8('tag'), SelectStructByFunc('s', pick)]
    class O(Struct):
        _fields_ = [UBInt8('tag'), Field('i', I)]
    x, y, z = any_uint('x', 8), any_uint('y', 8), any_uint('z', 8)
    if nested:
        r = O.create_from_string(bytes(bytearray([x, y, z])))
        same('log', log, [(y, 'I')])
        same('value', r.i.s.a, z)
    else:
        r = I.create_from_string(bytes(bytearray([x, y])))
        same('log', log, [(x, 'I')])
        same('value', r.s.a, y)

def predicate_struct():
    log = []
    def wanted(obj, stream, context):
        log.append((obj.tag, context.get('k', None)))
        return True
    class I(Struct):
        _fields_ = [UBInt8('tag'), OptionalField('s', UBInt8, wanted)]
    class O(Struct):
        _fields_ = [UBInt8('tag'), Field('i', I)]
    x, y, z, k = any_uint('x', 8), any_uint('y', 8), any_uint('z', 8), any_obj('k')
    r = O.create_from_stream(BytesIO(bytes(bytearray([x, y, z]))), WritableContext({'k': k}))
    same('log', log, [(y, k)])
    same('value', r.i.s, z)
'''

KINDS = ['plain', 'farr', 'varr', 'sarr', 'struct', 'optional', 'lazy', 'ctxclass', 'selector', 'func']


def cases():
    for k in KINDS:
        for f in ('reading', 'writing'):
            yield Case('%s/%s' % (f, k), SRC, f, ([k],))
    for k in ('plain', 'farr', 'varr', 'sarr', 'struct', 'optional', 'lazy'):
        if k not in ('struct', 'optional', 'lazy'):
            yield Case('arguments/%s' % k, SRC, 'arguments', ([k],))
    for a in KINDS[1:]:
        for b in KINDS[1:]:
            if a == 'lazy' and b in ('varr', 'sarr', 'optional', 'func', 'selector'):
                continue
            for f in ('reading', 'writing'):
                yield Case('%s/%s/%s' % (f, a, b), SRC, f, ([a, b],))
                for c in KINDS[1:]:
                    if (b == 'lazy' or a == 'lazy') and c in ('varr', 'sarr', 'optional', 'func', 'selector'):
                        continue
                    yield Case('%s/%s/%s/%s' % (f, a, b, c), SRC, f, ([a, b, c],), tier='thorough')
    yield Case('declared', SRC, 'declared')
    for d in (False, True):
        yield Case('leak/%s' % d, SRC, 'writer_context', (d,))
        yield Case('own-struct-func/%s' % d, SRC, 'own_struct_func', (d,))
    for k in ('field', 'array', 'var'):
        yield Case('own-struct/' + k, SRC, 'own_struct', (k,))
    yield Case('predicate_struct', SRC, 'predicate_struct')
