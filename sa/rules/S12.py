"""Construction: every field holds the value given for it, otherwise its own default, otherwise nothing; values given explicitly win
whatever they are; user constructors run once with the arguments they declare, along the inheritance chain; and no two instances,
nor an instance and the declaration, share a mutable default."""
import itertools
from ..run import Case
from ._cat import PRE

COVERAGE = """Every subset of given keyword arguments over fields with, without and with falsy or mutable defaults, opaque values; constructor
chains of depth 1..3 with and without user constructors; instance histories of mutate/create/read for list, dict and byte array
defaults; creation from input leaves no trace of defaults."""

SRC = PRE + r'''
def given(names):
    class S(Struct):
        _fields_ = [UBInt8('a'), UBInt8('b', 7), UBInt8('c', 0), FixedSizeArray('d', 2, UBInt8, [1, 2]), VarSizeBuffer('e', UBInt8, b''),
                    BitFields(BitField('f', 4, 3), BitField('g', 4))]
    vals = {}
    for n in names:
        vals[n] = any_obj(n)
    s = S(**vals)
    dflt = {'a': None, 'b': 7, 'c': 0, 'd': [1, 2], 'e': b'', 'f': 3, 'g': None}
    for n in sorted(dflt):
        same(n, getattr(s, n), vals.get(n, dflt[n]))
    t = S()
    for n in sorted(dflt):
        same('fresh-' + n, getattr(t, n), dflt[n])

def falsy(name, v):
    """an explicitly given falsy value is kept although there is a default"""
    class S(Struct):
        _fields_ = [UBInt8('a', 5), FixedSizeArray('l', 2, UBInt8, [1, 2]), VarSizeBuffer('b', UBInt8, b'xy')]
    s = S(**{name: v})
    same('kept', getattr(s, name), v)
    if v is not None:
        same('type', type(getattr(s, name)) is type(v), True)

def user_init(style):
    log = []
    class S(Struct):
        _fields_ = [UBInt8('a', 1), UBInt8('b', 2)]
        def __init__(self, x, b=9, **kw):
            super(S, self).__init__()
            log.append((x, b, sorted(kw)))
            self.x = x
    x, b, a = any_obj('x'), any_uint('b', 8), any_uint('a', 8)
    if style == 'pos':
        s = S(x)
        same('log', log, [(x, 9, [])])
        same('fields', (s.a, s.b, s.x), (1, 2, x))
    elif style == 'kw':
        s = S(x=x, b=b, a=a)
        same('log', log, [(x, b, [])])
        same('fields', (s.a, s.b, s.x), (a, b, x))
    elif style == 'extra':
        s = S(x, a=a, z=1)
        same('log', log, [(x, 9, ['z'])])
        same('fields', (s.a, s.b, s.x), (a, 2, x))

def init_locals(style):
    """names a user constructor uses internally do not make it receive the fields of that name"""
    log = []
    class S(Struct):
        _fields_ = [UBInt8('a', 1), UBInt8('b', 2), UBInt8('args', 3), UBInt8('kw', 4)]
        if style == 'local':
            def __init__(self, a):
                super(S, self).__init__()
                b = args = kw = 7
                log.append((a, b))
        elif style == 'star':
            def __init__(self, *args, **kw):
                super(S, self).__init__()
                b = 7
                log.append((args, sorted(kw)))
        elif style == 'none':
            def __init__(self):
                super(S, self).__init__()
                a = b = 5
                log.append(a)
        else:
            def __init__(self, a=0, *args):
                super(S, self).__init__()
                log.append((a, args))
    a, b, c, d = any_uint('a', 8), any_uint('b', 8), any_uint('c', 8), any_uint('d', 8)
    s = S(a=a, b=b, args=c, kw=d)
    same('fields', (s.a, s.b, s.args, s.kw), (a, b, c, d))
    same('log', log, [{'local': (a, 7), 'star': ((), []), 'none': 5, 'default': (a, ())}[style]])
    same('written', S.write_to_string(s), a.to_bytes(1, 'big') + b.to_bytes(1, 'big') + c.to_bytes(1, 'big') + d.to_bytes(1, 'big'))

def overriding_init():
    """values the user's constructor assigns win over defaults"""
    class S(Struct):
        _fields_ = [UBInt8('a', 1), UBInt8('b', 2)]
        def __init__(self, v):
            super(S, self).__init__()
            self.a = v
    v, b = any_uint('v', 8), any_uint('b', 8)
    s = S(v, b=b)
    same('fields', (s.a, s.b), (v, b))
    same('written', S.write_to_string(s), v.to_bytes(1, 'big') + b.to_bytes(1, 'big'))

def chain(mid):
    log = []
    class A(Struct):
        _fields_ = [UBInt8('a', 1)]
        def __init__(self, *args, **kwargs):
            super(A, self).__init__(*args, **kwargs)
            log.append('A')
    if mid:
        class B(A):
            _fields_ = A._fields_ + [UBInt8('b', 2)]
    else:
        class B(A):
            _fields_ = A._fields_ + [UBInt8('b', 2)]
            def __init__(self, *args, **kwargs):
                super(B, self).__init__(*args, **kwargs)
                log.append('B')
    class C(B):
        def __init__(self, *args, **kwargs):
            super(C, self).__init__(*args, **kwargs)
            log.append('C')
    x, y = any_uint('x', 8), any_uint('y', 8)
    c = C(a=x, b=y)
    same('log', log, ['A', 'C'] if mid else ['A', 'B', 'C'])
    same('fields', (c.a, c.b), (x, y))
    d = C(b=y)
    same('default', (d.a, d.b), (1, y))
    same('written', C.write_to_string(c), x.to_bytes(1, 'big') + y.to_bytes(1, 'big'))
    same('base-object', A.write_to_string(A(a=x)), x.to_bytes(1, 'big'))

def isolation(kind, ops):
    """m mutates the newest instance's value in place, n creates another instance, r reads one from input"""
    if kind == 'list':
        class S(Struct):
            _fields_ = [UBInt8('h', 0), VarSizeArray('v', UBInt8, UBInt8, [1, 2])]
    elif kind == 'bytearray':
        class S(Struct):
            _fields_ = [UBInt8('h', 0), VarSizeBuffer('v', UBInt8, bytearray(b'\1\2'))]
    else:
        class S(Struct):
            _fields_ = [UBInt8('h', 0), Field('v', UBInt8, {1: 2})]
    objs = [S()]
    want = {'list': [1, 2], 'bytearray': bytearray(b'\1\2'), 'dict': {1: 2}}[kind]
    for op in ops:
        if op == 'm':
            if kind == 'dict':
                objs[-1].v[3] = 4
            else:
                objs[-1].v.append(3)
        else:
            objs.append(S())
            same('fresh', objs[-1].v, want)
    same('last', S().v, want)

def list_given(n):
    """the list given by the caller is the value; it is not the default of anything else"""
    class S(Struct):
        _fields_ = [FixedSizeArray('v', 2, UBInt8, [1, 2])]
    mine = [any_uint('x', 8), any_uint('y', 8)]
    s = S(v=mine)
    same('value', s.v, mine)
    t = S()
    same('default', t.v, [1, 2])
    same('written', S.write_to_string(s), bytes(bytearray(mine)))

def kwargs_untouched():
    class S(Struct):
        _fields_ = [UBInt8('a'), UBInt8('b', 2)]
    kw = {'a': 1, 'b': any_uint('b', 8)}
    before = dict(kw)
    S(**kw)
    same('caller-dict', kw, before)

def read_back():
    """reading sets every field from the input, defaults notwithstanding"""
    class S(Struct):
        _fields_ = [UBInt8('a', 9), FixedSizeArray('b', 2, UBInt8, [7, 7]), BitFields(BitField('c', 3, 1), BitField('d', 5, 1))]
    w = any_bytes('w', 4)
    r = S.create_from_string(w)
    same('values', (r.a, r.b, r.c, r.d), (w[0], [w[1], w[2]], w[3] & 7, w[3] >> 3))
    same('fresh', (S().a, S().b, S().c, S().d), (9, [7, 7], 1, 1))

def read_args():
    """extra arguments of a read reach the constructor"""
    log = []
    class S(Struct):
        _fields_ = [UBInt8('a', 9)]
        def __init__(self, x=None):
            super(S, self).__init__()
            log.append(x)
    x = any_obj('x')
    from infi.instruct.base import EMPTY_CONTEXT
    w = any_bytes('w', 1)
    r = S.create_from_string(w, EMPTY_CONTEXT, x)
    same('ctor', log, [x])
    same('a', r.a, w[0])

def class_attribute():
    """a value already provided by the class is not replaced by the default"""
    class S(Struct):
        _fields_ = [UBInt8('a', 1), UBInt8('b', 2)]
        a = 5
    same('class-value', S().a, 5)
    same('given', S(a=any_uint('a', 8)).a, any_uint('a', 8))
    same('written', S.write_to_string(S()), b'\5\2')

def missing_declaration():
    try:
        class S(Struct):
            pass
    except InstructError:
        ok('rejected')
    except Exception as e:
        bad('rejected', e)
    else:
        bad('rejected')
'''


def cases():
    for n in range(8):
        for s in itertools.combinations('abcdefg', n):
            yield Case('given/%s' % ''.join(s), SRC, 'given', (''.join(s),), tier='quick' if n in (0, 1, 2, 6, 7) else 'thorough')
    for n, vs in (('a', [0, False, None]), ('l', [[], (), None]), ('b', [b'', None])):
        for v in vs:
            yield Case('falsy/%s/%r' % (n, v), SRC, 'falsy', (n, v))
    for s in ('pos', 'kw', 'extra'):
        yield Case('user-init/' + s, SRC, 'user_init', (s,))
    for st in ('local', 'star', 'none', 'default'):
        yield Case('init-locals/' + st, SRC, 'init_locals', (st,))
    for m in (True, False):
        yield Case('chain/%s' % m, SRC, 'chain', (m,))
    for k in ('list', 'bytearray', 'dict'):
        for n in (1, 2, 3):
            for s in itertools.product('mn', repeat=n):
                yield Case('isolation/%s/%s' % (k, ''.join(s)), SRC, 'isolation', (k, ''.join(s)))
    for f in ('overriding_init', 'list_given', 'kwargs_untouched', 'read_back', 'read_args', 'class_attribute', 'missing_declaration'):
        yield Case(f, SRC, f, (1,) if f == 'list_given' else ())
