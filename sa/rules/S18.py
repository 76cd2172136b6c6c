"""Looking is not touching: writing an object, asking for its size, its bounds or its representation, and reading further objects changes
neither the values it holds, nor the containers handed in by the caller, nor what the next write produces."""
import itertools
from ..run import Case
from ._cat import PRE, ALL

COVERAGE = """Every field kind of the catalogue (thorough: every pair) x every sequence of up to two (thorough: three) of write, to_bytes, size, bounds,
repr, read another, failing write on a constructed and on a read object; snapshots of all field values and of caller-owned lists,
byte arrays, dictionaries, before and after."""

SRC = PRE + r'''
def snap(v):
    if isinstance(v, list):
        r = []
        for x in v:
            r.append(snap(x))
        return r
    if isinstance(v, Struct):
        return v.to_bytes()
    return v

def values(o, names):
    r = []
    for n in names:
        r.append(snap(getattr(o, n, 'absent')))
    return r

class Broken(object):
    """a stream that fails after k writes"""
    def __init__(self, k):
        self.k = k
    def write(self, b):
        if self.k == 0:
            raise IOError('full')
        self.k -= 1
        return len(b)

def act(S, o, enc, op):
    if op == 'write':
        same('write', S.write_to_string(o), enc)
    elif op == 'bytes':
        same('to-bytes', o.to_bytes(), enc)
    elif op == 'size':
        same('sizeof', S.sizeof(o), len(enc))
    elif op == 'bounds':
        mm = S.min_max_sizeof()
        holds('bounds', mm.min <= len(enc) <= mm.max)
    elif op == 'repr':
        try:
            S.to_repr(o)
            o.__repr__()
        except Exception:
            pass
    elif op == 'read':
        S.create_from_string(enc)
    elif op == 'short':
        try:
            S.create_from_string(enc[:len(enc) - 1])
        except Exception:
            pass
    elif op == 'fail':
        try:
            S.write_to_stream(o, Broken(1))
        except Exception:
            pass

def history(kinds, ops, origin):
    S, kw, enc, dec, fixed = build(kinds)
    o = S(**kw) if origin == 'made' else S.create_from_string(enc)
    names = sorted(set(list(kw) + list(dec)))
    before = values(o, names)
    present = [n for n in names if hasattr(o, n)]
    given = {}
    for n in kw:
        given[n] = snap(kw[n])
    for op in ops:
        act(S, o, enc, op)
    same('values', values(o, names), before)
    same('attributes', [n for n in names if hasattr(o, n)], present)
    for n in kw:
        same('given-' + n, snap(kw[n]), given[n])
    same('final', S.write_to_string(o), enc)

def identity():
    """writing keeps the very containers the caller put in"""
    l, i, a = [1, 2], Inner(p=1, q=2), bytearray(b'ab')
    class S(Struct):
        _fields_ = [VarSizeArray('l', UBInt8, UBInt8), Field('i', Inner), FixedSizeBuffer('a', 2)]
    o = S(l=l, i=i, a=a)
    S.write_to_string(o)
    S.sizeof(o)
    holds('list', o.l is l)
    holds('struct', o.i is i)
    holds('buffer', o.a is a)
    same('list-value', l, [1, 2])
    l.append(any_uint('x', 8))
    same('live', S.write_to_string(o), b'\3\1\2' + l[2].to_bytes(1, 'big') + b'\1\2\0ab')

def reread():
    """values read from a stream do not alias each other or a later read"""
    w = any_bytes('w', 3)
    class S(Struct):
        _fields_ = [FixedSizeArray('l', 2, UBInt8), UBInt8('t')]
    a, b = S.create_from_string(w), S.create_from_string(w)
    a.l.append(7)
    a.t = 9
    same('other', (b.l, b.t), ([w[0], w[1]], w[2]))
    same('third', S.create_from_string(w).l, [w[0], w[1]])

def stored_instance():
    """changing an object after it was written changes only later output"""
    i = Inner(p=1, q=2)
    class S(Struct):
        _fields_ = [Field('i', Inner), Field('j', Inner)]
    o = S(i=i, j=Inner(p=3, q=4))
    d = S.write_to_string(o)
    i.p = any_uint('p', 8)
    same('first', d, b'\1\2\0\3\4\0')
    same('second', S.write_to_string(o), i.p.to_bytes(1, 'big') + b'\2\0\3\4\0')
'''
OPS = ('write', 'bytes', 'size', 'bounds', 'repr', 'read', 'short', 'fail')


def cases():
    for k in ALL:
        for origin in ('made', 'read'):
            for op in OPS:
                yield Case('one/%s/%s/%s' % (k, origin, op), SRC, 'history', ((k,), (op,), origin))
            yield Case('all/%s/%s' % (k, origin), SRC, 'history', ((k,), OPS, origin))
            for ops in itertools.permutations(('write', 'size', 'repr', 'read', 'fail'), 2):
                yield Case('two/%s/%s/%s' % (k, origin, '.'.join(ops)), SRC, 'history', ((k,), ops, origin), tier='thorough')
    for a, b in itertools.product(ALL, ALL):
        if ('opt' in a) and ('opt' in b):
            continue
        yield Case('pair/%s+%s' % (a, b), SRC, 'history', ((a, b), ('write', 'size', 'repr', 'fail'), 'read'), tier='thorough')
    for f in ('identity', 'reread', 'stored_instance'):
        yield Case(f, SRC, f)
