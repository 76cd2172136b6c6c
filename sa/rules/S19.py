"""Declarations are immutable in use: whatever happened before, however it failed, and whatever else is in progress, a declaration reads and
writes as on its first use; the field lists, mappings, defaults and lists the user declared it from stay as they were."""
import itertools
from ..run import Case
from ._cat import PRE, ALL

COVERAGE = """Every field kind of the catalogue x every history of up to two (thorough: three) of good write, good read, write of unset / text / oversized
values, truncated read at every cut, failing stream, size, bounds, repr, constructor misuse; re-entrant use: every stream operation
of a read or write performs another read or write of the same declaration; one declaration in two classes; user-owned lists and
dictionaries before and after."""

SRC = PRE + r'''
def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception:
        return None

class Broken(object):
    def __init__(self, k):
        self.k = k
    def write(self, b):
        if self.k == 0:
            raise IOError('full')
        self.k -= 1
        return len(b)
    def read(self, n):
        raise IOError('gone')

def act(S, kw, enc, op, kw2={}):
    if op == 'half':
        # operations that fail in the middle, with other values before the failing one
        for n in sorted(kw2):
            for v in (None, 'text', 1 << 200, [None]):
                bad_kw = dict(kw2)
                bad_kw[n] = v
                attempt(lambda: S.write_to_string(S(**bad_kw)))
                attempt(lambda: S.sizeof(S(**bad_kw)))
                attempt(lambda: S.to_repr(S(**bad_kw)))
    elif op == 'other':
        d = S.write_to_string(S(**kw2))
        S.create_from_string(d)
    elif op == 'write':
        S.write_to_string(S(**kw))
    elif op == 'read':
        S.create_from_string(enc)
    elif op == 'unset':
        attempt(S.write_to_string, S())
    elif op == 'wrong':
        bad_kw = {}
        for n in kw:
            bad_kw[n] = 'text'
        attempt(lambda: S.write_to_string(S(**bad_kw)))
    elif op == 'big':
        bad_kw = {}
        for n in kw:
            v = kw[n]
            bad_kw[n] = [1] * 300 if isinstance(v, list) else b'z' * 300 if isinstance(v, bytes) else 1 << 200
        attempt(lambda: S.write_to_string(S(**bad_kw)))
    elif op == 'cut':
        for k in range(len(enc)):
            attempt(S.create_from_string, enc[:k])
    elif op == 'noise':
        attempt(S.create_from_string, b'\xff' * len(enc))
    elif op == 'fail':
        attempt(lambda: S.write_to_stream(S(**kw), Broken(0)))
        attempt(lambda: S.write_to_stream(S(**kw), Broken(1)))
        attempt(lambda: S.create_from_stream(Broken(0)))
    elif op == 'size':
        S.sizeof(S(**kw))
        S.min_max_sizeof()
        attempt(lambda: S.sizeof(S()))
    elif op == 'repr':
        attempt(lambda: S.to_repr(S(**kw)))
        attempt(lambda: S(**kw).__repr__())
        attempt(lambda: S().__repr__())
    elif op == 'misuse':
        attempt(lambda: S(1, 2, 3, nonsense=4))
        attempt(lambda: S.create_from_string('text'))

def verify(tag, S, kw, enc, dec):
    same(tag + 'written', S.write_to_string(S(**kw)), enc)
    same(tag + 'size', S.sizeof(S(**kw)), len(enc))
    st = BytesIO(enc + b'$$')
    r = S.create_from_stream(st)
    same(tag + 'consumed', st.tell(), len(enc))
    for n in sorted(dec):
        same(tag + 'read-' + n, getattr(r, n), dec[n])
    same(tag + 'rewrite', S.write_to_string(r), enc)

def history(kinds, ops):
    S, kw, enc, dec, fixed = build(kinds)
    kw2 = build(kinds, 'other-')[1]
    mm = S.min_max_sizeof()
    fields = list(S._fields_)
    for op in ops:
        act(S, kw, enc, op, kw2)
    verify('', S, kw, enc, dec)
    same('bounds', S.min_max_sizeof(), mm)
    same('field-count', len(S._fields_), len(fields))
    for i in range(len(fields)):
        holds('field-%d' % i, S._fields_[i] is fields[i])

class Nosy(object):
    """every operation first runs a whole other use of the declaration"""
    def __init__(self, data, hook):
        self.st, self.hook, self.busy = BytesIO(data), hook, False
    def poke(self):
        if not self.busy:
            self.busy = True
            self.hook()
            self.busy = False
    def read(self, n=-1):
        self.poke()
        r = self.st.read(n)
        self.poke()
        return r
    def write(self, b):
        self.poke()
        r = self.st.write(b)
        self.poke()
        return r
    def tell(self):
        return self.st.tell()

def reentrant(kinds, inner):
    S, kw, enc, dec, fixed = build(kinds)
    kw2 = build(kinds, 'other-')[1]
    def hook():
        if inner in ('write', 'both'):
            S.write_to_string(S(**kw))
        if inner in ('read', 'both'):
            S.create_from_string(enc)
        if inner == 'short':
            attempt(S.create_from_string, enc[:len(enc) - 1])
        if inner == 'other':
            S.create_from_string(S.write_to_string(S(**kw2)))
        if inner == 'half':
            act(S, kw, enc, 'half', kw2)
    st = Nosy(enc + b'$$', hook)
    r = S.create_from_stream(st)
    same('consumed', st.tell(), len(enc))
    for n in sorted(dec):
        same('read-' + n, getattr(r, n), dec[n])
    same('rewrite', S.write_to_string(r), enc)
    st = Nosy(b'', hook)
    S.write_to_stream(S(**kw), st)
    same('written', st.st.getvalue(), enc)

def two_classes(kinds):
    """one declaration used in two classes, and in a subclass that adds fields"""
    S, kw, enc, dec, fixed = build(kinds)
    fields = list(S._fields_)
    class T(Struct):
        _fields_ = list(fields)
    class U(S):
        _fields_ = fields + [UBInt8('u_extra')]
    verify('t-', T, kw, enc, dec)
    kw2, dec2 = dict(kw), dict(dec)
    kw2['u_extra'] = dec2['u_extra'] = 5
    verify('u-', U, kw2, enc + b'\5', dec2)
    verify('s-', S, kw, enc, dec)
    same('list', len(fields), len(S._fields_))

def owned():
    """lists and dictionaries the user declared with belong to the user"""
    m1, m2 = {'a': 1, 'b': 2}, {1: KA, 2: KB}
    bits = [BitField('x', 3), BitField('y', 5)]
    lz = [UBInt8('p'), UBInt8('q')]
    dl, dd = [1, 2], {'k': 3}
    pos = [slice(0, 4), slice(12, 16)]
    fields = [MappingField('m', UBInt8, m1), Field('s', StructSelector(UBInt8, m2)), BitFields(*bits), Lazy(*lz),
              FixedSizeArray('l', 2, UBInt8, dl), BitFields(BitField('z', pos), BitField('w', Bits[4:12]))]
    copy = list(fields)
    class S(Struct):
        _fields_ = fields
    o = S(m='a', s=KA(a=1), x=1, y=2, p=3, q=4, z=5, w=6)
    d = S.write_to_string(o)
    r = S.create_from_string(d)
    r.l.append(3)
    r.p = 9
    r.m = 'b'
    attempt(S.create_from_string, d[:3])
    attempt(lambda: setattr(r, 'nope', 1))
    attempt(S.create_from_string, b'\x09' * len(d))
    same('mapping', m1, {'a': 1, 'b': 2})
    same('selector', (len(m2), m2[1] is KA, m2[2] is KB), (2, True, True))
    same('bits', len(bits), 2)
    same('lazy', len(lz), 2)
    same('default', dl, [1, 2])
    same('positions', pos, [slice(0, 4), slice(12, 16)])
    same('fields', (len(fields), all(fields[i] is copy[i] for i in range(len(copy)))), (6, True))
    same('again', S.write_to_string(o), d)

def user_mapping_later():
    """entries the user adds to a mapping later do not tear a declaration apart: what it writes it can read"""
    m = {'a': 1}
    class S(Struct):
        _fields_ = [MappingField('m', UBInt8, m)]
    m['b'] = 2
    try:
        d = S.write_to_string(S(m='b'))
    except Exception:
        ok('not-known')
        return
    try:
        r = S.create_from_string(d)
    except Exception as e:
        ok('half-known')
    else:
        same('known', r.m, 'b')
'''
OPS = ('write', 'half', 'other', 'read', 'unset', 'wrong', 'big', 'cut', 'noise', 'fail', 'size', 'repr', 'misuse')


def cases():
    for k in ALL:
        for op in OPS:
            yield Case('history/%s/%s' % (k, op), SRC, 'history', ((k,), (op,)))
        yield Case('history/%s/all' % k, SRC, 'history', ((k,), OPS))
        for ops in itertools.product(('half', 'read', 'other', 'cut', 'fail'), repeat=2):
            yield Case('history/%s/%s' % (k, '.'.join(ops)), SRC, 'history', ((k,), ops), tier='thorough')
        for i in ('write', 'read', 'short', 'other'):
            yield Case('reentrant/%s/%s' % (k, i), SRC, 'reentrant', ((k,), i))
        yield Case('reentrant/%s/half' % k, SRC, 'reentrant', ((k,), 'half'), tier='thorough')
        yield Case('two-classes/' + k, SRC, 'two_classes', ((k,),))
    for a, b in itertools.product(ALL, ALL):
        if ('opt' in a) and ('opt' in b):
            continue
        yield Case('history/%s+%s' % (a, b), SRC, 'history', ((a, b), ('half', 'cut')), tier='thorough')
        yield Case('reentrant/%s+%s' % (a, b), SRC, 'reentrant', ((a, b), 'both'), tier='thorough')
    for f in ('owned', 'user_mapping_later'):
        yield Case(f, SRC, f)
