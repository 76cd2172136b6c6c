"""Refutation of term equalities.  A difference between two abstract terms is reported only when a valuation of the opaque
inputs is found that satisfies every fact of the path and under which the terms denote different values (random
interpretation of value-numbered terms).  Operators without an exact interpretation evaluate to an unknown, and a
difference that depends on an unknown is never reported."""
import math
import random
import struct as _struct
from .bits import *


class Unk(object):
    """unknown value; free: rooted in an opaque input and unconstrained"""
    __slots__ = ('key', 'free')

    def __init__(self, key, free=False):
        self.key, self.free = key, free

    def __eq__(self, o):
        return isinstance(o, Unk) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '?'


class Opaque(object):
    """an unconstrained opaque input: distinct from everything else"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<%s>' % (self.name,)


class Bytes2(object):
    pass


def has_unk(v):
    if isinstance(v, Unk):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_unk(x) for x in v)
    return False


def neq(a, b):
    """True: definitely different; False: equal; None: unknown"""
    if isinstance(a, Unk) or isinstance(b, Unk):
        return False if isinstance(a, Unk) and isinstance(b, Unk) and a == b else None
    if isinstance(a, tuple) and a[:1] == ('bytes',) and isinstance(b, bytes):
        b = ('bytes',) + tuple(b)
    if isinstance(b, tuple) and b[:1] == ('bytes',) and isinstance(a, bytes):
        a = ('bytes',) + tuple(a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return True
        r = False
        for x, y in zip(a, b):
            d = neq(x, y)
            if d is True:
                return True
            if d is None:
                r = None
        return r
    if isinstance(a, tuple) != isinstance(b, tuple):
        return True
    try:
        return not a == b
    except Exception:
        return None


POOL = [0, 1, -1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536,
        -2, -128, -129, -32768, -32769, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, -2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, 2 ** 63,
        2 ** 64 - 1, 2 ** 64, -2 ** 63, -2 ** 63 - 1]


class Env(object):
    def __init__(self, e, seed, facts):
        self.e, self.facts = e, facts
        self.rng = random.Random(seed)
        self.mode = self.rng.random()
        self.memo = {}
        self.vals = {}
        self.forced, self.fbits, self.lo, self.hi = {}, {}, {}, {}
        self.direct()

    # -------------------------------------------------------------- facts that fix the value of one atom
    def direct(self):
        for a, val in self.facts:
            if not isinstance(a, App):
                continue
            if a.op == 'bit':
                self.fbits.setdefault(a.args[0], {})[a.args[1].v] = int(val)
            elif a.op == 'eq0' and val:
                li = to_lin(a.args[0])
                if li and len(li[0]) == 1:
                    (t, c), = li[0].items()
                    x = -li[1] / c if (isinstance(c, float) or isinstance(li[1], float)) else Fraction(-li[1]) / Fraction(c)
                    if x == int(x):
                        self.force(t, int(x))
                elif li and len(li[0]) == 2:
                    self.pair(li)
            elif a.op == 'gt0':
                li = to_lin(a.args[0])
                if li and len(li[0]) == 1:
                    (t, c), = li[0].items()
                    b = Fraction(-li[1]) / Fraction(c)
                    # c*t + k > 0 is val
                    if (c > 0) == val:
                        lo = math.floor(b) + 1 if val else math.ceil(b)
                        self.lo[t] = max(self.lo.get(t, lo), lo)
                    else:
                        hi = math.ceil(b) - 1 if val else math.floor(b)
                        self.hi[t] = min(self.hi.get(t, hi), hi)
            elif a.op == 'eq' and val:
                x, y = a.args
                if isinstance(y, K):
                    self.forced[x] = y.v
                elif isinstance(x, K):
                    self.forced[y] = x.v

    def pair(self, li):
        pass

    def force(self, t, x):
        self.forced[t] = x
        if isinstance(t, App) and t.op == 'bits':
            for i, s in enumerate(t.args[0]):
                if isinstance(s, tuple):
                    self.fbits.setdefault(s[0], {})[s[1]] = (x >> i) & 1
        elif isinstance(t, App) and t.op == 'sext':
            for i, s in enumerate(t.args[0]):
                if isinstance(s, tuple):
                    self.fbits.setdefault(s[0], {})[s[1]] = (x >> i) & 1

    def fix(self, t, x, n=None):
        if t in self.forced and isinstance(self.forced[t], (int, bytes, str, float)):
            return self.forced[t]
        fb = self.fbits.get(t)
        if fb and isinstance(x, int):
            for i, b in fb.items():
                x = x | 1 << i if b else x & ~(1 << i)
        lo, hi = self.lo.get(t), self.hi.get(t)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            l, h = lo if lo is not None else (hi - 70000 if n is None else 0), hi if hi is not None else (
                lo + 70000 if n is None else n)
            if l <= h:
                x = self.rng.choice([l, h, self.rng.randint(l, h)])
        return x

    def int_(self):
        return self.rng.choice(POOL) if self.rng.random() < .5 else self.rng.randint(-300, 300) if self.rng.random() < .5 \
            else self.rng.randint(-2 ** 66, 2 ** 66)

    def byte(self):
        r = self.rng.random()
        return self.rng.choice((0, 255, 1, 128, 32)) if r < (.15 if self.mode < .6 else .7) else self.rng.randint(0, 255)

    def free(self, t):
        if t in self.vals:
            return self.vals[t]
        c = self.e.config
        ty = self.e.ty(t)
        n = self.e.known_len(t)
        if n is not None or ty in ('bytes', 'bytearray'):
            if n is None:
                n = self.rng.randint(0, 5)
                ln = App('len', t)
                if ln in self.forced or ln in self.lo or ln in self.hi:
                    n = self.fix(ln, n)
                    n = n if 0 <= n < 5000 else 0
            b = [self.byte() for _ in range(n)]
            for i in range(n):
                g = App('getitem', t, K(i))
                b[i] = self.fix(g, b[i], 255) & 255
            x = bytes(b)
            if t in self.forced and isinstance(self.forced[t], bytes):
                x = self.forced[t]
        elif t in c.get('text_len', {}):
            x = ''.join(self.rng.choice('abcxyzABCXYZ0189') if t in c.get('words', ()) else chr(self.rng.randint(33, 126)) for _ in range(c['text_len'][t]))
            x = list(x)
            en = [k for k in self.forced if isinstance(k, App) and k.op == 'getitem' and isinstance(k.args[0], App)
                  and k.args[0].op == 'enc' and k.args[0].args[0] == t]
            for k in en:
                x[k.args[1].v] = chr(self.forced[k])
            x = ''.join(x)
        elif t in c.get('uint', {}):
            w = c['uint'][t]
            x = self.fix(t, self.rng.choice((0, (1 << w) - 1, self.rng.randrange(1 << w), self.rng.randrange(1 << w))), (1 << w) - 1)
        elif ty in ('int', 'nat', 'num'):
            x = self.int_()
            x = self.fix(t, abs(x) if ty == 'nat' else x)
        elif ty == 'float':
            x = self.rng.choice((0.0, 1.5, -2.25, 1e10, 1e39, -1e300, float('inf'), 0.1, self.rng.randint(-10 ** 6, 10 ** 6) / 8.0))
            if t in self.forced:
                x = self.forced[t]
        elif ty == 'str':
            x = ''.join(chr(self.rng.randint(33, 126)) for _ in range(self.rng.randint(0, 6)))
            if t in self.forced and isinstance(self.forced[t], str):
                x = self.forced[t]
        elif ty == 'bool':
            x = self.rng.random() < .5
        elif t in self.forced:
            x = self.forced[t]
        else:
            x = Opaque(t.name if isinstance(t, Sym) else repr(t))
        self.vals[t] = x
        return x

    # -------------------------------------------------------------- terms
    def src(self, s):
        if s in (0, 1):
            return s
        v = self.ev(s[0])
        if isinstance(v, int):
            return (v >> s[1]) & 1
        return Unk(('bit', s))

    def ev(self, t):
        if not isinstance(t, V):
            if isinstance(t, (tuple, list)):
                return tuple(self.ev(x) for x in t)
            return t
        if t in self.memo:
            return self.memo[t]
        try:
            r = self.ev_(t)
        except (TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, AttributeError, _struct.error, KeyError):
            r = Unk(t)
        self.memo[t] = r
        return r

    def ev_(self, t):
        if isinstance(t, K):
            return t.v
        if isinstance(t, Tup):
            return ('T',) + tuple(self.ev(x) for x in t.items)
        if isinstance(t, Sym):
            return self.free(t)
        if not isinstance(t, App):
            return Opaque(repr(t))
        op, a = t.op, t.args
        if op == 'user':
            k = (a[0],) + tuple(self.ev(x) for x in a[1:])
            if has_unk(k):
                return Unk(t)
            kk = App('userv', repr(k), ty=t.ty)
            return self.free(kk)
        if op == 'lin':
            s = a[1]
            for x, c in a[0]:
                v = self.ev(x)
                if isinstance(v, Unk):
                    return Unk(t)
                if isinstance(v, Opaque):
                    return Unk(t)
                s = s + (Fraction(v) if isinstance(v, float) and isinstance(c, Fraction) else v) * c
            return int(s) if isinstance(s, Fraction) and s.denominator == 1 else float(s) if isinstance(s, Fraction) else s
        if op == 'bitlen':
            r = self.ev(App('bits', a[0], ty='int'))
            return r.bit_length() if isinstance(r, int) else Unk(t)
        if op in ('bits', 'sext'):
            r = 0
            for i, s in enumerate(a[0]):
                b = self.src(s)
                if isinstance(b, Unk):
                    return Unk(t)
                r |= b << i
            if op == 'sext' and a[0] and r >> (len(a[0]) - 1):
                r -= 1 << len(a[0])
            return r
        if op == 'vec':
            xs = [self.ev(x) for x in a[0]]
            if any(isinstance(x, Unk) for x in xs):
                return ('bytes',) + tuple(xs)
            return bytes(xs)
        if op == 'cat':
            xs = [self.ev(x) for x in a]
            if all(isinstance(x, (bytes, bytearray)) for x in xs):
                return b''.join(xs)
            if all(isinstance(x, str) for x in xs):
                return ''.join(xs)
            return Unk(t)
        if op in ('bytes', 'bytearray', 'list', 'tuple') and len(a) == 1 and isinstance(a[0], Tup):
            return bytes([self.ev(x) for x in a[0].items]) if op in ('bytes', 'bytearray') else Unk(t)
        if op in ('bytes', 'bytearray'):
            v = self.ev(a[0])
            return bytes(v) if isinstance(v, (bytes, bytearray)) or isinstance(v, int) and 0 <= v < 10000 else Unk(t)
        if op == 'zeros':
            n = self.ev(a[0])
            return bytes(n) if isinstance(n, int) and 0 <= n < 10000 else Unk(t)
        if op == 'enc':
            v, enc = self.ev(a[0]), self.ev(a[1])
            return v.encode(enc) if isinstance(v, str) else Unk(t)
        if op == 'dec':
            v, enc = self.ev(a[0]), self.ev(a[1])
            return bytes(v).decode(enc) if isinstance(v, (bytes, bytearray)) else Unk(t)
        if op == 'fbyte':
            n, v, i = [self.ev(x) for x in a]
            return bytearray(_struct.pack('<f' if n == 4 else '<d', v))[i] if isinstance(v, (int, float)) else Unk(t)
        if op == 'float':
            xs = [self.ev(x) for x in a[1].items]
            if any(isinstance(x, Unk) for x in xs):
                return Unk(t)
            b = bytes(xs)
            v = _struct.unpack('<f' if self.ev(a[0]) == 4 else '<d', b)[0]
            return ('nan', b) if v != v else v
        if op == 'fround':
            v = self.ev(a[1])
            f = '<f' if self.ev(a[0]) == 4 else '<d'
            return _struct.unpack(f, _struct.pack(f, v))[0] if isinstance(v, (int, float)) else Unk(t)
        if op == 'beq':
            for x, i, w in a[0]:
                b = self.src((x, i))
                if isinstance(b, Unk):
                    return Unk(t)
                if b != w:
                    return False
            return True
        if op == 'raises':
            x = a[0]
            if isinstance(x, App) and x.op == 'pack':
                xs = [self.ev(y) for y in x.args]
                if any(has_unk(y) or isinstance(y, (Opaque, tuple)) for y in xs):
                    return Unk(t)
                try:
                    _struct.pack(*xs)
                    return False
                except _struct.error:
                    return a[1] == 'struct.error'
                except OverflowError:
                    return a[1] == 'OverflowError'
            return Unk(t)
        args = None
        if op in ('getitem', 'slice', 'slice3', 'repeat', 'len', 'floor', 'ceil', 'min', 'max', 'mul', 'shl', 'shr', 'band', 'bor',
                  'bxor', 'floordiv', 'mod', 'truediv', 'div', 'abs', 'int', 'reversed', 'str', 'isnone', 'gt0', 'eq0', 'eq', 'not',
                  'truth', 'bit', 'pow', 'in', 'chr', 'ord'):
            args = [self.ev(x) for x in a]
            if any(isinstance(x, Unk) for x in args):
                return Unk(t, all(x.free for x in args if isinstance(x, Unk)))
            if any(isinstance(x, Opaque) for x in args):
                if op == 'isnone':
                    return Unk(t, True)
                return Unk(t, op in ('truth', 'eq', 'in', 'not'))
        if op == 'getitem':
            return args[0][args[1]] if isinstance(args[0], (bytes, str)) else Unk(t)
        if op == 'slice' or op == 'slice3':
            return args[0][slice(*args[1:])] if isinstance(args[0], (bytes, str)) else Unk(t)
        if op == 'repeat':
            return args[0] * args[1] if isinstance(args[0], (bytes, str)) and args[1] < 100000 else Unk(t)
        if op == 'len':
            return len(args[0]) if isinstance(args[0], (bytes, str)) else len(args[0]) - 1 if isinstance(args[0], tuple) else Unk(t)
        if op == 'floor':
            return math.floor(args[0])
        if op == 'ceil':
            return math.ceil(args[0])
        if op == 'min':
            return min(args)
        if op == 'max':
            return max(args)
        if op == 'mul':
            return args[0] * args[1]
        if op == 'shl':
            return args[0] << args[1] if args[1] < 5000 else Unk(t)
        if op == 'shr':
            return args[0] >> args[1]
        if op == 'band':
            return args[0] & args[1]
        if op == 'bor':
            return args[0] | args[1]
        if op == 'bxor':
            return args[0] ^ args[1]
        if op == 'floordiv':
            return args[0] // args[1]
        if op == 'mod':
            return args[0] % args[1] if not isinstance(args[0], (str, bytes)) else Unk(t)
        if op in ('truediv', 'div'):
            return args[0] / args[1]
        if op == 'abs':
            return abs(args[0])
        if op == 'int' and isinstance(args[0], (int, float)):
            return int(args[0])
        if op == 'reversed' and isinstance(args[0], bytes):
            return args[0][::-1]
        if op == 'str' and len(args) == 1 and isinstance(args[0], (int, str)):
            return str(args[0])
        if op == 'isnone':
            return args[0] is None
        if op == 'gt0':
            return args[0] > 0
        if op == 'eq0':
            return args[0] == 0
        if op == 'eq':
            return args[0] == args[1]
        if op == 'not':
            return not args[0]
        if op == 'truth':
            return bool(args[0]) if not isinstance(args[0], tuple) else len(args[0]) > 1
        if op == 'bit':
            return (args[0] >> args[1]) & 1 == 1
        if op == 'in' and isinstance(args[1], (bytes, str)):
            return args[0] in args[1]
        if op in ('and', 'or'):
            vs = [self.ev(x) for x in a]
            if any(has_unk(v) or isinstance(v, Opaque) for v in vs):
                return Unk(t)
            return all(vs) if op == 'and' else any(vs)
        if op == 'call' and isinstance(a[0], App) and a[0].op == 'attr':
            o = self.ev(a[0].args[0])
            m = a[0].args[1]
            fa = [self.ev(x) for x in a[1]]
            if isinstance(o, (bytes, str, int)) and not isinstance(o, bool) and not has_unk(tuple(fa)) and not a[2] and m in (
                    'strip', 'lstrip', 'rstrip', 'ljust', 'rjust', 'center', 'decode', 'encode', 'bit_length', 'startswith',
                    'endswith', 'upper', 'lower') and not any(isinstance(x, (Opaque, tuple)) for x in fa):
                return getattr(o, m)(*fa)
            return Unk(t)
        if op == 'isinstance':
            v = self.ev(a[0])
            return Unk(t, isinstance(v, Opaque))
        if op in ('hasattr',):
            return Unk(t, isinstance(self.ev(a[0]), Opaque))
        if op in ('inst', 'objid', 'excinst'):
            return Opaque(repr(t))
        return Unk(t)

    def feasible(self):
        """True / False / None (cannot tell)"""
        r = True
        for a, val in self.facts:
            v = self.ev(a)
            if isinstance(v, Unk):
                if not v.free:
                    r = None
                continue
            if isinstance(v, Opaque):
                continue
            if bool(v) != val:
                return False
        return r


def search(e, facts, a, b, n=1500, seed=1):
    """('bad', env, va, vb) | ('same', samples) | ('undecided', why)"""
    ok, unk, sure = 0, 0, 0
    for k in range(n):
        env = Env(e, seed * 1000003 + k, facts)
        f = env.feasible()
        if f is False:
            if k > 400 and ok == 0:
                return ('undecided', 'no valuation satisfies the path facts')
            continue
        va, vb = env.ev(a), env.ev(b)
        d = neq(va, vb)
        if d is True and f is True:
            return ('bad', env, va, vb)
        if f is None or d is None:
            unk += 1
            if unk > 40 and ok == 0:
                return ('undecided', 'terms or facts without exact interpretation')
        ok += 1
        if ok >= 250:
            break
    if ok == 0:
        return ('undecided', 'no valuation satisfies the path facts')
    if unk:
        return ('undecided', 'terms or facts without exact interpretation')
    return ('same', ok)
