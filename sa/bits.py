"""Bit-provenance domain: non-negative integers of bounded width as vectors of bit sources, byte strings of known length
as vectors of byte terms.  A bit source is 0, 1 or (term, i): bit i (two's complement) of an opaque integer.  Everything
here is a normal form computed by rewriting; nothing is solved and nothing of the analysed code is executed."""
import json as _json
import struct as _struct
from .evalr import *
from .evalr import Evaluator as _Base

INT_CODES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}
NATIVE_L = 8


CHARWISE = ('ascii', 'utf-8', 'latin-1')


class Evaluator(_Base):
    # ------------------------------------------------------------------ lifting
    def lift(self, v):
        """bit vector (least significant first) of an integer known to lie in [0, 2**n), else None"""
        if isinstance(v, K):
            if isinstance(v.v, (int, bool)) and v.v >= 0:
                n = int(v.v)
                return tuple((n >> i) & 1 for i in range(n.bit_length()))
            return None
        if isinstance(v, App):
            if v.op == 'bits':
                return v.args[0]
            if v.op in ('band', 'bor', 'bxor') and len(v.args) == 3:
                return ((v, 0),)
            if v.op == 'fbyte' or v.op == 'getitem' and isinstance(v.args[1], K) and isinstance(v.args[1].v, int) \
                    and self.ty(v.args[0]) in ('bytes', 'bytearray'):
                return tuple((v, i) for i in range(8))
            if v.op == 'elem' and self.ty(v.args[0]) in ('bytes', 'bytearray'):
                return tuple((v, i) for i in range(8))
        if isinstance(v, Sym):
            n = self.config.get('uint', {}).get(v)
            if n is not None:
                return tuple((v, i) for i in range(n))
        return None

    def low(self, v, n):
        """the low n bits of an integer term"""
        b = self.lift(v)
        if b is not None:
            return (b + (0,) * n)[:n]
        if isinstance(v, K):
            return tuple((int(v.v) >> i) & 1 for i in range(n))
        if isinstance(v, App):
            if v.op == 'shr' and isinstance(v.args[1], K):
                k = v.args[1].v
                return self.low(v.args[0], n + k)[k:]
            if v.op == 'sext':
                s = v.args[0]
                return (s + (s[-1],) * n)[:n]
            if v.op == 'lin':
                d, c = dict(v.args[0]), v.args[1]
                if c == 0 and all(isinstance(k, int) and k > 0 and k & (k - 1) == 0 for k in d.values()):
                    out = [0] * n
                    for a, k in sorted(d.items(), key=lambda p: p[0].sk()):
                        s = k.bit_length() - 1
                        if s >= n:
                            continue
                        bs = self.low(a, n - s)
                        for i, x in enumerate(bs):
                            if x != 0:
                                if out[s + i] != 0:
                                    out = None
                                    break
                                out[s + i] = x
                        if out is None:
                            break
                    if out is not None:
                        return tuple(out)
        return tuple((v, i) for i in range(n))

    def mkbits(self, bits):
        bits = tuple(bits)
        while bits and bits[-1] == 0:
            bits = bits[:-1]
        if all(b in (0, 1) for b in bits):
            return K(sum(b << i for i, b in enumerate(bits)))
        t = bits[0]
        if isinstance(t, tuple) and t[1] == 0 and self.lift(t[0]) == bits:
            return t[0]
        return App('bits', bits, ty='int')

    def brange(self, v):
        if isinstance(v, App) and v.op == 'bitlen':
            return self.bitlen_range(v)
        if isinstance(v, App) and v.op in ('min', 'max') and v.args:
            rs = [(x.v, x.v) if isinstance(x, K) else self.brange(x) for x in v.args]
            f = min if v.op == 'min' else max
            return None if None in rs else (f(r[0] for r in rs), f(r[1] for r in rs))
        b = self.lift(v)
        if b is None:
            if isinstance(v, App) and v.op == 'sext':
                n = len(v.args[0])
                return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            if isinstance(v, App) and v.op == 'lin':
                r = self.interval(v)
                return r if r is not None and all(isinstance(x, int) or x == int(x) for x in r if x != float('inf')
                                                  and x != float('-inf')) else None
            return None
        lo = sum(1 << i for i, x in enumerate(b) if x == 1)
        return lo, sum(1 << i for i, x in enumerate(b) if x != 0)

    # ------------------------------------------------------------------ bit lengths
    def bitlen_range(self, v):
        b = v.args[0]
        lo, hi = 0, 0
        for i, s in enumerate(b):
            if s not in (0, 1):
                f = self.facts.get(App('bit', s[0], K(s[1])))
                s = None if f is None else int(f)
            if s != 0:
                hi = i + 1
            if s == 1:
                lo = i + 1
        return lo, hi

    def bitlen(self, bits):
        v = App('bitlen', tuple(bits), ty='int')
        lo, hi = self.bitlen_range(v)
        return K(lo) if lo == hi else v

    def branch(self, atom):
        d = self.decide(atom)
        if d is not None:
            return d
        r = super(Evaluator, self).branch(atom)
        if atom.op == 'gt0':
            li = to_lin(atom.args[0])
            if len(li[0]) == 1:
                (v, k), = li[0].items()
                if isinstance(v, App) and v.op == 'bitlen':
                    lo, hi = self.bitlen_range(v)
                    ok = [n for n in range(lo, hi + 1) if (k * n + li[1] > 0) == r]
                    if ok:
                        for i in range(ok[-1], hi):
                            self.bit_fact(v.args[0][i], False)
                        if ok[0] == ok[-1] and ok[0]:
                            self.bit_fact(v.args[0][ok[0] - 1], True)
        return r

    def bit_fact(self, s, val):
        if s not in (0, 1):
            self.extra['bitfacts'] = True
            self.facts[App('bit', s[0], K(s[1]))] = val

    def bitlen_of(self, L, whole=True):
        li = to_lin(L)
        if len(li[0]) == 1:
            (v, k), = li[0].items()
            if isinstance(v, App) and v.op == 'bitlen' and (not whole or isinstance(k, int) and isinstance(li[1], int)):
                return v, k, li[1]
        return None

    def bitlen_div(self, L, m):
        '''L // m of a linear form of one bit length, one trace per quotient'''
        v, k, c = self.bitlen_of(L)
        lo, hi = self.bitlen_range(v)
        qs = sorted(set((k * n + c) // m for n in range(lo, hi + 1)))
        for q in qs[:-1]:
            # L < (q + 1) * m
            if self.cond_gt0(lin_add(K((q + 1) * m), L, -1)):
                return K(q)
        return K(qs[-1])

    def bitop(self, op, a, b):
        isk = lambda x: isinstance(x, K) and isinstance(x.v, int)
        la, lb = self.lift(a), self.lift(b)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if op is ast.BitAnd:
                for x, m in ((a, b), (b, a)):
                    if isk(m) and m.v >= 0 and self.is_int(x) and not isk(x):
                        n = m.v.bit_length()
                        bs = self.low(x, n)
                        return self.mkbits(s if (m.v >> i) & 1 else 0 for i, s in enumerate(bs))
                    if isk(m) and m.v < 0 and self.lift(x) is not None:
                        return self.mkbits(s if (m.v >> i) & 1 else 0 for i, s in enumerate(self.lift(x)))
            if la is None or lb is None:
                return None
            n = max(len(la), len(lb))
            la, lb = la + (0,) * (n - len(la)), lb + (0,) * (n - len(lb))
            out = []
            for x, y in zip(la, lb):
                if y in (0, 1) and x not in (0, 1):
                    x, y = y, x
                if x == y:
                    out.append(0 if op is ast.BitXor else x)
                elif x == 0:
                    out.append(0 if op is ast.BitAnd else y)
                elif x == 1 and op is not ast.BitXor:
                    out.append(y if op is ast.BitAnd else 1)
                else:                                    # one undecided bit of two different sources
                    p, q = sorted((self.mkbits((x,)), self.mkbits((y,))), key=lambda t: t.sk())
                    name = {ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor'}[op]
                    out.append((App(name, p, q, K(1), ty='int'), 0))
            return self.mkbits(out)
        if op is ast.Add:
            if la is None or lb is None:
                return None
            n = max(len(la), len(lb))
            la, lb = la + (0,) * (n - len(la)), lb + (0,) * (n - len(lb))
            if all(x == 0 or y == 0 for x, y in zip(la, lb)):
                return self.mkbits(x if y == 0 else y for x, y in zip(la, lb))
            return None
        if isk(b) and b.v > 0 and op in (ast.FloorDiv, ast.RShift, ast.Mod) and isinstance(a, App) and self.bitlen_of(a) is not None:
            m = 1 << b.v if op is ast.RShift else b.v
            q = self.bitlen_div(a, m)
            return q if op is not ast.Mod else lin_add(a, K(q.v * m), -1)
        pw = lambda m: isk(m) and m.v > 0 and m.v & (m.v - 1) == 0
        if op is ast.Mult:
            for x, m in ((a, b), (b, a)):
                if pw(m) and self.lift(x) is not None and not isk(x):
                    return self.mkbits((0,) * (m.v.bit_length() - 1) + self.lift(x))
            return None
        if op is ast.LShift and isk(b) and b.v >= 0 and la is not None and b.v <= 4096:
            return self.mkbits((0,) * b.v + la)
        k = None
        if op is ast.RShift and isk(b) and b.v >= 0:
            k = b.v
        if op is ast.FloorDiv and pw(b):
            k = b.v.bit_length() - 1
        if k is not None:
            if la is not None:
                return self.mkbits(la[k:])
            if isinstance(a, App) and a.op == 'sext':
                s = a.args[0]
                return App('sext', s[k:] or s[-1:], ty='int')
            if op is ast.RShift and self.is_int(a):
                if k == 0:
                    return a
                if isinstance(a, App) and a.op == 'shr' and isinstance(a.args[1], K):
                    return App('shr', a.args[0], K(a.args[1].v + k), ty='int')
                return App('shr', a, b, ty='int')
            if isinstance(a, App) and a.op == 'shr' and isinstance(a.args[1], K):
                return App('shr', a.args[0], K(a.args[1].v + k), ty='int')
        if op is ast.Mod and pw(b) and (la is not None or self.is_int(a)):
            return self.mkbits(self.low(a, b.v.bit_length() - 1))
        return None

    def binop(self, op, a, b):
        if not (isinstance(a, K) and isinstance(b, K)) and all(isinstance(x, (K, Sym, App)) for x in (a, b)):
            if self.inst_class(a) is None and self.inst_class(b) is None:
                r = self.bitop(op, a, b)
                if r is not None:
                    return r
        return super(Evaluator, self).binop(op, a, b)

    def nonneg(self, a):
        if isinstance(a, App) and self.lift(a) is not None:
            return True
        return super(Evaluator, self).nonneg(a)

    def interval(self, L):
        li = to_lin(L)
        lo = hi = li[1]
        for a, c in li[0].items():
            r = self.brange(a)
            if r is None:
                if self.nonneg(a):
                    r = (0, float('inf'))
                else:
                    return None
            x, y = (r[0], r[1]) if c > 0 else (r[1], r[0])
            lo, hi = lo + c * x, hi + c * y
        return lo, hi

    def decide_gt0(self, L):
        r = super(Evaluator, self).decide_gt0(L)
        if r is None:
            iv = self.interval(L)
            if iv is not None:
                if iv[0] > 0:
                    return True
                if iv[1] <= 0:
                    return False
        return r

    def decide_ge0(self, L):
        r = super(Evaluator, self).decide_ge0(L)
        if r is None:
            iv = self.interval(L)
            if iv is not None and iv[0] >= 0:
                return True
        return r

    def decide_eq0(self, L):
        r = super(Evaluator, self).decide_eq0(L)
        if r is None:
            iv = self.interval(L)
            if iv is not None and (iv[0] > 0 or iv[1] < 0):
                return False
            li = to_lin(L)
            if len(li[0]) == 1:
                (a, c), = li[0].items()
                b = self.lift(a)
                if b is not None and c in (1, -1):
                    t = -li[1] * c
                    if t < 0 or t >= 1 << len(b) or any(x in (0, 1) and x != (int(t) >> i) & 1 for i, x in enumerate(b)):
                        return False
        return r

    def truth(self, v):
        if isinstance(v, App):
            b = self.lift(v)
            if b is not None and any(x == 1 for x in b):
                return True
            if v.op == 'vec':
                return len(v.args[0]) > 0
        return super(Evaluator, self).truth(v)

    # ------------------------------------------------------------------ byte strings
    def bigendian(self):
        return self.config.get('byteorder', 'little') == 'big'

    def parse_fmt(self, f):
        """(big?, [(code, size)]) of a struct format of integer/float fields without alignment, else None"""
        order = '@'
        s = f
        if s[:1] in '@=<>!':
            order, s = s[:1], s[1:]
        if not s or order == '@' and len(s) > 1:
            return None
        out = []
        for ch in s:
            if ch in INT_CODES:
                out.append((ch, NATIVE_L if order == '@' and ch in 'lL' else INT_CODES[ch]))
            elif ch in 'fd':
                out.append((ch, 4 if ch == 'f' else 8))
            else:
                return None
        big = order in '>!' or order in '=@' and self.bigendian()
        return big, out

    def pack_vec(self, fmt, vals):
        p = self.parse_fmt(fmt)
        if p is None or len(p[1]) != len(vals):
            return None
        out = []
        for (ch, size), v in zip(p[1], vals):
            if ch in 'fd':
                bs = None
                if isinstance(v, K) and type(v.v) in (int, float) and v.v:
                    try:
                        bs = [K(b) for b in _struct.pack('<' + ch, v.v)]
                    except (OverflowError, _struct.error):
                        pass
                if bs is None:
                    bs = [App('fbyte', K(size), v, K(i), ty='int') for i in range(size)]
            else:
                if not (self.is_int(v) or self.ty(v) is None or self.lift(v) is not None):
                    return None
                b = self.low(v, 8 * size)
                bs = [self.mkbits(b[8 * i:8 * i + 8]) for i in range(size)]
            out += bs[::-1] if p[0] else bs
        return out

    def fits(self, fmt, vals):
        """every integer value provably lies in the range of its field"""
        p = self.parse_fmt(fmt)
        if p is None or len(p[1]) != len(vals):
            return False
        for (ch, size), v in zip(p[1], vals):
            r = self.brange(v)
            if isinstance(v, K) and isinstance(v.v, int):
                r = (v.v, v.v)
            if ch in 'fd' or r is None:
                return False
            lo, hi = (0, (1 << 8 * size) - 1) if ch.isupper() else (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
            if r[0] < lo or r[1] > hi:
                return False
        return True

    def unpack_vec(self, fmt, bs):
        p = self.parse_fmt(fmt)
        if p is None:
            return None
        out, pos = [], 0
        for ch, size in p[1]:
            c = bs[pos:pos + size]
            pos += size
            if p[0]:
                c = c[::-1]
            out.append(self.unfloat(c, size) if ch in 'fd' else self.unint(c, ch.islower()))
        return out

    def unfloat(self, c, size):
        t = c[0]
        if isinstance(t, App) and t.op == 'fbyte' and c == [App('fbyte', t.args[0], t.args[1], K(i)) for i in range(len(c))] \
                and t.args[0] == K(size):
            return t.args[1] if size == 8 and self.ty(t.args[1]) == 'float' else App('fround', K(size), t.args[1], ty='float')
        if all(isinstance(x, K) and type(x.v) is int for x in c):
            f = _struct.unpack('<f' if size == 4 else '<d', bytes(x.v for x in c))[0]
            if f == f and f:        # not the zeros, which compare equal
                return K(f)
        return App('float', K(size), Tup(c), ty='float')

    def unint(self, c, signed):
        bits = ()
        for x in c:
            b = self.lift(x)
            if b is None or len(b) > 8:
                b = self.low(x, 8)
            bits += (b + (0,) * 8)[:8]
        if signed and bits:
            if bits[-1] == 1 and all(b in (0, 1) for b in bits):
                return K(sum(b << i for i, b in enumerate(bits)) - (1 << len(bits)))
            if bits[-1] != 0:
                return App('sext', bits, ty='int')
        return self.mkbits(bits)

    def isbyte(self, x):
        b = self.lift(x)
        return b is not None and len(b) <= 8

    def known_len(self, t):
        if isinstance(t, App) and t.op == 'enc':
            return self.config.get('text_len', {}).get(t.args[0])
        return self.config.get('bytes_len', {}).get(t)

    def vec(self, t):
        """list of the byte terms of a byte string of known length, else None"""
        if isinstance(t, K):
            return [K(x) for x in t.v] if isinstance(t.v, bytes) else None
        if isinstance(t, Obj):
            o = self.h(t)
            if o.kind == 'bytearray' and not o.f['log']:
                return self.vec(o.f['init'])
            return None
        n = self.known_len(t)
        if n is not None:
            return [App('getitem', t, K(i), ty='int') for i in range(n)]
        if not isinstance(t, App):
            return None
        if t.op == 'vec':
            return list(t.args[0])
        if t.op == 'cat':
            out = []
            for p in t.args:
                v = self.vec(p)
                if v is None:
                    return None
                out += v
            return out
        if t.op == 'pack' and isinstance(t.args[0], K):
            f = t.args[0].v
            return self.pack_vec(f.decode() if isinstance(f, bytes) else f, list(t.args[1:]))
        if t.op == 'bytes' and isinstance(t.args[0], Tup) and all(self.isbyte(x) for x in t.args[0].items):
            return list(t.args[0].items)
        if t.op in ('bytearray', 'bytes') and not isinstance(t.args[0], Tup):
            return self.vec(t.args[0])
        if t.op == 'slice' and all(isinstance(x, K) for x in t.args[1:]):
            v = self.vec(t.args[0])
            return v[t.args[1].v:t.args[2].v] if v is not None else None
        if t.op == 'slice3' and all(isinstance(x, K) for x in t.args[1:]):
            v = self.vec(t.args[0])
            return v[t.args[1].v:t.args[2].v:t.args[3].v] if v is not None else None
        if t.op == 'zeros' and isinstance(t.args[0], K) and t.args[0].v <= 4096:
            return [K(0)] * t.args[0].v
        if t.op == 'repeat':
            x, n = t.args
            if isinstance(n, K) and n.v <= 4096:
                v = self.vec(x)
                return v * n.v if v is not None else None
        if t.op == 'reversed':
            v = self.vec(t.args[0])
            return v[::-1] if v is not None else None
        if t.op == 'call' and isinstance(t.args[0], App) and t.args[0].op == 'attr' and t.args[0].args[1] == 'to_bytes':
            a = dict(zip(('length', 'byteorder'), t.args[1]))
            a.update(dict((k, v) for k, v in t.args[2] if k is not None))
            n, o = a.get('length', K(1)), a.get('byteorder', K('big'))
            x = t.args[0].args[0]
            if isinstance(n, K) and isinstance(n.v, int) and isinstance(o, K) and (self.is_int(x) or self.lift(x) is not None):
                b = self.low(x, 8 * n.v)
                out = [self.mkbits(b[8 * i:8 * i + 8]) for i in range(n.v)]
                return out[::-1] if o.v == 'big' else out
        return None

    def mkvec(self, bs):
        bs = list(bs)
        if all(isinstance(b, K) for b in bs):
            return K(bytes(b.v for b in bs))
        t = bs[0]
        if isinstance(t, App) and t.op == 'getitem' and t.args[1] == K(0):
            n = self.known_len(t.args[0])
            if n == len(bs) and bs == [App('getitem', t.args[0], K(i)) for i in range(n)]:
                return t.args[0]
        return App('vec', tuple(bs), ty='bytes')

    def norm_bytes(self, t):
        v = self.vec(t) if isinstance(t, (App, Sym)) and not (isinstance(t, App) and t.op == 'vec') else None
        if v is None or isinstance(t, App) and t.op == 'pack':
            return t
        return self.mkvec(v)

    def length_bytes(self, v):
        x = self.vec(v) if isinstance(v, (App, Sym)) else None
        if x is not None:
            return K(len(x))
        return super(Evaluator, self).length_bytes(v)

    def as_bytes(self, v):
        r = super(Evaluator, self).as_bytes(v)
        if isinstance(r, App) and r.op == 'bytes' and isinstance(r.args[0], Tup):
            for x in r.args[0].items:
                b = self.brange(x)
                if b is not None and b[0] > 255:
                    raise self.exc('ValueError')
        return self.norm_bytes(r) if isinstance(r, (App, Sym)) else r

    def vec_of_heap(self, c):
        if isinstance(c, Obj):
            o = self.h(c)
            if o.kind == 'bytearray' and not isinstance(o.cls, ClassInfo):
                return self.vec(c)
        return None

    def put_vec(self, c, vec, kind, data):
        om = self.hm(c, kind)
        om.f['init'] = self.mkvec(vec) if vec else K(b'')
        self.events.append(Event(kind, (c.addr,) + tuple(self.frz(x) for x in data), self.loc))

    def kslice(self, k):
        if isinstance(k, App) and k.op == 'sliceobj' and all(isinstance(x, K) and (x.v is None or isinstance(x.v, int)) for x in k.args):
            return slice(*[x.v for x in k.args])
        return None

    def byte_item(self, val):
        if isinstance(val, K):
            if not isinstance(val.v, int):
                raise self.exc('TypeError')
            if not 0 <= val.v <= 255:
                raise self.exc('ValueError')
            return val
        if self.isbyte(val):
            return val
        r = self.brange(val)
        if r is not None and (r[0] > 255 or r[1] < 0):
            raise self.exc('ValueError')
        return None

    def getitem(self, c, k):
        v = self.vec_of_heap(c)
        if v is not None:
            s = self.kslice(k)
            if s is not None:
                return self.alloc('bytearray', None, {'init': self.mkvec(v[s]) if v[s] else K(b''), 'log': ()})
            if isinstance(k, K):
                if not isinstance(k.v, int):
                    raise self.exc('TypeError')
                try:
                    return v[k.v]
                except IndexError:
                    raise self.exc('IndexError')
        if isinstance(c, (App, Sym)) and (self.known_len(c) is not None or self.ty(c) in ('bytes', 'bytearray')):
            v = self.vec(c)
            if v is not None:
                s = self.kslice(k)
                if s is not None:
                    return self.mkvec(v[s]) if v[s] else K(b'')
                if isinstance(k, K):
                    if not isinstance(k.v, int):
                        raise self.exc('TypeError')
                    try:
                        return v[k.v]
                    except IndexError:
                        raise self.exc('IndexError')
        return super(Evaluator, self).getitem(c, k)

    def setitem(self, c, k, val):
        v = self.vec_of_heap(c)
        if v is not None:
            s = self.kslice(k)
            if s is not None:
                x = self.vec(self.as_bytes(val))
                if x is not None:
                    try:
                        v[s] = x
                    except ValueError:
                        raise self.exc('ValueError')
                    self.put_vec(c, v, 'bufset', (k, self.mkvec(x) if x else K(b'')))
                    return
            elif isinstance(k, K):
                if not isinstance(k.v, int):
                    raise self.exc('TypeError')
                x = self.byte_item(val)
                if x is not None:
                    try:
                        v[k.v] = x
                    except IndexError:
                        raise self.exc('IndexError')
                    self.put_vec(c, v, 'bufset', (k, x))
                    return
        super(Evaluator, self).setitem(c, k, val)

    def delitem(self, c, k):
        v = self.vec_of_heap(c)
        if v is not None:
            s = self.kslice(k)
            if s is not None:
                del v[s]
                self.put_vec(c, v, 'bufdel', (k,))
                return
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    del v[k.v]
                except IndexError:
                    raise self.exc('IndexError')
                self.put_vec(c, v, 'bufdel', (k,))
                return
        super(Evaluator, self).delitem(c, k)

    def call_bmeth(self, v, name, args, kwargs, **kw):
        x = self.vec_of_heap(v)
        if x is not None:
            r = self.bytearray_method(v, x, name, args)
            if r is not None:
                return r
        if name in ('strip', 'lstrip', 'rstrip', 'ljust', 'rjust', 'center', 'decode', 'startswith', 'endswith', 'encode'):
            r = self.text_method(v, name, args, dict(kwargs))
            if r is not None:
                return r
        if name == 'bit_length' and isinstance(v, (App, Sym)):
            b = self.lift(v)
            if b is not None and b and b[-1] == 1:
                return K(len(b))
        return super(Evaluator, self).call_bmeth(v, name, args, kwargs, **kw)

    def text_method(self, v, name, args, kw):
        if name == 'encode' and isinstance(v, Sym) and v in self.config.get('text_len', {}) and \
                all(isinstance(a, K) for a in args) and set(kw) <= {'encoding', 'errors'}:
            return App('enc', v, args[0] if args else kw.get('encoding', K('utf-8')), ty='bytes')
        if name == 'encode' and isinstance(v, App) and v.op == 'cat' and set(kw) <= {'encoding'} and len(args) <= 1:
            e = args[0] if args else kw.get('encoding', K('utf-8'))
            if isinstance(e, K) and e.v in CHARWISE and all(
                    isinstance(p, K) and isinstance(p.v, str) or p in self.config.get('text_len', {}) for p in v.args):
                return self.cat([self.call_bmeth(p, name, args, list(kw.items())) if isinstance(p, K) else App('enc', p, e, ty='bytes')
                                 for p in v.args])
        if name in ('strip', 'lstrip', 'rstrip') and isinstance(v, App) and v.op == 'cat' and not args and not kw:
            ends = ([v.args[-1]] if name != 'lstrip' else []) + ([v.args[0]] if name != 'rstrip' else [])
            if all(isinstance(p, K) and isinstance(p.v, str) and p.v == p.v.strip() or p in self.config.get('words', ()) for p in ends):
                return v
        if isinstance(v, K):
            return None
        x = self.vec_of_heap(v) if isinstance(v, Obj) else self.vec(v) if isinstance(v, (App, Sym)) else None
        if x is None or kw and name != 'decode':
            return None
        mk = (lambda bs: self.alloc('bytearray', None, {'init': self.mkvec(bs) if bs else K(b''), 'log': ()})) if isinstance(v, Obj) \
            else (lambda bs: self.mkvec(bs) if bs else K(b''))
        args = [K(bytes(b.v for b in self.vec_of_heap(a))) if isinstance(a, Obj) and self.vec_of_heap(a) is not None and
                all(isinstance(b, K) for b in self.vec_of_heap(a)) else a for a in args]
        if not all(isinstance(a, K) for a in args):
            return None
        if name == 'decode':
            enc = args[0] if args else kw.get('encoding', K('utf-8'))
            parts, i = [], 0
            while i < len(x):
                t = x[i]
                if isinstance(t, App) and t.op == 'getitem' and isinstance(t.args[0], App) and t.args[0].op == 'enc' and t.args[1] == K(0):
                    w = self.vec(t.args[0])
                    if x[i:i + len(w)] == w and t.args[0].args[1] == enc:
                        parts.append(t.args[0].args[0])
                        i += len(w)
                        continue
                elif isinstance(t, K) and enc.v in CHARWISE:
                    j = i
                    while j < len(x) and isinstance(x[j], K):
                        j += 1
                    parts.append(self.call_bmeth(K(bytes(b.v for b in x[i:j])), name, args, list(kw.items())))
                    i = j
                    continue
                parts = None
                break
            if parts:
                return self.cat(parts)
            if parts is None and enc == K('ascii') and not kw.get('errors') and any(
                    (self.brange(b) or (0, 0))[0] >= 128 for b in x if not isinstance(b, K)):
                raise self.exc('UnicodeDecodeError')
            if parts is None and enc == K('latin-1') and not kw.get('errors'):
                return App('dec', self.mkvec(x), enc, ty='str')
            if x and all(isinstance(b, K) for b in x) or not x:
                return self.call_bmeth(K(bytes(b.v for b in x)), name, args, list(kw.items()))
            return None
        if name in ('ljust', 'rjust', 'center'):
            if not isinstance(args[0].v, int):
                raise self.exc('TypeError')
            fill = args[1].v if len(args) > 1 else b' '
            if not isinstance(fill, (bytes, bytearray)) or len(fill) != 1:
                raise self.exc('TypeError')
            n, w = max(0, args[0].v - len(x)), args[0].v
            c = K(fill[0])
            left = 0 if name == 'ljust' else n if name == 'rjust' else n // 2 + (n & w & 1)
            return mk([c] * left + x + [c] * (n - left))
        if name in ('startswith', 'endswith'):
            return None
        chars = args[0].v if args and args[0].v is not None else b' \t\n\r\x0b\x0c'
        if not isinstance(chars, (bytes, bytearray)):
            raise self.exc('TypeError')
        if self.config.get('opaque_strip') and not all(isinstance(b, K) for b in x):
            return None

        def hit(b):
            if isinstance(b, K):
                return b.v in chars
            return any(self.truth(self.eq_val(b, K(c))) for c in chars)
        if name in ('rstrip', 'strip'):
            while x and hit(x[-1]):
                x = x[:-1]
        if name in ('lstrip', 'strip'):
            while x and hit(x[0]):
                x = x[1:]
        return mk(x)

    def bytearray_method(self, v, x, name, args):
        if name == 'append' and len(args) == 1:
            b = self.byte_item(args[0])
            if b is not None:
                self.put_vec(v, x + [b], 'bufmut', (K('append'), b))
                return NONE
        if name in ('extend', '__iadd__') and len(args) == 1:
            y = self.vec(self.as_bytes(args[0]))
            if y is not None:
                self.put_vec(v, x + y, 'bufmut', (K('extend'),))
                return NONE if name == 'extend' else v
        if name == 'insert' and len(args) == 2 and isinstance(args[0], K):
            b = self.byte_item(args[1])
            if b is not None:
                x.insert(args[0].v, b)
                self.put_vec(v, x, 'bufmut', (K('insert'),))
                return NONE
        if name == 'pop' and len(args) <= 1 and all(isinstance(a, K) for a in args):
            try:
                b = x.pop(*[a.v for a in args])
            except IndexError:
                raise self.exc('IndexError')
            self.put_vec(v, x, 'bufmut', (K('pop'),))
            return b
        if name == 'reverse' and not args:
            self.put_vec(v, x[::-1], 'bufmut', (K('reverse'),))
            return NONE
        if name == 'clear' and not args:
            self.put_vec(v, [], 'bufmut', (K('clear'),))
            return NONE
        if name == 'copy' and not args:
            return self.alloc('bytearray', None, {'init': self.mkvec(x) if x else K(b''), 'log': ()})
        return None

    def to_iter(self, v):
        if isinstance(v, Obj):
            x = self.vec_of_heap(v)
            if x is not None:
                return ('known', x)
        elif isinstance(v, (App, Sym)):
            if self.known_len(v) is not None or isinstance(v, App) and v.op in (
                    'vec', 'cat', 'pack', 'slice', 'bytes', 'bytearray', 'zeros', 'repeat') or self.ty(v) in ('bytes', 'bytearray'):
                x = self.vec(v)
                if x is not None:
                    return ('known', x)
        return super(Evaluator, self).to_iter(v)

    def cat(self, parts):
        r = super(Evaluator, self).cat(parts)
        if isinstance(r, App) and r.op == 'cat' and any(isinstance(p, App) and p.op in ('vec', 'getitem') for p in r.args):
            return self.norm_bytes(r)
        return r

    def slice_(self, x, a, b, step=NONE):
        r = super(Evaluator, self).slice_(x, a, b, step)
        return self.norm_bytes(r) if isinstance(r, App) and r.op in ('slice', 'slice3') else r

    def length(self, v):
        tl = self.config.get('text_len', {})
        n = tl.get(v) if isinstance(v, Sym) else None
        if isinstance(v, App) and v.op == 'cat' and all(isinstance(p, K) and isinstance(p.v, str) or p in tl for p in v.args):
            n = sum(len(p.v) if isinstance(p, K) else tl[p] for p in v.args)
        return K(n) if n is not None else super(Evaluator, self).length(v)

    def l_bytearray(self, a, kw, rk):
        if len(a) == 1 and isinstance(a[0], K) and isinstance(a[0].v, int) and a[0].v < 0:
            raise self.exc('ValueError')
        return super(Evaluator, self).l_bytearray(a, kw, rk)

    def l_struct__pack(self, a, kw, rk):
        vals = [self.frz(x) for x in a[1:]]
        if isinstance(a[0], K) and isinstance(a[0].v, (str, bytes)) and not all(isinstance(x, K) for x in vals):
            f = a[0].v.decode() if isinstance(a[0].v, bytes) else a[0].v
            for x in vals:
                if isinstance(x, K) and not isinstance(x.v, (int, float)):
                    raise self.exc('struct.error')
            if self.fits(f, vals):
                return self.mkvec(self.pack_vec(f, vals))
            p = self.parse_fmt(f)
            if p is not None and len(p[1]) == len(vals):
                for (ch, size), x in zip(p[1], vals):
                    r = self.brange(x)
                    if r is not None and ch not in 'fd':
                        lo, hi = (0, (1 << 8 * size) - 1) if ch.isupper() else (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
                        if r[0] > hi or r[1] < lo:
                            raise self.exc('struct.error')
        elif isinstance(a[0], K) and all(isinstance(x, K) for x in vals) and self.bigendian() and isinstance(a[0].v, str):
            f = a[0].v
            if f[:1] in '=@':
                a = [K('>' + f[1:])] + list(a[1:])
        return super(Evaluator, self).l_struct__pack(a, kw, rk)

    def l_struct__unpack(self, a, kw, rk):
        f = a[0]
        v = self.vec(a[1]) if isinstance(a[1], Obj) else self.vec(self.frz(a[1]))
        if v is None and isinstance(a[1], Obj):
            v = self.vec(self.as_bytes(a[1]))
        if v is not None and isinstance(f, K):
            fs = f.v.decode() if isinstance(f.v, bytes) else f.v
            try:
                n = _struct.calcsize(fs)
            except _struct.error:
                raise self.exc('struct.error')
            if n != len(v):
                raise self.exc('struct.error')
            r = self.unpack_vec(fs, v)
            if r is not None:
                return Tup(r)
        return super(Evaluator, self).l_struct__unpack(a, kw, rk)

    def l_struct__unpack_from(self, a, kw, rk):
        off = a[2] if len(a) > 2 else kw.get('offset', K(0))
        v = self.vec(a[1]) if isinstance(a[1], Obj) else self.vec(self.frz(a[1]))
        if v is not None and isinstance(a[0], K) and isinstance(off, K):
            n = _struct.calcsize(a[0].v)
            v = v[off.v:off.v + n]
            if n != len(v):
                raise self.exc('struct.error')
            r = self.unpack_vec(a[0].v, v)
            if r is not None:
                return Tup(r)
        return super(Evaluator, self).l_struct__unpack_from(a, kw, rk)

    def l_int__from_bytes(self, a, kw, rk):
        v = self.vec(a[0]) if isinstance(a[0], Obj) else self.vec(self.frz(a[0]))
        if v is None:
            v = self.vec(self.as_bytes(a[0]))
        o = a[1] if len(a) > 1 else kw.get('byteorder', K('big'))
        s = kw.get('signed', FALSE)
        if v is not None and isinstance(o, K) and isinstance(s, K):
            if not v:
                return K(0)
            return self.unint(v[::-1] if o.v == 'big' else v, bool(s.v))
        m = getattr(super(Evaluator, self), 'l_int__from_bytes', None)
        if m:
            return m(a, kw, rk)
        return App('from_bytes', *([self.frz(x) for x in a] + [Tup((K(k), self.frz(v))) for k, v in sorted(kw.items())]), ty='int')

    # ------------------------------------------------------------------ json of constants and words
    def plain(self, v, words):
        """the Python value of a structure of constants; opaque words become private characters.  Raises LookupError when not known"""
        if isinstance(v, K):
            return v.v
        if isinstance(v, Sym) and v in self.config.get('words', ()):
            words.append(v)
            return chr(0xe000 + len(words) - 1)
        if isinstance(v, App) and v.op == 'cat' and self.ty(v) == 'str':
            return ''.join(self.plain(p, words) for p in v.args)
        if isinstance(v, Tup):
            return tuple(self.plain(x, words) for x in v.items)
        if isinstance(v, Obj):
            o = self.h(v)
            if o.kind == 'list' and all(s[0] == 'one' for s in o.f['segs']):
                return [self.plain(s[1], words) for s in o.f['segs']]
            if o.kind == 'dict' and all(s[0] == 'item' for s in o.f['segs']):
                return dict((self.plain(s[1], words), self.plain(s[2], words)) for s in o.f['segs'])
            if o.kind == 'bytearray' and not o.f['log'] and isinstance(o.f['init'], K):
                return bytearray(o.f['init'].v)
            if o.kind == 'set':
                return set()
            if o.kind == 'inst':
                return object()
        raise LookupError

    def unplain(self, x, words):
        if isinstance(x, str):
            parts, cur = [], ''
            for c in x:
                if 0xe000 <= ord(c) < 0xe000 + len(words):
                    parts += ([K(cur)] if cur else []) + [words[ord(c) - 0xe000]]
                    cur = ''
                else:
                    cur += c
            return self.cat(parts + ([K(cur)] if cur else [])) if parts else K(x)
        if isinstance(x, list):
            return self.alloc('list', None, {'segs': [('one', self.unplain(y, words)) for y in x]})
        if isinstance(x, tuple):
            return Tup([self.unplain(y, words) for y in x])
        if isinstance(x, dict):
            return self.alloc('dict', None, {'segs': [('item', self.unplain(k, words), self.unplain(y, words)) for k, y in x.items()]})
        return K(x)

    def l_json__dumps(self, a, kw, rk):
        if len(a) == 1 and all(isinstance(v, K) for v in kw.values()):
            words = []
            try:
                x = self.plain(a[0], words)
                opts = dict((k, v.v) for k, v in kw.items())
            except LookupError:
                x = self
            if x is not self:
                try:
                    s = _json.dumps(x, **opts)
                except (TypeError, ValueError) as e:
                    raise self.exc(type(e).__name__)
                for i in range(len(words)):
                    s = s.replace('\\u%04x' % (0xe000 + i), chr(0xe000 + i))
                return self.unplain(s, words)
        return super(Evaluator, self).l_json__dumps(a, kw, rk)

    def l_json__loads(self, a, kw, rk):
        if len(a) == 1 and not kw:
            words = []
            try:
                x = self.plain(a[0], words)
            except LookupError:
                x = self
            if x is not self:
                try:
                    s = _json.loads(x)
                except ValueError:
                    raise self.exc('ValueError')
                except TypeError:
                    raise self.exc('TypeError')
                return self.unplain(s, words)
        return super(Evaluator, self).l_json__loads(a, kw, rk)

    def eq_val(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == 'getitem' and isinstance(y, K) and isinstance(x.args[0], App) and x.args[0].op == 'enc' \
                    and x.args[0].args[0] in self.config.get('words', ()) and type(y.v) is int and not (33 <= y.v <= 126 and y.v not in (35, 42)):
                return FALSE
        r = super(Evaluator, self).eq_val(a, b)
        if isinstance(r, App) and r.op == 'eq':
            va = self.vec(a) if isinstance(a, (K, App, Obj, Sym)) else None
            vb = self.vec(b) if isinstance(b, (K, App, Obj, Sym)) else None
            if va is not None and vb is not None:
                if va == vb:
                    return TRUE
                if len(va) != len(vb) or any(isinstance(x, K) and isinstance(y, K) and x != y for x, y in zip(va, vb)):
                    return FALSE
            if self.config.get('opaque_repr') and 'str' in (self.ty(a), self.ty(b)) and any(
                    isinstance(x, App) and x.op in ('fmt', 'repr', 'text', 'str', 'join') for x in (a, b)):
                return FALSE
        return r
