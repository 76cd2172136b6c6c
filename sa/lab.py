"""Scenario lab: abstract client programs with universally quantified inputs and built-in obligations.

A scenario is a client module given as text.  It is interpreted abstractly together with the library modules under /repo;
nothing is executed.  The pseudo module `vlab` provides the quantified inputs and the obligations:

  any_int(name) any_uint(name, bits) any_sint(name, bits) any_float(name) any_bytes(name[, n]) any_text(name, n) any_obj(name)
  opaque(name, *args) / opaque_int / opaque_bytes      uninterpreted function of its arguments
  same(id, a, b)  holds(id, cond)  bad(id)  ok(id)     obligations, decided on every path
"""
import ast
import sys
import time
import re
import string
from .bits import *
from .bits import Evaluator as _Bits
from . import interp as _interp
from . import wit

sys.setrecursionlimit(60000)

STUBS = {'vstub_io': '''
class BytesIO(object):
    def __init__(self, initial_bytes=b''):
        if initial_bytes is None:
            initial_bytes = b''
        if isinstance(initial_bytes, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self._v = bytes(initial_bytes)
        self._p = 0
        self._c = False
    def _chk(self):
        if self._c:
            raise ValueError("I/O operation on closed file.")
    def read(self, size=-1):
        self._chk()
        if size is None or size < 0:
            r = self._v[self._p:]
        else:
            r = self._v[self._p:self._p + size]
        self._p += len(r)
        return r
    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)
    def read1(self, size=-1):
        return self.read(size)
    def seekable(self):
        return True
    @property
    def closed(self):
        return self._c
    def write(self, b):
        self._chk()
        if isinstance(b, str) or isinstance(b, int) or b is None:
            raise TypeError("a bytes-like object is required")
        b = bytes(b)
        n = len(b)
        if n == 0:
            return 0
        if self._p == len(self._v):
            self._v = self._v + b
        elif self._p > len(self._v):
            self._v = self._v + bytes(self._p - len(self._v)) + b
        else:
            self._v = self._v[:self._p] + b + self._v[self._p + n:]
        self._p += n
        return n
    def getvalue(self):
        self._chk()
        return self._v
    def getbuffer(self):
        self._chk()
        return self._v
    def tell(self):
        self._chk()
        return self._p
    def seek(self, pos, whence=0):
        self._chk()
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value")
            self._p = pos
        elif whence == 1:
            self._p = max(0, self._p + pos)
        else:
            self._p = max(0, len(self._v) + pos)
        return self._p
    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self._p
        self._v = self._v[:size]
        return size
    def close(self):
        self._c = True
    def readable(self):
        return True
    def writable(self):
        return True
    def flush(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
'''}


BTYPES = {'int': int, 'str': str, 'bytes': bytes, 'bytearray': bytearray, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple,
          'dict': dict, 'set': set, 'frozenset': frozenset, 'object': object}


class Obl(object):
    __slots__ = ('id', 'verdict', 'detail', 'trace', 'loc', 'facts')

    def __init__(self, id, verdict, detail='', trace=(), loc=None, facts=()):
        self.id, self.verdict, self.detail, self.trace, self.loc, self.facts = id, verdict, detail, trace, loc, facts


class Evaluator(_Bits):
    def reset(self):
        _Bits.reset(self)
        self.extra['obl'] = ()
        self.extra['trace'] = {}

    # ---------------------------------------------------------------- call trace of the path
    def call_fn(self, f, args, kwargs):
        info = f.info
        if info.module.startswith('infi'):
            t = self.extra.get('trace')
            if t is not None:
                k = (info.module, info.qualname, info.lineno)
                t[k] = t.get(k, 0) + 1
        return _Bits.call_fn(self, f, args, kwargs)

    def new_trace(self):
        return dict(self.extra.get('trace') or {})

    # ---------------------------------------------------------------- bit facts
    def lift(self, v):
        b = _Bits.lift(self, v)
        if b and self.extra.get('bitfacts'):
            f = self.facts
            out = []
            for s in b:
                if s not in (0, 1):
                    r = f.get(App('bit', s[0], K(s[1])))
                    if r is not None:
                        s = int(r)
                out.append(s)
            return tuple(out)
        return b

    # ---------------------------------------------------------------- instance dictionaries
    def inst_view(self, v):
        """a dictionary holding what the __dict__ of an instance holds now"""
        if isinstance(v, App) and v.op == 'instdict':
            f = self.h(v.args[0]).f
            return self.alloc('dict', None, {'segs': [('item', K(k) if isinstance(k, str) else k, x) for k, x in f.items()
                                                      if not (isinstance(k, str) and k[:1] in '$.')]})
        return v

    def inst_store(self, v, d):
        o = self.hm(v.args[0], 'attribute')
        for k in [k for k in o.f if not (isinstance(k, str) and k[:1] in '$.')]:
            del o.f[k]
        for s in self.h(d).f['segs']:
            if s[0] != 'item':
                raise _interp.Unmodelled('instance dictionary merge')
            o.f[s[1].v if isinstance(s[1], K) else s[1]] = s[2]

    def to_iter(self, v):
        return _Bits.to_iter(self, self.inst_view(v))

    def l_dict(self, a, kw, rk):
        return _Bits.l_dict(self, [self.inst_view(x) for x in a], kw, rk)

    def expand_kwargs(self, v):
        return _Bits.expand_kwargs(self, self.inst_view(v))

    def dict_method(self, v, name, args, kwargs):
        return _Bits.dict_method(self, v, name, [self.inst_view(x) for x in args] if name == 'update' else args, kwargs)

    def call_bmeth(self, v, name, args, kwargs, **kw):
        if isinstance(v, App) and v.op == 'instdict':
            d = self.inst_view(v)
            r = self.dict_method(d, name, args, kwargs)
            if name in ('update', 'pop', 'setdefault', 'clear', '__setitem__', 'popitem'):
                self.inst_store(v, d)
            return r
        if name == 'bit_length' and isinstance(v, (App, Sym)):
            b = self.lift(v)
            if b is not None and not args:
                return self.bitlen(b)
        return _Bits.call_bmeth(self, v, name, args, kwargs, **kw)

    # ---------------------------------------------------------------- equality with constants, bit by bit
    def const_bits(self, a, b):
        """bit constraints under which a == b, for fixed-width integers or byte strings of which one is constant;
        None when not applicable, False when they can never be equal"""
        va = self.vec(a) if isinstance(a, (K, App, Obj, Sym)) else None
        vb = self.vec(b) if isinstance(b, (K, App, Obj, Sym)) else None
        if va is not None and vb is not None:
            if len(va) != len(vb):
                return False
            out = []
            for x, y in zip(va, vb):
                if x == y:
                    continue
                r = self.const_bits(x, y)
                if r is None or r is False:
                    return r
                out += r
            return out
        if va is not None or vb is not None:
            return None
        if isinstance(a, K):
            a, b = b, a
        if not isinstance(b, K) or not isinstance(b.v, int) or not isinstance(a, (App, Sym)):
            return None
        v = int(b.v)
        x = self.lift(a)
        if x is None:
            if isinstance(a, App) and a.op == 'sext':
                x = a.args[0]
                n = len(x)
                if not -(1 << (n - 1)) <= v < 1 << (n - 1):
                    return False
                v &= (1 << n) - 1
            else:
                return None
        if v < 0 or v >= 1 << len(x):
            return False
        out = []
        for i, s in enumerate(x):
            w = (v >> i) & 1
            if s in (0, 1):
                if s != w:
                    return False
            else:
                out.append((s, w))
        return out

    def eq_val(self, a, b):
        if not isinstance(a, (Cls, Fn, Bound)) and not isinstance(b, (Cls, Fn, Bound)) and not (isinstance(a, K) and isinstance(b, K)):
            r = self.const_bits(a, b)
            if r is False:
                return FALSE
            if r is not None:
                d = {}
                for s, w in r:
                    if d.setdefault(s, w) != w:
                        return FALSE
                rest = []
                for s, w in d.items():
                    f = self.facts.get(App('bit', s[0], K(s[1])))
                    if f is None:
                        rest.append((s[0], s[1], w))
                    elif int(f) != w:
                        return FALSE
                if not rest:
                    return TRUE
                rest.sort(key=lambda t: (t[0].sk(), t[1]))
                if len(rest) == 1:
                    t = App('bit', rest[0][0], K(rest[0][1]), ty='bool')
                    self.extra['bitfacts'] = True
                    return t if rest[0][2] else App('not', t, ty='bool')
                return App('beq', tuple(rest), ty='bool')
        return _Bits.eq_val(self, a, b)

    # ---------------------------------------------------------------- constant stretches of formatted text
    def text_parts(self, t):
        '''list of constant strings and None (unknown stretch)'''
        if isinstance(t, K):
            return [str(t.v)]
        if isinstance(t, App) and t.op == 'fmt' and isinstance(t.args[0], K):
            f = t.args[0].v
            if f == 'f-string':
                return [y for x in t.args[1].items for y in self.text_parts(x)]
            out = []
            try:
                if len(t.args) == 3:
                    kw, auto = dict(t.args[2]), 0
                    for lit, name, spec, conv in string.Formatter().parse(f):
                        out.append(lit)
                        if name is None:
                            continue
                        if name == '':
                            name, auto = str(auto), auto + 1
                        v = t.args[1].items[int(name)] if name.isdigit() else kw.get(name)
                        ok = isinstance(v, K) and isinstance(v.v, (str, int)) and not spec and conv in (None, 's')
                        out.append(str(v.v) if ok else None)
                else:
                    vals = list(t.args[1].items) if isinstance(t.args[1], Tup) else [t.args[1]]
                    for i, x in enumerate(re.split('(%%|%[-#0 +]*[0-9]*[.]?[0-9]*[a-z])', f)):
                        if i % 2 == 0 or x == '%%':
                            out.append(x[:1] if i % 2 else x)
                        else:
                            v = vals.pop(0)
                            out.append(x % v.v if isinstance(v, K) else None)
            except (ValueError, IndexError, TypeError, KeyError, AttributeError):
                return [None]
            return out
        return [None]

    def in_val(self, x, c):
        if isinstance(x, K) and isinstance(x.v, str) and isinstance(c, App) and c.op == 'fmt':
            run = ''
            for p in self.text_parts(c) + [None]:
                if p is None:
                    if x.v in run:
                        return TRUE
                    run = ''
                else:
                    run += p
        return _Bits.in_val(self, x, c)

    def decide(self, atom):
        if atom.op == 'beq':
            f = self.facts
            if atom in f:
                return f[atom]
            left = 0
            for t, i, w in atom.args[0]:
                v = f.get(App('bit', t, K(i)))
                if v is None:
                    left += 1
                elif int(v) != w:
                    return False
            return None if left else True
        return _Bits.decide(self, atom)

    def branch(self, atom):
        r = _Bits.branch(self, atom)
        if atom.op == 'beq' and r:
            for t, i, w in atom.args[0]:
                self.facts[App('bit', t, K(i))] = bool(w)
            self.extra['bitfacts'] = True
        return r

    def truth(self, v):
        if isinstance(v, App) and v.op in ('beq', 'bit', 'raises'):
            return self.branch(v)
        if isinstance(v, (App, Sym)) and v.ty != 'bool':
            b = self.lift(v)
            if b is not None:
                if any(x == 1 for x in b):
                    return True
                return not self.truth(self.eq_val(v, K(0)))
        return _Bits.truth(self, v)

    def dict_find(self, d, key):
        r = _Bits.dict_find(self, d, key)
        if r[0] == 'maybe' and all(s[0] == 'item' for s in self.h(d).f['segs']):
            for s in reversed(self.h(d).f['segs']):
                if self.truth(self.eq_val(s[1], key)):
                    return ('hit', s[2])
            return ('miss', None)
        return r

    # ---------------------------------------------------------------- slices of concatenations with symbolic part lengths
    def slice_(self, x, a, b, step=NONE):
        r = _Bits.slice_(self, x, a, b, step)
        if isinstance(r, App) and r.op == 'slice' and isinstance(r.args[0], App) and r.args[0].op == 'cat':
            parts = list(r.args[0].args)
            L = self.length(r.args[0])
            a, b = self.from_end(r.args[1], L), self.from_end(r.args[2], L)
            rest = self.cut(parts, a) if a != NONE else ([], parts)
            if rest is None:
                return r
            keep = rest[1]
            if b != NONE:
                k = self.cut(keep, lin_add(b, K(0) if a == NONE else a, -1))
                if k is None:
                    return self.cat(keep) if self.le(L, b) else r
                keep = k[0]
            return self.cat(keep) if keep else K(b'')
        return r

    def length(self, v):
        v = self.inst_view(v)
        if isinstance(v, Obj):
            o = self.h(v)
            if isinstance(o.cls, ClassInfo) and not o.cls.find('__len__'):
                nt = self.is_namedtuple(o.cls)
                if nt:
                    return K(len(nt))
        return _Bits.length(self, v)

    def from_end(self, p, L):
        if isinstance(p, K) and isinstance(p.v, int) and p.v < 0:
            return lin_add(L, p)
        return p

    def cut(self, parts, pos):
        """(left, right) of the parts split at the given position, None when it cannot be located"""
        if pos is None or not (isinstance(pos, (K, App, Sym))):
            return None
        i, rem = 0, pos
        while i < len(parts):
            if rem == K(0):
                break
            n = self.length(parts[i])
            d = lin_add(rem, n, -1)
            if d is not None and self.decide_ge0(d):
                rem = d
                i += 1
                continue
            if isinstance(rem, K) and isinstance(rem.v, int) and rem.v > 0:
                if isinstance(n, K) or d is not None and self.decide_ge0(lin_add(n, rem, -1)):
                    p = parts[i]
                    return (parts[:i] + [self.slice_(p, NONE, rem)], [self.slice_(p, rem, NONE)] + parts[i + 1:])
            return None
        if i == len(parts) and rem != K(0) and not self.decide_ge0(rem):
            return None
        return parts[:i], parts[i:]

    def may_raise(self, names, term):
        t = self.frz(term)
        for n in names:
            if self.branch(App('raises', t, n)):
                raise PyRaise(App('excinst', Ext(n), Tup((t,))))

    def l_struct__pack(self, a, kw, rk):
        vals = [self.frz(x) for x in a[1:]]
        f = a[0].v if isinstance(a[0], K) else None
        f = f.decode('ascii') if isinstance(f, bytes) else f
        p = self.parse_fmt(f) if isinstance(f, str) else None
        if p is None or len(p[1]) != len(vals) or all(isinstance(x, K) for x in vals):
            return _Bits.l_struct__pack(self, a, kw, rk)
        t = App('pack', K(f), *vals, ty='bytes')
        for (ch, size), x in zip(p[1], vals):
            ty = self.ty(x)
            if isinstance(x, K) and not isinstance(x.v, (int, float)) or isinstance(x, Tup) or ty in ('bytes', 'str', 'list', 'dict', 'tuple') \
                    or isinstance(x, (Obj, Cls, Fn, Bound, Mod)):
                raise self.exc('struct.error')
            if ch in 'fd':
                if isinstance(x, K) or ch == 'd' and ty in ('float', 'bool'):
                    continue
                if ch == 'f' and isinstance(x, App) and x.op in ('float', 'fround') and x.args[0] == K(4):
                    continue        # already a single precision value
                b = self.brange(x)
                if b is not None and max(abs(b[0]), abs(b[1])) < 1 << 100:
                    continue
                self.may_raise(['OverflowError'] if ty in ('float', 'bool', 'int', 'nat', 'num') else ['struct.error', 'OverflowError'],
                               App('pack', K('<' + ch), x, ty='bytes'))
                continue
            if isinstance(x, K) and isinstance(x.v, float) or ty == 'float':
                raise self.exc('struct.error')
            lo, hi = (0, (1 << 8 * size) - 1) if ch.isupper() else (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
            b = (x.v, x.v) if isinstance(x, K) else self.brange(x)
            if b is not None and b[0] >= lo and b[1] <= hi:
                continue
            if b is not None and (b[0] > hi or b[1] < lo):
                raise self.exc('struct.error')
            if b is not None or ty in ('int', 'nat', 'bool'):
                if self.cond_gt0(lin_add(K(lo), x, -1)) or self.cond_gt0(lin_add(x, K(hi), -1)):
                    raise self.exc('struct.error')
                continue
            self.may_raise(['struct.error'], t)
        v = self.pack_vec(f, vals)
        return self.mkvec(v) if v is not None else t

    def l_issubclass(self, a, kw, rk):
        if isinstance(a[0], Ext) and a[0].name in BTYPES and isinstance(a[1], Cls):
            return FALSE
        if isinstance(a[0], Ext) and a[0].name in BTYPES and isinstance(a[1], Ext) and a[1].name in BTYPES:
            return K(issubclass(BTYPES[a[0].name], BTYPES[a[1].name]))
        return _Bits.l_issubclass(self, a, kw, rk)

    def _getattr(self, v, name):
        if isinstance(v, App) and v.op == 'instdict':
            return App('bmeth', v, name)
        if isinstance(name, str):
            if name in ('tobytes', 'tolist', 'nbytes', 'release') and isinstance(v, K) and isinstance(v.v, bytes):
                return _Bits._getattr(self, v, name)
            if isinstance(v, K) and not hasattr(v.v, name) or isinstance(v, Tup) and not hasattr((), name):
                return None
            if isinstance(v, Ext) and v.name in BTYPES and not hasattr(BTYPES[v.name], name):
                return None
        return _Bits._getattr(self, v, name)

    def l_id(self, a, kw, rk):
        if isinstance(a[0], Obj):
            return K(0x7f0000000000 + 64 * a[0].addr)     # distinct for distinct live objects
        return _Bits.l_id(self, a, kw, rk)

    # ---------------------------------------------------------------- inputs
    def _nm(self, a):
        return 'in:' + str(a[0].v)

    def l_vlab__any_int(self, a, kw, rk):
        return Sym(self._nm(a), 'int')

    def l_vlab__any_nat(self, a, kw, rk):
        return Sym(self._nm(a), 'nat')

    def l_vlab__any_float(self, a, kw, rk):
        return Sym(self._nm(a), 'float')

    def l_vlab__any_obj(self, a, kw, rk):
        return Sym(self._nm(a), 'opaque')

    def l_vlab__any_bool(self, a, kw, rk):
        return K(self.branch(App('truth', Sym(self._nm(a), 'bool'))))

    def l_vlab__choice(self, a, kw, rk):
        k = self.to_iter(a[0])[1]
        return k[self.choose(len(k))]

    def l_vlab__any_uint(self, a, kw, rk):
        s = Sym(self._nm(a), 'int')
        self.config['uint'][s] = a[1].v
        return s

    def l_vlab__any_sint(self, a, kw, rk):
        s = Sym(self._nm(a), 'int')
        self.config['uint'][s] = a[1].v
        return App('sext', tuple((s, i) for i in range(a[1].v)), ty='int')

    def l_vlab__any_bytes(self, a, kw, rk):
        s = Sym(self._nm(a), 'bytes')
        if len(a) > 1:
            if a[1].v == 0:
                return K(b'')
            self.config['bytes_len'][s] = a[1].v
        return s

    def l_vlab__any_text(self, a, kw, rk):
        s = Sym(self._nm(a), 'str')
        if len(a) > 1:
            if a[1].v == 0:
                return K('')
            self.config['text_len'][s] = a[1].v
        return s

    def l_vlab__any_word(self, a, kw, rk):
        """a text of printable ASCII characters none of which is blank, '*' or '#'"""
        r = self.l_vlab__any_text(a, kw, rk)
        if isinstance(r, Sym):
            self.config.setdefault('words', set()).add(r)
        return r

    def _user(self, a, ty):
        return App('user', a[0].v, *[self.deep(x) for x in a[1:]], ty=ty)

    def l_vlab__opaque(self, a, kw, rk):
        return self._user(a, 'opaque')

    def l_vlab__opaque_int(self, a, kw, rk):
        return self._user(a, 'int')

    def l_vlab__opaque_nat(self, a, kw, rk):
        return self._user(a, 'nat')

    def l_vlab__opaque_bytes(self, a, kw, rk):
        t = self._user([a[0]] + a[2:], 'bytes')
        if a[1].v == 0:
            return K(b'')
        self.config['bytes_len'][t] = a[1].v
        return t

    def l_vlab__opaque_bool(self, a, kw, rk):
        return K(self.branch(App('truth', self._user(a, 'bool'))))

    # ---------------------------------------------------------------- comparison
    def deep(self, v, depth=0):
        """immutable, identity-free (except for plain instances) term of a value"""
        if depth > 12:
            return App('deepcut')
        v = self.inst_view(v)
        if isinstance(v, Obj):
            o = self.h(v)
            if o.kind == 'list' and all(s[0] == 'one' for s in o.f['segs']):
                return Tup((K('list'),) + tuple(self.deep(s[1], depth + 1) for s in o.f['segs']))
            if o.kind == 'dict' and all(s[0] == 'item' for s in o.f['segs']):
                items = [Tup((self.deep(s[1], depth + 1), self.deep(s[2], depth + 1))) for s in o.f['segs']]
                return Tup([K('dict')] + sorted(items, key=lambda t: t.sk()))
            if o.kind == 'bytearray':
                x = self.vec(v)
                if x is not None:
                    return self.mkvec([self.renorm(y) for y in x]) if x else K(b'')
                return self.as_bytes(v)
            if o.kind == 'inst':
                nt = self.is_namedtuple(o.cls) if isinstance(o.cls, ClassInfo) else None
                if nt and all(n in o.f for n in nt):
                    return Tup([K('tuple')] + [self.deep(o.f[n], depth + 1) for n in nt])
                return App('objid', K(v.addr))
            return self.frz(v)
        if isinstance(v, Tup):
            return Tup((K('tuple'),) + tuple(self.deep(x, depth + 1) for x in v.items))
        return self.renorm(v)

    def renorm(self, v):
        """re-apply the facts of the path to a value"""
        if isinstance(v, (App, Sym)):
            c = self.const_of(v)
            if c is not None and c.v is not None and not isinstance(c.v, bool):
                return c
            if isinstance(v, App) or self.known_len(v) is not None:
                x = self.vec(v)
                if x is not None:
                    return self.mkvec([self.renorm(y) for y in x]) if x else K(b'')
            if isinstance(v, App) and v.op == 'lin':
                r = K(v.args[1])
                for t, c in v.args[0]:
                    u = self.renorm(t)
                    r = lin_add(r, u, c) if r is not None else None
                return r if r is not None else v
            if isinstance(v, App) and v.op in ('min', 'max') and len(v.args) > 1 and all(isinstance(x, V) for x in v.args):
                xs = [self.renorm(x) for x in v.args]
                while len(xs) > 1:
                    for x, y in [(x, y) for x in xs for y in xs if x is not y]:
                        d = self.order_val(ast.LtE if v.op == 'min' else ast.GtE, x, y)
                        d = d.v if isinstance(d, K) else self.decide(d)
                        if d:
                            xs = [z for z in xs if z is not y]
                            break
                    else:
                        break
                return self.num_fold(v.op, xs) if len(xs) > 1 else xs[0]
            if self.ty(v) == 'bytes' and not isinstance(v, Tup):
                if isinstance(v, App) and v.op == 'cat':
                    return self.cat([self.renorm(x) for x in v.args])
                if self.const_of(self.length(v)) == K(0):
                    return K(b'')
            b = self.lift(v)
            if b is not None:
                b = tuple(self.bitfact(s) for s in b)
                return self.mkbits(b)
        return v

    def bitfact(self, s):
        if s not in (0, 1):
            c = self.const_of(s[0])
            if c is not None and isinstance(c.v, int):
                return (c.v >> s[1]) & 1
        return s

    def add_obl(self, id, verdict, detail=''):
        tr = list(self.extra['trace'])
        self.extra['obl'] = self.extra['obl'] + (Obl(id, verdict, detail, tr, self.loc, tuple(self.facts.items())),)

    def refute(self, id, a, b, what):
        r = wit.search(self, list(self.facts.items()), a, b, seed=self.config.get('seed', 1))
        if r[0] == 'bad':
            env = r[1]
            inputs = dict((str(k), v) for k, v in env.vals.items() if isinstance(k, Sym))
            self.add_obl(id, 'bad', '%s; e.g. for %s: got %s, expected %s' % (
                what, ', '.join('%s=%r' % (k[3:] if k.startswith('in:') else k, v) for k, v in sorted(inputs.items())) or 'any input',
                show(r[2]), show(r[3])))
        elif r[0] == 'same':
            self.add_obl(id, 'undecided', 'normal forms differ, no difference found: %s / %s' % (short(a), short(b)))
        else:
            self.add_obl(id, 'undecided', '%s: %s / %s' % (r[1], short(a), short(b)))

    def l_vlab__same(self, a, kw, rk):
        id = a[0].v
        x, y = [K(self.truth(v)) if isinstance(v, App) and self.ty(v) == 'bool' else v for v in a[1:3]]
        x, y = self.deep(x), self.deep(y)
        if x == y or canon_num(x) == canon_num(y):
            self.add_obl(id, 'ok')
        else:
            self.refute(id, x, y, 'values differ')
        return NONE

    def l_vlab__holds(self, a, kw, rk):
        if self.truth(a[1]):
            self.add_obl(a[0].v, 'ok')
        else:
            self.refute(a[0].v, FALSE, TRUE, 'condition is false')
        return NONE

    def l_vlab__ok(self, a, kw, rk):
        self.add_obl(a[0].v, 'ok')
        return NONE

    def l_vlab__bad(self, a, kw, rk):
        d = ''
        if len(a) > 1:
            d = self.describe_exc(a[1])
        self.refute(a[0].v, FALSE, TRUE, 'reached' + d)
        return NONE

    def describe_exc(self, v):
        if isinstance(v, Obj):
            o = self.h(v)
            return ' with %s' % (o.cls.name if isinstance(o.cls, ClassInfo) else o.cls)
        if isinstance(v, App) and v.op == 'excinst':
            return ' with %r' % (v.args[0],)
        return ' with %s' % short(v)

    # ---------------------------------------------------------------- library stubs
    def l_io__BytesIO(self, a, kw, rk):
        if self.config.get('opaque_bytesio'):
            return _Bits.l_io__BytesIO(self, a, kw, rk)
        c = self.mod_get('vstub_io', 'BytesIO')
        return self.call(c, a, rk)


def canon_num(x):
    """identify numerically equal constants of different Python types (1 == 1.0)"""
    if isinstance(x, K):
        if isinstance(x.v, float) and x.v == x.v and x.v == int(x.v) if isinstance(x.v, float) and abs(x.v) < 1e300 else False:
            return K(int(x.v))
        return x
    if isinstance(x, Tup):
        return Tup(canon_num(i) for i in x.items)
    return x


def show(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def lift_const(a):
    if isinstance(a, V):
        return a
    if isinstance(a, (list, tuple)):
        return Tup(lift_const(x) for x in a)
    return K(a)


class Lab(object):
    def __init__(self, src, name='client', max_paths=600, **config):
        names = sorted(n[len('l_vlab__'):] for n in dir(Evaluator) if n.startswith('l_vlab__'))
        _interp.SOURCES[name] = src.replace('from vlab import *', 'from vlab import ' + ', '.join(names))
        for k, v in STUBS.items():
            _interp.SOURCES[k] = v
        self.name = name
        self.e = Evaluator()
        self.e.config.update(opaque_repr=True, bytes_len={}, uint={}, text_len={})
        self.e.config.update(config)
        self.e.max_paths = max_paths
        self.e.load('vstub_io')
        self.e.load(name)

    def run(self, fname, *args):
        e = self.e
        f = e.anchor(self.name, fname)

        def go(i):
            return i.call(f, [lift_const(a) for a in args], [])
        return e.explore(go)
