"""Value-numbering domain of the analysis: immutable, structurally compared terms.

K      constant                     Tup    tuple of values
Sym    opaque input (with an optional type)   App    pure operation applied to values
Obj    address of an abstract heap object     Cls/Fn/Bound/Ext/Mod/Super  program entities
Integer expressions are kept in linear normal form (App 'lin')."""
from fractions import Fraction


class V(object):
    __slots__ = ('_k', '_h')

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and type(self) is type(o) and hash(self) == hash(o)
                             and self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def sk(self):
        """deterministic sort key"""
        try:
            return self._k
        except AttributeError:
            self._k = repr(self)
            return self._k


class K(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, repr(self.v) if isinstance(self.v, float) else self.v)

    def __repr__(self):
        return repr(self.v)


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return self.items

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Sym(V):
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty=None):
        self.name, self.ty = name, ty

    def key(self):
        return self.name

    def __repr__(self):
        return self.name


class App(V):
    __slots__ = ('op', 'args', 'ty')

    def __init__(self, op, *args, **kw):
        self.op, self.args, self.ty = op, args, kw.get('ty')

    def key(self):
        return (self.op, self.args)

    def __repr__(self):
        if self.op == 'lin':
            parts = []
            for a, c in self.args[0]:
                parts.append(('%r' % (a,)) if c == 1 else '%s*%r' % (c, a))
            if self.args[1] != 0:
                parts.append(str(self.args[1]))
            return '(' + ' + '.join(parts) + ')'
        if self.op == 'attr':
            return '%r.%s' % (self.args[0], self.args[1])
        if self.op == 'res':
            return '%r%s' % (self.args[0], '' if self.args[1] == 0 else '#%d' % self.args[1])
        if self.op == 'call':
            return '%r(%s)' % (self.args[0], ', '.join([repr(a) for a in self.args[1]]
                                                      + ['%s=%r' % (k, v) for k, v in self.args[2]]))
        return '%s(%s)' % (self.op, ', '.join(repr(a) for a in self.args))


class Obj(V):
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def key(self):
        return self.addr

    def __repr__(self):
        return '@%d' % self.addr


class Cls(V):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info

    def key(self):
        return (self.info.qualname, self.info.uid)

    def __repr__(self):
        return '<class %s>' % self.info.qualname


class Fn(V):
    """function value: code + address of the defining frame + default values"""
    __slots__ = ('info', 'env', 'defaults', 'kwdefaults', 'kind')

    def __init__(self, info, env, defaults=(), kwdefaults=(), kind='function'):
        self.info, self.env, self.defaults, self.kwdefaults, self.kind = info, env, tuple(defaults), tuple(kwdefaults), kind

    def key(self):
        return (self.info.qualname, self.info.lineno, self.env, self.kind)

    def __repr__(self):
        return '<fn %s>' % self.info.qualname


class Bound(V):
    __slots__ = ('fn', 'self_')

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def key(self):
        return (self.fn, self.self_)

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self_)


class Ext(V):
    """external (library or builtin) entity, by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return '<%s>' % self.name


class Mod(V):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return '<module %s>' % self.name


class Super(V):
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def key(self):
        return (self.cls, self.self_)

    def __repr__(self):
        return '<super %r, %r>' % (self.cls, self.self_)


NONE, TRUE, FALSE = K(None), K(True), K(False)
NOTIMPL = Ext('NotImplemented')


def is_num(v):
    return isinstance(v, K) and isinstance(v.v, (int, float)) and not isinstance(v.v, complex)


def to_lin(v):
    """(dict atom->coef, const) or None"""
    if is_num(v):
        c = v.v
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, float):
            if c != c or c in (float('inf'), float('-inf')):
                return None
            c = Fraction(c)
        return {}, c
    if isinstance(v, App) and v.op == 'lin':
        return dict(v.args[0]), v.args[1]
    if isinstance(v, (Sym, App, Ext)):
        return {v: 1}, 0
    return None


def _n(c):
    return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c


def from_lin(d, c):
    d = dict((a, _n(k)) for a, k in d.items() if k != 0)
    c = _n(c)
    if not d:
        return K(float(c) if isinstance(c, Fraction) else c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return App('lin', tuple(sorted(d.items(), key=lambda p: p[0].sk())), c)


def lin_add(a, b, s=1):
    la, lb = to_lin(a), to_lin(b)
    if la is None or lb is None:
        return None
    d = dict(la[0])
    for k, v in lb[0].items():
        d[k] = d.get(k, 0) + s * v
    return from_lin(d, la[1] + s * lb[1])


def lin_mul(a, b):
    la, lb = to_lin(a), to_lin(b)
    if la is None or lb is None:
        return None
    if la[0] and lb[0]:
        return App('mul', *sorted((a, b), key=lambda t: t.sk()))
    if la[0]:
        la, lb = lb, la
    c = la[1]
    return from_lin(dict((k, v * c) for k, v in lb[0].items()), lb[1] * c)


def subterms(v):
    yield v
    if isinstance(v, Tup):
        for i in v.items:
            for s in subterms(i):
                yield s
    elif isinstance(v, App):
        stack = list(v.args)
        while stack:
            x = stack.pop()
            if isinstance(x, V):
                for s in subterms(x):
                    yield s
            elif isinstance(x, (tuple, list)):
                stack.extend(x)
    elif isinstance(v, Bound):
        for s in subterms(v.self_):
            yield s


def contains(v, t):
    if isinstance(v, V):
        return any(s == t for s in subterms(v))
    if isinstance(v, (tuple, list)):
        return any(contains(x, t) for x in v)
    return False
