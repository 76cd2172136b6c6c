"""Abstract client programs: a client module given as source text is interpreted abstractly together with the library
modules of /repo, with opaque arguments.  No code is executed."""
import sys
from .bits import *
from .bits import Evaluator
from . import interp as _interp

sys.setrecursionlimit(40000)


class Lab(object):
    def __init__(self, src, name='client', **config):
        _interp.SOURCES[name] = src
        self.name = name
        self.e = Evaluator()
        self.e.config.update(opaque_repr=True, bytes_len={}, uint={}, text_len={})
        self.e.config.update(config)
        self.e.max_paths = 400
        self.e.load(name)

    def buf(self, name, n=None, ty='bytes'):
        s = Sym(name, ty)
        if n is not None:
            self.e.config['bytes_len'][s] = n
        return s

    def text(self, name, n):
        s = Sym(name, 'str')
        self.e.config.setdefault('text_len', {})[s] = n
        return s

    def bytes_(self, *parts):
        """byte string made of constants (bytes) and opaque byte strings of known length"""
        out = []
        for p in parts:
            out += self.e.vec(K(p) if isinstance(p, bytes) else p)
        return self.e.mkvec(out) if out else K(b'')

    def uint(self, name, n):
        s = Sym(name, 'int')
        self.e.config['uint'][s] = n
        return s

    def fn(self, name):
        return self.e.anchor(self.name, name)

    def run(self, name, *args, **kw):
        f = self.fn(name)
        return self.e.explore(lambda i: i.call(f, list(args), list(kw.items())))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def dump(ps, n=6, w=300):
    print('   %d paths' % len(ps))
    for p in ps[:n]:
        v = p.value
        if isinstance(v, Obj):
            h = p.final.h(v)
            v = (h.kind, h.cls.name if isinstance(h.cls, ClassInfo) else h.cls, h.f if h.kind != 'inst' else dict(
                (k, x) for k, x in h.f.items()))
        print('   -', p.kind, short(v, w), '| F', short(p.facts, w), '| N', short(p.notes, 200) if p.notes else '', p.note or '',
              p.loc if p.kind != 'return' else '')
