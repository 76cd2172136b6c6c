"""Flow- and path-sensitive abstract interpreter over the syntax trees of /repo/src/infi/instruct.

Nothing of the repository is imported or executed.  Every function body is evaluated over the value-numbering domain of
terms.py; branches on undecided conditions partition the traces (each trace keeps the set of conditions it assumes),
calls to repository code are inlined through the class hierarchy, calls to opaque collaborators become trace events, and
loops over unknown iterables are summarised (write-set fixpoint, accumulator recognition) instead of being unrolled."""
import ast
import hashlib
import os
import struct as _struct

from .terms import *

ROOT = os.environ.get('INSTRUCT_SRC', '/repo/src')
PKG = 'infi.instruct'


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class LoopExit(Exception):
    pass


class GenAbort(Exception):
    """the consumer of a generator left its loop: unwinds the suspended generator"""
    def __init__(self, inner, token):
        self.inner, self.token = inner, token


class Prune(Exception):
    pass


class Unmodelled(Exception):
    pass


class AnchorMissing(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, val):
        self.val = val


class ClassInfo(object):
    def __init__(self, name, qualname, bases, ns, module, lineno=0):
        self.name, self.qualname, self.bases, self.ns, self.module, self.lineno = name, qualname, bases, ns, module, lineno
        self.meta, self.uid = None, 0
        self.total_ordering = False
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, Cls):
                    seqs.append([Cls(c) if isinstance(c, ClassInfo) else c for c in b.info.mro()])
                else:
                    seqs.append([b])
            seqs.append(list(self.bases))
            res = [self]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c.info if isinstance(c, Cls) else c)
                seqs = [[x for x in t if x != c] for t in seqs]
                seqs = [t for t in seqs if t]
            self._mro = res
        return self._mro

    def find(self, name, after=None):
        """(owner, value) or None"""
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if isinstance(c, ClassInfo):
                if name in c.ns:
                    return c, c.ns[name]
        return None

    def subclass_of(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [c.name for c in self.mro() if isinstance(c, Ext)]

    def __repr__(self):
        return self.qualname


class FuncInfo(object):
    def __init__(self, node, module, qualname, cls=None):
        self.node, self.module, self.qualname, self.cls = node, module, qualname, cls
        self.lineno = node.lineno
        self.is_lambda = isinstance(node, ast.Lambda)
        body = [node.body] if self.is_lambda else node.body
        self.locals, self.globals_, self.is_gen = scan_scope(body)
        a = node.args
        self.posparams = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals |= set(self.posparams + self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.locals -= self.globals_


_scope_cache = {}


def scan_scope(body):
    names, glob, gen = set(), set(), [False]

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                walk(g.iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return names, glob, gen[0]


class HObj(object):
    """abstract heap object"""
    __slots__ = ('kind', 'cls', 'f', 'site')

    def __init__(self, kind, cls=None, f=None, site=None):
        self.kind, self.cls, self.f, self.site = kind, cls, f if f is not None else {}, site

    def copy(self):
        return HObj(self.kind, self.cls, dict(self.f), self.site)


class Event(object):
    __slots__ = ('kind', 'data', 'loc', 'raw')

    def __init__(self, kind, data, loc, raw=None):
        self.kind, self.data, self.loc, self.raw = kind, data, loc, raw

    def key(self):
        return (self.kind, self.data)

    def __repr__(self):
        return '%s%r' % (self.kind, self.data)


class Case(object):
    """one trace of a loop body: assumed facts, events, outcome, list contributions"""
    __slots__ = ('facts', 'events', 'out')

    def __init__(self, facts, events, out):
        self.facts, self.events, self.out = facts, events, out

    def __repr__(self):
        return 'Case(%r, %r, %r)' % (self.facts, self.events, self.out)


class Chooser(object):
    def __init__(self):
        self.trail, self.pos = [], 0

    def choose(self, n):
        if self.pos < len(self.trail):
            r = self.trail[self.pos][0]
        else:
            self.trail.append([0, n])
            r = 0
        self.pos += 1
        return r

    def next(self):
        del self.trail[self.pos:]
        while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1][0] += 1
        self.pos = 0
        return True


class Path(object):
    def __init__(self, kind, value, interp, note=None):
        self.kind, self.value, self.note = kind, value, note
        self.facts = list(interp.facts.items())
        self.events = list(interp.events)
        self.heap = interp.snapshot_heap()
        self.attr_store = dict(interp.attr_store)
        self.notes = list(interp.notes)
        self.extra = dict(interp.extra)
        self.loc = interp.loc

    def __repr__(self):
        return 'Path(%s %r | %r | %r%s)' % (self.kind, self.value, self.facts, self.events,
                                            ' NOTE ' + str(self.note) if self.note else '')


PURE_METHODS = {
    'sizeof', 'min_max_sizeof', 'is_fixed_size', 'to_repr', 'get_slices', 'strip', 'lstrip', 'rstrip', 'ljust', 'rjust',
    'center', 'encode', 'decode', 'lower', 'upper', 'bit_length', 'join', 'startswith', 'endswith', 'format', 'to_bytes',
    'zfill', 'title', 'is_integer', 'copy', 'keys', 'values', 'items', 'get', 'index', 'count', 'find', 'get_dict',
    'mro', '__getitem__', 'hex', 'tobytes', 'split', 'replace', 'attr_name', 'is_numeric',
    'is_initialized', 'to_bytearray', 'length', 'is_pack', 'is_unpack', 'from_bytes', 'has_field', 'get_field',
    'is_static', 'isdigit', 'is_open', 'byte_length', 'max_stop', 'is_unbounded',
}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard', 'setdefault', 'popitem',
            'sort', 'reverse', '__setitem__', '__delitem__', 'put'}
RESULT_TY = {'read': 'bytes', 'getvalue': 'bytes', 'tell': 'int', 'sizeof': 'int', 'bit_length': 'int', 'index': 'int',
             'count': 'int', 'find': 'int', 'encode': 'bytes', 'to_repr': 'str', 'format': 'str', 'decode': 'str'}
PURE_EXT = {'struct.calcsize', 'math.ceil', 'math.floor', 'json.dumps', 'json.loads', 'round', 'abs', 'pow', 'divmod', 'hash',
            'ord', 'chr', 'hex', 'bin', 'oct', 'format', 'math.log', 'itertools.groupby', 'struct.error',
            'traceback.format_exception', 'vars', 'dir', 'array.array', 'int.from_bytes', 'slice', 'memoryview', 'object',
            'frozenset', 'operator.index', 'math.trunc'}
BUILTIN_NAMES = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
EXC_BASES = {}


def _exc_mro(name):
    """names of the base classes of a builtin/external exception"""
    n = name.split('.')[-1]
    if name == 'struct.error':
        return ['struct.error', 'Exception', 'BaseException']
    if n == 'JSONDecodeError':
        return [name, 'ValueError', 'Exception', 'BaseException']
    import builtins
    c = getattr(builtins, n, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [k.__name__ for k in c.__mro__ if k is not object]
    return [name, 'Exception', 'BaseException']


_ast_cache = {}


_file_cache = {}


def module_file(name):
    if name not in _file_cache:
        _file_cache[name] = _module_file(name)
    return _file_cache[name]


def _module_file(name):
    parts = name.split('.')
    base = os.path.join(ROOT, *parts)
    if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
        return os.path.join(base, '__init__.py')
    if os.path.exists(base + '.py'):
        return base + '.py'
    return None


SOURCES = {}      # abstract client modules of the rules (parsed, never executed)


def parse(name):
    if name in SOURCES:
        src = SOURCES[name]
        if name not in _ast_cache or _ast_cache[name][2] != hashlib.sha256(src.encode()).hexdigest():
            _ast_cache[name] = (ast.parse(src), 'client:' + name, hashlib.sha256(src.encode()).hexdigest())
        return _ast_cache[name]
    f = module_file(name)
    if f is None:
        return None
    if name not in _ast_cache:
        with open(f, encoding='utf-8') as fh:
            src = fh.read()
        _ast_cache[name] = (ast.parse(src), f, hashlib.sha256(src.encode()).hexdigest())
    return _ast_cache[name]


class Interp(object):
    MAX_DEPTH = 120
    MAX_UNROLL = 300

    def __init__(self):
        self.base = {}            # module level heap
        self.modules = {}         # name -> frame addr
        self.base_next = 1
        self.in_init = False
        self.functions_seen = set()
        self.call_sites = 0
        self.config = {}
        self.user_models = {}
        self.max_paths = 3000
        self.total_paths = 0
        self.loop_count = 0
        self._pfile_cache = {}
        self.opaque_calls_may_raise = False
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.heap = {}
        self.next_addr = 1000000
        self.facts = {}
        self.events = []
        self.notes = []
        self.occ = {}
        self.attr_store = {}
        self.stack = []
        self.tries = 0
        self.loopdepth = 0
        self.loopids = 0
        self.extra = {}
        self.loc = None
        self.mark = None
        self.cur_exc = []
        self.pos_fresh = 0
        self.gens = []

    def snapshot_heap(self):
        return dict((a, o.copy()) for a, o in self.heap.items())

    def snapshot(self):
        return (self.snapshot_heap(), self.next_addr, dict(self.facts), list(self.events), list(self.notes), dict(self.occ),
                dict(self.attr_store), self.loopids, dict(self.extra))

    def restore(self, s):
        self.heap = dict((a, o.copy()) for a, o in s[0].items())
        self.next_addr = s[1]
        self.facts, self.events, self.notes, self.occ = dict(s[2]), list(s[3]), list(s[4]), dict(s[5])
        self.attr_store, self.loopids, self.extra = dict(s[6]), s[7], dict(s[8])

    def alloc(self, kind, cls=None, f=None):
        if self.in_init:
            a = self.base_next
            self.base_next += 1
            self.base[a] = HObj(kind, cls, f, self.loc)
            return Obj(a)
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = HObj(kind, cls, f, self.loc)
        return Obj(a)

    def h(self, o):
        a = o.addr if isinstance(o, Obj) else o
        r = self.heap.get(a)
        if r is not None and 'lazy' in r.f:
            self.force(a)
            r = self.heap[a]
        return r if r is not None else self.base[a]

    def force(self, a):
        """run a suspended generator to its end"""
        run = self.heap[a].f.pop('lazy')
        acc = Obj(a)

        def cb(x):
            self.list_method(acc, 'append', [x], {})
        cb.acc = acc
        run(cb)

    def lazy(self, v):
        """the suspended body of a generator that nobody has touched yet, or None"""
        if isinstance(v, Obj) and v.addr in self.heap and 'lazy' in self.heap[v.addr].f:
            return self.heap[v.addr].f.pop('lazy')
        return None

    def hm(self, o, what='', internal=False):
        """heap object for mutation"""
        a = o.addr if isinstance(o, Obj) else o
        if self.in_init:
            return self.base[a]
        r = self.heap.get(a)
        if r is not None and 'lazy' in r.f:
            self.force(a)
        shared = a < 1000000 or (self.mark is not None and a < self.mark)
        if r is None:
            r = self.heap[a] = self.base[a].copy()
        if shared and not internal and r.kind != 'frame':
            self.events.append(Event('sharedwrite', (self.describe(Obj(a)), what), self.loc))
        return r

    def describe(self, o):
        hb = self.h(o)
        return '%s allocated at %s' % (hb.cls.name if isinstance(hb.cls, ClassInfo) else hb.kind, fmt_loc(hb.site))

    def set_mark(self):
        """objects allocated so far belong to the shared declaration"""
        self.mark = self.next_addr

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, **kw):
        paths = self.partial_paths = []
        self.chooser = Chooser()
        n = 0
        while True:
            self.reset()
            try:
                v = fn(self)
                p = Path('return', v, self)
            except PyRaise as e:
                p = Path('raise', e.val, self)
            except Unmodelled as e:
                p = Path('unmodelled', None, self, '%s at %s' % (e, fmt_loc(self.loc)))
            except Prune:
                p = None
            except RecursionError:
                p = Path('unmodelled', None, self, 'recursion')
            if p is not None:
                p.final = self.freezer()
                paths.append(p)
            n += 1
            if n >= self.max_paths:
                p = Path('unmodelled', None, self, 'path budget exhausted')
                p.final = None
                paths.append(p)
                break
            if not self.chooser.next():
                break
        self.total_paths += len(paths)
        return paths

    def freezer(self):
        heap, base = self.snapshot_heap(), self.base

        class F(object):
            def h(s, o):
                return heap.get(o.addr) or base[o.addr]
        return F()

    def choose(self, n):
        if n <= 1:
            return 0
        return self.chooser.choose(n)

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        p = parse(name)
        if p is None:
            return None
        tree, f, _ = p
        saved = (self.in_init, self.heap, self.events, self.facts, self.loc, self.stack, self.tries, self.attr_store, self.occ,
                 getattr(self, 'chooser', None))
        self.in_init, self.heap, self.events, self.facts, self.stack, self.tries, self.occ = True, {}, [], {}, [], 0, {}
        self.attr_store = {}
        self.chooser = InitChooser()
        try:
            fr = self.alloc('frame', None, {'__name__': K(name)})
            self.h(fr).f['$module'] = name
            self.modules[name] = fr
            try:
                self.exec_block(tree.body, Frame(fr.addr, name, None, None))
            except PyRaise as e:
                raise Unmodelled('module %s raises at import: %r' % (name, e.val))
            # persist attribute stores on classes performed at import time
            for (o, n), v in self.attr_store.items():
                if isinstance(o, Cls):
                    o.info.ns[n] = v
        finally:
            (self.in_init, self.heap, self.events, self.facts, self.loc, self.stack, self.tries, self.attr_store, self.occ,
             self.chooser) = saved
        return fr

    def mod_get(self, modname, name):
        fr = self.load(modname)
        if fr is None:
            return Ext(modname + '.' + name)
        f = self.base[fr.addr].f
        if name in f:
            return f[name]
        sub = modname + '.' + name
        if module_file(sub):
            self.load(sub)
            return Mod(sub)
        return None

    def anchor(self, modname, path):
        fr = self.load(modname)
        if fr is None:
            raise AnchorMissing('module %s' % modname)
        v = None
        for i, n in enumerate(path.split('.')):
            v = self.mod_get(modname, n) if i == 0 else self.class_attr_raw(v, n)
            if v is None:
                raise AnchorMissing('%s.%s' % (modname, path))
        return v

    def class_attr_raw(self, v, n):
        if isinstance(v, Cls):
            r = v.info.find(n)
            return r[1] if r else None
        return None

    # ------------------------------------------------------------------ freezing
    def fz(self, v):
        """snapshot of a value used as diagnostic text"""
        if not self.config.get('opaque_repr'):
            return self.frz(v)
        if isinstance(v, Tup):
            return Tup(self.fz(x) for x in v.items)
        if isinstance(v, Obj):
            return App('objref', v.addr)
        if isinstance(v, Bound):
            return App('boundm', v.fn, self.fz(v.self_))
        if isinstance(v, App) and v.op in ('fmt', 'join', 'repr', 'str', 'fmt1'):
            return App('text', ty='str')
        return v

    def frz(self, v, depth=0, seen=()):
        if isinstance(v, Obj):
            if v.addr in seen or depth > 8:
                return App('objref', v.addr)
            o = self.h(v)
            s = seen + (v.addr,)
            d = depth + 1
            if o.kind == 'list':
                segs = tuple(self._frz_seg(x, d, s) for x in o.f['segs'])
                if isinstance(o.cls, ClassInfo):
                    return App('list', segs, o.cls.name)
                return App('list', segs)
            if o.kind == 'dict':
                return App('dict', tuple(self._frz_seg(x, d, s) for x in o.f['segs']))
            if o.kind == 'set':
                return App('set', tuple(self._frz_seg(x, d, s) for x in o.f['segs']))
            if o.kind == 'bytearray':
                t = App('bytearray', self.frz(o.f['init'], d, s), ty='bytearray')
                for l in o.f['log']:
                    t = App('mutated', t, l, ty='bytearray')
                return t
            if o.kind == 'inst':
                fs = tuple(sorted(((k, self.frz(x, d, s)) for k, x in o.f.items()), key=lambda p: str(p[0])))
                return App('inst', o.cls.name if isinstance(o.cls, ClassInfo) else str(o.cls), fs,
                           ty=('inst', o.cls) if isinstance(o.cls, ClassInfo) else None)
            return App('objref', v.addr)
        if isinstance(v, Tup):
            return Tup(self.frz(i, depth + 1, seen) for i in v.items)
        if isinstance(v, Bound):
            return App('boundm', v.fn, self.frz(v.self_, depth + 1, seen))
        return v

    def _frz_seg(self, seg, d, s):
        k = seg[0]
        if k == 'one':
            return ('one', self.frz(seg[1], d, s))
        if k == 'item':
            return ('item', self.frz(seg[1], d, s), self.frz(seg[2], d, s))
        if k == 'loop':
            return ('loop', seg[1], tuple((fs, tuple(self._frz_seg(x, d, s) for x in segs)) for fs, segs in seg[2]))
        return (k,) + tuple(self.frz(x, d, s) if isinstance(x, V) else x for x in seg[1:])

    # ------------------------------------------------------------------ types
    def ty(self, v):
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Obj):
            o = self.h(v)
            if o.kind == 'inst' or isinstance(o.cls, ClassInfo):
                return ('inst', o.cls)
            return o.kind
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, (Fn, Bound)):
            return 'func'
        if isinstance(v, Cls):
            return 'type'
        if isinstance(v, App):
            if v.ty is not None:
                return v.ty
            if v.op == 'lin':
                for a, c in v.args[0]:
                    if not self.is_int(a) or isinstance(c, (float, Fraction)):
                        return 'num'
                return 'num' if isinstance(v.args[1], (float, Fraction)) else 'int'
            if v.op in ('len', 'idx', 'floordiv', 'int', 'shl', 'shr', 'band', 'bor', 'count', 'struct.calcsize', 'mod', 'ceil',
                        'floor', 'calcsize', 'inv', 'ord'):
                return 'int'
            if v.op in ('sum', 'div', 'mul', 'min', 'max'):
                if v.op in ('mul', 'min', 'max') and all(isinstance(a, V) and self.is_int(a) for a in v.args):
                    return 'int'
                return 'num'
            if v.op in ('pack', 'bytes'):
                return 'bytes'
            if v.op in ('slice', 'repeat'):
                return self.ty(v.args[0])
            if v.op == 'cat':
                return self.ty(v.args[0])
            if v.op in ('eq', 'in', 'isinstance', 'hasattr', 'isnone', 'gt0', 'eq0', 'truth', 'any', 'is', 'callable', 'not'):
                return 'bool'
            if v.op in ('fmt', 'str', 'repr'):
                return 'str'
            if v.op == 'sliceobj':
                return 'slice'
            if v.op == 'call' and isinstance(v.args[0], App) and v.args[0].op == 'attr':
                n = v.args[0].args[1]
                if n in ('strip', 'lstrip', 'rstrip', 'ljust', 'rjust', 'center'):
                    return self.ty(v.args[0].args[0])
                return RESULT_TY.get(n)
        return None

    def is_int(self, v):
        t = self.ty(v)
        return t in ('int', 'bool')

    def is_numish(self, v):
        t = self.ty(v)
        return t in ('int', 'bool', 'float', 'num') or (isinstance(v, App) and v.op == 'lin')

    def nonneg(self, a):
        if isinstance(a, K):
            return is_num(a) and a.v >= 0
        if isinstance(a, App):
            if a.op in ('len', 'idx', 'calcsize'):
                return True
            if a.op == 'call' and isinstance(a.args[0], App) and a.args[0].op == 'attr' and a.args[0].args[1] in (
                    'sizeof', 'bit_length'):
                return True
            if a.op == 'attr' and a.args[1] in ('min', 'max') and self.ty(a.args[0]) and \
                    self.ty(a.args[0])[0] == 'inst' and self.ty(a.args[0])[1].name == 'MinMax':
                return True
            if a.op in ('min', 'mul'):
                return all(self.nonneg(x) for x in a.args)
            if a.op == 'max':
                return any(self.nonneg(x) for x in a.args)
            if a.op == 'shl':
                return self.nonneg(a.args[0])
            if a.op == 'lin':
                return all(c >= 0 and self.nonneg(t) for t, c in a.args[0]) and a.args[1] >= 0
            if a.op == 'sum':
                return all(self.nonneg(x) for fs, x in a.args[1])
        if isinstance(a, Sym) and a.ty == 'nat':
            return True
        return False

    def nonnull(self, v):
        if isinstance(v, K):
            return v.v is not None
        if isinstance(v, (Tup, Obj, Fn, Bound, Cls, Mod, Ext, Super)):
            return True
        t = self.ty(v)
        if t is not None:
            return True
        if isinstance(v, App) and v.op in ('add', 'list', 'dict'):
            return True
        return False

    # ------------------------------------------------------------------ conditions
    def assume(self, atom, val):
        self.facts[atom] = val

    def branch(self, atom):
        d = self.decide(atom)
        if d is not None:
            return d
        r = self.choose(2) == 0
        self.facts[atom] = r
        return r

    def lit_gt0(self, L):
        """truth of L > 0"""
        li = to_lin(L)
        if not li[0]:
            return li[1] > 0, None
        lead = min(li[0].items(), key=lambda p: p[0].sk())
        allint = all(self.is_int(a) and not isinstance(c, (float, Fraction)) for a, c in li[0].items()) and not isinstance(
            li[1], (float, Fraction))
        if allint and lead[1] < 0:
            # L > 0  <=>  not (1 - L > 0)
            return None, (App('gt0', lin_add(K(1), L, -1)), False)
        return None, (App('gt0', L), True)

    def cond_gt0(self, L):
        c, lit = self.lit_gt0(L)
        if c is not None:
            return c
        r = self.branch(lit[0])
        return r if lit[1] else not r

    def const_of(self, v):
        """constant a term is known to equal on this trace"""
        if isinstance(v, K):
            return v
        for a, val in self.facts.items():
            if val and isinstance(a, App):
                if a.op == 'eq0':
                    li = to_lin(a.args[0])
                    if len(li[0]) == 1 and v in li[0] and li[0][v] == 1:
                        return from_lin({}, -li[1])
                elif a.op == 'eq':
                    x, y = a.args
                    if x == v and isinstance(y, K):
                        return y
                    if y == v and isinstance(x, K):
                        return x
                elif a.op == 'isnone' and a.args[0] == v:
                    return NONE
        if isinstance(v, (App, Sym)):
            lo = hi = None
            for a, val in self.facts.items():
                if isinstance(a, App) and a.op == 'gt0':
                    li = to_lin(a.args[0])
                    if len(li[0]) == 1 and v in li[0] and isinstance(li[1], int):
                        k = li[0][v]
                        if k not in (1, -1):
                            continue
                        # k*v + c > 0  (or its negation) over the integers
                        if k == 1 and val:
                            lo = max(lo, 1 - li[1]) if lo is not None else 1 - li[1]
                        elif k == 1:
                            hi = min(hi, -li[1]) if hi is not None else -li[1]
                        elif val:
                            hi = min(hi, li[1] - 1) if hi is not None else li[1] - 1
                        else:
                            lo = max(lo, li[1]) if lo is not None else li[1]
            if hi is not None and (lo == hi or hi == 0 and self.nonneg(v)) and self.is_int(v):
                return K(hi)
        return None

    def decide(self, atom):
        f = self.facts
        if atom in f:
            return f[atom]
        op = atom.op
        if op == 'isnone':
            x = atom.args[0]
            if self.nonnull(x):
                return False
            if f.get(App('truth', x)) is True:
                return False
            c = self.const_of(x)
            if c is not None:
                return c.v is None
            for a, val in f.items():
                if val and a.op == 'isinstance' and a.args[0] == x:
                    return False
                if val and a.op == 'gt0' and x in to_lin(a.args[0])[0]:
                    return False
            return None
        if op == 'truth':
            x = atom.args[0]
            if f.get(App('isnone', x)) is True:
                return False
            c = self.const_of(x)
            if c is not None and not isinstance(c.v, (type(None),)):
                return bool(c.v)
            return None
        if op == 'gt0':
            return self.decide_gt0(atom.args[0])
        if op == 'eq0':
            return self.decide_eq0(atom.args[0])
        if op == 'eq':
            x, y = atom.args
            cx, cy = self.const_of(x), self.const_of(y)
            if cx is not None and cy is not None:
                return cx.v == cy.v
            for u, w in ((x, y), (y, x)):
                if isinstance(u, K):
                    # x known different constant handled above
                    t = self.ty(w)
                    if isinstance(u.v, str) and t in ('int', 'bytes', 'bool'):
                        return False
            return None
        if op == 'isinstance':
            return self.decide_isinstance(atom.args[0], atom.args[1])
        if op == 'in':
            return None
        if op == 'hasattr':
            return None
        return None

    def interval(self, L):
        return None

    def decide_gt0(self, L):
        li = to_lin(L)
        if not li[0]:
            return li[1] > 0
        if all(c > 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] > 0:
            return True
        if all(c < 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] <= 0:
            return False
        allint = all(self.is_int(a) for a in li[0])
        for a, val in list(self.facts.items()):
            if a.op == 'gt0':
                M = a.args[0]
                d = to_lin(lin_add(L, M, -1))
                if not d[0]:
                    if val and d[1] >= 0:
                        return True
                    if not val and d[1] <= 0:
                        return False
                elif len(d[0]) <= 2:
                    iv = self.interval(from_lin(*d))
                    if iv is not None:
                        if val and iv[0] >= 0:
                            return True
                        if not val and iv[1] <= 0:
                            return False
                e = to_lin(lin_add(L, M))
                if not e[0]:
                    # L = e - M
                    if val and e[1] <= 0:
                        return False
                    if val and allint and e[1] <= 1:
                        return False       # M >= 1  =>  L = e - M <= 0
                    if not val and e[1] > 0:
                        return True
                elif len(e[0]) <= 2:
                    iv = self.interval(from_lin(*e))
                    if iv is not None:
                        if val and iv[1] <= (1 if allint and all(self.is_int(x) for x in e[0]) else 0):
                            return False
                        if not val and iv[0] > 0:
                            return True
            elif a.op == 'eq0' and val:
                for s in (1, -1):
                    d = to_lin(lin_add(L, a.args[0], s))
                    if not d[0]:
                        return d[1] > 0
                # substitute
            elif a.op == 'eq0' and not val and allint:
                d = to_lin(lin_add(L, a.args[0], -1))
                # x != 0 and x >= 0  => x > 0
                if not d[0] and d[1] == 0 and self.decide_ge0(L):
                    return True
        for v in li[0]:
            c = self.const_of(v)
            if c is not None and is_num(c):
                d = dict(li[0])
                k = d.pop(v)
                return self.decide_gt0(from_lin(d, li[1] + k * c.v))
        return None

    def decide_ge0(self, L):
        li = to_lin(L)
        if not li[0]:
            return li[1] >= 0
        if all(c > 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] >= 0:
            return True
        for a, val in self.facts.items():
            if a.op == 'gt0':
                if val:
                    d = to_lin(lin_add(L, a.args[0], -1))
                    if not d[0] and d[1] >= 0:
                        return True
                    if not d[0] and d[1] >= -1 and all(self.is_int(x) for x in li[0]):
                        return True
                else:
                    d = to_lin(lin_add(L, a.args[0]))
                    if not d[0] and d[1] >= 0:
                        return True
            elif a.op == 'eq0' and val:
                for s in (1, -1):
                    d = to_lin(lin_add(L, a.args[0], s))
                    if not d[0] and d[1] >= 0:
                        return True
        return None

    def decide_eq0(self, L):
        li = to_lin(L)
        if not li[0]:
            return li[1] == 0
        if all(c > 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] > 0:
            return False
        if all(c < 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] < 0:
            return False
        up = lo = False
        for a, val in list(self.facts.items()):
            if a.op == 'eq0':
                for s in (1, -1):
                    d = to_lin(lin_add(L, a.args[0], s))
                    if not d[0]:
                        if val:
                            return d[1] == 0
                        if d[1] == 0:
                            return False
            elif a.op == 'gt0':
                d = to_lin(lin_add(L, a.args[0], -1))
                if not d[0]:
                    if val and d[1] >= 0:
                        return False
                    if not val and d[1] < 0:
                        return False
                    if not val and d[1] <= 0:
                        up = True          # L <= 0
                e = to_lin(lin_add(L, a.args[0]))
                if not e[0]:
                    if val and e[1] <= 0:
                        return False
                    if not val and e[1] > 0:
                        return False
                    if not val and e[1] >= 0:
                        lo = True          # L >= 0
        if (up or all(c < 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] <= 0) and \
                (lo or all(c > 0 and self.nonneg(a) for a, c in li[0].items()) and li[1] >= 0):
            return True
        for v in li[0]:
            c = self.const_of(v)
            if c is not None and is_num(c):
                d = dict(li[0])
                k = d.pop(v)
                return self.decide_eq0(from_lin(d, li[1] + k * c.v))
        return None

    def cond_eq0(self, L):
        li = to_lin(L)
        if not li[0]:
            return li[1] == 0
        lead = min(li[0].items(), key=lambda p: p[0].sk())
        if lead[1] < 0:
            L = lin_mul(L, K(-1))
        return self.branch(App('eq0', L))

    BUILTIN_TYPES = {'int': 'int', 'bool': 'int', 'float': 'float', 'str': 'str', 'bytes': 'bytes', 'bytearray': 'bytearray',
                     'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'nat': 'int', 'type': 'type'}

    KNOWN_TYPES = {'object', 'NoneType', 'Hashable', 'int', 'str', 'bytes', 'bytearray', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'type',
                   'slice', 'Number', 'FunctionType', 'MethodType', 'LambdaType', 'BuiltinFunctionType', 'Sized', 'Iterable', 'Sequence',
                   'MutableSequence', 'Collection', 'Mapping', 'MutableMapping', 'Decimal', 'Fraction', 'Random', 'memoryview', 'frozenset',
                   'complex', 'range', 'StringIO', 'BytesIO', 'partial'}

    def type_matches(self, t, C):
        """does a value of abstract type t belong to class value C?  True/False/None"""
        if t is None:
            return None
        if isinstance(t, tuple) and t[0] == 'inst':
            ci = t[1]
            if not isinstance(ci, ClassInfo):
                return None
            if isinstance(C, Cls):
                if ci.subclass_of(C.info):
                    return True
                if len(t) > 2 and C.info.subclass_of(ci):
                    return None      # may be a subclass
                return False
            if isinstance(C, Ext):
                n = C.name.split('.')[-1]
                eb = [e.split('.')[-1] for e in ci.ext_bases()]
                if n == 'object' or n in eb:
                    return True
                if n in ('Sized', 'Iterable', 'Sequence', 'MutableSequence', 'Collection'):
                    order = ['MutableSequence', 'Sequence', 'Collection', 'Sized', 'Iterable']
                    for e in eb:
                        if e == 'list':
                            return True
                        if e in order and n in order[order.index(e):]:
                            return True
                    if n == 'Sized':
                        return ci.find('__len__') is not None
                    if n == 'Iterable':
                        return ci.find('__iter__') is not None
                if n in ('int', 'str', 'bytes', 'bytearray', 'float', 'bool', 'list', 'tuple', 'dict', 'type', 'slice',
                         'Number', 'FunctionType', 'MethodType', 'set'):
                    base = {'list': 'list', 'tuple': 'tuple'}
                    return n in eb
                return False
            return None
        if isinstance(t, tuple) and t[0] == 'sub':
            if isinstance(C, Cls):
                return None if 'type' not in C.info.ext_bases() else None
            if isinstance(C, Ext):
                return C.name in ('type', 'object')
            return None
        if isinstance(t, tuple) and t[0] == 'list':
            t = 'list'
        if isinstance(C, Cls):
            if t == 'type' or t == 'stream' or t == 'opaque':
                return None
            return False
        if isinstance(C, Ext):
            n = C.name.split('.')[-1]
            bt = self.BUILTIN_TYPES.get(t, t)
            if n == bt or n == 'object':
                return True
            if t == 'bool' and n == 'bool':
                return True
            if n == 'Number':
                return bt in ('int', 'float', 'num')
            if n in ('Sized', 'Iterable'):
                return bt in ('str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set')
            if n == 'Sequence':
                return bt in ('str', 'bytes', 'bytearray', 'list', 'tuple')
            if n in ('Integral', 'Rational', 'Real', 'Complex'):
                return bt == 'int' or bt in ('float', 'num') and n in ('Real', 'Complex') or (None if bt == 'num' else False)
            if n in ('Collection', 'Container'):
                return bt in ('str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set')
            if n in ('Mapping', 'MutableMapping'):
                return bt == 'dict'
            if n == 'Hashable':
                return bt not in ('bytearray', 'list', 'dict', 'set') if bt in self.KNOWN_TYPES else None
            if n == 'MutableSequence':
                return bt in ('bytearray', 'list')
            if n not in self.KNOWN_TYPES and not (n in BUILTIN_NAMES and '.' not in C.name):
                return None
            if n in ('FunctionType', 'MethodType'):
                return None if t == 'func' else False
            if bt == 'num':
                return None if n in ('int', 'float', 'bool') else False
            if t == 'stream' or t == 'opaque':
                return None
            return False
        return None

    def decide_isinstance(self, x, C):
        if isinstance(x, Cls):
            if isinstance(C, Ext):
                return C.name in ('type', 'object')
            if isinstance(C, Cls):
                m = x.info.meta
                while m is None:
                    bs = [b.info for b in x.info.mro()[1:] if False]
                    break
                for c in x.info.mro():
                    if isinstance(c, ClassInfo) and isinstance(c.meta, Cls):
                        return c.meta.info.subclass_of(C.info)
                return False
        if isinstance(x, Ext):
            if isinstance(C, Ext) and C.name == 'type':
                return x.name.split('.')[-1][:1].islower() and x.name in ('int', 'str', 'bytes', 'float', 'list')
            if isinstance(C, Ext) and C.name == 'object':
                return True
            if isinstance(C, Cls) or x.name in BUILTIN_NAMES:
                if x.name in BUILTIN_NAMES or x.name.split('.')[0] in ('operator', 'math', 'struct', 'functools', 'itertools', 'json'):
                    return False
            return None
        if isinstance(x, App) and x.op == 'partial':
            return C.name in ('object', 'partial', 'functools.partial', 'Callable') if isinstance(C, Ext) else False
        if isinstance(x, (Fn, Bound)) and isinstance(C, Cls):
            return False
        if isinstance(x, (Fn, Bound)) and isinstance(C, Ext):
            n = C.name.split('.')[-1]
            if n in ('FunctionType', 'MethodType'):
                return (n == 'FunctionType') == isinstance(x, Fn)
            return n == 'object'
        if isinstance(x, K) and x.v is None:
            if isinstance(C, Ext) and C.name.split('.')[-1] not in self.KNOWN_TYPES:
                return None
            return isinstance(C, Ext) and C.name.split('.')[-1] in ('object', 'NoneType', 'Hashable')
        if isinstance(x, Obj) and self.h(x).kind == 'iter':
            return None
        if isinstance(x, Obj) and self.h(x).kind == 'list' and self.h(x).f.get('iter'):
            n = C.name.split('.')[-1] if isinstance(C, Ext) else None
            return None if n in ('Generator', 'GeneratorType', 'Reversible') else n in ('object', 'Iterable', 'Iterator', 'Hashable')
        r = self.type_matches(self.ty(x), C)
        if r is not None:
            return r
        if self.facts.get(App('isnone', x)) is True:
            return False
        for a, val in self.facts.items():
            if a.op == 'isinstance' and a.args[0] == x:
                D = a.args[1]
                sub = self.class_sub(D, C)
                if val and sub is True:
                    return True
                if val and self.class_disjoint(D, C):
                    return False
                if not val and self.class_sub(C, D) is True:
                    return False
        return None

    def class_sub(self, D, C):
        if D == C:
            return True
        if isinstance(D, Cls):
            if isinstance(C, Cls):
                return D.info.subclass_of(C.info)
            return C.name.split('.')[-1] in [e.split('.')[-1] for e in D.info.ext_bases()] or C.name == 'object'
        if isinstance(D, Ext) and isinstance(C, Ext):
            if C.name == 'object':
                return True
            if D.name == 'bool' and C.name == 'int':
                return True
            m = _exc_mro(D.name)
            if len(m) > 2 and C.name in m:
                return True
        return False

    def class_disjoint(self, D, C):
        core = {'int', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'float', 'set', 'slice', 'type'}
        if isinstance(D, Ext) and isinstance(C, Ext):
            return D.name in core and C.name in core and D.name != C.name
        if isinstance(D, Cls) and isinstance(C, Ext):
            return C.name in core and C.name not in D.info.ext_bases()
        if isinstance(D, Ext) and isinstance(C, Cls):
            return D.name in core and D.name not in C.info.ext_bases()
        return False

    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Tup):
            if any(isinstance(i, App) and i.op == 'star' for i in v.items):
                return self.branch(App('truth', v))
            return len(v.items) > 0
        if isinstance(v, (Fn, Bound, Cls, Ext, Mod, Super)):
            return True
        if isinstance(v, Obj):
            o = self.h(v)
            if o.kind == 'list' and o.f.get('iter'):
                return True
            if o.kind in ('list', 'dict', 'set'):
                for s in o.f['segs']:
                    if s[0] in ('one', 'item'):
                        return True
                if not o.f['segs']:
                    return False
                return self.cond_gt0(self.length(v))
            if o.kind == 'bytearray':
                return self.cond_gt0(self.length(v))
            if o.kind == 'inst' and isinstance(o.cls, ClassInfo):
                r = o.cls.find('__bool__')
                if r:
                    return self.truth(self.call(Bound(r[1], v), [], []))
                r = o.cls.find('__len__')
                if r:
                    return self.truth(self.call(Bound(r[1], v), [], []))
            return True
        if isinstance(v, App):
            if v.op == 'not':
                return not self.truth(v.args[0])
            if v.op == 'gt0':
                return self.cond_gt0(v.args[0])
            if v.op == 'eq0':
                return self.cond_eq0(v.args[0])
            if v.op in ('eq', 'in', 'isinstance', 'hasattr', 'isnone', 'truth', 'any', 'is', 'callable', 'issubclass'):
                return self.branch(v)
            if v.op == 'res' or v.op == 'call':
                pass
        t = self.ty(v)
        if t in ('bytes', 'str', 'bytearray', 'list', 'dict', 'tuple') or (isinstance(t, tuple) and t[0] == 'list'):
            return self.cond_gt0(self.length(v))
        if self.is_numish(v) or t == 'nat':
            return not self.cond_eq0(v)
        if t == 'func' or (isinstance(t, tuple) and t[0] == 'sub'):
            return True
        if isinstance(t, tuple) and t[0] == 'inst':
            r = t[1].find('__bool__') or t[1].find('__len__')
            if not r and not set(e.split('.')[-1] for e in t[1].ext_bases()) & {'Sequence', 'list', 'MutableSequence', 'tuple'}:
                return True
            if r and r[0].name != 'Reference':
                return self.truth(self.call(Bound(r[1], v), [], []))
        return self.branch(App('truth', v))

    # ------------------------------------------------------------------ pure operations
    def length(self, v):
        if isinstance(v, K) and isinstance(v.v, (bytes, str)):
            return K(len(v.v))
        if isinstance(v, Tup):
            if any(isinstance(i, App) and i.op == 'star' for i in v.items):
                return App('len', v)
            return K(len(v.items))
        if isinstance(v, Obj):
            o = self.h(v)
            if o.kind in ('list', 'set', 'dict'):
                n = K(0)
                for s in o.f['segs']:
                    if s[0] in ('one', 'item'):
                        n = lin_add(n, K(1))
                    elif s[0] == 'loop' and len(s[2]) == 1 and all(x[0] == 'one' for x in s[2][0][1]) and not s[2][0][0]:
                        n = lin_add(n, lin_mul(self.iter_count(s[1]), K(len(s[2][0][1]))))
                    elif s[0] == 'many':
                        n = lin_add(n, self.length(s[1]))
                    else:
                        return App('len', self.frz(v))
                return n
            if o.kind == 'bytearray' and not o.f['log']:
                return self.length_bytes(o.f['init'])
            if isinstance(o.cls, ClassInfo):
                r = o.cls.find('__len__')
                if r:
                    return self.call(Bound(r[1], v), [], [])
            if o.kind == 'bytearray':
                return App('len', self.frz(v))
        t = self.ty(v)
        if isinstance(t, tuple) and t[0] == 'inst' and isinstance(t[1], ClassInfo):
            r = t[1].find('__len__')
            if r:
                return self.call(Bound(r[1], v), [], [])
        return self.length_bytes(v)

    def length_bytes(self, v):
        if isinstance(v, K) and isinstance(v.v, (bytes, str)):
            return K(len(v.v))
        if isinstance(v, App):
            if v.op == 'cat':
                n = K(0)
                for a in v.args:
                    n = lin_add(n, self.length(a))
                return n
            if v.op in ('pack',):
                if isinstance(v.args[0], K):
                    return K(_struct.calcsize(v.args[0].v))
                return App('calcsize', v.args[0])
            if v.op == 'repeat':
                r = lin_mul(self.length(v.args[0]), v.args[1])
                if r is not None:
                    return r
            if v.op in ('bytes', 'bytearray', 'reversed', 'sorted', 'listof', 'tupleof', 'keys', 'items', 'values', 'enumerate'):
                if self.ty(v.args[0]) in ('int', 'nat', 'num'):
                    return v.args[0]
                return self.length(v.args[0])
            if v.op == 'zeros':
                return v.args[0]
            if v.op == 'list' and all(s[0] == 'one' for s in v.args[0]):
                return K(len(v.args[0]))
            if v.op == 'slice':
                x, a, b = v.args
                L = self.length(x)
                a0 = K(0) if isinstance(a, K) and a.v is None else a
                b0 = L if isinstance(b, K) and b.v is None else b
                # only when provably inside
                if self.decide_ge0(a0) and self.decide_ge0(lin_add(b0, a0, -1)) and self.le(b0, L):
                    return lin_add(b0, a0, -1)
                if isinstance(a0, K) and a0.v == 0 and self.decide_ge0(b0):
                    if self.le(L, b0):
                        return L
        return App('len', v)

    def le(self, a, b):
        """a <= b provable (including through min())"""
        if a == b:
            return True
        if isinstance(a, App) and a.op == 'min' and any(self.le(x, b) for x in a.args):
            return True
        if isinstance(b, App) and b.op == 'max' and any(self.le(a, x) for x in b.args):
            return True
        d = lin_add(b, a, -1)
        return d is not None and bool(self.decide_ge0(d))

    def cat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, App) and p.op == 'cat':
                ps = list(p.args)
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, K) and q.v in (b'', ''):
                    continue
                if out and isinstance(q, K) and isinstance(out[-1], K) and type(q.v) is type(out[-1].v):
                    out[-1] = K(out[-1].v + q.v)
                    continue
                if out and isinstance(q, App) and q.op == 'slice':
                    p0 = out[-1]
                    if isinstance(p0, App) and p0.op == 'slice' and p0.args[0] == q.args[0] and p0.args[2] == q.args[1]:
                        out[-1] = self.slice_(q.args[0], p0.args[1], q.args[2])
                        continue
                out.append(q)
        if not out:
            return parts[0] if parts else K(b'')
        if len(out) == 1:
            return out[0]
        return App('cat', *out)

    def slice_(self, x, a, b, step=NONE):
        if step.key() not in (NONE.key(), K(1).key()):
            return App('slice3', x, a, b, step)
        if isinstance(a, K) and a.v == 0 and not isinstance(a.v, bool):
            a = NONE
        if a == NONE and b == NONE and (self.ty(x) in ('bytes', 'str', 'tuple')):
            return x
        if isinstance(x, K) and isinstance(x.v, (bytes, str)) and isinstance(a, K) and isinstance(b, K):
            try:
                return K(x.v[a.v:b.v])
            except TypeError:
                raise PyRaise(App('excinst', Ext('TypeError'), Tup(())))
        if isinstance(x, Tup) and isinstance(a, K) and isinstance(b, K):
            return Tup(x.items[a.v:b.v])
        if a == NONE and b != NONE and isinstance(x, App) and x.op == 'slice' and x.args[1] == NONE and x.args[2] == b:
            return x
        if a == NONE and b == App('len', x):
            return x
        return App('slice', x, a, b)

    def eq_val(self, a, b):
        """value of a == b (K bool or atom App)"""
        if isinstance(a, K) and isinstance(a.v, float) and a.v != a.v:
            return FALSE
        if a == b and not isinstance(a, App):
            return TRUE
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            cls = self.inst_class(x)
            if cls is not None:
                r = cls.find('__eq__')
                if r:
                    v = self.call(Bound(r[1], x), [y], [])
                    if v != NOTIMPL:
                        return v
        ca, cb = self.plain_inst(a), self.plain_inst(b)
        if ca is not None and ca is cb and getattr(ca, 'dataclass', None) is not None and ca.dataclass_eq:
            for n, _ in ca.dataclass:
                if not self.truth(self.eq_val(self.getattr_(a, n), self.getattr_(b, n))):
                    return FALSE
            return TRUE
        if a != b and (self.plain_inst(a) is not None and self.known_kind(b) or self.plain_inst(b) is not None and self.known_kind(a)) and \
                not any(isinstance(x, Obj) and self.h(x).kind == 'inst' and self.is_namedtuple(self.h(x).cls) for x in (a, b)):
            return FALSE        # nobody's __eq__ applies: objects are equal to themselves only
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v == b.v)
        if isinstance(a, K) and a.v is None:
            a, b = b, a
        if isinstance(b, K) and b.v is None:
            if self.nonnull(a):
                return FALSE
            return App('isnone', a)
        ka = isinstance(a, (Tup, Obj, Cls, Fn, Bound, Ext, Mod, K))
        kb = isinstance(b, (Tup, Obj, Cls, Fn, Bound, Ext, Mod, K))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            for x, y in zip(a.items, b.items):
                if not self.truth(self.eq_val(x, y)):
                    return FALSE
            return TRUE
        if isinstance(a, (Cls, Fn, Ext)) and isinstance(b, (Cls, Fn, Ext, K)):
            return FALSE
        if isinstance(a, Obj) and isinstance(b, Obj) and self.h(a).kind == 'list' and self.h(b).kind == 'list' and \
                all(s[0] == 'one' for o in (a, b) for s in self.h(o).f['segs']):
            sa, sb = self.h(a).f['segs'], self.h(b).f['segs']
            if len(sa) != len(sb):
                return FALSE
            for x, y in zip(sa, sb):
                if not self.truth(self.eq_val(x[1], y[1])):
                    return FALSE
            return TRUE
        if isinstance(a, Obj) and isinstance(b, Obj) and self.h(a).kind == 'dict' and self.h(b).kind == 'dict' and \
                all(s[0] == 'item' and isinstance(s[1], K) for o in (a, b) for s in self.h(o).f['segs']):
            da, db = [dict((s[1], s[2]) for s in self.h(o).f['segs']) for o in (a, b)]
            if set(da) != set(db):
                return FALSE
            for k in da:
                if not self.truth(self.eq_val(da[k], db[k])):
                    return FALSE
            return TRUE
        if isinstance(a, Obj) and isinstance(b, Obj) and self.h(a).kind == 'set' and self.h(b).kind == 'set' and \
                all(s[0] == 'one' and isinstance(s[1], K) for o in (a, b) for s in self.h(o).f['segs']):
            return K(set(s[1] for s in self.h(a).f['segs']) == set(s[1] for s in self.h(b).f['segs']))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and self.h(x).kind in ('list', 'dict', 'set') and not isinstance(self.h(x).cls, ClassInfo):
                if isinstance(y, (K, Tup, Cls, Fn, Ext)):
                    return FALSE
                if isinstance(y, Obj) and self.h(y).kind in ('list', 'dict', 'set') and self.h(y).kind != self.h(x).kind and \
                        not isinstance(self.h(y).cls, ClassInfo):
                    return FALSE
            elif isinstance(x, Tup) and isinstance(y, K):
                return FALSE
        if isinstance(b, (Cls, Fn, Ext)) and isinstance(a, K):
            return FALSE
        fa, fb = self.frz(a), self.frz(b)
        if ka and kb and isinstance(a, Obj) and isinstance(b, Obj):
            if fa == fb and self.h(a).kind != 'inst':
                return TRUE
            if self.h(a).kind == 'inst' and self.h(b).kind == 'inst':
                return FALSE
        if self.is_numish(a) or self.is_numish(b) or (isinstance(a, K) and is_num(a)) or (isinstance(b, K) and is_num(b)):
            L = lin_add(fa, fb, -1)
            if L is not None:
                li = to_lin(L)
                if not li[0]:
                    return K(li[1] == 0)
                lead = min(li[0].items(), key=lambda p: p[0].sk())
                if lead[1] < 0:
                    L = lin_mul(L, K(-1))
                return App('eq0', L)
        x, y = sorted((fa, fb), key=lambda t: t.sk())
        return App('eq', x, y)

    def is_val(self, a, b):
        if a == b:
            return TRUE
        if isinstance(b, K) and b.v is None or isinstance(a, K) and a.v is None:
            x = a if isinstance(b, K) and b.v is None else b
            if self.nonnull(x):
                return FALSE
            return App('isnone', x)
        if isinstance(a, (Obj, Cls, Fn, K, Ext)) and isinstance(b, (Obj, Cls, Fn, K, Ext)):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and isinstance(x.v, bool) and not isinstance(y, K):
                if isinstance(y, (Tup, Bound, Mod)) or isinstance(y, App) and y.op == 'boundm' or self.ty(y) in (
                        'int', 'nat', 'num', 'float', 'bytes', 'str', 'bytearray', 'list', 'dict', 'tuple', 'set'):
                    return FALSE
                if self.ty(y) == 'bool':
                    t = K(self.truth(y))
                    return K(t.v is x.v)
        x, y = sorted((self.frz(a), self.frz(b)), key=lambda t: t.sk())
        return App('is', x, y)

    def inst_class(self, v):
        if isinstance(v, Obj):
            c = self.h(v).cls
            return c if isinstance(c, ClassInfo) else None
        t = self.ty(v)
        if isinstance(t, tuple) and t[0] == 'inst' and isinstance(t[1], ClassInfo):
            return t[1]
        return None

    def plain_inst(self, x):
        """the class of an object whose special methods are all in analysed source, else None"""
        if not (isinstance(x, Obj) and self.h(x).kind == 'inst'):
            return None
        cls = self.h(x).cls
        if isinstance(cls, ClassInfo) and all(isinstance(c, ClassInfo) or c.name.split('.')[-1] in ('object', 'Sequence', 'MutableSequence')
                                              for c in cls.mro()):
            return cls
        return None

    def known_kind(self, x):
        """is x of a kind whose operators are known (so that they certainly refuse objects of analysed classes)?"""
        if isinstance(x, Obj):
            return self.h(x).kind != 'inst' or self.plain_inst(x) is not None
        if isinstance(x, Ext):
            return x.name in self.BUILTIN_TYPES
        return isinstance(x, (K, Tup, Cls, Fn, Bound)) or self.is_numish(x) or self.ty(x) in ('bytes', 'str', 'bytearray', 'bool', 'float')

    def operands(self, a, b, n, rn):
        """(self, other, method name) in the order Python asks them"""
        first, second = (a, b, n), (b, a, rn)
        ca, cb = self.inst_class(a), self.inst_class(b)
        if ca is not None and cb is not None and ca is not cb and any(c is ca for c in cb.mro()):
            f, g = cb.find(rn), ca.find(rn)
            if f is not None and (g is None or f[1] != g[1]):
                return (second, first)
        return (first, second)

    ORD = {ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'), ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__')}

    def order_val(self, op, a, b):
        for x, y, n in self.operands(a, b, *self.ORD[op]):
            cls = self.inst_class(x)
            if cls is not None:
                r = cls.find(n)
                if r:
                    v = self.call(Bound(r[1], x), [y], [])
                    if v != NOTIMPL:
                        return v
                elif any(isinstance(c, ClassInfo) and c.total_ordering for c in cls.mro()):
                    lt = cls.find('__lt__')
                    if lt:
                        if n == '__gt__':      # not (a<b) and a != b
                            if self.truth(self.call(Bound(lt[1], x), [y], [])):
                                return FALSE
                            return K(not self.truth(self.eq_val(x, y)))
                        if n == '__le__':
                            if self.truth(self.call(Bound(lt[1], x), [y], [])):
                                return TRUE
                            return K(self.truth(self.eq_val(x, y)))
                        if n == '__ge__':
                            return K(not self.truth(self.call(Bound(lt[1], x), [y], [])))
        if (self.plain_inst(a) is not None and self.known_kind(b) or self.plain_inst(b) is not None and self.known_kind(a)) and not any(
                isinstance(c, ClassInfo) and c.total_ordering for x in (a, b) if self.plain_inst(x) for c in self.plain_inst(x).mro()):
            raise self.exc('TypeError', K('not supported between instances'))
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K({ast.Lt: a.v.__lt__, ast.Gt: a.v.__gt__, ast.LtE: a.v.__le__, ast.GtE: a.v.__ge__}[op](b.v)
                         if type(a.v) == type(b.v) else eval_ord(op, a.v, b.v))
            except TypeError:
                raise PyRaise(App('excinst', Ext('TypeError'), Tup(())))
        if isinstance(a, Tup) and isinstance(b, Tup) and all(isinstance(i, K) for i in a.items + b.items):
            return K(eval_ord(op, tuple(i.v for i in a.items), tuple(i.v for i in b.items)))
        both = [self.to_iter(x) if isinstance(x, Tup) or isinstance(x, Obj) and self.h(x).kind == 'list' and not isinstance(
            self.h(x).cls, ClassInfo) else None for x in (a, b)]
        if all(k is not None and k[0] == 'known' for k in both) and type(a) is type(b):
            for x, y in zip(both[0][1], both[1][1]):
                if not self.truth(self.eq_val(x, y)):
                    return self.order_val(op, x, y)
            return K(eval_ord(op, len(both[0][1]), len(both[1][1])))
        fa, fb = self.frz(a), self.frz(b)
        if op in (ast.Lt, ast.Gt):
            L = lin_add(fb, fa, -1) if op is ast.Lt else lin_add(fa, fb, -1)
            if L is None:
                return App('ord', op.__name__, fa, fb)
            c, lit = self.lit_gt0(L)
            if c is not None:
                return K(c)
            return lit[0] if lit[1] else App('not', lit[0])
        L = lin_add(fa, fb, -1) if op is ast.LtE else lin_add(fb, fa, -1)
        if L is None:
            return App('ord', op.__name__, fa, fb)
        c, lit = self.lit_gt0(L)     # a <= b  <=> not (a - b > 0)
        if c is not None:
            return K(not c)
        return App('not', lit[0]) if lit[1] else lit[0]

    def in_val(self, x, c):
        if isinstance(c, K) and isinstance(c.v, (str, bytes)):
            if isinstance(x, K):
                try:
                    return K(x.v in c.v)
                except TypeError:
                    raise PyRaise(App('excinst', Ext('TypeError'), Tup(())))
            return App('in', self.frz(x), c)
        elems = None
        if isinstance(c, Tup):
            elems = list(c.items)
        elif isinstance(c, Obj):
            o = self.h(c)
            if o.kind in ('list', 'set') and all(s[0] == 'one' for s in o.f['segs']):
                elems = [s[1] for s in o.f['segs']]
            elif o.kind == 'dict':
                r = self.dict_find(c, x)
                if r[0] == 'hit':
                    return TRUE
                if r[0] == 'miss':
                    return FALSE
                if all(s[0] == 'item' for s in o.f['segs']):
                    elems = [s[1] for s in o.f['segs']]
            elif isinstance(o.cls, ClassInfo) and o.cls.find('__contains__'):
                return self.call(Bound(o.cls.find('__contains__')[1], c), [x], [])
            elif isinstance(o.cls, ClassInfo) and o.cls.find('__iter__'):
                k = self.to_iter(c)
                if k[0] == 'known':
                    elems = k[1]
        elif isinstance(c, App) and c.op in ('keys', 'listof', 'tupleof') and isinstance(c.args[0], V):
            return self.in_val(x, c.args[0])
        if elems is not None and all(isinstance(e, K) for e in elems) and isinstance(x, K):
            return K(any(type(e.v) == type(x.v) and e.v == x.v or (is_num(e) and is_num(x) and e.v == x.v) for e in elems))
        if elems is not None and any(e == x for e in elems):
            return TRUE
        if elems is not None and len(elems) <= 8:
            for e in elems:
                if isinstance(e, Obj) and isinstance(x, Obj):
                    if e.addr == x.addr:
                        return TRUE
                    if self.h(e).kind == 'inst' and not (
                            (isinstance(c, Tup) or isinstance(c, Obj) and self.h(c).kind == 'list') and
                            any(self.inst_class(z) is not None and self.inst_class(z).find('__eq__') for z in (e, x))):
                        continue
                if self.truth(self.eq_val(x, e)):
                    return TRUE
            return FALSE
        if elems is not None:
            for e in elems:
                cst = self.const_of(x)
                if cst is not None and isinstance(e, K) and e.v == cst.v:
                    return TRUE
        return App('in', self.frz(x), self.frz(c))

    def hash_of(self, x):
        """a value that differs for keys a dictionary certainly tells apart, or None"""
        cls = self.inst_class(x)
        if cls is None:
            return ('own', x) if isinstance(x, (K, Cls, Fn, Ext)) else None
        r = cls.find('__hash__')
        if r is None:
            if cls.find('__eq__'):
                raise self.exc('TypeError', K('unhashable type'))
            return ('id', x)
        if not isinstance(r[1], Fn):
            return None
        v = self.call(Bound(r[1], x), [], [])
        return ('hash', v) if isinstance(v, K) else None

    def dict_find(self, d, key):
        o = self.h(d)
        segs = o.f['segs']
        if isinstance(key, (Sym, App)):
            c = self.const_of(key)
            if c is not None:
                key = c
        for s in reversed(segs):
            if s[0] == 'item':
                if s[1] == key:
                    return ('hit', s[2])
                if isinstance(s[1], K) and isinstance(key, K):
                    if s[1].v == key.v and type(s[1].v) != str:
                        return ('hit', s[2])
                    continue
                if any(self.inst_class(x) is not None and self.inst_class(x).find('__eq__') for x in (s[1], key)):
                    hs = [self.hash_of(x) for x in (s[1], key)]
                    if None in hs or hs[0] == hs[1]:
                        return ('maybe', None)
                    continue
                if isinstance(s[1], (Obj, Cls, Fn, Ext)) and isinstance(key, (Obj, Cls, Fn, Ext, K)):
                    continue
                return ('maybe', None)
            return ('maybe', None)
        return ('miss', None)

    def exc(self, name, *args):
        return PyRaise(App('excinst', Ext(name), Tup(args)))

    def may_raise(self, names, term):
        """inside a try statement: fork on the exceptions an external operation may raise"""
        if self.tries <= 0:
            return
        r = self.choose(1 + len(names))
        if r:
            self.events.append(Event('extraise', (names[r - 1], self.frz(term)), self.loc))
            raise PyRaise(App('excinst', Ext(names[r - 1]), Tup((self.frz(term),))))

    def getitem(self, c, k):
        if isinstance(k, App) and k.op == 'sliceobj':
            return self.do_slice(c, k)
        if self.plain_inst(k) is not None and not self.plain_inst(k).find('__index__') and (
                isinstance(c, Tup) or isinstance(c, K) and isinstance(c.v, (str, bytes)) or self.ty(c) in ('str', 'bytes') or
                isinstance(c, Obj) and self.h(c).kind in ('list', 'bytearray') and not isinstance(self.h(c).cls, ClassInfo)):
            raise self.exc('TypeError', K('indices must be integers'))
        if isinstance(c, Obj):
            o = self.h(c)
            if isinstance(o.cls, ClassInfo):
                r = o.cls.find('__getitem__')
                if r:
                    return self.call(Bound(r[1], c), [k], [])
            if o.kind == 'dict':
                r = self.dict_find(c, k)
                if r[0] == 'hit':
                    return r[1]
                if r[0] == 'miss' and 'factory' in o.f:
                    x = self.call(o.f['factory'], [], [])
                    self.setitem(c, k, x)
                    return x
                if r[0] == 'miss':
                    raise self.exc('KeyError', self.frz(k))
                segs = o.f['segs']
                if all(s[0] == 'item' and isinstance(s[1], K) for s in segs) and len(segs) <= 12:
                    for s in segs:
                        if self.truth(self.eq_val(k, s[1])):
                            return s[2]
                    raise self.exc('KeyError', self.frz(k))
                return self.opaque_getitem(self.frz(c), k)
            if o.kind == 'list' and o.f.get('iter'):
                raise self.exc('TypeError', K('a generator is not subscriptable'))
            if o.kind == 'list':
                if isinstance(k, K) and isinstance(k.v, int):
                    segs = o.f['segs']
                    if all(s[0] == 'one' for s in segs):
                        try:
                            return segs[k.v][1]
                        except IndexError:
                            raise self.exc('IndexError')
                    if k.v >= 0 and k.v < len(segs) and all(s[0] == 'one' for s in segs[:k.v + 1]):
                        return segs[k.v][1]
                    if k.v < 0 and all(s[0] == 'one' for s in segs[k.v:]) and len(segs) >= -k.v:
                        return segs[k.v][1]
                elif isinstance(k, (Sym, App)) and len(o.f['segs']) == 1 and o.f['segs'][0][0] == 'loop':
                    s = o.f['segs'][0]
                    if isinstance(k, App) and k.op == 'idx' and k.args[0] == self.iter_count(s[1]) and len(s[2]) == 1 \
                            and not s[2][0][0] and len(s[2][0][1]) == 1:
                        return s[2][0][1][0][1]
                return self.opaque_getitem(self.frz(c), k)
            if o.kind == 'inst' and 'min' in o.f and self.is_namedtuple(o.cls) and isinstance(k, K):
                names = self.is_namedtuple(o.cls)
                return o.f[names[k.v]]
            if o.kind == 'bytearray':
                return self.opaque_getitem(self.frz(c), k)
        if isinstance(c, Tup) and isinstance(k, K) and isinstance(k.v, int):
            try:
                return c.items[k.v]
            except IndexError:
                raise self.exc('IndexError')
        if isinstance(c, K) and isinstance(k, K):
            try:
                return K(c.v[k.v])
            except IndexError:
                raise self.exc('IndexError')
            except TypeError:
                raise self.exc('TypeError')
        cls = self.inst_class(c)
        if cls is not None:
            r = cls.find('__getitem__')
            if r:
                return self.call(Bound(r[1], c), [k], [])
            nt = self.is_namedtuple(cls)
            if nt and isinstance(k, K):
                return self.getattr_(c, nt[k.v])
        return self.opaque_getitem(c, k)

    def opaque_getitem(self, c, k):
        k = self.frz(k)
        if isinstance(c, App) and c.op == 'attr' and c.args[1] == '__dict__' and isinstance(k, K):
            return self.getattr_(c.args[0], k.v) if (c.args[0], k.v) in self.attr_store else App('getitem', c, k)
        if isinstance(k, App) and k.op == 'idx' and k.args[0] == self.length(c):
            return self.elem(c)
        if isinstance(c, App):
            if c.op == 'unpack' and isinstance(k, K) and k.v in (0, -1):
                return App('unpack1', *c.args)
            if c.op == 'getset':
                pass
        if isinstance(k, App) and k.op == 'elem' and k.args[0] in (c, App('keys', c)):
            return App('elem', App('values', c))
        if self.tries > 0 and self.ty(c) in (None, 'dict', 'opaque') and self.decide(App('in', k, c)) is None \
                and not isinstance(c, App):
            a = App('in', k, c)
            if not self.branch(a):
                raise self.exc('KeyError', k)
        elif self.decide(App('in', k, c)) is False:
            raise self.exc('KeyError', k)
        t = self.ty(c)
        ety = t[1] if isinstance(t, tuple) and t[0] == 'list' else ('int' if t in ('bytes', 'bytearray') else None)
        if (c, k) in self.extra.get('$items', {}):
            return self.extra['$items'][(c, k)]
        return App('getitem', c, k, ty=ety)

    def do_slice(self, c, k):
        a, b, st = k.args
        if isinstance(c, Obj):
            o = self.h(c)
            if isinstance(o.cls, ClassInfo):
                r = o.cls.find('__getitem__')
                if r:
                    return self.call(Bound(r[1], c), [k], [])
            if o.kind == 'list':
                segs = o.f['segs']
                if a == NONE and b == NONE and st == NONE:
                    return self.alloc('list', None, {'segs': list(segs)})
                if all(s[0] == 'one' for s in segs) and all(isinstance(x, K) for x in (a, b, st)):
                    return self.alloc('list', None, {'segs': segs[a.v:b.v:st.v]})
                if st in (NONE, K(1)) and b == NONE and isinstance(a, K) and a.v is not None and a.v >= 0 \
                        and all(s[0] == 'one' for s in segs[:a.v]) and len(segs) >= a.v:
                    return self.alloc('list', None, {'segs': segs[a.v:]})
            if o.kind == 'bytearray':
                return self.slice_(self.frz(c), a, b, st)
            return self.slice_(self.frz(c), a, b, st)
        cls = self.inst_class(c)
        if cls is not None:
            r = cls.find('__getitem__')
            if r:
                return self.call(Bound(r[1], c), [k], [])
        return self.slice_(c, self.frz(a), self.frz(b), st)

    def is_namedtuple(self, cls):
        for c in cls.mro():
            if isinstance(c, Ext) and c.name.startswith('namedtuple:'):
                return c.name.split(':')[2].replace(',', ' ').split()
        return None

    def binop(self, op, a, b):
        name = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
                ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitAnd: 'and', ast.BitOr: 'or',
                ast.BitXor: 'xor'}[op]
        for i, (x, y, n) in enumerate(self.operands(a, b, '__%s__' % name, '__r%s__' % name)):
            if isinstance(x, App) and x.op == 'lc':
                continue
            cls = self.inst_class(x)
            if cls is not None and not (isinstance(a, App) and a.op == 'lc' or isinstance(b, App) and b.op == 'lc'):
                if i and self.inst_class(y) is cls:
                    continue        # an object of the same class is not asked for the reflected operation
                r = cls.find(n)
                if r:
                    v = self.call(Bound(r[1], x), [y], [])
                    if v != NOTIMPL:
                        return v
        for x, o in ((a, b), (b, a)):
            cls = self.plain_inst(x)
            if cls is not None and not (op is ast.Mod and self.ty(a) in ('str', 'bytes')) and not (op is ast.Mult and cls.find('__index__')):
                if self.known_kind(o):
                    raise self.exc('TypeError', K('unsupported operand type'))
        if isinstance(a, K) and isinstance(b, K) and not (isinstance(a.v, str) and op is ast.Mod):
            try:
                import operator
                if op is ast.Mult and any(isinstance(x.v, (str, bytes)) for x in (a, b)) and \
                        max(x.v for x in (a, b) if isinstance(x.v, int)) > 4096:
                    return App('repeat', a, b)
                if op in (ast.LShift, ast.Pow) and isinstance(b.v, int) and b.v > 4096:
                    return App('shl' if op is ast.LShift else 'pow', a, b)
                return K({ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
                          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
                          ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitAnd: operator.and_,
                          ast.BitOr: operator.or_, ast.BitXor: operator.xor}[op](a.v, b.v))
            except TypeError:
                raise self.exc('TypeError')
            except ZeroDivisionError:
                raise self.exc('ZeroDivisionError')
        if op is ast.Mod and self.ty(a) == 'str':
            return App('fmt', a, self.fz(b), ty='str')
        if op is ast.Add:
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            la, lb = self.as_listlike(a), self.as_listlike(b)
            if (la is not None or lb is not None) and not self.is_numish(a) and not self.is_numish(b):
                if la is None:
                    la = [('many', a)]
                if lb is None:
                    lb = [('many', b)]
                return self.alloc('list', None, {'segs': list(la) + list(lb)})
            if isinstance(a, Obj) and self.h(a).kind == 'bytearray':
                a = self.frz(a)
            if isinstance(b, Obj) and self.h(b).kind == 'bytearray':
                b = self.frz(b)
            ta, tb = self.ty(a), self.ty(b)
            if ta in ('bytes', 'str', 'bytearray') or tb in ('bytes', 'str', 'bytearray'):
                return self.cat([a, b])
            if isinstance(a, App) and a.op == 'lc' and self.inst_class(a) is not None or self.inst_class(b) is not None:
                return App('add', self.frz(a), self.frz(b))
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, K) and isinstance(y.v, int) and y.v <= 4096:
                    if isinstance(x, Tup):
                        return Tup(x.items * y.v)
                    if isinstance(x, Obj) and self.h(x).kind == 'list' and (
                            y.v <= 1 or all(g[0] == 'one' for g in self.h(x).f['segs'])):
                        return self.alloc('list', None, {'segs': list(self.h(x).f['segs']) * y.v})
        if op is not ast.Add and op is not ast.Mult and op is not ast.Mod:
            def heap(x):
                return self.h(x).kind if isinstance(x, Obj) else None
            if not (heap(a) in ('set', 'dict') or heap(b) in ('set', 'dict')):
                for x in (a, b):
                    if isinstance(x, (Tup, Cls, Fn, Bound)) or isinstance(x, K) and not isinstance(x.v, (int, float, complex)) or \
                            heap(x) in ('list', 'bytearray') and not isinstance(self.h(x).cls, ClassInfo) or \
                            self.ty(x) in ('bytes', 'str', 'bytearray') and not isinstance(x, Obj):
                        raise self.exc('TypeError', K('unsupported operand type'))
        fa, fb = self.frz(a), self.frz(b)
        if op is ast.Add:
            r = lin_add(fa, fb)
            return r if r is not None else App('add', fa, fb)
        if op is ast.Sub:
            r = lin_add(fa, fb, -1)
            return r if r is not None else App('sub', fa, fb)
        if op is ast.Mult:
            for x, y in ((fa, fb), (fb, fa)):
                if self.ty(x) in ('bytes', 'str', 'bytearray'):
                    if isinstance(x, K) and x.v in (b'', ''):
                        return x
                    return App('repeat', x, y, ty=self.ty(x))
            r = lin_mul(fa, fb)
            return r if r is not None else App('mul', fa, fb)
        if op is ast.Div and is_num(fb) and fb.v != 0:
            return lin_mul(fa, K(1.0 / fb.v)) if to_lin(fa) is not None else App('div', fa, fb)
        if op is ast.LShift and isinstance(fb, K) and isinstance(fb.v, int) and 0 <= fb.v < 256 and self.is_int(fa):
            return lin_mul(fa, K(1 << fb.v))
        if op is ast.LShift and isinstance(fa, K) and fa.v == 0:
            return K(0)
        if op in (ast.LShift, ast.RShift) and isinstance(fb, K) and fb.v == 0:
            return fa
        if op is ast.BitOr and isinstance(fa, K) and fa.v == 0:
            return fb
        if op is ast.BitOr and isinstance(fb, K) and fb.v == 0:
            return fa
        nm = {ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.LShift: 'shl', ast.RShift: 'shr',
              ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor'}[op]
        if nm in ('band', 'bor', 'bxor'):
            fa, fb = sorted((fa, fb), key=lambda t: t.sk())
        if nm in ('floordiv', 'mod') and isinstance(fb, K) and fb.v == 1 and self.is_int(fa):
            return fa if nm == 'floordiv' else K(0)
        if nm == 'floordiv' and isinstance(fb, K) and isinstance(fb.v, int) and fb.v > 0 and self.is_int(fa):
            li = to_lin(fa)
            if li and not isinstance(li[1], Fraction) and all(isinstance(c, int) and c % fb.v == 0 for c in li[0].values()) \
                    and li[1] % fb.v == 0:
                return from_lin(dict((x, c // fb.v) for x, c in li[0].items()), li[1] // fb.v)
        return App(nm, fa, fb)

    def as_listlike(self, v):
        if isinstance(v, Obj) and self.h(v).kind == 'list':
            return self.h(v).f['segs']
        return None

    # ------------------------------------------------------------------ iteration
    def iter_count(self, it):
        if isinstance(it, App) and it.op == 'range':
            return it.args[0]
        return self.length(it)

    def elem(self, it, ty=None):
        if isinstance(it, App):
            if it.op == 'range':
                return App('idx', it.args[0])
            if it.op == 'range2':
                return lin_add(it.args[0], App('idx', lin_add(it.args[1], it.args[0], -1)))
            if it.op == 'range3':
                return lin_add(it.args[0], lin_mul(App('idx', App('rangelen', *it.args)), it.args[2]))
            if it.op in ('reversed', 'sorted', 'listof', 'tupleof', 'setof', 'iterof'):
                return self.elem(it.args[0])
            if it.op == 'enumerate':
                st = it.args[1] if len(it.args) > 1 else K(0)
                return Tup((lin_add(App('idx', self.iter_count(it.args[0])), st), self.elem(it.args[0])))
            if it.op == 'zip':
                return Tup(self.elem(x) for x in it.args)
            if it.op == 'items':
                return Tup((App('elem', App('keys', it.args[0])), App('elem', App('values', it.args[0]))))
            if it.op == 'chain1':
                return self.elem(self.elem(it.args[0]))
        if self.ty(it) == 'dict':
            it = App('keys', it)
        t = self.ty(it)
        ety = t[1] if isinstance(t, tuple) and t[0] == 'list' else ('int' if t in ('bytes', 'bytearray') else None)
        if isinstance(t, tuple) and t[0] == 'inst' and t[1].name == 'SequentialRangeList':
            ety = ('inst', self.find_class('SequentialRange'))
        return App('elem', it, ty=ety)

    def find_class(self, name):
        for m in sorted(self.modules):
            v = self.base[self.modules[m].addr].f.get(name)
            if isinstance(v, Cls) and v.info.name == name:
                return v.info
        raise Unmodelled('class %s' % name)

    def to_iter(self, v):
        """('known', [values]) or ('unk', iterterm) or ('segs', segs)"""
        if isinstance(v, Tup):
            if any(isinstance(i, App) and i.op == 'star' for i in v.items):
                if len(v.items) == 1:
                    return ('unk', v.items[0].args[0])
                return ('segs', [('many', i.args[0]) if isinstance(i, App) and i.op == 'star' else ('one', i) for i in v.items])
            return ('known', list(v.items))
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes)):
                return ('known', [K(x) for x in v.v])
            raise self.exc('TypeError')
        if isinstance(v, Obj):
            o = self.h(v)
            if isinstance(o.cls, ClassInfo) and o.kind != 'list':
                r = o.cls.find('__iter__')
                if r:
                    it = self.call(Bound(r[1], v), [], [])
                    if it == v and o.cls.find('__next__'):
                        xs = []
                        for _ in range(self.MAX_UNROLL):
                            try:
                                xs.append(self.call(Bound(o.cls.find('__next__')[1], v), [], []))
                            except PyRaise as e:
                                if self.exc_match(e.val, Ext('StopIteration')):
                                    return ('known', xs)
                                raise
                        raise Unmodelled('a long iterator')
                    return self.to_iter(it)
                nt = self.is_namedtuple(o.cls)
                if nt:
                    return ('known', [o.f[n] for n in nt])
                r = o.cls.find('__getitem__')
                if r:
                    return ('unk', self.frz(v))
            if o.kind in ('list', 'set'):
                segs = o.f['segs']
                if all(s[0] == 'one' for s in segs):
                    return ('known', [s[1] for s in segs])
                if len(segs) == 1 and segs[0][0] == 'many':
                    return self.to_iter(segs[0][1])
                return ('segs', list(segs))
            if o.kind == 'dict':
                segs = o.f['segs']
                if all(s[0] == 'item' for s in segs):
                    return ('known', [s[1] for s in segs])
                return ('unk', App('keys', self.frz(v)))
            if o.kind == 'bytearray':
                return ('unk', self.frz(v))
        if isinstance(v, App):
            if v.op == 'range' and isinstance(v.args[0], K):
                if v.args[0].v <= self.MAX_UNROLL:
                    return ('known', [K(i) for i in range(v.args[0].v)])
            if v.op in ('range', 'range2', 'range3') and any(isinstance(x, App) for x in v.args):
                x = v.args if len(v.args) > 1 else (K(0),) + v.args
                st = x[2] if len(x) > 2 else K(1)
                d = lin_add(x[1], x[0], -1) if all(isinstance(y, (K, App, Sym)) for y in x) else None
                if d is not None and isinstance(st, K) and isinstance(st.v, int) and st.v > 0 and self.bitlen_of(d) is not None:
                    n = self.bitlen_div(lin_add(d, K(st.v - 1)), st.v)
                    return ('known', [lin_add(x[0], K(i * st.v)) for i in range(max(n.v, 0))])
            if v.op in ('range2', 'range3') and all(isinstance(x, K) for x in v.args):
                r = range(*[x.v for x in v.args])
                if len(r) <= self.MAX_UNROLL:
                    return ('known', [K(i) for i in r])
            if v.op in ('reversed', 'listof', 'tupleof', 'sorted', 'iterof'):
                k = self.to_iter(v.args[0])
                if k[0] == 'known' and v.op == 'reversed':
                    return ('known', k[1][::-1])
                if k[0] == 'known' and v.op != 'sorted':
                    return k
                if v.op in ('listof', 'tupleof', 'iterof'):
                    return k
            if v.op == 'repeatit' and len(v.args) == 2 and isinstance(v.args[1], K) and isinstance(v.args[1].v, int) and v.args[1].v <= 64:
                return ('known', [v.args[0]] * max(v.args[1].v, 0))
            if v.op == 'enumerate':
                k = self.to_iter(v.args[0])
                if k[0] == 'known':
                    st = v.args[1] if len(v.args) > 1 else K(0)
                    return ('known', [Tup((lin_add(K(i), st), x)) for i, x in enumerate(k[1])])
            if v.op == 'zip' and len(v.args) > 1 and isinstance(v.args[0], Obj) and len(set(v.args)) == 1 and \
                    self.h(v.args[0]).f.get('iter'):
                ks = [self.to_iter(v.args[0])]      # one iterator taken several times: consecutive groups
                n = len(v.args)
                if ks[0][0] == 'known':
                    return ('known', [Tup(ks[0][1][i:i + n]) for i in range(0, len(ks[0][1]) - n + 1, n)])
            if v.op == 'zip':
                inf = [isinstance(x, App) and (x.op == 'countit' or x.op == 'repeatit' and len(x.args) == 1) for x in v.args]
                ks = [None if i else self.to_iter(x) for i, x in zip(inf, v.args)]
                if any(inf) and not all(inf) and all(k is None or k[0] == 'known' for k in ks):
                    n = min(len(k[1]) for k in ks if k is not None)
                    ks = [k if k is not None else ('known', [
                        x.args[0] if x.op == 'repeatit' else lin_add(x.args[0], lin_mul(x.args[1], K(i))) for i in range(n)])
                        for k, x in zip(ks, v.args)]
                if any(k is None for k in ks):
                    raise Unmodelled('zip of an infinite iterator')
                if all(k[0] == 'known' for k in ks):
                    return ('known', [Tup(t) for t in zip(*[k[1] for k in ks])])
            if v.op in ('items', 'values', 'keys') and isinstance(v.args[0], Obj):
                segs = self.h(v.args[0]).f['segs']
                if all(s[0] == 'item' for s in segs):
                    return ('known', [Tup((s[1], s[2])) if v.op == 'items' else s[2] if v.op == 'values' else s[1]
                                      for s in segs])
                if v.op == 'items':
                    out = []
                    for s in segs:
                        if s[0] == 'item':
                            out.append(('one', Tup((s[1], s[2]))))
                        elif s[0] == 'merge':
                            out.append(('many', App('items', s[1])))
                        else:
                            return ('unk', App(v.op, self.frz(v.args[0])))
                    return ('segs', out)
                return ('unk', App(v.op, self.frz(v.args[0])))
            if v.op == 'chain':
                segs = []
                for x in v.args:
                    k = self.to_iter(x)
                    if k[0] == 'known':
                        segs += [('one', y) for y in k[1]]
                    elif k[0] == 'segs':
                        segs += k[1]
                    else:
                        segs.append(('many', k[1]))
                if all(s[0] == 'one' for s in segs):
                    return ('known', [s[1] for s in segs])
                if len(segs) == 1 and segs[0][0] == 'many':
                    return ('unk', segs[0][1])
                return ('segs', segs)
            if v.op == 'range' and isinstance(v.args[0], App) and v.args[0].op == 'len':
                pass
            if v.op == 'list' and len(v.args) == 1 and all(s[0] == 'one' for s in v.args[0]):
                return ('known', [s[1] for s in v.args[0]])
        cls = self.inst_class(v)
        if cls is not None:
            r = cls.find('__iter__')
            if r:
                return self.to_iter(self.call(Bound(r[1], v), [], []))
        return ('unk', self.norm_iter(v))

    def norm_iter(self, v):
        if isinstance(v, App) and v.op in ('listof', 'tupleof', 'iterof', 'keys'):
            return self.norm_iter(v.args[0]) if v.op != 'keys' else v
        if isinstance(v, App) and v.op == 'slice' and v.args[1] == NONE and v.args[2] == NONE:
            return self.norm_iter(v.args[0])
        return v

    def for_each(self, itv, bind_body, frame, want_collect=False):
        """run bind_body(elem) over the iterable; known elements are unrolled, unknown ones summarised"""
        run = self.lazy(itv)
        if run is not None:
            token = object()

            def cb(x):
                try:
                    bind_body(x)
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx, LoopExit, PyRaise, BreakOut) as e:
                    raise GenAbort(e, token)
            try:
                run(cb)
            except GenAbort as g:
                if g.token is token:
                    raise g.inner
                raise
            return
        k = self.to_iter(itv)
        if k[0] == 'known':
            for x in k[1]:
                try:
                    bind_body(x)
                except ContinueEx:
                    continue
            return
        if k[0] == 'unk':
            self.summarise(k[1], bind_body, frame)
            return
        for s in k[1]:
            if s[0] == 'one':
                try:
                    bind_body(s[1])
                except ContinueEx:
                    continue
            elif s[0] == 'many':
                self.for_each(s[1], bind_body, frame)
            elif s[0] == 'loop':
                # elements produced by an earlier loop: iterate its producer again
                def over(e, s=s):
                    idx = self.choose(len(s[2])) if len(s[2]) > 1 else 0
                    fs, segs = s[2][idx]
                    for a, val in fs:
                        d = self.decide(a) if isinstance(a, App) else None
                        if d is not None and d != val:
                            raise Prune()
                        self.facts[a] = val
                    for x in segs:
                        if x[0] == 'one':
                            bind_body(x[1])
                        else:
                            self.for_each(self.seglist(x), bind_body, frame)
                self.summarise(s[1], over, frame)
            else:
                raise Unmodelled('iteration over %r' % (s,))

    def seglist(self, seg):
        return self.alloc('list', None, {'segs': [seg]})

    def summarise(self, itterm, bind_body, frame, while_loop=False):
        for a in [a for a, o in self.heap.items() if 'lazy' in o.f]:
            if 'lazy' in self.heap[a].f:
                self.force(a)
        self.loop_count += 1
        self.loopids += 1
        lid = self.loopids
        outer = self.chooser
        snap = self.snapshot()
        havoc = {}

        def apply_havoc():
            for (addr, key), sym in havoc.items():
                if addr == '$attr':
                    self.attr_store[key] = sym
                    continue
                o = self.heap.get(addr)
                if o is None:
                    o = self.heap[addr] = self.base[addr].copy()
                if key == 'segs':
                    o.f['segs'] = list(o.f['segs']) + [('lc', sym)]
                elif key == 'log':
                    o.f['log'] = tuple(o.f['log']) + (('lc', sym),)
                else:
                    o.f[key] = sym
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8:
                raise Unmodelled('loop write set does not converge')
            bodies = []
            self.chooser = Chooser()
            npaths = 0
            try:
                while True:
                    self.restore(snap)
                    apply_havoc()
                    ref = self.snapshot()
                    nf, ne = dict(self.facts), len(self.events)
                    self.loopdepth += 1
                    val = None
                    try:
                        if while_loop:
                            bind_body(None)
                        else:
                            bind_body(self.elem(itterm))
                        out = 'next'
                    except ContinueEx:
                        out = 'next'
                    except GenAbort:
                        raise Unmodelled('leaving a generator inside a summarised loop')
                    except LoopExit:
                        out = 'exit'
                    except BreakEx:
                        out = 'break'
                    except ReturnEx as e:
                        out, val = 'return', e.v
                    except PyRaise as e:
                        out, val = 'raise', e.val
                    except Prune:
                        out = 'prune'
                    finally:
                        self.loopdepth -= 1
                    if out != 'prune':
                        facts = tuple((a, v) for a, v in self.facts.items() if a not in nf)
                        writes = self.diff(ref)
                        bodies.append((facts, tuple(self.events[ne:]), out, val, writes, self.snapshot(), ne))
                    npaths += 1
                    if npaths > 400:
                        raise Unmodelled('too many loop body paths')
                    if not self.chooser.next():
                        break
            finally:
                self.chooser = outer
            new = {}
            for b in bodies:
                if b[2] == 'next':
                    for key in b[4]:
                        if key not in havoc:
                            new[key] = self.lc_for(lid, key, snap)
            if not new:
                break
            havoc.update(new)
        self.restore(snap)
        nexts = [b for b in bodies if b[2] == 'next']
        exits = [b for b in bodies if b[2] == 'exit']
        others = [b for b in bodies if b[2] in ('break', 'return', 'raise')]
        sub = None
        if while_loop:
            conv = self.while_as_for(havoc, snap, nexts, exits)
            if conv is not None:
                counter, itterm, sub, dropatoms = conv
            else:
                itterm = App('while', lid)
        elif isinstance(itterm, App) and itterm.op == 'range':
            n = itterm.args[0]
            if isinstance(n, App) and n.op == 'len' and len(n.args) == 1:
                itterm = n.args[0]

        def S(x):
            return self.subst(x, sub) if sub else x

        def sfacts(fs):
            out = []
            for a, v in fs:
                if sub and a in dropatoms:
                    continue
                out.append((S(a), v))
            return tuple(out)
        cases = tuple((sfacts(b[0]), tuple(self.subst_event(e, sub) for e in b[1]) if sub else b[1]) for b in nexts)
        has_events = any(c[1] for c in cases)
        # choose how the loop ends
        opts = []
        if not while_loop:
            opts.append(('done', None))
        else:
            for b in exits:
                opts.append(('exit', b))
        for b in others:
            opts.append((b[2], b))
        if not opts:
            raise Prune()
        kind, b = opts[self.choose(len(opts))]
        loop_ev = Event('loop', (itterm, cases), self.loc) if has_events else None
        if kind == 'done' or kind == 'exit':
            if kind == 'exit':
                # side effects of evaluating the condition
                extra_events = b[1]
            self.restore(snap)
            if loop_ev:
                self.events.append(loop_ev)
            if kind == 'exit' and any(b[1]):
                for e in b[1]:
                    self.events.append(self.subst_event(e, sub) if sub else e)
            for key, sym in havoc.items():
                self.close_loop_var(key, sym, nexts, itterm, S, sfacts, snap, lid)
            if kind == 'exit' and not sub:
                for a, v in b[0]:
                    self.facts[a] = v
            for ob in others:
                fs = sfacts(ob[0])
                if fs and not (sub is None and while_loop):
                    self.facts[App('any', itterm, fs)] = False
            return
        # leaving from inside an iteration
        st = b[5]
        self.restore(st)
        if sub:
            self.apply_subst_state(sub)
        if loop_ev:
            ev = list(self.events)
            self.events = ev[:b[6]] + [loop_ev] + ev[b[6]:]
        fs = sfacts(b[0])
        if fs:
            self.facts[App('any', itterm, fs)] = True
        if kind == 'break':
            raise BreakOut()
        if kind == 'return':
            raise ReturnEx(S(b[3]) if isinstance(b[3], V) else b[3])
        raise PyRaise(b[3])

    def apply_subst_state(self, sub):
        self.facts = dict((self.subst(a, sub), v) for a, v in self.facts.items())
        self.events = [self.subst_event(e, sub) for e in self.events]
        for o in self.heap.values():
            for k, x in list(o.f.items()):
                if isinstance(x, V):
                    o.f[k] = self.subst(x, sub)

    def lc_for(self, lid, key, snap):
        addr, k = key
        ty = None
        if addr != '$attr':
            o = snap[0].get(addr) or self.base.get(addr)
            v = o.f.get(k) if o is not None else None
            if isinstance(v, V):
                ty = self.ty_in(v, snap)
            nm = k
        else:
            nm = '%r.%s' % k
        return App('lc', lid, str(nm), addr if addr == '$attr' else addr, ty=ty)

    def ty_in(self, v, snap):
        if isinstance(v, Obj):
            o = snap[0].get(v.addr) or self.base.get(v.addr)
            if isinstance(o.cls, ClassInfo):
                return ('inst', o.cls)
            return o.kind
        t = self.ty(v)
        return t

    def diff(self, ref):
        w = {}
        rh = ref[0]
        for a, o in self.heap.items():
            r = rh.get(a)
            if r is None:
                r = self.base.get(a)
                if r is None:
                    continue
            for k, x in o.f.items():
                if k not in r.f or r.f[k] != x:
                    w[(a, k)] = x
            for k in r.f:
                if k not in o.f:
                    w[(a, k)] = None
        for k, x in self.attr_store.items():
            if ref[6].get(k) != x:
                w[('$attr', k)] = x
        return w

    def while_as_for(self, havoc, snap, nexts, exits):
        """recognise  i = 0; while i < n: ...; i += 1"""
        if not nexts or len(exits) != 1:
            return None
        for key, sym in havoc.items():
            if key[0] == '$attr' or key[1] == 'segs':
                continue
            o = snap[0].get(key[0]) or self.base.get(key[0])
            init = o.f.get(key[1]) if o else None
            if not isinstance(init, K) or not isinstance(init.v, int) or isinstance(init.v, bool):
                continue
            if not all(key in b[4] and lin_add(b[4][key], sym, -1) == K(1) for b in nexts if isinstance(b[4].get(key), V)):
                continue
            if any(b[4].get(key) is None for b in nexts):
                continue
            ef = exits[0][0]
            if len(ef) != 1 or ef[0][0].op != 'gt0':
                continue
            atom, val = ef[0]
            L = atom.args[0]
            li = to_lin(L)
            if sym not in li[0]:
                continue
            if not all((atom, not val) in b[0] for b in nexts):
                continue
            # loop runs while  n - i > 0
            run = L if not val else lin_add(K(1), L, -1)
            if to_lin(run)[0].get(sym) != -1:
                continue
            n = lin_add(run, sym)
            if any(contains(n, s) for s in havoc.values()):
                continue
            cnt = lin_add(n, init, -1)
            it = App('range', cnt)
            idx = lin_add(App('idx', cnt), init)
            if init.v == 0 and isinstance(cnt, App) and cnt.op == 'len':
                it = cnt.args[0]
            return sym, it, {sym: idx}, {atom}
        return None

    def subst_event(self, e, sub):
        if not sub:
            return e
        return Event(e.kind, self.subst(e.data, sub), e.loc, None)

    def subst(self, x, sub):
        if not sub:
            return x
        if isinstance(x, V):
            if x in sub:
                return sub[x]
            if isinstance(x, Tup):
                return Tup(self.subst(i, sub) for i in x.items)
            if isinstance(x, Bound):
                return Bound(x.fn, self.subst(x.self_, sub))
            if isinstance(x, App):
                if not any(contains(x, k) for k in sub):
                    return x
                if x.op == 'lin':
                    r = K(x.args[1])
                    for a, c in x.args[0]:
                        r = lin_add(r, lin_mul(self.subst(a, sub), K(c)) if not isinstance(c, Fraction) else
                                    lin_mul(self.subst(a, sub), K(float(c))))
                    return r
                args = tuple(self.subst(a, sub) for a in x.args)
                if x.op == 'getitem':
                    return self.opaque_getitem(args[0], args[1])
                if x.op == 'len':
                    return self.length(args[0])
                if x.op == 'cat':
                    return self.cat(list(args))
                return App(x.op, *args, ty=x.ty)
            return x
        if isinstance(x, Event):
            return self.subst_event(x, sub)
        if isinstance(x, tuple):
            return tuple(self.subst(i, sub) for i in x)
        if isinstance(x, list):
            return [self.subst(i, sub) for i in x]
        return x

    def close_loop_var(self, key, sym, nexts, itterm, S, sfacts, snap, lid):
        addr, k = key
        if addr == '$attr':
            self.attr_store[k] = App('after', lid, '%r' % (k,))
            return
        base = snap[0].get(addr) or self.base[addr]
        o = self.heap.get(addr)
        if o is None:
            o = self.heap[addr] = self.base[addr].copy()
        init = base.f.get(k)
        if k == 'segs':
            cs = []
            for b in nexts:
                segs = b[5][0][addr].f['segs']
                n0 = len(base.f['segs'])
                if len(segs) > n0 and segs[:n0] == base.f['segs'] and segs[n0] == ('lc', sym):
                    add = segs[n0 + 1:]
                elif segs == list(base.f['segs']) + [('lc', sym)]:
                    add = []
                else:
                    o.f['segs'] = [('unknown', App('after', lid, 'segs'))]
                    return
                add = [self._frz_in(x, b[5]) for x in add]
                cs.append((sfacts(b[0]), tuple(S(x) for x in add)))
            cs = [c for c in cs if c[1]] if all(c[1] == () or True for c in cs) else cs
            if not cs:
                o.f['segs'] = list(base.f['segs'])
                return
            o.f['segs'] = list(base.f['segs']) + [('loop', itterm, tuple(cs))]
            return
        if k == 'log':
            o.f[k] = tuple(base.f.get('log', ())) + (('loop', itterm, tuple(
                (sfacts(b[0]), S(b[4].get(key))) for b in nexts)),)
            return
        news = []
        for b in nexts:
            v = b[4].get(key)
            news.append((b, v if key in b[4] else sym))
        if all(v == sym for b, v in news):
            if init is None and k not in base.f:
                o.f.pop(k, None)
            else:
                o.f[k] = init
            return
        if isinstance(init, V):
            deltas = []
            ok = True
            fi = self.frz_in_state(init, snap)
            for b, v in news:
                if not isinstance(v, V):
                    ok = False
                    break
                fv = v
                d = lin_add(fv, sym, -1) if to_lin(fv) is not None and to_lin(sym) is not None else None
                if d is None or contains(d, sym):
                    ok = False
                    break
                deltas.append((sfacts(b[0]), S(d)))
            if ok and to_lin(fi) is not None and not any(isinstance(x, App) and x.op == 'lc' for fs, d in deltas for x in subterms(d)):
                live = [(fs, d) for fs, d in deltas if d != K(0)]
                if len(deltas) == 1 and isinstance(deltas[0][1], K):
                    tot = lin_mul(self.iter_count(itterm), deltas[0][1]) if not (isinstance(itterm, App) and itterm.op == 'while') \
                        else App('sum', itterm, tuple(live))
                else:
                    tot = self.mk_sum(itterm, tuple(live))
                r = lin_add(fi, tot)
                if r is not None:
                    o.f[k] = r
                    return
            # concatenation accumulators and generic folds  acc = acc + x
            adds = []
            for b, v in news:
                if isinstance(v, App) and v.op in ('cat', 'add') and v.args[0] == sym and not any(
                        contains(a, sym) for a in v.args[1:]):
                    adds.append((sfacts(b[0]), S(self.cat(list(v.args[1:])) if v.op == 'cat' else v.args[1])))
                else:
                    adds = None
                    break
            if adds:
                o.f[k] = App('fold', '+', itterm, tuple(adds), fi, ty=self.ty_in(init, snap))
                return
        if len(news) == 1 and isinstance(news[0][1], V) and not contains(news[0][1], sym):
            o.f[k] = App('last', itterm, S(news[0][1]) if isinstance(news[0][1], V) else news[0][1])
            return
        o.f[k] = App('after', lid, str(k), itterm)

    def mk_sum(self, itterm, cases):
        if not cases:
            return K(0)
        # pull constants out of single unconditional sums
        if len(cases) == 1 and not cases[0][0] and isinstance(cases[0][1], App) and cases[0][1].op == 'lin':
            li = to_lin(cases[0][1])
            tot = lin_mul(self.iter_count(itterm), K(li[1])) if li[1] else K(0)
            for a, c in li[0].items():
                tot = lin_add(tot, lin_mul(App('sum', itterm, (((), a),)), K(c) if not isinstance(c, Fraction) else K(float(c))))
            return tot
        if len(cases) == 1 and isinstance(cases[0][1], K) and not cases[0][0]:
            return lin_mul(self.iter_count(itterm), cases[0][1])
        return App('sum', itterm, cases)

    def frz_in_state(self, v, snap):
        saved = self.heap
        self.heap = snap[0]
        try:
            return self.frz(v)
        finally:
            self.heap = saved

    def _frz_in(self, seg, snap):
        saved = self.heap
        self.heap = snap[0]
        try:
            return self._frz_seg(seg, 0, ())
        finally:
            self.heap = saved

    # ------------------------------------------------------------------ attributes
    def getattr_(self, v, name, default=None):
        r = self._getattr(v, name)
        if r is None:
            if default is not None:
                return default
            raise self.exc('AttributeError', self.frz(v), K(name))
        return r

    def bind(self, fn, v, cls):
        """descriptor protocol for a class attribute found on an instance"""
        if isinstance(fn, Fn):
            if fn.kind == 'function':
                return Bound(fn, v)
            if fn.kind == 'classmethod':
                return Bound(fn, cls if cls is not None else App('type', self.frz(v)))
            if fn.kind == 'staticmethod':
                return fn
            if fn.kind == 'property':
                return self.call(Bound(Fn(fn.info, fn.env, fn.defaults, fn.kwdefaults), v), [], [])
        if isinstance(fn, App) and fn.op == 'property':
            if fn.args[0] == NONE:
                raise self.exc('AttributeError', K('property has no getter'))
            return self.call(fn.args[0], [v], [])
        if isinstance(fn, App) and fn.op == 'ctxmgrfn' and isinstance(fn.args[0], Fn):
            return App('ctxmgrfn', Bound(fn.args[0], v))
        if isinstance(fn, App) and fn.op == 'cachedprop' and isinstance(v, Obj):
            x = self.call(Bound(fn.args[0], v), [], [])
            self.hm(v, 'cached value').f[fn.args[0].info.qualname.split('.')[-1]] = x
            return x
        if isinstance(fn, App) and fn.op == 'cachedfn' and isinstance(fn.args[0], Fn):
            return App('partial', fn, (v,), ())
        if isinstance(fn, Obj):
            c = self.h(fn).cls
            if isinstance(c, ClassInfo):
                g = c.find('__get__')
                if g:
                    return self.call(Bound(g[1], fn), [v, cls if cls is not None else NONE], [])
        return fn

    def class_find(self, ci, name, after=None):
        for c in (ci.mro() if after is None else ci.mro()[ci.mro().index(after) + 1:]):
            if isinstance(c, ClassInfo):
                if (Cls(c), name) in self.attr_store:
                    return c, self.attr_store[(Cls(c), name)]
                if name in c.ns:
                    return c, c.ns[name]
        return None

    def _getattr(self, v, name):
        if (v, name) in self.attr_store and not (isinstance(v, Cls) and self.attr_store[(v, name)] != '$deleted'):
            r = self.attr_store[(v, name)]
            return None if r == '$deleted' else r
        if isinstance(v, Obj):
            o = self.h(v)
            if isinstance(o.cls, ClassInfo):
                r = self.class_find(o.cls, name)
                if r is not None and isinstance(r[1], Obj):
                    c = self.h(r[1]).cls
                    if isinstance(c, ClassInfo) and c.find('__set__') and c.find('__get__'):
                        return self.bind(r[1], v, Cls(o.cls))
                if o.cls.find('__getattribute__') and not self.config.get('no_getattribute'):
                    raise Unmodelled('__getattribute__')
                if r is not None and self.prop_parts(r[1]) is not None:
                    ga = o.cls.find('__getattr__')
                    if ga is None:
                        return self.bind(r[1], v, Cls(o.cls))
                    try:
                        return self.bind(r[1], v, Cls(o.cls))
                    except PyRaise as e:
                        if not self.exc_match(e.val, Ext('AttributeError')):
                            raise
                        return self.call(Bound(ga[1], v), [K(name)], [])
                if o.kind in ('inst',) and name in o.f:
                    return o.f[name]
                if o.kind == 'list' and ('.' + name) in o.f:
                    return o.f['.' + name]
                if name == '__class__':
                    return Cls(o.cls)
                if name == '__dict__':
                    return App('instdict', v)
                if r is not None:
                    return self.bind(r[1], v, Cls(o.cls))
                ga = o.cls.find('__getattr__')
                if ga:
                    return self.call(Bound(ga[1], v), [K(name)], [])
                if o.kind == 'list':
                    return App('bmeth', v, name)
                return self.ext_base_method(o.cls, v, name)
            if o.kind in ('list', 'dict', 'set', 'bytearray'):
                return App('bmeth', v, name)
            if name in o.f:
                return o.f[name]
            return None
        if isinstance(v, Cls):
            if name == '__name__':
                return K(v.info.name)
            if name == '__module__':
                return K(v.info.module)
            if name == '__qualname__':
                return K(v.info.qualname.replace('client:', ''))
            if name == '__bases__':
                return Tup(v.info.bases)
            if name == '__base__' and len(v.info.bases) == 1:
                return v.info.bases[0]
            if name == '__class__':
                return self.type_of(v)
            if name == '__mro__':
                return Tup(Cls(c) if isinstance(c, ClassInfo) else c for c in v.info.mro())
            if name == '__dict__':
                d = {}
                for k, x in v.info.ns.items():
                    if not k.startswith('$'):
                        d[k] = x
                for (o, k), x in self.attr_store.items():
                    if o == v:
                        if x == '$deleted':
                            d.pop(k, None)
                        else:
                            d[k] = x
                return self.alloc('dict', None, {'segs': [('item', K(k), x) for k, x in sorted(d.items())]})
            if name == 'mro':
                return App('bmeth', v, 'mro')
            r = self.class_find(v.info, name)
            if r is not None:
                fn = r[1]
                if isinstance(fn, Fn) and fn.kind == 'classmethod':
                    return Bound(fn, v)
                if isinstance(fn, Obj):
                    c = self.h(fn).cls
                    if isinstance(c, ClassInfo) and c.find('__get__'):
                        return self.call(Bound(c.find('__get__')[1], fn), [NONE, v], [])
                return fn
            # metaclass attributes
            for c in v.info.mro():
                if isinstance(c, ClassInfo) and isinstance(c.meta, Cls):
                    r = c.meta.info.find(name)
                    if r:
                        fn = r[1]
                        if isinstance(fn, Fn):
                            return Bound(fn, c.meta if fn.kind == 'classmethod' else v)
                        return fn
            for e in v.info.ext_bases():
                if e in ('list', 'dict', 'tuple', 'object', 'type') and hasattr({'list': list, 'dict': dict, 'tuple': tuple,
                                                                                  'object': object, 'type': type}[e], name):
                    return Ext('%s.%s' % (e, name))
            return None
        if isinstance(v, Mod):
            return self.mod_get(v.name, name)
        if isinstance(v, Ext):
            if v.name == 'sys':
                if name == 'maxsize':
                    return K(2 ** 63 - 1)
                if name == 'version_info':
                    return Tup([K(3), K(9), K(19), K('final'), K(0)])
                if name == 'byteorder':
                    return K(self.config.get('byteorder', 'little'))
            if name == '__dict__' and v.name in BUILTIN_NAMES:
                return self.alloc('dict', None, {'segs': []})
            return Ext(canon(v.name + '.' + name))
        if isinstance(v, Super):
            return self.super_attr(v, name)
        if isinstance(v, Fn):
            if name in ('__name__',):
                return K(v.info.qualname.split('.')[-1])
            if name == '__doc__':
                import ast as _ast
                return K(_ast.get_docstring(v.info.node, clean=False)) if not v.info.is_lambda else NONE
            if name == '__qualname__':
                return K(v.info.qualname)
            if name == '__module__':
                return K(v.info.module)
            if name == '__defaults__':
                return Tup(v.defaults) if v.defaults else NONE
            if name == '__call__':
                return v
            if name == '__dict__':
                return self.alloc('dict', None, {'segs': []})
            if name in ('__closure__', '__globals__', '__annotations__', '__kwdefaults__', '__get__'):
                return App('attr', v, name)
            if name == '__code__':
                return App('code', v)
            return None
        if isinstance(v, App) and v.op == 'code' and isinstance(v.args[0], Fn):
            i = v.args[0].info
            names = list(i.posparams) + list(i.kwonly) + [x for x in (i.vararg, i.kwarg) if x]
            if name == 'co_varnames':
                return Tup(K(x) for x in names + sorted(i.locals - set(names)))
            if name == 'co_argcount':
                return K(len(i.posparams))
            if name == 'co_kwonlyargcount':
                return K(len(i.kwonly))
            if name == 'co_name':
                return K(i.qualname.split('.')[-1])
        if isinstance(v, Bound):
            if name == '__self__':
                return v.self_
            return self._getattr(v.fn, name)
        if isinstance(v, K):
            r = getattr(v.v, name, None)
            if isinstance(r, (int, float, str)) and not isinstance(r, (bool, type)) and not callable(r):
                return K(r)
            return App('bmeth', v, name)
        if isinstance(v, Tup):
            return App('bmeth', v, name)
        # opaque values
        t = self.ty(v)
        if isinstance(t, tuple) and t[0] == 'inst' and isinstance(t[1], ClassInfo):
            if name == '__class__':
                return self.type_of(v)
            r = self.class_find(t[1], name)
            if r is not None and isinstance(r[1], Fn) and name not in self.config.get('opaque_methods', ()):
                return self.bind(r[1], v, self.type_of(v))
            if name == '__dict__':
                return App('attr', v, '__dict__', ty='dict')
            ga = t[1].find('__getattr__')
            if isinstance(v, App) and v.op == 'fold' and v.args[0] == '+' and t[1].name == 'MinMax' and name in ('min', 'max'):
                _, _, it, cs, st = v.args
                tot = self.getattr_(st, name) if not isinstance(st, App) or st.op != 'inst' else dict(st.args[1])[name]
                return lin_add(tot, self.mk_sum(it, tuple((fs, self.getattr_(x, name)) for fs, x in cs)))
            if isinstance(v, App) and v.op == 'inst':
                d = dict(v.args[1])
                if name in d:
                    return d[name]
            return App('attr', v, name, ty=self.attr_ty(t[1], name))
        if isinstance(t, tuple) and t[0] == 'sub':
            r = self.class_find(t[1], name)
            if r is not None and isinstance(r[1], Fn):
                fn = r[1]
                if fn.kind == 'classmethod':
                    return Bound(fn, v)
                return fn
            return App('attr', v, name, ty=self.config.get('attr_ty', {}).get(name))
        if isinstance(v, App) and v.op == 'inst':
            d = dict(v.args[1])
            if name in d:
                return d[name]
        if t in ('bytes', 'str', 'bytearray', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'num', 'bool') or (
                isinstance(t, tuple) and t[0] == 'list'):
            return App('bmeth', v, name)
        if isinstance(v, App) and v.op == 'sliceobj':
            return v.args[('start', 'stop', 'step').index(name)] if name in ('start', 'stop', 'step') else None
        if isinstance(v, App) and v.op == 'excinst':
            if name == 'args':
                return v.args[1]
        return App('attr', v, name, ty=self.config.get('attr_ty', {}).get(name))

    def attr_ty(self, ci, name):
        if ci.name == 'MinMax' and name in ('min', 'max'):
            return 'int'
        return self.config.get('attr_ty', {}).get((ci.name, name), self.config.get('attr_ty', {}).get(name))

    def type_of(self, v):
        if isinstance(v, Obj):
            o = self.h(v)
            if isinstance(o.cls, ClassInfo):
                return Cls(o.cls)
            return Ext({'bytearray': 'bytearray', 'list': 'list', 'dict': 'dict', 'set': 'set'}.get(o.kind, o.kind))
        if isinstance(v, K):
            return Ext(type(v.v).__name__)
        if isinstance(v, Tup):
            return Ext('tuple')
        if isinstance(v, Cls):
            for c in v.info.mro():
                if isinstance(c, ClassInfo) and isinstance(c.meta, Cls):
                    return c.meta
            return Ext('type')
        t = self.ty(v)
        if isinstance(v, App) and v.op == 'res' and isinstance(v.args[0], App) and v.args[0].op == 'call' and isinstance(
                t, tuple) and t[0] == 'inst' and t[-1] == 'new':
            return v.args[0].args[0]
        if isinstance(t, tuple) and t[0] == 'inst' and isinstance(t[1], ClassInfo):
            if len(t) == 2:
                return Cls(t[1])
            return App('type', v, ty=('sub', t[1]))
        if t in ('bytes', 'str', 'int', 'float', 'list', 'dict', 'bytearray'):
            return Ext(t)
        return App('type', v)

    def super_attr(self, s, name):
        ci = s.cls
        self_ = s.self_
        if isinstance(self_, Obj):
            start = self.h(self_).cls
        elif isinstance(self_, Cls):
            start = self_.info
        else:
            t = self.ty(self_)
            start = t[1] if isinstance(t, tuple) else None
        if start is None or not isinstance(start, ClassInfo):
            if isinstance(ci, ClassInfo):
                start = ci
            else:
                return App('attr', App('super', self.frz(ci) if isinstance(ci, V) else ci, self.frz(self_)), name)
        if ci not in start.mro():
            # e.g. super(new_cls, self) with an opaque class
            return App('attr', App('super', Cls(ci), self.frz(self_)), name)
        r = self.class_find(start, name, after=ci)
        if r is not None:
            fn = r[1]
            if isinstance(fn, Fn):
                if fn.kind == 'staticmethod' or name == '__new__':
                    return Fn(fn.info, fn.env, fn.defaults, fn.kwdefaults)
                if fn.kind == 'classmethod':
                    return Bound(fn, self_ if not isinstance(self_, Obj) else Cls(start))
                if fn.kind == 'property':
                    return self.bind(fn, self_, None)
                return Bound(fn, self_)
            if isinstance(fn, App) and fn.op == 'property':
                return self.bind(fn, self_, None)
            return fn
        return App('supermeth', Cls(ci), self_, name)

    def ext_base_method(self, ci, v, name):
        eb = [e.split('.')[-1] for e in ci.ext_bases()]
        if 'MutableSequence' in eb and name in ('append', 'extend', '__iadd__', 'pop', 'remove', 'clear', 'reverse'):
            return App('bmeth', v, name)
        if ('Sequence' in eb or 'MutableSequence' in eb) and name in ('__contains__', '__reversed__', 'index', 'count'):
            return App('bmeth', v, name)
        nt = self.is_namedtuple(ci)
        if nt and name in ('_replace', '_asdict'):
            return App('bmeth', v, name)
        if any(len(_exc_mro(e)) > 1 and e not in ('object', 'list', 'tuple') for e in ci.ext_bases()) and name == 'args':
            return App('attr', self.frz(v), 'args')
        if name in ('__init__', '__str__', '__repr__', '__eq__', '__hash__', '__setattr__'):
            return App('supermeth', Cls(ci), v, name)
        return None

    def setattr_(self, v, name, val, plain=False):
        if isinstance(v, Obj):
            o = self.h(v)
            if isinstance(o.cls, ClassInfo):
                sa = None if plain else o.cls.find('__setattr__')
                if sa is not None:
                    self.call(Bound(sa[1], v), [K(name), val], [])
                    return
                r = self.class_find(o.cls, name)
                pp = self.prop_parts(r[1]) if r is not None else None
                if pp is not None:
                    if pp[1] == NONE:
                        raise self.exc('AttributeError', K('property has no setter'))
                    self.call(pp[1], [v, val], [])
                    return
                if r is not None and isinstance(r[1], Obj):
                    c = self.h(r[1]).cls
                    if isinstance(c, ClassInfo) and c.find('__set__'):
                        self.call(Bound(c.find('__set__')[1], r[1]), [v, val], [])
                        return
            if o.kind == 'list':
                self.hm(v, 'attribute %s' % name).f['.' + name] = val
            else:
                self.hm(v, 'attribute %s' % name).f[name] = val
            return
        if isinstance(v, App) and v.op == 'instdict':
            raise Unmodelled('setattr on __dict__')
        self.attr_store[(v, name)] = val
        if isinstance(v, (Fn,)):
            return
        if isinstance(v, (Cls, Mod)) and not self.in_init:
            self.events.append(Event('sharedwrite', (repr(v), 'attribute %s' % name), self.loc))
        self.events.append(Event('setattr', (self.frz(v), name, self.frz(val)), self.loc, raw=(v, val)))

    def setitem(self, c, k, val):
        if isinstance(c, Obj):
            o = self.h(c)
            if isinstance(o.cls, ClassInfo):
                r = o.cls.find('__setitem__')
                if r:
                    self.call(Bound(r[1], c), [k, val], [])
                    return
            if o.kind == 'dict':
                om = self.hm(c, 'key %r' % (k,))
                segs = om.f['segs']
                if all(s[0] == 'item' for s in segs):
                    ns = []
                    hit = False
                    for s in segs:
                        if s[1] == k:
                            ns.append(('item', k, val))
                            hit = True
                        else:
                            ns.append(s)
                    if not hit:
                        ns.append(('item', k, val))
                    om.f['segs'] = ns
                else:
                    om.f['segs'] = segs + [('item', k, val)]
                return
            if o.kind == 'list' and self.kslice(k) is not None and all(s[0] == 'one' for s in o.f['segs']):
                new = self.segs_of(val)
                segs = list(self.h(c).f['segs'])
                sl = self.kslice(k)
                if sl.step in (None, 1) or all(s[0] == 'one' for s in new):
                    try:
                        segs[sl] = new
                    except ValueError:
                        raise self.exc('ValueError')
                    self.hm(c, 'item').f['segs'] = segs
                    return
            if o.kind == 'list' and isinstance(k, K) and isinstance(k.v, int) and all(s[0] == 'one' for s in o.f['segs']):
                om = self.hm(c, 'item')
                segs = list(om.f['segs'])
                try:
                    segs[k.v] = ('one', val)
                except IndexError:
                    raise self.exc('IndexError')
                om.f['segs'] = segs
                return
            if o.kind == 'bytearray':
                om = self.hm(c, 'item')
                om.f['log'] = om.f['log'] + (('setitem', self.frz(k), self.frz(val)),)
                self.events.append(Event('bufset', (c.addr, self.frz(k), self.frz(val)), self.loc))
                return
            if o.kind == 'list':
                om = self.hm(c, 'item')
                om.f['segs'] = [('unknown', App('setitem', self.frz(c), self.frz(k), self.frz(val)))]
                return
        if isinstance(c, App) and c.op == 'instdict':
            if isinstance(k, K):
                self.hm(c.args[0], 'attribute %s' % k.v).f[k.v] = val
                return
        if isinstance(c, App) and c.op == 'attr' and c.args[1] == '__dict__' and isinstance(k, K):
            self.attr_store[(c.args[0], k.v)] = val
            self.events.append(Event('setattr', (c.args[0], k.v, self.frz(val)), self.loc))
            return
        cls = self.inst_class(c)
        if cls is not None:
            r = cls.find('__setitem__')
            if r:
                self.call(Bound(r[1], c), [k, val], [])
                return
        fc, fk = self.frz(c), self.frz(k)
        items = dict(self.extra.get('$items', {}))
        items[(fc, fk)] = val
        self.extra['$items'] = items
        self.facts[App('in', fk, fc)] = True
        self.events.append(Event('setitem', (fc, fk, self.frz(val)), self.loc))

    def delitem(self, c, k):
        if isinstance(c, Obj):
            o = self.h(c)
            if isinstance(o.cls, ClassInfo) and o.cls.find('__delitem__'):
                self.call(Bound(o.cls.find('__delitem__')[1], c), [k], [])
                return
            if o.kind == 'dict':
                r = self.dict_find(c, k)
                if r[0] == 'miss':
                    raise self.exc('KeyError')
                om = self.hm(c, 'del key')
                om.f['segs'] = [s for s in om.f['segs'] if not (s[0] == 'item' and s[1] == k)] + (
                    [('del', self.frz(k))] if r[0] == 'maybe' else [])
                return
            if o.kind == 'list':
                segs = list(o.f['segs'])
                om = self.hm(c, 'del item')
                if all(s[0] == 'one' for s in segs) and (isinstance(k, K) and isinstance(k.v, int) or self.kslice(k) is not None):
                    try:
                        del segs[k.v if isinstance(k, K) else self.kslice(k)]
                    except IndexError:
                        raise self.exc('IndexError')
                    om.f['segs'] = segs
                else:
                    om.f['segs'] = [('unknown', App('delitem', self.frz(c), self.frz(k)))]
                return
            if o.kind == 'bytearray':
                om = self.hm(c, 'del item')
                om.f['log'] = om.f['log'] + (('delitem', self.frz(k)),)
                self.events.append(Event('bufdel', (c.addr, self.frz(k)), self.loc))
                return
        if isinstance(c, App) and c.op == 'instdict' and isinstance(k, K):
            o = self.hm(c.args[0], 'attribute')
            if k.v not in o.f:
                raise self.exc('KeyError')
            del o.f[k.v]
            return
        fc, fk = self.frz(c), self.frz(k)
        self.facts[App('in', fk, fc)] = False
        self.events.append(Event('delitem', (fc, fk), self.loc))

    def hasattr_(self, v, name):
        if (v, name) in self.attr_store:
            return K(self.attr_store[(v, name)] != '$deleted')
        if isinstance(v, (Obj, Cls, Mod, K, Tup, Fn, Bound)):
            if isinstance(v, Obj):
                o = self.h(v)
                if isinstance(o.cls, ClassInfo):
                    if name in o.f or self.class_find(o.cls, name) or ('.' + name) in o.f:
                        return TRUE
                    if o.cls.find('__getattr__'):
                        try:
                            self.getattr_(v, name)
                            return TRUE
                        except PyRaise:
                            return FALSE
                    return K(name.startswith('__') and hasattr(object, name))
                return K(hasattr({'list': list, 'dict': dict, 'set': set, 'bytearray': bytearray}.get(o.kind, object), name))
            if isinstance(v, Cls):
                return K(self._getattr(v, name) is not None)
            if isinstance(v, K):
                return K(hasattr(v.v, name))
            if isinstance(v, Tup):
                return K(hasattr((), name))
            if isinstance(v, Mod):
                return K(self._getattr(v, name) is not None)
            return K(self._getattr(v, name) is not None)
        t = self.ty(v)
        if isinstance(name, str) and isinstance(t, str):
            pt = {'int': (int,), 'nat': (int,), 'float': (float,), 'num': (int, float), 'bytes': (bytes,), 'str': (str,),
                  'bool': (bool,)}.get(t)
            if pt is not None and len(set(hasattr(x, name) for x in pt)) == 1:
                return K(hasattr(pt[0], name))
        if isinstance(t, tuple) and t[0] in ('inst', 'sub') and isinstance(t[1], ClassInfo):
            if self.class_find(t[1], name):
                return TRUE
        return App('hasattr', self.frz(v), name)

    # ------------------------------------------------------------------ calls
    def opaque_call(self, callee, args, kwargs, ty=None, pure=False, havoc=True):
        """call of a collaborator whose code is not known: an event"""
        fargs = tuple(self.frz(a) for a in args)
        fkw = tuple(sorted(((k, self.frz(v)) for k, v in kwargs), key=lambda p: str(p[0])))
        name = callee.args[1] if isinstance(callee, App) and callee.op == 'attr' else None
        # receivers that are heap objects were resolved before; opaque arguments may be modified by the callee
        t = App('call', callee, fargs, fkw)
        if ty is None and name is not None:
            ty = self.config.get('result_ty', {}).get(name, RESULT_TY.get(name))
            if name == 'read' and isinstance(callee.args[0], Sym) and callee.args[0].ty == 'bits':
                ty = 'int'
            if name == 'min_max_sizeof':
                ty = ('inst', self.minmax()) if self.minmax() is not None else None
        if ty is None and isinstance(callee, (Sym, App)):
            ct = self.ty(callee)
            if isinstance(ct, tuple) and ct[0] == 'sub':
                ty = ('inst', ct[1], 'new')
        if pure or (name in PURE_METHODS):
            t.ty = ty
            return t
        n = self.occ.get(t, 0)
        self.occ[t] = n + 1
        res = App('res', t, n, ty=ty)
        self.events.append(Event('call', (callee, fargs, fkw, res), self.loc, raw=(callee, tuple(args), tuple(kwargs))))
        if havoc and not self.config.get('no_havoc'):
            for a in list(args) + [v for _, v in kwargs]:
                self.havoc_arg(a, res)
        if self.tries > 0 and self.opaque_calls_may_raise:
            if self.choose(2):
                raise PyRaise(App('exc', res))
        return res

    def minmax(self):
        try:
            v = self.mod_get('infi.instruct.base', 'MinMax')
            return v.info if isinstance(v, Cls) else None
        except Exception:
            return None

    def mutable_fields(self, ci):
        """fields assigned outside constructors by the methods of a class"""
        if not hasattr(ci, '_mutf'):
            s = set()
            for c in ci.mro():
                if isinstance(c, ClassInfo):
                    for n, f in c.ns.items():
                        if isinstance(f, Fn) and n not in ('__init__', '__new__') and f.info.posparams:
                            me = f.info.posparams[0]
                            for node in ast.walk(f.info.node):
                                if isinstance(node, ast.Attribute) and isinstance(node.ctx, (ast.Store, ast.Del)) and isinstance(
                                        node.value, ast.Name) and node.value.id == me:
                                    s.add(node.attr)
            ci._mutf = s
        return ci._mutf

    def havoc_arg(self, a, res):
        if isinstance(a, Obj):
            o = self.h(a)
            if o.kind == 'inst' and isinstance(o.cls, ClassInfo):
                keys = [k for k in o.f if k in self.mutable_fields(o.cls)]
                if keys:
                    om = self.hm(a, internal=True)
                    for k in keys:
                        t = self.ty(om.f[k])
                        om.f[k] = App('havoc', self.frz_field(a, k), res, ty=t)
            elif o.kind in ('bytearray',):
                om = self.hm(a, internal=True)
                om.f['log'] = om.f['log'] + (('havoc', res),)

    def frz_field(self, a, k):
        return App('fieldof', a.addr, k)

    def call(self, f, args, kwargs):
        """args: list of values (App 'star' marks opaque *x); kwargs: list of (name, value), name None for opaque **x"""
        self.call_sites += 1
        if len(self.stack) > self.MAX_DEPTH:
            raise Unmodelled('call depth')
        if isinstance(f, Bound):
            return self.call(f.fn if not (isinstance(f.fn, Fn) and f.fn.kind != 'function') else
                             Fn(f.fn.info, f.fn.env, f.fn.defaults, f.fn.kwdefaults), [f.self_] + list(args), kwargs)
        if isinstance(f, Fn):
            m = self.user_models.get(f.info.qualname)
            if m is not None:
                return m(self, f, args, kwargs)
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs)
        if isinstance(f, App):
            if f.op == 'bmeth':
                return self.call_bmeth(f.args[0], f.args[1], args, kwargs)
            if f.op == 'supermeth':
                return self.call_supermeth(f.args[0].info, f.args[1], f.args[2], args, kwargs)
            if f.op == 'partial':
                fn, pargs, pkw = f.args
                kw = dict((k, v) for k, v in pkw)
                rest = []
                for k, v in kwargs:
                    if k is None:
                        rest.append((k, v))
                    else:
                        kw[k] = v
                return self.call(fn, list(pargs) + list(args), list(kw.items()) + rest)
            if f.op == 'itemgetter':
                return self.getitem(args[0], f.args[0])
            if f.op == 'attrgetter':
                return self.getattr_(args[0], f.args[0])
            if f.op == 'methodcaller':
                return self.call(self.getattr_(args[0], f.args[0]), list(f.args[1]), list(f.args[2]))
        if isinstance(f, Obj):
            o = self.h(f)
            if isinstance(o.cls, ClassInfo):
                r = o.cls.find('__call__')
                if r:
                    return self.call(Bound(r[1], f), args, kwargs)
            raise self.exc('TypeError')
        if isinstance(f, K):
            raise self.exc('TypeError')
        cls = self.inst_class(f)
        if cls is not None and cls.find('__call__'):
            return self.call(Bound(cls.find('__call__')[1], f), args, kwargs)
        return self.opaque_call(f, args, kwargs)

    def bind_args(self, f, args, kwargs):
        info = f.info
        a = info.node.args
        env = {}
        args = list(args)
        pos = info.posparams
        if any(isinstance(x, App) and x.op == 'star' for x in args[:len(pos)]):
            # opaque *args would bind to named parameters: assume it is empty there only if everything is bound otherwise
            i = [j for j, x in enumerate(args) if isinstance(x, App) and x.op == 'star'][0]
            names = set(k for k, _ in kwargs if k)
            missing = [p for j, p in enumerate(pos) if j >= i and p not in names and j < len(pos) - len(f.defaults)]
            if missing:
                raise Unmodelled('opaque *args bound to parameters %s of %s' % (missing, info.qualname))
            if not info.vararg:
                self.extra.setdefault('$dropstar', []).append((info.qualname, fmt_loc(self.loc)))
            tail = [x for x in args[i:]]
            args = args[:i]
            if info.vararg:
                extra_var = tail
            else:
                extra_var = None
        else:
            extra_var = None
        for n, v in zip(pos, args):
            env[n] = v
        rest = args[len(pos):]
        if extra_var is not None:
            rest = extra_var
        if rest and not info.vararg:
            if all(isinstance(x, App) and x.op == 'star' for x in rest):
                self.extra.setdefault('$dropstar', []).append((info.qualname, fmt_loc(self.loc)))
            else:
                raise self.exc('TypeError', K('too many arguments to %s' % info.qualname))
        if info.vararg:
            env[info.vararg] = Tup(rest)
        segs = []
        for k, v in kwargs:
            if k is None:
                if info.kwarg:
                    segs.append(('merge', v))
                else:
                    self.extra.setdefault('$dropkw', []).append((info.qualname, fmt_loc(self.loc)))
                continue
            if k in pos and k not in [x.arg for x in a.posonlyargs] or k in info.kwonly:
                if k in env:
                    raise self.exc('TypeError', K('multiple values for %s in %s' % (k, info.qualname)))
                env[k] = v
            elif info.kwarg:
                segs.append(('item', K(k), v))
            else:
                raise self.exc('TypeError', K('unexpected keyword %s for %s' % (k, info.qualname)))
        if info.kwarg:
            env[info.kwarg] = self.alloc('dict', None, {'segs': segs})
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    raise self.exc('TypeError', K('missing argument %s of %s' % (n, info.qualname)))
        for n, d in zip(info.kwonly, f.kwdefaults):
            if n not in env:
                if d is None:
                    raise self.exc('TypeError', K('missing argument %s of %s' % (n, info.qualname)))
                env[n] = d
        return env

    def call_fn(self, f, args, kwargs):
        info = f.info
        self.functions_seen.add(info.module + ':' + info.qualname)
        depth = sum(1 for s in self.stack if s is info)
        if depth >= self.config.get("max_depth", 40):
            raise Unmodelled('recursion in %s' % info.qualname)
        env = self.bind_args(f, args, kwargs)
        fr = self.alloc('frame', None, env)
        frame = Frame(fr.addr, info.module, f.env, info)
        frame.first = env.get(info.posparams[0]) if info.posparams else None
        self.stack.append(info)
        saveloc = self.loc
        try:
            if info.is_lambda:
                return self.eval(info.node.body, frame)
            if info.is_gen:
                def run(cb):
                    frame.gen = cb
                    self.stack.append(info)
                    loc = self.loc
                    try:
                        self.exec_block(info.node.body, frame)
                    except ReturnEx:
                        pass
                    finally:
                        self.stack.pop()
                        self.loc = loc
                if self.in_init:
                    acc = self.alloc('list', None, {'segs': [], 'iter': True})
                    run(lambda x: self.list_method(acc, 'append', [x], {}))
                    return acc
                return self.alloc('list', None, {'segs': [], 'iter': True, 'lazy': run})
            try:
                self.exec_block(info.node.body, frame)
            except ReturnEx as r:
                return r.v
            return NONE
        finally:
            self.stack.pop()
            self.loc = saveloc

    def instantiate(self, c, args, kwargs):
        ci = c.info
        if getattr(ci, 'enum', None) is not None:
            for m in ci.enum:
                if self.truth(self.eq_val(self.h(m).f['value'], args[0])):
                    return m
            raise self.exc('ValueError')
        if getattr(ci, 'dataclass', None) is not None and not ci.find('__init__'):
            f = {}
            names = [n for n, _ in ci.dataclass]
            if len(args) > len(names):
                raise self.exc('TypeError')
            f = dict(zip(names, args))
            for k, v in kwargs:
                if k is None:
                    raise Unmodelled('dataclass **kwargs')
                if k not in names or k in f:
                    raise self.exc('TypeError')
                f[k] = v
            for n, d in ci.dataclass:
                if n not in f:
                    if d is None:
                        raise self.exc('TypeError')
                    f[n] = d
            o = self.alloc('inst', ci, {})
            for n in names:
                self.setattr_(o, n, f[n])
            if ci.find('__post_init__'):
                self.call(Bound(ci.find('__post_init__')[1], o), [], [])
            return o
        # metaclass call not modelled; plain instance creation
        nt = self.is_namedtuple(ci)
        new = ci.find('__new__')
        if any('type' == e for e in ci.ext_bases()):
            raise Unmodelled('calling a metaclass')
        if new and new[0].meta is None and isinstance(new[1], Fn):
            o = self.call(Fn(new[1].info, new[1].env, new[1].defaults, new[1].kwdefaults), [c] + list(args), kwargs)
            if nt or not isinstance(o, Obj):
                return o
        elif nt:
            return self.new_namedtuple(ci, nt, args, kwargs)
        else:
            eb = [e.split('.')[-1] for e in ci.ext_bases()]
            if 'list' in eb:
                o = self.alloc('list', ci, {'segs': []})
            else:
                o = self.alloc('inst', ci, {})
        init = self.class_find(ci, '__init__')
        if init:
            self.call(Bound(init[1], o), args, kwargs)
        else:
            self.call_supermeth(ci, o, '__init__', args, kwargs)
        return o

    def new_namedtuple(self, ci, names, args, kwargs):
        f = {}
        for n, v in zip(names, args):
            f[n] = v
        for k, v in kwargs:
            if k is None:
                raise Unmodelled('namedtuple **kwargs')
            f[k] = v
        for n in names:
            if n not in f and n in getattr(ci, 'nt_defaults', {}):
                f[n] = ci.nt_defaults[n]
        if set(f) != set(names) or len(args) > len(names):
            raise self.exc('TypeError')
        return self.alloc('inst', ci, f)

    def call_supermeth(self, ci, self_, name, args, kwargs):
        """method of an external base class"""
        if isinstance(self_, Obj):
            oc = self.h(self_).cls
            eb = [e.split('.')[-1] for e in oc.ext_bases()] if isinstance(oc, ClassInfo) else []
            nt = self.is_namedtuple(oc) if isinstance(oc, ClassInfo) else None
            if name == '__init__':
                if 'list' in eb:
                    if args:
                        segs = self.segs_of(args[0])
                        self.hm(self_, 'init').f['segs'] = segs
                    return NONE
                o = self.h(self_)
                if any(len(_exc_mro(e)) >= 2 and e != 'object' and e[0].isupper() and 'Sequence' not in e for e in eb) and args:
                    self.hm(self_, 'args').f['args'] = Tup(args)
                return NONE
            if name == '__setattr__':
                if isinstance(args[0], K):
                    self.setattr_(self_, args[0].v, args[1], plain=True)
                    return NONE
            if 'list' in eb and hasattr(list, name):
                if name == '__add__' or name == '__radd__':
                    o = self.alloc('list', None, {'segs': self.segs_of(self_) + self.segs_of(args[0]) if name == '__add__'
                                                  else self.segs_of(args[0]) + self.segs_of(self_)})
                    return o
                return self.call_bmeth(self_, name, args, kwargs, force=True)
            if 'MutableSequence' in eb or 'Sequence' in eb:
                return self.call_bmeth(self_, name, args, kwargs, force=True)
            if name == '__repr__' or name == '__str__':
                return App('repr', self.frz(self_), ty='str')
            if name == '__hash__':
                return App('hash', self_.addr, ty='int')
            if name == '__eq__':
                return K(self_ == args[0])
        if name == '__new__':
            c = args[0] if args else self_
            if isinstance(c, Cls):
                nt = self.is_namedtuple(c.info)
                if nt:
                    return self.new_namedtuple(c.info, nt, args[1:], kwargs)
                if 'type' in [e for e in c.info.ext_bases()]:
                    k = self.type_new(args)
                    if k is not None:
                        return k
                    return self.opaque_call(Ext('type.__new__'), args, kwargs, ty=self.config.get('new_class_ty'))
                return self.alloc('inst', c.info, {})
            k = self.type_new(args)
            if k is not None:
                return k
            return self.opaque_call(Ext('type.__new__'), args, kwargs, ty=self.config.get('new_class_ty'))
        if name == '__init__':
            return self.opaque_call(App('attr', App('super', Cls(ci), self.frz(self_)), '__init__'), args, kwargs) if args or \
                kwargs else NONE
        return self.opaque_call(App('attr', App('super', Cls(ci), self.frz(self_)), name), args, kwargs)

    def segs_of(self, v):
        """list segments of any iterable value"""
        if isinstance(v, Obj) and self.h(v).kind in ('list', 'set'):
            return list(self.h(v).f['segs'])
        k = self.to_iter(v)
        if k[0] == 'known':
            return [('one', x) for x in k[1]]
        if k[0] == 'segs':
            return list(k[1])
        return [('many', k[1])]

    # ------------------------------------------------------------------ builtin methods
    def call_bmeth(self, v, name, args, kwargs, force=False):
        kw = dict((k, x) for k, x in kwargs if k is not None)
        if isinstance(v, K):
            fa = [self.frz(a) for a in args]
            if all(isinstance(a, K) for a in fa) and all(isinstance(x, K) for x in kw.values()):
                try:
                    r = getattr(v.v, name)(*[a.v for a in fa], **dict((k, x.v) for k, x in kw.items()))
                    if isinstance(r, (str, bytes, int, float, bool, type(None))):
                        return K(r)
                    if isinstance(r, list):
                        return self.alloc('list', None, {'segs': [('one', K(x)) for x in r]})
                    if isinstance(r, tuple):
                        return Tup(K(x) for x in r)
                except (AttributeError, TypeError, ValueError, LookupError) as e:
                    raise self.exc(type(e).__name__)
            if name == 'join' and len(args) == 1:
                segs = [self._frz_seg(s, 0, ()) for s in self.segs_of(args[0])]
                if v.v == b'' and all(s[0] == 'one' for s in segs):
                    return self.cat([s[1] for s in segs]) if segs else K(b'')
                if all(s[0] == 'one' and isinstance(s[1], K) and isinstance(s[1].v, type(v.v)) for s in segs):
                    return K(v.v.join([s[1].v for s in segs]))
                if isinstance(v.v, bytes) and all(s[0] == 'one' for s in segs):
                    parts = []
                    for s in segs:
                        parts += ([v] if parts else []) + [s[1]]
                    return self.cat(parts)
                return App('join', v, tuple(segs), ty=self.ty(v))
            if name == 'format':
                return App('fmt', v, Tup([self.fz(a) for a in args]), tuple(sorted((k, self.fz(x)) for k, x in kw.items())), ty='str')
            return App('call', App('attr', v, name), tuple(fa), tuple(sorted((k, self.frz(x)) for k, x in kw.items())),
                       ty=RESULT_TY.get(name, self.ty(v) if name in ('strip', 'rstrip', 'lstrip', 'ljust') else None))
        if isinstance(v, Tup):
            if name in ('index', 'count'):
                return self.seq_search(v.items, name, args)
            raise self.exc('AttributeError')
        if isinstance(v, App) and v.op == 'sliceobj' and name == 'indices' and self.kslice(v) is not None and \
                isinstance(args[0], K):
            try:
                return Tup(K(x) for x in self.kslice(v).indices(args[0].v))
            except (TypeError, ValueError) as e:
                raise self.exc(type(e).__name__)
        if isinstance(v, Cls) and name == 'mro':
            return Tup(Cls(c) if isinstance(c, ClassInfo) else c for c in v.info.mro())
        if isinstance(v, Obj):
            o = self.h(v)
            kd = o.kind
            if kd == 'list':
                return self.list_method(v, name, args, kw)
            if kd == 'dict':
                return self.dict_method(v, name, args, kwargs)
            if kd == 'set':
                return self.set_method(v, name, args, kw)
            if kd == 'bytearray':
                if name in MUTATORS:
                    om = self.hm(v, name)
                    om.f['log'] = om.f['log'] + ((name,) + tuple(self.frz(a) for a in args),)
                    self.events.append(Event('bufmut', (v.addr, name, tuple(self.frz(a) for a in args)), self.loc))
                    return NONE
                if not o.f['log'] and isinstance(o.f['init'], K) and name not in ('copy', '__init__'):
                    r = self.call_bmeth(o.f['init'], name, [a for a in args], kwargs)
                    if isinstance(r, K) and isinstance(r.v, bytes) and not name.startswith('__'):
                        return self.alloc('bytearray', None, {'init': r, 'log': ()})
                    return r
                return self.bytes_method(self.frz(v), name, args, kwargs)
            if isinstance(o.cls, ClassInfo):
                if name == '__iadd__':
                    self.call(self.getattr_(v, 'extend'), args, kwargs)
                    return v
                if name == 'append':
                    return self.call(self.getattr_(v, 'insert'), [self.length(v)] + list(args), kwargs)
                if name == 'extend':
                    src = args[0]
                    if src == v:
                        src = self.alloc('list', None, {'segs': self.segs_of(v)})
                    def one(e):
                        self.call(self.getattr_(v, 'append'), [e], [])
                    self.for_each(src, one, None)
                    return NONE
                eb = [e.split('.')[-1] for e in o.cls.ext_bases()]
                if name == 'pop' and 'MutableSequence' in eb:
                    i = args[0] if args else dict(kwargs).get('index', K(-1))
                    r = self.getitem(v, i)
                    self.delitem(v, i)
                    return r
                if name == 'remove' and 'MutableSequence' in eb:
                    self.delitem(v, self.call(self.getattr_(v, 'index'), args, []))
                    return NONE
                if name == 'clear' and 'MutableSequence' in eb:
                    for _ in range(self.MAX_UNROLL):
                        try:
                            self.call(self.getattr_(v, 'pop'), [], [])
                        except PyRaise as e:
                            if self.exc_match(e.val, Ext('IndexError')):
                                return NONE
                            raise
                if name == 'reverse' and 'MutableSequence' in eb:
                    n = self.length(v)
                    if isinstance(n, K):
                        for i in range(n.v // 2):
                            x, y = self.getitem(v, K(n.v - i - 1)), self.getitem(v, K(i))
                            self.setitem(v, K(i), x)
                            self.setitem(v, K(n.v - i - 1), y)
                        return NONE
                if name in ('_replace', '_asdict') and self.is_namedtuple(o.cls) and all(k is not None for k, _ in kwargs):
                    nt = self.is_namedtuple(o.cls)
                    if name == '_asdict':
                        return self.alloc('dict', None, {'segs': [('item', K(n), o.f[n]) for n in nt]})
                    if any(k not in nt for k, _ in kwargs):
                        raise self.exc('ValueError')
                    f = dict((n, o.f[n]) for n in nt)
                    f.update(kwargs)
                    return self.alloc('inst', o.cls, f)
                if name in ('index', 'count', '__contains__') and len(args) == 1 and not kwargs:
                    k = self.to_iter(v)
                    if k[0] == 'known':
                        if name == '__contains__':
                            return K(self.seq_search(k[1], 'count', args).v > 0)
                        return self.seq_search(k[1], name, args)
                return App('call', App('attr', self.frz(v), name), tuple(self.frz(a) for a in args), ())
        return self.bytes_method(v, name, args, kwargs)

    def bytes_method(self, v, name, args, kwargs):
        """methods of opaque builtin values (bytes, str, int, dict, list)"""
        fa = tuple(self.frz(a) for a in args)
        fk = tuple(sorted(((k, self.frz(x)) for k, x in kwargs), key=lambda p: str(p[0])))
        t = self.ty(v)
        if t == 'dict' and name in ('keys', 'items', 'values'):
            return App(name, v)
        if t == 'dict' and name == 'get':
            return App('getdefault', v, fa[0], fa[1] if len(fa) > 1 else NONE)
        if t == 'dict' and name == 'copy':
            return self.alloc('dict', None, {'segs': [('merge', v)]})
        if t == 'dict' and name == 'pop':
            return self.dict_pop_opaque(v, fa)
        if name in ('strip', 'lstrip', 'rstrip') and len(fa) <= 1 and isinstance(v, App) and v.op == 'call' and \
                v.args[0].op == 'attr' and v.args[0].args[1] in (name, 'strip') and v.args[1] == fa:
            return v       # idempotent
        if name in MUTATORS and t not in ('bytes', 'str', 'int'):
            self.events.append(Event('mut', (v, name, fa, fk), self.loc))
            n = self.occ.get((v, name, fa), 0)
            self.occ[(v, name, fa)] = n + 1
            return App('mutres', v, name, fa, n)
        if name in ('encode', 'decode', 'index') and self.tries > 0:
            self.may_raise(['UnicodeError' if name != 'index' else 'ValueError'], v)
        ty = RESULT_TY.get(name)
        if name in ('strip', 'lstrip', 'rstrip', 'ljust', 'rjust', 'center'):
            ty = t
        if name == 'to_bytes' and t in ('int', 'nat', 'num'):
            ty = 'bytes'
        return App('call', App('attr', v, name), fa, fk, ty=ty)

    def dict_pop_opaque(self, v, fa):
        k = fa[0]
        at = App('in', k, v)
        if (v, '$pop', k) in self.extra:
            pass
        if self.branch(at):
            r = App('getitem', v, k)
            self.facts[at] = False
            self.events.append(Event('mut', (v, 'pop', fa, ()), self.loc))
            return r
        if len(fa) > 1:
            return fa[1]
        raise self.exc('KeyError', k)

    def list_method(self, v, name, args, kw):
        def m():
            return self.hm(v, name)
        if name == 'append':
            o = m()
            o.f['segs'] = list(o.f['segs']) + [('one', args[0])]
            return NONE
        if name in ('extend', '__iadd__'):
            s = self.segs_of(args[0])
            o = m()
            o.f['segs'] = list(o.f['segs']) + s
            return NONE if name == 'extend' else v
        if name == 'insert' and isinstance(args[0], K) and all(s[0] == 'one' for s in self.h(v).f['segs']):
            o = m()
            s = list(o.f['segs'])
            s.insert(args[0].v, ('one', args[1]))
            o.f['segs'] = s
            return NONE
        if name == 'insert' and isinstance(args[0], K) and args[0].v == 0:
            o = m()
            o.f['segs'] = [('one', args[1])] + list(o.f['segs'])
            return NONE
        if name in ('popleft', 'appendleft') and name != 'append':
            if name == 'appendleft':
                return self.list_method(v, 'insert', [K(0)] + list(args), kw)
            return self.list_method(v, 'pop', [K(0)], kw)
        if name == 'pop':
            segs = self.h(v).f['segs']
            if args and isinstance(args[0], K) and isinstance(args[0].v, int) and all(s[0] == 'one' for s in segs):
                s = list(segs)
                try:
                    r = s.pop(args[0].v)
                except IndexError:
                    raise self.exc('IndexError')
                m().f['segs'] = s
                return r[1]
            i = args[0].v if args and isinstance(args[0], K) else (-1 if not args else None)
            if i in (-1, 0) and segs and segs[i][0] == 'one':
                o = m()
                s = list(o.f['segs'])
                r = s.pop(i)
                o.f['segs'] = s
                return r[1]
            if not segs:
                raise self.exc('IndexError')
            raise Unmodelled('list.pop')
        if name == 'copy':
            return self.alloc('list', None, {'segs': list(self.h(v).f['segs'])})
        if name == 'reverse' and all(s[0] == 'one' for s in self.h(v).f['segs']):
            o = m()
            o.f['segs'] = list(o.f['segs'])[::-1]
            return NONE
        if name in ('sort', 'reverse', 'remove', 'clear', 'insert', 'pop', '__setitem__', '__delitem__'):
            o = m()
            if name == 'clear':
                o.f['segs'] = []
            elif name == 'reverse' and not all(s[0] == 'one' for s in o.f['segs']):
                fr = self.frz(v)
                o.f['segs'] = [('many', App('reversed', fr))]
            elif name == 'sort' and all(s[0] == 'one' for s in o.f['segs']) and len(o.f['segs']) <= 16 and \
                    isinstance(kw.get('reverse', FALSE), K):
                xs = self.sort_known([s[1] for s in o.f['segs']], kw)
                o = m()
                o.f['segs'] = [('one', x) for x in xs]
            elif name == 'reverse' and all(s[0] == 'one' for s in o.f['segs']):
                o.f['segs'] = o.f['segs'][::-1]
            elif name == 'sort':
                fr = self.frz(v)
                o.f['segs'] = [('many', App('sorted', fr, *[x for _, x in sorted(kw.items())]))]
            elif name == 'remove':
                segs = [s for s in o.f['segs']]
                for i, s in enumerate(segs):
                    if s[0] == 'one' and s[1] == args[0]:
                        o.f['segs'] = segs[:i] + segs[i + 1:]
                        return NONE
                o.f['segs'] = segs + [('removed', self.frz(args[0]))]
            else:
                o.f['segs'] = [('unknown', App('mut', self.frz(v), name, tuple(self.frz(a) for a in args)))]
            return NONE
        if name == '__len__':
            return self.length(v)
        if name == '__contains__':
            return self.in_val(args[0], v)
        if name == '__iter__':
            return v
        if name in ('index', 'count') and len(args) == 1 and all(s[0] == 'one' for s in self.h(v).f['segs']):
            return self.seq_search([s[1] for s in self.h(v).f['segs']], name, args)
        return App('call', App('attr', self.frz(v), name), tuple(self.frz(a) for a in args), (), ty=RESULT_TY.get(name))

    def seq_search(self, items, name, args):
        n = 0
        for i, x in enumerate(items):
            if x == args[0] or self.truth(self.eq_val(x, args[0])):
                if name == 'index':
                    return K(i)
                n += 1
        if name == 'index':
            raise self.exc('ValueError')
        return K(n)

    def dict_method(self, v, name, args, kwargs):
        o = self.h(v)
        if name in ('keys', 'items', 'values'):
            return App(name, v)
        if name in ('iteritems', 'itervalues', 'iterkeys'):
            return App(name[4:], v)
        if name == 'copy':
            return self.alloc('dict', None, {'segs': list(o.f['segs'])})
        if name == 'get':
            r = self.dict_find(v, args[0])
            d = args[1] if len(args) > 1 else NONE
            if r[0] == 'hit':
                return r[1]
            if r[0] == 'miss':
                return d
            segs = o.f['segs']
            if all(s[0] == 'item' and isinstance(s[1], K) for s in segs) and len(segs) <= 12:
                for s in segs:
                    if self.truth(self.eq_val(args[0], s[1])):
                        return s[2]
                return d
            return App('getdefault', self.frz(v), self.frz(args[0]), self.frz(d))
        if name == 'pop':
            r = self.dict_find(v, args[0])
            if r[0] == 'hit':
                om = self.hm(v, 'pop')
                om.f['segs'] = [s for s in om.f['segs'] if not (s[0] == 'item' and s[1] == args[0])]
                return r[1]
            if r[0] == 'miss':
                if len(args) > 1:
                    return args[1]
                raise self.exc('KeyError', self.frz(args[0]))
            at = App('in', self.frz(args[0]), self.frz(v))
            if self.branch(at):
                r = self.opaque_getitem(self.frz(v), args[0])
                om = self.hm(v, 'pop')
                om.f['segs'] = list(om.f['segs']) + [('del', self.frz(args[0]))]
                return r
            if len(args) > 1:
                return args[1]
            raise self.exc('KeyError', self.frz(args[0]))
        if name == 'update':
            om = self.hm(v, 'update')
            segs = list(om.f['segs'])
            new = []
            for a in args:
                if isinstance(a, Obj) and self.h(a).kind == 'dict':
                    new += list(self.h(a).f['segs'])
                else:
                    k = self.to_iter(a) if isinstance(a, (Tup,)) or (isinstance(a, Obj)) else ('unk', None)
                    if k[0] == 'known':
                        for x in k[1]:
                            new.append(('item', self.getitem(x, K(0)), self.getitem(x, K(1))))
                    else:
                        new.append(('merge', self.frz(a)))
            for k, x in kwargs:
                new.append(('item', K(k), x) if k is not None else ('merge', self.frz(x)))
            om.f['segs'] = self.merge_segs(segs, new)
            return NONE
        if name == 'setdefault':
            r = self.dict_find(v, args[0])
            if r[0] == 'hit':
                return r[1]
            if r[0] == 'miss':
                om = self.hm(v, 'setdefault')
                om.f['segs'] = list(om.f['segs']) + [('item', args[0], args[1])]
                return args[1]
            raise Unmodelled('setdefault')
        if name == 'clear':
            self.hm(v, 'clear').f['segs'] = []
            return NONE
        if name == '__contains__':
            return self.in_val(args[0], v)
        if name == '__getitem__':
            return self.getitem(v, args[0])
        if name == '__setitem__':
            self.setitem(v, args[0], args[1])
            return NONE
        if name == 'popitem' and all(s[0] == 'item' for s in o.f['segs']):
            if not o.f['segs']:
                raise self.exc('KeyError')
            om = self.hm(v, 'popitem')
            i = 0 if args and args[0] == FALSE else -1
            s = om.f['segs'][i]
            om.f['segs'] = [x for x in om.f['segs'] if x is not s]
            return Tup((s[1], s[2]))
        raise Unmodelled('dict.%s' % name)

    def merge_segs(self, segs, new):
        segs = list(segs)
        for s in new:
            if s[0] == 'item' and isinstance(s[1], K):
                idx = [i for i, t in enumerate(segs) if t[0] == 'item' and t[1] == s[1]]
                if idx and all(t[0] == 'item' for t in segs[idx[-1]:]):
                    segs[idx[-1]] = s
                    continue
            segs.append(s)
        return segs

    def set_method(self, v, name, args, kw):
        o = self.h(v)
        if name == 'add':
            c = self.in_val(args[0], v) if all(s[0] == 'one' for s in o.f['segs']) and isinstance(args[0], (K, Obj)) else FALSE
            om = self.hm(v, 'add')
            if c != TRUE:
                om.f['segs'] = list(om.f['segs']) + [('one', args[0])]
            return NONE
        if name in ('remove', 'discard'):
            om = self.hm(v, name)
            for i, s in enumerate(om.f['segs']):
                if s[0] == 'one' and s[1] == args[0]:
                    om.f['segs'] = om.f['segs'][:i] + om.f['segs'][i + 1:]
                    return NONE
            if name == 'remove' and all(s[0] == 'one' for s in om.f['segs']) and isinstance(args[0], (K, Obj)):
                raise self.exc('KeyError')
            om.f['segs'] = list(om.f['segs']) + [('removed', self.frz(args[0]))]
            return NONE
        if name in ('update', '__ior__'):
            om = self.hm(v, 'update')
            for a in args:
                om.f['segs'] = list(om.f['segs']) + self.segs_of(a)
            return NONE
        if name == 'copy':
            return self.alloc('set', None, {'segs': list(o.f['segs'])})
        if name == '__contains__':
            return self.in_val(args[0], v)
        if name == 'clear':
            self.hm(v, 'clear').f['segs'] = []
            return NONE
        return App('call', App('attr', self.frz(v), name), tuple(self.frz(a) for a in args), ())


class InitChooser(object):
    def choose(self, n):
        return 0


class BreakOut(Exception):
    pass


class Frame(object):
    __slots__ = ('addr', 'module', 'env', 'info', 'first', 'gen', 'cls_ns')

    def __init__(self, addr, module, env, info):
        self.addr, self.module, self.env, self.info = addr, module, env, info
        self.first = None
        self.gen = None
        self.cls_ns = None


def eval_ord(op, a, b):
    return {ast.Lt: lambda: a < b, ast.Gt: lambda: a > b, ast.LtE: lambda: a <= b, ast.GtE: lambda: a >= b}[op]()


CANON = {'collections.abc.Sequence': 'abc.Sequence', 'collections.abc.MutableSequence': 'abc.MutableSequence',
         'collections.abc.Sized': 'abc.Sized', 'collections.abc.Iterable': 'abc.Iterable', 'io.StringIO': 'io.StringIO',
         'six.moves.range': 'range', 'builtins.range': 'range', 'numbers.Number': 'Number', 'types.FunctionType': 'FunctionType',
         'types.MethodType': 'MethodType', 'collections.OrderedDict': 'dict', 'six.integer_types': 'six.integer_types'}


def canon(n):
    if n.startswith('builtins.'):
        n = n[9:]
    return CANON.get(n, n)


def fmt_loc(loc):
    if not loc:
        return '?'
    f, l = loc[0], loc[1]
    i = f.find('/src/')
    return '%s:%s' % (f[i + 1:] if i >= 0 else f, l)
