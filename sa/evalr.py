"""Statement/expression evaluator and library models on top of interp.Interp."""
import ast
import operator
import math
import struct as _struct
from fractions import Fraction

from .terms import *
from .interp import (Interp, Frame, ClassInfo, FuncInfo, Event, ReturnEx, BreakEx, ContinueEx, LoopExit, GenAbort, Prune, Unmodelled,
                     AnchorMissing, PyRaise, BreakOut, InitChooser, parse, module_file, canon, fmt_loc, _exc_mro, PURE_EXT,
                     BUILTIN_NAMES, Path, PURE_METHODS)

ATOM_OPS = ('gt0', 'eq0', 'eq', 'in', 'isinstance', 'hasattr', 'isnone', 'truth', 'any', 'is', 'callable', 'not', 'issubclass',
            'ord')


class NeedChoice(Exception):
    pass


class ProbeChooser(object):
    def choose(self, n):
        if n <= 1:
            return 0
        raise NeedChoice()


def is_exc_name(n):
    import builtins
    b = getattr(builtins, n, None)
    if b is not None and not (isinstance(b, type) and issubclass(b, BaseException)):
        return False
    m = _exc_mro(n)
    return n == 'struct.error' or len(m) > 3 or m[0] in ('Exception', 'BaseException') or (
        len(m) >= 2 and m[-1] == 'BaseException' and m[0] in BUILTIN_NAMES)


class Evaluator(Interp):
    def __init__(self):
        super(Evaluator, self).__init__()
        self._finfo = {}

    # ------------------------------------------------------------------ frames
    def call_fn(self, f, args, kwargs):
        return super(Evaluator, self).call_fn(f, args, kwargs)

    def bind_args(self, f, args, kwargs):
        env = super(Evaluator, self).bind_args(f, args, kwargs)
        env['$env'] = f.env
        return env

    def file_of(self, module):
        p = parse(module)
        return p[1] if p else module

    def store(self, fr, name, val):
        if fr.info is not None and name in fr.info.globals_:
            a = self.h(fr.addr).f.get('$env')
            while a is not None:
                f = self.h(a).f
                if name in f:
                    break
                if f.get('$env') is None:
                    break
                a = f['$env']
            o = self.hm(Obj(a), internal=True)
            if '$module' in o.f and not self.in_init:
                self.events.append(Event('sharedwrite', ('module %s' % o.f['$module'], 'global %s' % name), self.loc))
            o.f[name] = val
            return
        self.hm(Obj(fr.addr), internal=True).f[name] = val

    def lookup(self, name, fr):
        f = self.h(fr.addr).f
        if name in f:
            return f[name]
        if fr.info is not None and name in fr.info.locals:
            raise self.exc('UnboundLocalError', K(name))
        a = f.get('$env')
        while a is not None:
            f = self.h(a).f
            if name in f:
                return f[name]
            a = f.get('$env')
        if name == '__file__':
            return K(self.file_of(fr.module))
        if name == 'NotImplemented':
            return NOTIMPL
        if name in BUILTIN_NAMES:
            return Ext(name)
        if '$module' in f and module_file('%s.%s' % (f['$module'], name)) and self.in_init:
            self.load('%s.%s' % (f['$module'], name))
            return Mod('%s.%s' % (f['$module'], name))
        raise self.exc('NameError', K(name))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_(s, fr)

    def exec_(self, s, fr):
        self.loc = (self.file_of(fr.module), s.lineno)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unmodelled('statement %s' % type(s).__name__)
        m(s, fr)

    def x_Expr(self, s, fr):
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else NONE)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack_to(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            c = self.eval(t.value, fr)
            self.setitem(c, self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unmodelled('assignment target')

    def unpack_to(self, elts, v, fr):
        k = self.to_iter(v) if not (isinstance(v, (Sym, App)) and self.inst_class(v) is None) else ('unk', v)
        if isinstance(v, App) and v.op in ('list', 'tupleof', 'listof'):
            k = self.to_iter(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if k[0] == 'known':
            vals = k[1]
            if star:
                i = star[0]
                after = len(elts) - i - 1
                if len(vals) < len(elts) - 1:
                    raise self.exc('ValueError')
                mid = self.alloc('list', None, {'segs': [('one', x) for x in vals[i:len(vals) - after]]})
                vals = vals[:i] + [mid] + (vals[len(vals) - after:] if after else [])
            elif len(vals) != len(elts):
                raise self.exc('ValueError')
        else:
            if star:
                raise Unmodelled('starred unpacking of an unknown iterable')
            if isinstance(v, K):
                raise self.exc('TypeError')
            vals = [self.getitem(v, K(i)) for i in range(len(elts))]
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
           ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.Pow: 'pow'}

    def x_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            put = lambda v: self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr_(o, t.attr)
            put = lambda v: self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        else:
            raise Unmodelled('augmented assignment target')
        v = self.eval(s.value, fr)
        put(self.inplace(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, Obj):
            o = self.h(cur)
            n = '__i%s__' % self.OPN.get(op, '?')
            if isinstance(o.cls, ClassInfo):
                r = o.cls.find(n)
                if r:
                    x = self.call(Bound(r[1], cur), [v], [])
                    if x != NOTIMPL:
                        return x
                elif op is ast.Add and any(e.split('.')[-1] in ('MutableSequence', 'list') for e in o.cls.ext_bases()):
                    return self.call_bmeth(cur, '__iadd__', [v], [])
            elif o.kind == 'list' and op is ast.Add:
                return self.call_bmeth(cur, '__iadd__', [v], [])
            elif o.kind == 'bytearray' and op is ast.Add:
                om = self.hm(cur, 'extended')
                if not om.f['log']:
                    om.f['init'] = self.cat([om.f['init'], self.as_bytes(v)])
                else:
                    om.f['log'] = om.f['log'] + (('extend', self.frz(v)),)
                return cur
            elif o.kind == 'set' and op is ast.BitOr:
                return self.call_bmeth(cur, '__ior__', [v], []) and cur
        elif isinstance(cur, (Sym, App)) and self.ty(cur) in ('list', 'bytearray') and op is ast.Add:
            self.events.append(Event('mut', (cur, '__iadd__', (self.frz(v),), ()), self.loc))
            return cur
        return self.binop(op, cur, v)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.hm(Obj(fr.addr), internal=True).f.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.eval(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, fr), self.eval_index(t.slice, fr))

    def delattr_(self, v, name):
        if isinstance(v, Obj):
            o = self.h(v)
            if isinstance(o.cls, ClassInfo):
                r = self.class_find(o.cls, name)
                pp = self.prop_parts(r[1]) if r is not None else None
                if pp is not None:
                    if pp[2] == NONE:
                        raise self.exc('AttributeError', K('property has no deleter'))
                    self.call(pp[2], [v], [])
                    return
                if r is not None and isinstance(r[1], Obj) and isinstance(self.h(r[1]).cls, ClassInfo) and \
                        self.h(r[1]).cls.find('__delete__'):
                    self.call(Bound(self.h(r[1]).cls.find('__delete__')[1], r[1]), [v], [])
                    return
            if name not in o.f:
                raise self.exc('AttributeError', K(name))
            del self.hm(v, 'attribute %s' % name).f[name]
            return
        self.attr_store[(v, name)] = '$deleted'
        self.facts[App('hasattr', self.frz(v), name)] = False
        self.events.append(Event('delattr', (self.frz(v), name), self.loc))

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def body(x):
            self.assign(s.target, x, fr)
            self.exec_block(s.body, fr)
        try:
            self.for_each(it, body, fr)
        except (BreakEx, BreakOut):
            return
        self.exec_block(s.orelse, fr)

    def x_While(self, s, fr):
        const = isinstance(s.test, ast.Constant)

        def step():
            if not self.truth(self.eval(s.test, fr)):
                raise LoopExit()
            self.exec_block(s.body, fr)

        def body(_):
            step()
        if not const:
            snap = self.snapshot()
            outer = self.chooser
            stk, tr, ld, ce = list(self.stack), self.tries, self.loopdepth, list(self.cur_exc)
            self.chooser = ProbeChooser()
            try:
                n = 0
                while True:
                    n += 1
                    if n > self.MAX_UNROLL:
                        raise NeedChoice()
                    try:
                        step()
                    except ContinueEx:
                        pass
            except LoopExit:
                self.chooser = outer
                self.exec_block(s.orelse, fr)
                return
            except BreakEx:
                return
            except (NeedChoice, Unmodelled):
                self.restore(snap)
                self.stack, self.tries, self.loopdepth, self.cur_exc = stk, tr, ld, ce
            finally:
                self.chooser = outer
            # the body forks: as long as the guard itself is decided, unroll with the forks of the body
            for n in range(self.MAX_UNROLL):
                snap = self.snapshot()
                stk, tr, ld, ce = list(self.stack), self.tries, self.loopdepth, list(self.cur_exc)
                self.chooser = ProbeChooser()
                try:
                    go = self.truth(self.eval(s.test, fr))
                except (NeedChoice, Unmodelled):
                    self.restore(snap)
                    self.stack, self.tries, self.loopdepth, self.cur_exc = stk, tr, ld, ce
                    break
                finally:
                    self.chooser = outer
                if not go:
                    self.exec_block(s.orelse, fr)
                    return
                try:
                    self.exec_block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
        try:
            self.summarise(None, body, fr, while_loop=True)
        except BreakOut:
            return
        self.exec_block(s.orelse, fr)

    def x_Raise(self, s, fr):
        if s.exc is None:
            if not self.cur_exc:
                raise self.exc('RuntimeError')
            raise PyRaise(self.cur_exc[-1])
        v = self.eval(s.exc, fr)
        if isinstance(v, Cls):
            v = self.instantiate(v, [], [])
        elif isinstance(v, Ext):
            v = App('excinst', v, Tup(()))
        loc = self.loc
        self.extra['$raised_at'] = loc
        raise PyRaise(v)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            args = (self.frz(self.eval(s.msg, fr)),) if s.msg is not None else ()
            self.extra['$raised_at'] = self.loc
            raise self.exc('AssertionError', *args)

    def exc_match(self, val, T):
        if isinstance(T, Tup):
            return any(self.exc_match(val, t) for t in T.items)
        if isinstance(val, App) and val.op == 'excinst':
            if isinstance(T, Ext):
                n = T.name
                names = _exc_mro(val.args[0].name)
                return n in names or n.split('.')[-1] in [x.split('.')[-1] for x in names if x != 'struct.error'] or (
                    n == 'struct.error' and val.args[0].name == 'struct.error') or (
                    n in ('IOError', 'EnvironmentError') and 'OSError' in names)
            return False
        cls = self.inst_class(val)
        if cls is not None:
            if isinstance(T, Cls):
                return cls.subclass_of(T.info)
            if isinstance(T, Ext):
                return any(T.name in _exc_mro(e) for e in cls.ext_bases())
        if isinstance(T, Ext) and T.name in ('Exception', 'BaseException'):
            return True
        return self.branch(App('isinstance', self.frz(val), T))

    def x_Try(self, s, fr):
        def inner():
            if not s.handlers:
                self.exec_block(s.body, fr)
                self.exec_block(s.orelse, fr)
                return
            self.tries += 1
            try:
                try:
                    self.exec_block(s.body, fr)
                finally:
                    self.tries -= 1
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.val, self.eval(h.type, fr)):
                        if h.name:
                            self.store(fr, h.name, e.val)
                        self.cur_exc.append(e.val)
                        self.events.append(Event('caught', (self.frz(e.val),), (self.file_of(fr.module), h.lineno)))
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.cur_exc.pop()
                        return
                raise
            self.exec_block(s.orelse, fr)
        if not s.finalbody:
            inner()
            return
        pending = None
        self.tries += 1
        try:
            inner()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx, LoopExit, GenAbort) as e:
            pending = e
        finally:
            self.tries -= 1
        self.exec_block(s.finalbody, fr)
        if pending is not None:
            raise pending

    def x_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        cm = self.eval(it.context_expr, fr)
        if isinstance(cm, App) and cm.op == 'closing':
            v = cm.args[0]
            ex = lambda: self.call(self.getattr_(v, 'close'), [], [])
            sup = None
        elif isinstance(cm, App) and cm.op == 'suppress':
            v, ex, sup = NONE, (lambda: None), cm.args[0]
        elif isinstance(cm, App) and cm.op == 'ctxmgr':
            run = self.lazy(self.call(cm.args[0], list(cm.args[1]), list(cm.args[2])))
            if run is None:
                raise Unmodelled('generator based context manager')
            state = {}

            def cb(x):
                if state:
                    raise Unmodelled('a context manager that yields twice')
                state['p'] = None
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, x, fr)
                try:
                    self.with_items(items[1:], body, fr)
                except (ReturnEx, BreakEx, ContinueEx, LoopExit) as e:
                    state['p'] = e
            run(cb)
            if not state:
                raise self.exc('RuntimeError', K("generator didn't yield"))
            if state['p'] is not None:
                raise state['p']
            return
        elif isinstance(cm, (Obj, Sym, App)):
            v = self.call(self.getattr_(cm, '__enter__'), [], [])
            sup = None

            def ex():
                p = pending.val if isinstance(pending, PyRaise) else None
                r = self.call(self.getattr_(cm, '__exit__'), [NONE, NONE, NONE] if p is None else [
                    self.type_of_exc(p), p, App('traceback', self.frz(p))], [])
                return isinstance(r, (K, Obj, Tup)) and isinstance(pending, PyRaise) and self.truth(r)
        else:
            raise Unmodelled('with')
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        pending = None
        self.tries += 1
        try:
            self.with_items(items[1:], body, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx, LoopExit, GenAbort) as e:
            pending = e
        finally:
            self.tries -= 1
        swallowed = ex()
        if pending is not None:
            if swallowed:
                self.events.append(Event('caught', (self.frz(pending.val),), self.loc))
                return
            if sup is not None and isinstance(pending, PyRaise) and self.exc_match(pending.val, sup):
                self.events.append(Event('caught', (self.frz(pending.val),), self.loc))
                return
            raise pending

    def type_of_exc(self, v):
        if isinstance(v, App) and v.op == 'excinst':
            return v.args[0]
        return self.type_of(v)

    # ---- imports
    def x_Import(self, s, fr):
        for a in s.names:
            top = a.name.split('.')[0]
            if module_file(a.name) is not None:
                self.load(a.name)
            if a.asname:
                v = Mod(a.name) if module_file(a.name) is not None else Ext(canon(a.name))
                self.store(fr, a.asname, v)
            else:
                v = Mod(top) if module_file(top) is not None and (a.name.startswith('infi.instruct') or a.name == 'infi') \
                    else Ext(canon(top))
                self.store(fr, top, v)

    def x_ImportFrom(self, s, fr):
        if s.module == '__future__':
            return
        base = s.module or ''
        if s.level:
            parts = fr.module.split('.')
            p = parse(fr.module)
            is_pkg = p is not None and p[1].endswith('__init__.py')
            n = s.level - (1 if is_pkg else 0)
            parts = parts[:len(parts) - n] if n else parts
            base = '.'.join(parts + ([s.module] if s.module else []))
        if module_file(base) is not None:
            self.load(base)
            mf = self.base[self.modules[base].addr].f
            for a in s.names:
                if a.name == '*':
                    names = None
                    if '__all__' in mf:
                        k = self.to_iter(mf['__all__'])
                        names = [x.v for x in k[1]]
                    else:
                        names = [n for n in mf if not n.startswith('_') and not n.startswith('$')]
                    for n in names:
                        v = self.mod_get(base, n)
                        if v is None:
                            raise self.exc('ImportError', K(n))
                        self.store(fr, n, v)
                    continue
                v = self.mod_get(base, a.name)
                if v is None:
                    raise self.exc('ImportError', K('%s.%s' % (base, a.name)))
                self.store(fr, a.asname or a.name, v)
            return
        if base.startswith('infi.instruct'):
            raise self.exc('ImportError', K(base))
        for a in s.names:
            if a.name == '*':
                raise Unmodelled('import * from %s' % base)
            self.store(fr, a.asname or a.name, self.ext_attr(Ext(canon(base)), a.name))

    def ext_attr(self, v, name):
        full = canon(v.name + '.' + name)
        if full in ('six.integer_types',):
            return Tup((Ext('int'),))
        if full in ('six.string_types', 'six.text_type'):
            return Tup((Ext('str'),)) if full == 'six.string_types' else Ext('str')
        if full in ('six.binary_type',):
            return Ext('bytes')
        if full == 'six.PY2':
            return FALSE
        if full == 'six.PY3':
            return TRUE
        r = super(Evaluator, self)._getattr(v, name)
        return Ext(full) if r is None else r

    # ---- definitions
    def finfo(self, node, module, qual):
        k = id(node)
        if k not in self._finfo:
            self._finfo[k] = FuncInfo(node, module, qual)
        return self._finfo[k]

    def qual(self, fr, name):
        if fr.cls_ns is not None:
            return fr.cls_ns + '.' + name
        if fr.info is not None:
            return fr.info.qualname + '.<locals>.' + name
        return name

    def make_fn(self, node, fr, name):
        info = self.finfo(node, fr.module, self.qual(fr, name))
        env = self.h(fr.addr).f.get('$env') if fr.cls_ns is not None else fr.addr
        defaults = [self.eval(d, fr) for d in node.args.defaults]
        kwd = [self.eval(d, fr) if d is not None else None for d in node.args.kw_defaults]
        return Fn(info, env, defaults, kwd)

    def x_FunctionDef(self, s, fr):
        v = self.make_fn(s, fr, s.name)
        v = self.decorate(s.decorator_list, v, fr)
        self.store(fr, s.name, v)

    def decorate(self, decs, v, fr):
        for d in reversed(decs):
            v = self.apply_decorator(self.eval(d, fr), v)
        return v

    def apply_decorator(self, d, v):
        if isinstance(d, Ext) and isinstance(v, Fn):
            n = d.name.split('.')[-1]
            if d.name in ('staticmethod', 'classmethod', 'property') or n == 'abstractproperty':
                return Fn(v.info, v.env, v.defaults, v.kwdefaults, 'property' if 'property' in n else n)
            if n == 'abstractmethod':
                return v
        return self.call(d, [v], [])

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        meta = None
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.eval(k.value, fr)
        q = self.qual(fr, s.name)
        env = self.h(fr.addr).f.get('$env') if fr.cls_ns is not None else fr.addr
        cf = self.alloc('frame', None, {'$env': env})
        cfr = Frame(cf.addr, fr.module, env, None)
        cfr.cls_ns = q
        self.exec_block(s.body, cfr)
        ns = dict((k, v) for k, v in self.h(cf).f.items() if not k.startswith('$'))
        bases = [b for b in bases if not (isinstance(b, Ext) and b.name == 'object')] + [Ext('object')] if not any(
            isinstance(b, Cls) for b in bases) else bases
        for b in bases:
            if not isinstance(b, (Cls, Ext)):
                raise Unmodelled('class base %r' % (b,))
            if isinstance(b, Ext) and b.name.split('.')[-1] in ('IntEnum', 'Flag', 'IntFlag', 'TypedDict', 'Structure'):
                raise Unmodelled('class base %r' % (b,))
        anns = [(x.target.id, x.value is not None) for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        ntd = None
        if any(isinstance(b, Ext) and b.name == 'typing.NamedTuple' for b in bases):
            ntd = dict((n, ns.pop(n)) for n, has in anns if has)
            bases = [Ext('namedtuple:%s:%s' % (s.name, ' '.join(n for n, _ in anns))), Ext('object')]
        if meta is None:
            for b in bases:
                if isinstance(b, Cls):
                    m = self.type_of(b)
                    if isinstance(m, Cls):
                        meta = m
                        break
        new = meta.info.find('__new__') if isinstance(meta, Cls) else None
        if new is not None and isinstance(new[1], Fn):
            d = self.alloc('dict', None, {'segs': [('item', K('__module__'), K(fr.module)), ('item', K('__qualname__'), K(q))] +
                                          [('item', K(k), v) for k, v in ns.items()]})
            f = new[1]
            c = self.call(Fn(f.info, f.env, f.defaults, f.kwdefaults), [meta, K(s.name), Tup(bases), d], [])
            self.store(fr, s.name, self.decorate(s.decorator_list, c, fr))
            return
        ci = ClassInfo(s.name, q, bases, ns, fr.module, s.lineno)
        ci.meta = meta
        self.number_class(ci)
        for v in ns.values():
            if isinstance(v, Fn) and v.info.qualname.startswith(q + '.'):
                v.info.cls = ci
        c = Cls(ci)
        ci.ann = anns
        if ntd is not None:
            ci.nt_defaults = ntd
        if any(isinstance(b, Ext) and b.name == 'enum.Enum' for b in bases):
            ci.enum = []
            for k, v in list(ns.items()):
                if not k.startswith('_') and not isinstance(v, (Fn, App)):
                    m = ci.ns[k] = self.alloc('inst', ci, {'name': K(k), 'value': v, '_name_': K(k), '_value_': v})
                    ci.enum.append(m)
        for k, v in list(ns.items()):
            if isinstance(v, Obj) and self.inst_class(v) is not None and self.inst_class(v).find('__set_name__'):
                self.call(Bound(self.inst_class(v).find('__set_name__')[1], v), [c, K(k)], [])
        for b in ci.mro()[1:]:
            if isinstance(b, ClassInfo) and '__init_subclass__' in b.ns:
                f = b.ns['__init_subclass__']
                if isinstance(f, Fn):
                    self.call(Bound(Fn(f.info, f.env, f.defaults, f.kwdefaults), c), [],
                              [(k.arg, self.eval(k.value, fr)) for k in s.keywords if k.arg not in (None, 'metaclass')])
                break
        c2 = self.decorate(s.decorator_list, c, fr)
        self.store(fr, s.name, c2)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unmodelled('expression %s' % type(e).__name__)
        if hasattr(e, 'lineno'):
            self.loc = (self.file_of(fr.module), e.lineno)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return K(e.value) if e.value is not Ellipsis else Ext('Ellipsis')

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return Tup(self.eval_list(e.elts, fr))

    def eval_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                out += self.star_values(v)
            else:
                out.append(self.eval(x, fr))
        return out

    def star_values(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        k = self.to_iter(v)
        if k[0] == 'known':
            return list(k[1])
        if k[0] == 'segs':
            out = []
            for s in k[1]:
                if s[0] == 'one':
                    out.append(s[1])
                elif s[0] == 'many':
                    out.append(App('star', s[1]))
                else:
                    out.append(App('star', App('list', (self._frz_seg(s, 0, ()),))))
            return out
        return [App('star', k[1])]

    def e_List(self, e, fr):
        segs = []
        for v in self.eval_list(e.elts, fr):
            if isinstance(v, App) and v.op == 'star':
                segs.append(('many', v.args[0]))
            else:
                segs.append(('one', v))
        return self.alloc('list', None, {'segs': segs})

    def e_Set(self, e, fr):
        o = self.alloc('set', None, {'segs': []})
        for v in self.eval_list(e.elts, fr):
            self.set_method(o, 'add', [v], {})
        return o

    def e_Dict(self, e, fr):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, fr)
                segs = self.merge_segs(segs, list(self.h(d).f['segs']) if isinstance(d, Obj) and self.h(d).kind == 'dict'
                                       else [('merge', self.frz(d))])
            else:
                kk = self.eval(k, fr)
                segs = self.merge_segs(segs, [('item', kk, self.eval(v, fr))])
        return self.alloc('dict', None, {'segs': segs})

    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), e.attr)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return App('sliceobj', *[self.eval(x, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        c = self.eval(e.value, fr)
        return self.getitem(c, self.eval_index(e.slice, fr))

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        self.loc = (self.file_of(fr.module), e.lineno)
        return self.binop(type(e.op), a, b)

    def binop(self, op, a, b):
        if op is ast.Mod and isinstance(a, K) and isinstance(a.v, (str, bytes)):
            vals = None
            if isinstance(b, K):
                vals = b.v
            elif isinstance(b, Tup) and all(isinstance(i, K) for i in b.items):
                vals = tuple(i.v for i in b.items)
            if vals is not None:
                try:
                    return K(a.v % vals)
                except (TypeError, ValueError) as ex:
                    raise self.exc(type(ex).__name__, a)
            if isinstance(a.v, str):
                self.check_format(a.v, b)
                return App('fmt', a, self.fz(b), ty='str')
        for x in (a, b):
            if isinstance(x, K) and x.v is None and not (self.inst_class(a) or self.inst_class(b)) and \
                    not (isinstance(a, App) and a.op == 'lc'):
                if isinstance(a, K) and isinstance(b, K) or op in (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Div):
                    raise self.exc('TypeError')
        if op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor) and all(
                isinstance(x, Obj) and self.h(x).kind == 'set' and all(s[0] == 'one' and isinstance(s[1], (K, Cls, Fn))
                                                                      for s in self.h(x).f['segs']) for x in (a, b)):
            sa, sb = [[s[1] for s in self.h(x).f['segs']] for x in (a, b)]
            r = {ast.BitOr: sa + [x for x in sb if x not in sa], ast.BitAnd: [x for x in sa if x in sb],
                 ast.Sub: [x for x in sa if x not in sb],
                 ast.BitXor: [x for x in sa if x not in sb] + [x for x in sb if x not in sa]}[op]
            return self.alloc('set', None, {'segs': [('one', x) for x in r]})
        if op is ast.Add:
            ta, tb = self.ty(a), self.ty(b)
            if {ta, tb} in ({'bytes', 'str'}, {'int', 'bytes'}, {'int', 'str'}):
                raise self.exc('TypeError', K('%s + %s' % (ta, tb)))
        return super(Evaluator, self).binop(op, a, b)

    def check_format(self, fmt, b):
        """number of arguments of a % format"""
        if isinstance(b, Tup) and not any(isinstance(i, App) and i.op == 'star' for i in b.items):
            n = 0
            i = 0
            while i < len(fmt):
                if fmt[i] == '%':
                    if fmt[i + 1:i + 2] == '%':
                        i += 2
                        continue
                    if fmt[i + 1:i + 2] == '(':
                        return
                    n += 1 + fmt[i + 1:i + 6].split('%')[0].count('*')
                i += 1
            if n != len(b.items):
                raise self.exc('TypeError', K('format arguments'))

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        return self.unary(type(e.op), v)

    def unary(self, op, v):
        name = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[op]
        cls = self.inst_class(v)
        if cls is not None:
            r = cls.find(name)
            if r:
                return self.call(Bound(r[1], v), [], [])
            if op is ast.USub or self.plain_inst(v) is not None:
                raise self.exc('TypeError')
        elif self.refuses_unary(v):
            raise self.exc('TypeError')
        if isinstance(v, K):
            try:
                return K({ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[op](v.v))
            except TypeError:
                raise self.exc('TypeError')
        if op is ast.USub:
            r = lin_mul(self.frz(v), K(-1))
            return r if r is not None else App('neg', self.frz(v))
        if op is ast.Invert:
            return lin_add(lin_mul(self.frz(v), K(-1)), K(-1)) if to_lin(self.frz(v)) is not None else App('inv', self.frz(v))
        return v

    def refuses_unary(self, v):
        if isinstance(v, Obj):
            return self.h(v).kind in ('list', 'dict', 'set', 'bytearray') and not isinstance(self.h(v).cls, ClassInfo)
        return isinstance(v, (Tup, Cls, Fn, Bound)) or self.ty(v) in ('bytes', 'str', 'bytearray') and not isinstance(v, K)

    def not_(self, v):
        if isinstance(v, K):
            return K(not v.v)
        if isinstance(v, App) and v.op in ATOM_OPS:
            if v.op == 'not':
                return v.args[0]
            d = self.decide(v)
            return App('not', v) if d is None else K(not d)
        return K(not self.truth(v))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                if isinstance(v, App) and v.op in ATOM_OPS:
                    return K(t)
                return v
        return v

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        n = len(e.ops)
        r = TRUE
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            r = self.compare(type(op), left, right)
            if i < n - 1:
                if not self.truth(r):
                    return FALSE
            left = right
        return r

    def compare(self, op, a, b):
        if op is ast.Eq:
            if a == b and isinstance(a, Obj) and self.inst_class(a) is not None and self.inst_class(a).find('__eq__'):
                v = self.call(Bound(self.inst_class(a).find('__eq__')[1], a), [b], [])
                return TRUE if v == NOTIMPL else v
            return self.eq_val(a, b)
        if op is ast.NotEq:
            for x, y in ((a, b), (b, a)):
                cls = self.inst_class(x)
                if cls is not None:
                    r = cls.find('__ne__')
                    if r:
                        v = self.call(Bound(r[1], x), [y], [])
                        if v != NOTIMPL:
                            return v
            return self.not_(self.eq_val(a, b))
        if op is ast.Is:
            return self.is_val(a, b)
        if op is ast.IsNot:
            return self.not_(self.is_val(a, b))
        if op is ast.In:
            return self.in_val(a, b)
        if op is ast.NotIn:
            return self.not_(self.in_val(a, b))
        for x in (a, b):
            if isinstance(x, K) and x.v is None and self.inst_class(a) is None and self.inst_class(b) is None:
                raise self.exc('TypeError', K('ordering comparison with None'))
        return self.order_val(op, a, b)

    def in_val(self, x, c):
        if isinstance(c, App) and c.op == 'attr' and c.args[1] == '__dict__':
            nm = x.v if isinstance(x, K) else self.frz(x)
            if (c.args[0], nm) in self.attr_store:
                return K(self.attr_store[(c.args[0], nm)] != '$deleted')
        if isinstance(c, App) and c.op == 'instdict' and isinstance(x, K):
            return K(x.v in self.h(c.args[0]).f)
        if isinstance(c, App) and c.op == 'instdict':
            nm = self.frz(x)
            if nm in self.h(c.args[0]).f:
                return TRUE
        if isinstance(c, Obj) and self.h(c).kind in ('set', 'list') and isinstance(x, Obj) and self.h(x).kind == 'inst' and all(
                s[0] == 'one' for s in self.h(c).f['segs']):
            # identity based membership (hash by id): exact for heap objects
            if any(s[1] == x for s in self.h(c).f['segs']):
                return TRUE
            if all(isinstance(s[1], Obj) for s in self.h(c).f['segs']) and self.h(c).kind == 'set':
                return FALSE
        return super(Evaluator, self).in_val(x, c)

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unmodelled('starred expression')

    def e_Yield(self, e, fr):
        f = fr
        if f.gen is None:
            raise Unmodelled('yield outside generator')
        v = self.eval(e.value, fr) if e.value is not None else NONE
        f.gen(v)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        acc = getattr(fr.gen, 'acc', None)
        if acc is not None and not (isinstance(v, Obj) and v.addr in self.heap and 'lazy' in self.heap[v.addr].f):
            self.list_method(acc, 'extend', [v], {})
        else:
            self.for_each(v, fr.gen, fr)
        return NONE

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(K(x.value))
            else:
                v = self.eval(x.value, fr)
                spec = x.format_spec is None and x.conversion in (-1, 115)
                fspec = self.eval(x.format_spec, fr) if x.format_spec is not None else K('')
                if isinstance(v, K) and spec:
                    parts.append(K(str(v.v)))
                elif isinstance(v, K) and isinstance(fspec, K):
                    c = {-1: lambda q: q, 115: str, 114: repr, 97: ascii}[x.conversion](v.v)
                    try:
                        parts.append(K(format(c, fspec.v)))
                    except (TypeError, ValueError) as ex:
                        raise self.exc(type(ex).__name__)
                else:
                    parts.append(App('fmt1', self.fz(v), K(x.conversion), ty='str'))
        r = K('')
        if all(isinstance(p, K) for p in parts):
            return K(''.join(p.v for p in parts))
        return App('fmt', K('f-string'), Tup(parts), ty='str')

    def e_FormattedValue(self, e, fr):
        return App('fmt1', self.frz(self.eval(e.value, fr)), ty='str')

    # ---- comprehensions
    def comp(self, e, fr, emit, first=None):
        cf = self.alloc('frame', None, {'$env': fr.addr if fr.cls_ns is None else fr.addr})
        cfr = Frame(cf.addr, fr.module, fr.addr, None)
        cfr.gen = fr.gen

        def level(i):
            if i == len(e.generators):
                emit(cfr)
                return
            g = e.generators[i]
            it = first if i == 0 and first is not None else self.eval(g.iter, fr if i == 0 else cfr)

            def body(x):
                self.assign(g.target, x, cfr)
                for c in g.ifs:
                    if not self.truth(self.eval(c, cfr)):
                        raise ContinueEx()
                level(i + 1)
            self.for_each(it, body, cfr)
        level(0)

    def e_ListComp(self, e, fr):
        acc = self.alloc('list', None, {'segs': []})
        self.comp(e, fr, lambda c: self.list_method(acc, 'append', [self.eval(e.elt, c)], {}))
        return acc

    def e_GeneratorExp(self, e, fr):
        first = self.eval(e.generators[0].iter, fr)

        def run(cb):
            self.comp(e, fr, lambda c: cb(self.eval(e.elt, c)), first)
        if self.in_init:
            acc = self.alloc('list', None, {'segs': [], 'iter': True})
            run(lambda x: self.list_method(acc, 'append', [x], {}))
            return acc
        return self.alloc('list', None, {'segs': [], 'iter': True, 'lazy': run})

    def e_SetComp(self, e, fr):
        acc = self.alloc('set', None, {'segs': []})
        self.comp(e, fr, lambda c: self.set_method(acc, 'add', [self.eval(e.elt, c)], {}))
        return acc

    def e_DictComp(self, e, fr):
        acc = self.alloc('dict', None, {'segs': []})

        def emit(c):
            k = self.eval(e.key, c)
            self.setitem(acc, k, self.eval(e.value, c))
        self.comp(e, fr, emit)
        return acc

    # ---- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'globals', 'vars') and not (
                e.args and e.func.id != 'super') and self.lookup(e.func.id, fr) == Ext(e.func.id):
            if e.func.id == 'super':
                if not e.args:
                    f = fr
                    ci = f.info.cls if f.info is not None else None
                    if ci is None:
                        raise Unmodelled('super() outside a method')
                    return Super(ci, f.first)
                a = [self.eval(x, fr) for x in e.args]
                return Super(a[0].info if isinstance(a[0], Cls) else a[0], a[1])
            return App('framedict', Obj(fr.addr))
        f = self.eval(e.func, fr)
        lazy = self.lazy_any(e, f, fr)
        if lazy is not None:
            return lazy
        args = self.eval_list(e.args, fr)
        kwargs = []
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is not None:
                kwargs.append((k.arg, v))
            else:
                kwargs += self.expand_kwargs(v)
        self.loc = (self.file_of(fr.module), e.lineno)
        saved = self.loc
        r = self.call(f, args, kwargs)
        self.loc = saved
        return r

    def expand_kwargs(self, v):
        if isinstance(v, Obj) and self.h(v).kind == 'dict':
            out = []
            for s in self.h(v).f['segs']:
                if s[0] == 'item' and isinstance(s[1], K) and isinstance(s[1].v, str):
                    out = [(k, x) for k, x in out if k != s[1].v] + [(s[1].v, s[2])]
                elif s[0] == 'item':
                    out.append((None, App('dict', (self._frz_seg(s, 0, ()),))))
                elif s[0] == 'merge':
                    out.append((None, s[1]))
                else:
                    out.append((None, App('dict', (self._frz_seg(s, 0, ()),))))
            return out
        return [(None, self.frz(v))]

    def lazy_any(self, e, f, fr):
        """any()/all()/next() over a generator expression stop at the first hit"""
        if not (isinstance(f, Ext) and f.name in ('any', 'all', 'next') and e.args and isinstance(e.args[0], ast.GeneratorExp)
                and not e.keywords):
            return None
        g = e.args[0]

        def emit(c):
            v = self.eval(g.elt, c)
            if f.name == 'next':
                raise ReturnEx(v)
            t = self.truth(v)
            if t == (f.name == 'any'):
                raise ReturnEx(K(t))
        try:
            self.comp(g, fr, emit)
        except ReturnEx as r:
            return r.v
        if f.name == 'next':
            if len(e.args) > 1:
                return self.eval(e.args[1], fr)
            raise self.exc('StopIteration')
        return K(f.name == 'all')

    # ------------------------------------------------------------------ item access on frames
    def getitem(self, c, k):
        if isinstance(c, App) and c.op == 'framedict':
            f = self.h(c.args[0]).f
            if isinstance(k, K) and k.v in f:
                return f[k.v]
            raise self.exc('KeyError', k)
        if isinstance(c, App) and c.op == 'instdict' and isinstance(k, K):
            f = self.h(c.args[0]).f
            if k.v in f:
                return f[k.v]
            raise self.exc('KeyError', k)
        if isinstance(c, App) and c.op == 'instdict':
            f = self.h(c.args[0]).f
            if self.frz(k) in f:
                return f[self.frz(k)]
        if isinstance(c, K) and c.v is None:
            raise self.exc('TypeError', K('None is not subscriptable'))
        return super(Evaluator, self).getitem(c, k)

    def setitem(self, c, k, val):
        if isinstance(c, App) and c.op == 'framedict' and isinstance(k, K):
            self.hm(c.args[0], internal=True).f[k.v] = val
            return
        if isinstance(c, App) and c.op == 'instdict' and not isinstance(k, K):
            self.hm(c.args[0], 'attribute').f[self.frz(k)] = val
            return
        if isinstance(c, App) and c.op == 'attr' and c.args[1] == '__dict__' and not isinstance(k, K):
            k = self.frz(k)
            self.attr_store[(c.args[0], k)] = val
            self.events.append(Event('setattr', (c.args[0], k, self.frz(val)), self.loc, raw=(c.args[0], val)))
            return
        super(Evaluator, self).setitem(c, k, val)

    def opaque_getitem(self, c, k):
        if isinstance(c, App) and c.op == 'attr' and c.args[1] == '__dict__' and not isinstance(k, K):
            kk = self.frz(k)
            if (c.args[0], kk) in self.attr_store:
                return self.attr_store[(c.args[0], kk)]
        r = super(Evaluator, self).opaque_getitem(c, k)
        if isinstance(r, App) and r.op == 'unpack1' and r.ty is None and isinstance(r.args[0], K):
            r = App('unpack1', *r.args, ty='float' if r.args[0].v[-1:] in ('f', 'd', 'e') else 'int')
        return r

    def as_bytes(self, v):
        """byte string denoted by a bytes-like or iterable value"""
        if isinstance(v, Obj):
            o = self.h(v)
            if o.kind == 'bytearray' and not o.f['log']:
                return o.f['init']
            if o.kind in ('bytearray',):
                return self.frz(v)
            k = self.to_iter(v)
            if k[0] == 'known' and all(isinstance(x, K) for x in k[1]):
                try:
                    return K(bytes([x.v for x in k[1]]))
                except (ValueError, TypeError) as e:
                    raise self.exc(type(e).__name__)
            if k[0] == 'known':
                return App('bytes', Tup(self.frz(x) for x in k[1]), ty='bytes')
            return App('bytes', self.frz(v), ty='bytes')
        t = self.ty(v)
        if t == 'bytes':
            return v
        if t == 'bytearray' and isinstance(v, App) and v.op == 'bytearray':
            return v.args[0]
        if t == 'bytearray':
            return v
        if t in ('int', 'nat', 'bool'):
            if isinstance(v, K) and 0 <= v.v <= 4096:
                return K(bytes(v.v))
            return App('zeros', v, ty='bytes')
        if t == 'str':
            raise self.exc('TypeError', K('string argument without an encoding'))
        if isinstance(v, App) and v.op == 'repeatit':
            c, n = v.args
            if isinstance(c, K):
                b = K(bytes([c.v]))
            elif isinstance(c, App) and c.op == 'getitem' and self.ty(c.args[0]) == 'bytes' and isinstance(c.args[1], K) and \
                    c.args[1].v == 0:
                b = App('slice', c.args[0], NONE, K(1), ty='bytes')
            else:
                b = App('byte', c, ty='bytes')
            return App('repeat', b, n, ty='bytes')
        if isinstance(v, Tup) and all(isinstance(i, K) for i in v.items):
            return K(bytes([i.v for i in v.items]))
        if isinstance(v, K) and v.v is None:
            raise self.exc('TypeError')
        return App('bytes', self.frz(v), ty='bytes')

    def length_bytes(self, v):
        if isinstance(v, App) and v.op == 'byte':
            return K(1)
        if isinstance(v, App) and v.op == 'slice' and v.args[1] == NONE and v.args[2] == K(1) and v.ty == 'bytes':
            return K(1)
        if isinstance(v, App) and v.op == 'bytes' and isinstance(v.args[0], Tup):
            return K(len(v.args[0].items))
        return super(Evaluator, self).length_bytes(v)

    # ------------------------------------------------------------------ library models
    def call(self, f, args, kwargs):
        if isinstance(f, App):
            if f.op == 'ctxmgrfn':
                return App('ctxmgr', f.args[0], tuple(args), tuple(kwargs))
            if f.op == 'cachedfn':
                return self.call_cached(f, args, kwargs)
            if f.op == 'dataclassdeco':
                return self.make_dataclass(args[0], f.args[0] == TRUE)
            if f.op == 'cachedeco':
                return self.make_cached(args[0])
            if f.op == 'add_metaclass':
                if isinstance(args[0], Cls):
                    args[0].info.meta = f.args[0]
                return args[0]
            if f.op == 'identity':
                return args[0]
            if f.op == 'mview':
                if f.args[1] == 'tolist':
                    return self.call_ext('list', [f.args[0]], [])
                return NONE if f.args[1] == 'release' else self.call_ext('bytes', [f.args[0]], [])
            if f.op == 'propwith':
                parts = self.prop_parts(f.args[0])
                parts[('getter', 'setter', 'deleter').index(f.args[1])] = args[0]
                return App('property', *parts)
            if f.op == 'structm':
                return self.call_ext('struct.' + f.args[1], [f.args[0]] + list(args), kwargs)
        return super(Evaluator, self).call(f, args, kwargs)

    def _getattr(self, v, name):
        if name in ('tobytes', 'tolist', 'nbytes', 'release') and (
                self.ty(v) == 'bytes' or isinstance(v, Obj) and self.h(v).kind == 'bytearray'):
            return self.length(v) if name == 'nbytes' else App('mview', v, name)
        if name in ('getter', 'setter', 'deleter', 'fget', 'fset', 'fdel') and self.prop_parts(v) is not None:
            if name[0] == 'f':
                return self.prop_parts(v)[('fget', 'fset', 'fdel').index(name)]
            return App('propwith', v, name)
        if isinstance(v, App):
            if v.op == 'sliceobj':
                if name in ('start', 'stop', 'step'):
                    return v.args[('start', 'stop', 'step').index(name)]
                if name == 'indices':
                    return App('bmeth', v, name)
            if v.op == 'structobj':
                if name == 'size':
                    return self.call_ext('struct.calcsize', [v.args[0]], [])
                if name == 'format':
                    return v.args[0]
                return App('structm', v.args[0], name)
            if v.op == 'partial' and name in ('func', 'args', 'keywords'):
                return {'func': v.args[0], 'args': Tup(v.args[1])}.get(name) or App('attr', v, name)
        if isinstance(v, Ext):
            full = canon(v.name + '.' + name)
            if full.startswith('six.'):
                return self.ext_attr_six(full, v, name)
        return super(Evaluator, self)._getattr(v, name)

    def prop_parts(self, v):
        """(getter, setter, deleter) of a property, or None"""
        if isinstance(v, Fn) and v.kind == 'property':
            return [Fn(v.info, v.env, v.defaults, v.kwdefaults), NONE, NONE]
        if isinstance(v, App) and v.op == 'property':
            return list(v.args)
        return None

    def ext_attr_six(self, full, v, name):
        d = {'six.integer_types': Tup((Ext('int'),)), 'six.string_types': Tup((Ext('str'),)), 'six.text_type': Ext('str'),
             'six.binary_type': Ext('bytes'), 'six.PY2': FALSE, 'six.PY3': TRUE}
        return d.get(full) or Ext(full)

    def num_fold(self, op, vals):
        """min/max of values"""
        flat = []
        for v in vals:
            if isinstance(v, App) and v.op == op:
                flat += list(v.args)
            else:
                flat.append(v)
        flat = [self.frz(x) for x in flat]
        if 2 <= len(flat) <= 6 and any(isinstance(x, App) and self.bitlen_of(x, False) is not None for x in flat):
            if op == 'max':                        # max(k, bit_length(x)) is the bit length of x with bit k - 1 set
                ks = [x.v for x in flat if isinstance(x, K) and isinstance(x.v, int)]
                bl = [x for x in flat if isinstance(x, App) and x.op == 'bitlen']
                if len(ks) == len(bl) == 1 and len(flat) == 2:
                    b, k = bl[0].args[0], ks[0]
                    return bl[0] if k <= 0 else self.bitlen((b + (0,) * k)[:k - 1] + (1,) + b[k:])
            r = flat[0]                            # of bit lengths: one trace per outcome
            for x in flat[1:]:
                L = lin_add(x, r, -1) if op == 'max' else lin_add(r, x, -1)
                if self.decide_gt0(lin_mul(K(-1), L)) is False or self.cond_gt0(L):
                    r = x
            return r
        if all(isinstance(x, K) for x in flat):
            try:
                return K((min if op == 'min' else max)(x.v for x in flat))
            except TypeError:
                raise self.exc('TypeError')
        if any(isinstance(x, K) and x.v is None for x in flat):
            raise self.exc('TypeError')
        keep = []
        for i, x in enumerate(flat):
            dom = False
            for j, y in enumerate(flat):
                if i == j or (x == y and i < j):
                    continue
                if x == y and j < i:
                    dom = True
                    break
                if self.le(y, x) if op == 'min' else self.le(x, y):
                    if (self.le(x, y) if op == 'min' else self.le(y, x)) and i < j:
                        continue
                    dom = True
                    break
            if not dom:
                keep.append(x)
        if len(keep) == 1:
            return keep[0]
        return App(op, *sorted(set(keep), key=lambda t: t.sk()))

    def first(self, v, default=None):
        def body(x):
            raise ReturnEx(x)
        try:
            self.for_each(v, body, None)
        except ReturnEx as r:
            return r.v
        if default is not None:
            return default
        raise self.exc('StopIteration')

    def fold_iter(self, v, init, step):
        """acc = step(acc, x) over an iterable"""
        t = self.alloc('frame', None, {'acc': init})

        def body(x):
            o = self.hm(t, internal=True)
            a = o.f['acc']
            r = step(a, x)
            self.hm(t, internal=True).f['acc'] = r
        self.for_each(v, body, None)
        return self.h(t).f['acc']

    def call_ext(self, name, args, kwargs):
        name = canon(name)
        kw = dict((k, v) for k, v in kwargs if k is not None)
        a = list(args)
        n = len(a)
        if name in self.config.get('ext_models', {}):
            return self.config['ext_models'][name](self, a, kw)
        special = self.SPECIAL.get(name.replace('builtins.', ''))
        if special is not None and a and any(self.plain_inst(x) is not None for x in a):
            r = self.call_special(name.replace('builtins.', ''), special, a)
            if r is not None:
                return r
        fn = getattr(self, 'l_' + name.replace('.', '__').replace('builtins__', ''), None)
        if fn is not None:
            return fn(a, kw, kwargs)
        if name.startswith('namedtuple:'):
            raise Unmodelled('anonymous namedtuple')
        if is_exc_name(name):
            return App('excinst', Ext(name), Tup(self.frz(x) for x in a))
        parts = name.split('.')
        if parts[0] == 'operator' and len(parts) == 2:
            r = self.call_operator(parts[1].strip('_'), a, kw)
            if r is not None:
                return r
        if len(parts) == 2 and parts[0] in ('str', 'bytes', 'list', 'dict', 'int', 'bytearray', 'tuple', 'set', 'object', 'type'):
            if parts[0] == 'object' and parts[1] == '__new__':
                if isinstance(a[0], Cls):
                    return self.alloc('inst', a[0].info, {})
            if parts[0] == 'object' and parts[1] == '__init__':
                return NONE
            if parts[0] == 'object' and parts[1] == '__setattr__' and isinstance(a[0], Obj) and isinstance(a[1], K):
                self.hm(a[0], 'attribute').f[a[1].v] = a[2]
                return NONE
            if parts[0] == 'type' and parts[1] == '__new__':
                c = self.type_new(a)
                if c is not None:
                    return c
                return self.opaque_call(Ext('type.__new__'), args, kwargs, ty=self.config.get('new_class_ty'))
            if parts[0] == 'int' and parts[1] == 'from_bytes' and hasattr(self, 'l_int__from_bytes'):
                return self.l_int__from_bytes(a, kw, rk)
            if parts[0] == 'int' and parts[1] == 'from_bytes':
                return App('from_bytes', *([self.as_bytes(a[0])] + [self.frz(x) for x in a[1:]] + [
                    Tup((K(k), self.frz(v))) for k, v in sorted(kw.items())]), ty='int')
            if parts[0] == 'bytes' and parts[1] == 'fromhex' and isinstance(a[0], K):
                try:
                    return K(bytes.fromhex(a[0].v))
                except (TypeError, ValueError) as e:
                    raise self.exc(type(e).__name__)
            if parts[0] == 'bytes' and parts[1] == 'fromhex':
                return App('fromhex', self.frz(a[0]), ty='bytes')
            if a and parts[1] not in ('fromkeys', 'maketrans'):
                if isinstance(a[0], Obj) and isinstance(self.h(a[0]).cls, ClassInfo) and self.h(a[0]).kind in ('list', 'dict'):
                    return self.call_supermeth(self.h(a[0]).cls, a[0], parts[1], a[1:], kwargs)
                return self.call_bmeth(a[0], parts[1], a[1:], kwargs)
        if name.startswith('math.') and all(isinstance(x, K) for x in a) and a:
            try:
                r = getattr(math, name[5:])(*[x.v for x in a])
                if isinstance(r, (int, float, bool)):
                    return K(r)
            except AttributeError:
                pass
            except (TypeError, ValueError, OverflowError) as e:
                raise self.exc(type(e).__name__)
        if name in PURE_EXT or name.startswith('math.') or name.startswith('traceback.') or name.startswith('binascii.'):
            if name in ('binascii.hexlify', 'binascii.unhexlify', 'binascii.crc32') and all(isinstance(x, K) for x in a):
                import binascii
                try:
                    return K(getattr(binascii, name[9:])(*[x.v for x in a]))
                except (TypeError, ValueError) as e:
                    raise self.exc(type(e).__name__)
            if name in ('round', 'abs', 'pow', 'divmod', 'ord', 'chr', 'hex', 'bin', 'oct', 'format', 'hash') and all(isinstance(x, K) for x in a):
                import builtins
                try:
                    r = getattr(builtins, name)(*[x.v for x in a])
                    if not isinstance(r, tuple):
                        return K(r)
                    return Tup(K(x) for x in r)
                except (TypeError, ValueError, ZeroDivisionError) as e:
                    raise self.exc(type(e).__name__)
            return App(name, *[self.frz(x) for x in a], ty=None)
        if name in ('print',) or name.startswith('logging.'):
            return NONE
        self.notes.append('unmodelled library call %s at %s' % (name, fmt_loc(self.loc)))
        return self.opaque_call(Ext(name), args, kwargs)

    # the special methods a builtin asks an object for; an object with none of them is refused
    SPECIAL = {'abs': ('__abs__',), 'int': ('__int__', '__index__', '__trunc__'), 'float': ('__float__', '__index__'), 'len': ('__len__',),
               'range': ('__index__',), 'divmod': ('__divmod__', '__rdivmod__'), 'round': ('__round__',), 'chr': ('__index__',),
               'operator.index': ('__index__',), 'iter': ('__iter__', '__getitem__'), 'reversed': ('__reversed__', '__getitem__'),
               'complex': ('__complex__', '__float__', '__index__')}

    def call_special(self, name, methods, a):
        for x in a[:2] if name == 'divmod' else a:
            cls = self.plain_inst(x)
            if cls is not None and not any(cls.find(m) for m in methods):
                continue
            if cls is not None or not self.known_kind(x):
                if cls is not None and name in ('abs', 'int', 'float', 'operator.index') and len(a) == 1:
                    for m in methods:
                        if cls.find(m):
                            return self.call(Bound(cls.find(m)[1], x), [], [])
                return None
        raise self.exc('TypeError', K('%s() of an unsuitable object' % name))

    # each model: (args, kw, raw kwargs)
    def l_len(self, a, kw, rk):
        v = a[0]
        if self.is_iterator(v):
            raise self.exc('TypeError', K('a generator has no len()'))
        t = self.ty(v)
        if isinstance(v, K) and not isinstance(v.v, (str, bytes)) or t in ('int', 'float', 'bool'):
            raise self.exc('TypeError', K('object has no len()'))
        return self.length(v)

    def l_int(self, a, kw, rk):
        if not a:
            return K(0)
        v = self.frz(a[0])
        a = [v] + list(a[1:]) + ([kw['base']] if 'base' in kw else [])
        if isinstance(v, K) and all(isinstance(x, K) for x in a):
            try:
                return K(int(*[x.v for x in a]))
            except (TypeError, ValueError) as e:
                raise self.exc(type(e).__name__)
        if (self.is_int(v) or self.ty(v) == 'nat') and len(a) == 1:
            return v
        return App('int', v, *[self.frz(x) for x in a[1:]], ty='int')

    def l_float(self, a, kw, rk):
        v = self.frz(a[0]) if a else K(0.0)
        if isinstance(v, K):
            try:
                f = float(v.v)
                return K(f)
            except (TypeError, ValueError) as e:
                raise self.exc(type(e).__name__)
        return v if self.is_numish(v) or to_lin(v) is not None else App('float', v, ty='float')

    def l_bool(self, a, kw, rk):
        return K(self.truth(a[0])) if a else FALSE

    def l_str(self, a, kw, rk):
        if not a:
            return K('')
        v = a[0]
        if isinstance(v, K) and n_(a) == 1:
            return K(str(v.v))
        if self.ty(v) == 'str':
            return v
        if isinstance(v, Obj):
            c = self.inst_class(v)
            if self.config.get('opaque_repr'):
                return App('str', self.fz(v), ty='str')
            if c is not None and c.find('__str__'):
                return self.call(Bound(c.find('__str__')[1], v), [], [])
        return App('str', *[self.frz(x) for x in a], ty='str')

    def l_repr(self, a, kw, rk):
        v = a[0]
        if isinstance(v, K):
            return K(repr(v.v))
        if isinstance(v, Obj):
            c = self.inst_class(v)
            if self.config.get('opaque_repr'):
                return App('repr', self.fz(v), ty='str')
            if c is not None and c.find('__repr__'):
                return self.call(Bound(c.find('__repr__')[1], v), [], [])
        t = App('repr', self.fz(v), ty='str')
        if self.tries > 0 and not isinstance(v, Obj) and not self.config.get('opaque_repr'):
            self.may_raise(['Exception'], t)
        return t

    def l_bytes(self, a, kw, rk):
        if not a:
            return K(b'')
        if self.ty(a[0]) == 'str' and n_(a) + len(kw) > 1:
            return App('call', App('attr', self.frz(a[0]), 'encode'), tuple(self.frz(x) for x in a[1:]), (), ty='bytes')
        v = a[0]
        if isinstance(v, Obj) and self.h(v).kind == 'bytearray':
            return self.as_bytes(v) if not self.h(v).f['log'] else App('bytes', self.frz(v), ty='bytes')
        return self.as_bytes(v)

    def l_bytearray(self, a, kw, rk):
        init = K(b'')
        if a:
            if self.ty(a[0]) == 'str' and n_(a) + len(kw) > 1:
                init = App('call', App('attr', self.frz(a[0]), 'encode'), tuple(self.frz(x) for x in a[1:]), (), ty='bytes')
            else:
                init = self.as_bytes(a[0])
        return self.alloc('bytearray', None, {'init': init, 'log': ()})

    def l_list(self, a, kw, rk):
        return self.alloc('list', None, {'segs': self.segs_of(a[0]) if a else []})

    def l_tuple(self, a, kw, rk):
        if not a:
            return Tup(())
        if isinstance(a[0], Tup):
            return a[0]
        k = self.to_iter(a[0])
        if k[0] == 'known':
            return Tup(k[1])
        return App('tupleof', self.frz(a[0]) if not (isinstance(a[0], App) and a[0].op in ('tupleof', 'listof')) else
                   a[0].args[0], ty='tuple')

    def l_dict(self, a, kw, rk):
        segs = []
        if a:
            v = a[0]
            if isinstance(v, Obj) and self.h(v).kind == 'dict':
                segs = list(self.h(v).f['segs'])
            elif isinstance(v, Obj) and self.h(v).kind == 'list' or isinstance(v, Tup) or isinstance(v, App) and v.op in (
                    'zip', 'items', 'enumerate', 'chain'):
                for s in self.segs_of(v):
                    if s[0] == 'one':
                        segs = self.merge_segs(segs, [('item', self.getitem(s[1], K(0)), self.getitem(s[1], K(1)))])
                    elif s[0] == 'loop':
                        cs = []
                        for fs, ss in s[2]:
                            if not all(x[0] == 'one' for x in ss):
                                raise Unmodelled('dict of nested loops')
                            cs.append((fs, tuple(('item', self.getitem(x[1], K(0)), self.getitem(x[1], K(1))) for x in ss)))
                        segs.append(('loop', s[1], tuple(cs)))
                    elif s[0] == 'many' and isinstance(s[1], App) and s[1].op == 'items':
                        segs.append(('merge', s[1].args[0]))
                    else:
                        segs.append(('merge', App('pairs', self.frz(v))))
            else:
                segs = [('merge', self.frz(v))]
        new = [('item', K(k), v) if k is not None else ('merge', self.frz(v)) for k, v in rk]
        return self.alloc('dict', None, {'segs': self.merge_segs(segs, new)})

    l_collections__OrderedDict = l_dict

    def l_copy__copy(self, a, kw, rk):
        return self.copy_value(a[0], False, {})

    def l_copy__deepcopy(self, a, kw, rk):
        return self.copy_value(a[0], True, {})

    def copy_value(self, v, deep, memo):
        if isinstance(v, Tup):
            return Tup(self.copy_value(x, deep, memo) for x in v.items) if deep else v
        if not isinstance(v, Obj):
            if isinstance(v, (K, Cls, Fn, Ext, Bound)) or isinstance(v, (App, Sym)) and self.ty(v) in (
                    'int', 'nat', 'num', 'float', 'str', 'bytes', 'bool'):
                return v
            raise Unmodelled('copy of %r' % (v,))
        if v in memo:
            return memo[v]
        o = self.h(v)
        if isinstance(o.cls, ClassInfo):
            r = o.cls.find('__deepcopy__' if deep else '__copy__')
            if r:
                return self.call(Bound(r[1], v), [self.alloc('dict', None, {'segs': []})] if deep else [], [])
            for n in ('__reduce__', '__reduce_ex__', '__getstate__', '__setstate__'):
                if o.cls.find(n):
                    raise Unmodelled('copy of an instance with %s' % n)
        n = memo[v] = self.alloc(o.kind, o.cls, {})
        f = {}

        def c(x):
            return self.copy_value(x, True, memo) if deep else x
        for k, x in o.f.items():
            if k == 'segs':
                segs = []
                for s in x:
                    if deep and s[0] not in ('one', 'item'):
                        raise Unmodelled('deep copy of a partly unknown container')
                    segs.append((s[0],) + tuple(c(y) for y in s[1:]) if s[0] in ('one', 'item') else s)
                f[k] = segs
            elif isinstance(x, (list, tuple)) and not isinstance(x, Tup):
                f[k] = type(x)(x)
            else:
                f[k] = c(x)
        self.hm(n, internal=True).f.update(f)
        return n

    def l_set(self, a, kw, rk):
        o = self.alloc('set', None, {'segs': []})
        if a:
            for s in self.segs_of(a[0]):
                if s[0] == 'one':
                    self.set_method(o, 'add', [s[1]], {})
                else:
                    self.hm(o).f['segs'] = list(self.h(o).f['segs']) + [s]
        return o

    l_frozenset = l_set

    def l_range(self, a, kw, rk):
        a = [self.frz(x) for x in a]
        if any(isinstance(x, K) and not isinstance(x.v, int) for x in a):
            raise self.exc('TypeError')
        if n_(a) == 1:
            return App('range', a[0])
        if n_(a) == 2:
            return App('range', a[1]) if a[0] == K(0) else App('range2', a[0], a[1])
        if a[2] == K(1):
            return App('range', a[1]) if a[0] == K(0) else App('range2', a[0], a[1])
        return App('range3', *a)

    l_xrange = l_range

    def l_enumerate(self, a, kw, rk):
        st = a[1] if n_(a) > 1 else kw.get('start')
        return App('enumerate', a[0], *([st] if st is not None else []))

    def l_zip(self, a, kw, rk):
        return App('zip', *a)

    def l_reversed(self, a, kw, rk):
        v = a[0]
        c = self.inst_class(v)
        if c is not None and c.find('__reversed__'):
            return self.call(Bound(c.find('__reversed__')[1], v), [], [])
        if c is not None and c.find('__getitem__') and c.find('__len__'):
            n = self.length(v)
            if isinstance(n, K) and 0 <= n.v <= self.MAX_UNROLL:
                g = c.find('__getitem__')[1]
                return self.alloc('list', None, {'segs': [('one', self.call(Bound(g, v), [K(i)], [])) for i in reversed(range(n.v))]})
        if c is not None and c.find('__iter__') and not isinstance(v, Obj):
            return App('reversed', self.frz(v))
        return App('reversed', v)

    def sort_known(self, xs, kw):
        """binary insertion sort after an initial run, as CPython sorts short lists"""
        key = kw.get('key', NONE)
        rev = bool(kw.get('reverse', FALSE).v)
        ks = [(x if key == NONE else self.call(key, [x], []), x) for x in xs]
        if rev:
            ks.reverse()
        lt = lambda p, q: self.truth(self.order_val(ast.Lt, p[0], q[0]))
        n = 1
        if len(ks) > 1:
            n = 2
            if lt(ks[1], ks[0]):
                while n < len(ks) and lt(ks[n], ks[n - 1]):
                    n += 1
                ks[:n] = ks[:n][::-1]
            else:
                while n < len(ks) and not lt(ks[n], ks[n - 1]):
                    n += 1
        for i in range(n, len(ks)):
            p, lo, hi = ks[i], 0, i
            while lo < hi:
                m = (lo + hi) // 2
                if lt(p, ks[m]):
                    hi = m
                else:
                    lo = m + 1
            del ks[i]
            ks.insert(lo, p)
        if rev:
            ks.reverse()
        return [x for _, x in ks]

    def l_sorted(self, a, kw, rk):
        v = a[0]
        k = self.to_iter(v)
        if k[0] == 'known' and len(k[1]) <= 1:
            return self.alloc('list', None, {'segs': [('one', x) for x in k[1]]})
        if k[0] == 'known' and all(isinstance(x, K) for x in k[1]) and not kw:
            return self.alloc('list', None, {'segs': [('one', K(x)) for x in sorted(x.v for x in k[1])]})
        if k[0] == 'known' and not kw and any(isinstance(x, App) and x.op == 'fmt' for x in k[1]):
            # message texts: their order is not worth one path per permutation
            t = Tup(sorted((self.frz(x) for x in k[1]), key=lambda x: x.sk()))
            return self.alloc('list', None, {'segs': [('one', App('sorteditem', K(i), t, ty='str')) for i in range(len(k[1]))]})
        if k[0] == 'known' and len(k[1]) <= 16 and set(kw) <= {'key', 'reverse'} and isinstance(kw.get('reverse', FALSE), K):
            return self.alloc('list', None, {'segs': [('one', x) for x in self.sort_known(k[1], kw)]})
        return App('sorted', self.frz(v), *[Tup((K(p), self.frz(x))) for p, x in sorted(kw.items())])

    def _minmax(self, op, a, kw):
        star = any(isinstance(x, App) and x.op == 'star' for x in a)
        xs = list(a) if n_(a) > 1 and not star else None
        if n_(a) == 1 and not star:
            k = self.to_iter(a[0])
            xs = k[1] if k[0] == 'known' else None
        if xs and len(xs) <= 12 and (kw.get('key', NONE) != NONE or any(isinstance(x, Tup) for x in xs)):
            f = kw.get('key', NONE)
            ks = [self.call(f, [x], []) if f != NONE else x for x in xs]
            best = 0
            for i in range(1, len(xs)):
                if self.truth(self.order_val(ast.Lt if op == 'min' else ast.Gt, ks[i], ks[best])):
                    best = i
            return xs[best]
        if n_(a) == 1 and not (isinstance(a[0], App) and a[0].op == 'star'):
            k = self.to_iter(a[0])
            if k[0] == 'known' and 'key' not in kw:
                if not k[1]:
                    if 'default' in kw:
                        return kw['default']
                    raise self.exc('ValueError', K('%s() of empty sequence' % op))
                return self.num_fold(op, k[1])
            src = self.alloc('list', None, {'segs': self.segs_of(a[0])})
            return App(op + 'of', self.frz(src), *[Tup((K(p), self.frz(x))) for p, x in sorted(kw.items())], ty='num')
        if 'key' in kw or any(isinstance(x, App) and x.op == 'star' for x in a):
            return App(op + 'of', Tup(self.frz(x) for x in a), *[Tup((K(p), self.frz(x))) for p, x in sorted(kw.items())], ty='num')
        return self.num_fold(op, a)

    def l_min(self, a, kw, rk):
        return self._minmax('min', a, kw)

    def l_max(self, a, kw, rk):
        return self._minmax('max', a, kw)

    def l_sum(self, a, kw, rk):
        init = a[1] if n_(a) > 1 else kw.get('start', K(0))
        return self.fold_iter(a[0], init, lambda acc, x: self.binop(ast.Add, acc, x))

    def l_functools__reduce(self, a, kw, rk):
        f, seq = a[0], a[1]
        k = self.to_iter(seq)
        if n_(a) > 2:
            return self.fold_iter(seq, a[2], lambda acc, x: self.call(f, [acc, x], []))
        if k[0] == 'known':
            if not k[1]:
                raise self.exc('TypeError')
            acc = k[1][0]
            for x in k[1][1:]:
                acc = self.call(f, [acc, x], [])
            return acc
        return App('reduce', self.frz(f), self.frz(seq))

    def _anyall(self, isany, v):
        def body(x):
            if self.truth(x) == isany:
                raise ReturnEx(K(isany))
        try:
            self.for_each(v, body, None)
        except ReturnEx as r:
            return r.v
        return K(not isany)

    def l_any(self, a, kw, rk):
        return self._anyall(True, a[0])

    def l_all(self, a, kw, rk):
        return self._anyall(False, a[0])

    def l_map(self, a, kw, rk):
        acc = self.alloc('list', None, {'segs': []})
        src = a[1] if n_(a) == 2 else App('zip', *a[1:])

        def body(x):
            xs = [x] if n_(a) == 2 else list(x.items)
            self.list_method(acc, 'append', [self.call(a[0], xs, [])], {})
        self.for_each(src, body, None)
        return acc

    def l_filter(self, a, kw, rk):
        acc = self.alloc('list', None, {'segs': []})

        def body(x):
            if self.truth(self.call(a[0], [x], []) if a[0] != NONE else x):
                self.list_method(acc, 'append', [x], {})
        self.for_each(a[1], body, None)
        return acc

    def l_isinstance(self, a, kw, rk):
        x, C = a
        if isinstance(C, Tup):
            pend = []
            for c in C.items:
                r = self.l_isinstance([x, c], {}, [])
                if r == TRUE:
                    return TRUE
                if r != FALSE:
                    pend.append(r)
            for r in pend:
                if self.truth(r):
                    return TRUE
            return FALSE
        if isinstance(C, (Sym, App)):
            return App('isinstance', self.frz(x), self.frz(C))
        d = self.decide_isinstance(x, C)
        return K(d) if d is not None else App('isinstance', self.frz(x), C)

    def l_issubclass(self, a, kw, rk):
        x, C = a
        if isinstance(C, Tup):
            for c in C.items:
                if self.truth(self.l_issubclass([x, c], {}, [])):
                    return TRUE
            return FALSE
        if isinstance(x, Cls) and isinstance(C, Cls):
            return K(x.info.subclass_of(C.info))
        if isinstance(x, Cls) and isinstance(C, Ext):
            return K(C.name == 'object' or any(C.name in _exc_mro(e) or C.name == e for e in x.info.ext_bases()))
        t = self.ty(x)
        if isinstance(t, tuple) and t[0] == 'sub' and isinstance(C, Cls) and t[1].subclass_of(C.info):
            return TRUE
        if isinstance(x, (K, Tup)):
            raise self.exc('TypeError')
        return App('issubclass', self.frz(x), C)

    def attr_key(self, v):
        return v.v if isinstance(v, K) else self.frz(v)

    def l_hasattr(self, a, kw, rk):
        nm = self.attr_key(a[1])
        if isinstance(nm, V):
            if (a[0], nm) in self.attr_store:
                return K(self.attr_store[(a[0], nm)] != '$deleted')
            if isinstance(a[0], Obj):
                return K(nm in self.h(a[0]).f) if nm in self.h(a[0]).f else App('hasattr', self.frz(a[0]), nm)
            return App('hasattr', self.frz(a[0]), nm)
        return self.hasattr_(a[0], nm)

    def l_getattr(self, a, kw, rk):
        nm = self.attr_key(a[1])
        if n_(a) > 2:
            h = self.l_hasattr(a[:2], {}, [])
            if not self.truth(h):
                return a[2]
        if isinstance(nm, V):
            if (a[0], nm) in self.attr_store:
                r = self.attr_store[(a[0], nm)]
                if r == '$deleted':
                    raise self.exc('AttributeError', nm)
                return r
            if isinstance(a[0], Obj) and nm in self.h(a[0]).f:
                return self.h(a[0]).f[nm]
            return App('attr', self.frz(a[0]), nm)
        return self.getattr_(a[0], nm)

    def l_setattr(self, a, kw, rk):
        nm = self.attr_key(a[1])
        if isinstance(nm, V) and isinstance(a[0], Obj):
            self.hm(a[0], 'attribute %r' % (nm,)).f[nm] = a[2]
            return NONE
        self.setattr_(a[0], nm, a[2])
        return NONE

    def l_delattr(self, a, kw, rk):
        self.delattr_(a[0], self.attr_key(a[1]))
        return NONE

    def l_callable(self, a, kw, rk):
        v = a[0]
        if isinstance(v, (Fn, Bound, Cls, Ext)) or isinstance(v, App) and v.op in ('partial', 'bmeth', 'supermeth', 'itemgetter'):
            return TRUE
        if isinstance(v, (K, Tup)):
            return FALSE
        c = self.inst_class(v)
        if c is not None:
            return K(c.find('__call__') is not None)
        t = self.ty(v)
        if t == 'func' or isinstance(t, tuple) and t[0] == 'sub':
            return TRUE
        if isinstance(v, Obj) or t in ('int', 'str', 'bytes', 'list', 'dict', 'float'):
            return FALSE
        return App('callable', self.frz(v))

    def l_type(self, a, kw, rk):
        if n_(a) == 3:
            c = self.type_new([Ext('type')] + list(a)) if n_(a) == 3 and not kw else None
            if c is not None and not any(isinstance(b, Cls) and isinstance(self.type_of(b), Cls) for b in a[1].items):
                return c
            raise Unmodelled('type() with three arguments')
        return self.type_of(a[0])

    def l_id(self, a, kw, rk):
        return App('id', K(a[0].addr) if isinstance(a[0], Obj) else self.frz(a[0]), ty='int')

    def l_iter(self, a, kw, rk):
        if n_(a) == 1 and (isinstance(a[0], (K, Tup)) or isinstance(a[0], Obj) and self.h(a[0]).kind in ('list', 'dict', 'set')):
            if isinstance(a[0], Obj) and self.h(a[0]).f.get('iter'):
                return a[0]
            k = self.to_iter(a[0])
            if k[0] == 'known':
                return self.alloc('list', None, {'segs': [('one', x) for x in k[1]], 'iter': True})
        return App('iterof', a[0])

    def l_next(self, a, kw, rk):
        if isinstance(a[0], Obj) and self.h(a[0]).f.get('iter'):
            segs = self.h(a[0]).f['segs']
            if not segs and n_(a) > 1:
                return a[1]
            if not segs:
                raise self.exc('StopIteration')
            if segs[0][0] == 'one':
                self.hm(a[0], internal=True).f['segs'] = list(segs[1:])
                return segs[0][1]
        return self.first(a[0], a[1] if n_(a) > 1 else None)

    def l_slice(self, a, kw, rk):
        a = [self.frz(x) for x in a]
        if n_(a) == 1:
            return App('sliceobj', NONE, a[0], NONE)
        return App('sliceobj', a[0], a[1], a[2] if n_(a) > 2 else NONE)

    def l_vars(self, a, kw, rk):
        return self.getattr_(a[0], '__dict__')

    def type_new(self, a):
        """type.__new__(meta, name, bases, namespace) with a known namespace; None when it is opaque"""
        if len(a) != 4 or not isinstance(a[1], K) or not isinstance(a[2], Tup) or not isinstance(a[3], Obj):
            return None
        if any(not isinstance(b, (Cls, Ext)) for b in a[2].items):
            return None
        segs = self.h(a[3]).f['segs']
        if any(x[0] != 'item' or not isinstance(x[1], K) for x in segs):
            return None
        ns = dict((x[1].v, x[2]) for x in segs)
        q = ns.pop('__qualname__', a[1]).v
        mod = ns.pop('__module__', K('client')).v
        ci = ClassInfo(a[1].v, q, list(a[2].items), ns, mod, self.loc[1] if self.loc else 0)
        ci.meta = a[0] if isinstance(a[0], Cls) else None
        self.number_class(ci)
        for v in ns.values():
            if isinstance(v, Fn) and v.info.qualname.startswith(q + '.'):
                v.info.cls = ci
        return Cls(ci)

    def number_class(self, ci):
        """classes made by repeated executions of one class statement are different classes"""
        n = self.occ.get(('$class', ci.qualname), 0)
        self.occ[('$class', ci.qualname)] = n + 1
        ci.uid = n

    def l_dir(self, a, kw, rk):
        if a and isinstance(a[0], Cls):
            names = set()
            for c in a[0].info.mro():
                if isinstance(c, ClassInfo):
                    names |= set(k for k in c.ns if not k.startswith('$'))
                    names |= set(k[1] for k, v in self.attr_store.items() if k[0] == Cls(c) and v != '$deleted')
            return self.alloc('list', None, {'segs': [('one', K(n)) for n in sorted(names)]})
        return App('dir', self.frz(a[0]), ty=('list', 'str')) if a else App('dir', K(None))

    def l_super(self, a, kw, rk):
        return Super(a[0].info if isinstance(a[0], Cls) else a[0], a[1])

    def l_object(self, a, kw, rk):
        return self.alloc('inst', None, {})

    def l_property(self, a, kw, rk):
        a = list(a)
        if len(a) > 1 or kw:
            parts = (a + [NONE] * 3)[:3]
            for i, n in enumerate(('fget', 'fset', 'fdel')):
                parts[i] = kw.get(n, parts[i])
            return App('property', *parts)
        v = a[0]
        return Fn(v.info, v.env, v.defaults, v.kwdefaults, 'property') if isinstance(v, Fn) else self.frz(v)

    def l_staticmethod(self, a, kw, rk):
        v = a[0]
        return Fn(v.info, v.env, v.defaults, v.kwdefaults, 'staticmethod') if isinstance(v, Fn) else v

    def l_classmethod(self, a, kw, rk):
        v = a[0]
        return Fn(v.info, v.env, v.defaults, v.kwdefaults, 'classmethod') if isinstance(v, Fn) else v

    def l_memoryview(self, a, kw, rk):
        return a[0]

    # struct
    def l_struct__calcsize(self, a, kw, rk):
        f = self.frz(a[0])
        if isinstance(f, K):
            try:
                return K(_struct.calcsize(f.v))
            except _struct.error:
                raise self.exc('struct.error')
        return App('calcsize', f, ty='int')

    def l_struct__pack(self, a, kw, rk):
        t = App('pack', *[self.frz(x) for x in a], ty='bytes')
        if isinstance(a[0], K):
            try:
                if all(isinstance(x, K) for x in a[1:]):
                    return K(_struct.pack(a[0].v, *[x.v for x in a[1:]]))
            except _struct.error:
                raise self.exc('struct.error')
            except OverflowError:
                raise self.exc('OverflowError')
        self.may_raise(['struct.error', 'OverflowError'], t)
        return t

    def l_struct__unpack(self, a, kw, rk):
        b = self.as_bytes(a[1]) if isinstance(a[1], Obj) else self.frz(a[1])
        t = App('unpack', self.frz(a[0]), b, ty='tuple')
        self.may_raise(['struct.error'], t)
        return t

    def l_struct__unpack_from(self, a, kw, rk):
        t = App('unpack_from', *[self.frz(x) for x in a], ty='tuple')
        self.may_raise(['struct.error'], t)
        return t

    def l_struct__Struct(self, a, kw, rk):
        return App('structobj', self.frz(a[0]))

    def l_math__ceil(self, a, kw, rk):
        v = self.frz(a[0])
        if isinstance(v, K):
            return K(math.ceil(v.v))
        return v if self.is_int(v) else App('ceil', v, ty='int')

    def l_math__floor(self, a, kw, rk):
        v = self.frz(a[0])
        if isinstance(v, K):
            return K(math.floor(v.v))
        return v if self.is_int(v) else App('floor', v, ty='int')

    l_math__trunc = l_int

    def l_json__dumps(self, a, kw, rk):
        return App('json.dumps', *([self.frz(x) for x in a] + [Tup((K(k), self.frz(v))) for k, v in sorted(kw.items())]), ty='str')

    def l_json__loads(self, a, kw, rk):
        return App('json.loads', *([self.frz(x) for x in a] + [Tup((K(k), self.frz(v))) for k, v in sorted(kw.items())]))

    # functools / itertools / six
    def l_functools__partial(self, a, kw, rk):
        return App('partial', a[0], tuple(a[1:]), tuple(rk))

    def l_functools__wraps(self, a, kw, rk):
        return App('identity')

    def l_functools__total_ordering(self, a, kw, rk):
        if isinstance(a[0], Cls):
            a[0].info.total_ordering = True
        return a[0]

    def l_six__add_metaclass(self, a, kw, rk):
        return App('add_metaclass', a[0])

    def l_six__iteritems(self, a, kw, rk):
        return self.call(self.getattr_(a[0], 'items'), [], [])

    def l_six__itervalues(self, a, kw, rk):
        return self.call(self.getattr_(a[0], 'values'), [], [])

    def l_six__iterkeys(self, a, kw, rk):
        return self.call(self.getattr_(a[0], 'keys'), [], [])

    def l_itertools__chain(self, a, kw, rk):
        out = []
        for x in a:
            if isinstance(x, App) and x.op == 'star':
                out.append(App('chain1', x.args[0]))
            else:
                out.append(x)
        if len(out) == 1:
            return out[0]
        return App('chain', *out)

    def l_itertools__chain__from_iterable(self, a, kw, rk):
        k = self.to_iter(a[0])
        if k[0] == 'known':
            return App('chain', *k[1])
        return App('chain1', self.frz(a[0]))

    def is_iterator(self, v):
        return isinstance(v, Obj) and self.h(v).kind == 'list' and bool(self.h(v).f.get('iter'))

    def known(self, v):
        """the values of an iterable whose members are all known, or None"""
        k = self.to_iter(v)
        return k[1] if k[0] == 'known' else None

    def new_list(self, xs):
        return self.alloc('list', None, {'segs': [('one', x) for x in xs]})

    def not_known(self, name, a, rk):
        self.notes.append('unmodelled library call %s at %s' % (name, fmt_loc(self.loc)))
        return self.opaque_call(Ext(name), a, rk)

    def l_itertools__islice(self, a, kw, rk):
        xs = self.known(a[0])
        if xs is None or not all(isinstance(x, K) for x in a[1:]):
            return self.not_known('itertools.islice', a, rk)
        return self.new_list(xs[slice(*[x.v for x in a[1:]])])

    def l_itertools__product(self, a, kw, rk):
        ks = [self.known(x) for x in a]
        n = kw.get('repeat', K(1))
        if any(k is None for k in ks) or not isinstance(n, K):
            return self.not_known('itertools.product', a, rk)
        import itertools
        r = list(itertools.islice(itertools.product(*ks, repeat=n.v), 4097))
        if len(r) > 4096:
            return self.not_known('itertools.product', a, rk)
        return self.new_list([Tup(x) for x in r])

    def l_itertools__takewhile(self, a, kw, rk):
        xs = self.known(a[1])
        if xs is None:
            return self.not_known('itertools.takewhile', a, rk)
        out = []
        for x in xs:
            if not self.truth(self.call(a[0], [x], [])):
                break
            out.append(x)
        return self.new_list(out)

    def l_itertools__dropwhile(self, a, kw, rk):
        xs = self.known(a[1])
        if xs is None:
            return self.not_known('itertools.dropwhile', a, rk)
        for i, x in enumerate(xs):
            if not self.truth(self.call(a[0], [x], [])):
                return self.new_list(xs[i:])
        return self.new_list([])

    def l_itertools__accumulate(self, a, kw, rk):
        xs = self.known(a[0])
        if xs is None:
            return self.not_known('itertools.accumulate', a, rk)
        f = a[1] if n_(a) > 1 else kw.get('func', NONE)
        xs = ([kw['initial']] if kw.get('initial', NONE) != NONE else []) + xs
        out = []
        for x in xs:
            if out:
                x = self.binop(ast.Add, out[-1], x) if f == NONE else self.call(f, [out[-1], x], [])
            out.append(x)
        return self.new_list(out)

    def l_itertools__groupby(self, a, kw, rk):
        xs = self.known(a[0])
        f = a[1] if n_(a) > 1 else kw.get('key', NONE)
        if xs is None or f == NONE and any(self.ty(x) == 'str' and not isinstance(x, K) for x in xs):
            return App('itertools.groupby', *[self.frz(x) for x in a])     # grouping of texts: not worth a fork per pair
        groups = []
        for x in xs:
            k = x if f == NONE else self.call(f, [x], [])
            if groups and self.truth(self.eq_val(groups[-1][0], k)):
                groups[-1][1].append(x)
            else:
                groups.append((k, [x]))
        return self.new_list([Tup((k, self.new_list(g))) for k, g in groups])

    def l_itertools__combinations(self, a, kw, rk):
        xs = self.known(a[0])
        if xs is None or len(xs) > 12 or not isinstance(a[1], K):
            return self.not_known('itertools.combinations', a, rk)
        import itertools
        return self.new_list([Tup(x) for x in itertools.combinations(xs, a[1].v)])

    def l_itertools__count(self, a, kw, rk):
        return App('countit', *([kw.get('start', K(0)) if not a else a[0]] + [kw.get('step', K(1)) if n_(a) < 2 else a[1]]))

    def l_itertools__zip_longest(self, a, kw, rk):
        ks = [self.known(x) for x in a]
        if any(k is None for k in ks):
            return self.not_known('itertools.zip_longest', a, rk)
        n = max([len(k) for k in ks] or [0])
        d = kw.get('fillvalue', NONE)
        return self.new_list([Tup([k[i] if i < len(k) else d for k in ks]) for i in range(n)])

    def l_itertools__starmap(self, a, kw, rk):
        xs = self.known(a[1])
        if xs is None or any(self.known(x) is None for x in xs):
            return self.not_known('itertools.starmap', a, rk)
        return self.new_list([self.call(a[0], self.known(x), []) for x in xs])

    def l_dict__fromkeys(self, a, kw, rk):
        xs = self.known(a[0])
        if xs is None:
            return self.not_known('dict.fromkeys', a, rk)
        v = a[1] if n_(a) > 1 else NONE
        segs = []
        for x in xs:
            segs = self.merge_segs(segs, [('item', x, v)])
        return self.alloc('dict', None, {'segs': segs})

    def l_collections__deque(self, a, kw, rk):
        xs = self.known(a[0]) if a else []
        if xs is None or n_(a) > 1 or kw:
            return self.not_known('collections.deque', a, rk)
        return self.new_list(xs)

    def l_collections__defaultdict(self, a, kw, rk):
        d = self.l_dict(a[1:], kw, rk)
        if a and a[0] != NONE:
            self.hm(d, internal=True).f['factory'] = a[0]
        return d

    def l_struct__pack_into(self, a, kw, rk):
        if isinstance(a[1], Obj) and self.h(a[1]).kind == 'bytearray' and isinstance(a[0], K) and isinstance(a[2], K) and \
                isinstance(a[2].v, int) and a[2].v >= 0:
            p = self.call_ext('struct.pack', [a[0]] + list(a[3:]), [])
            n = _struct.calcsize(a[0].v)
            k = self.length(a[1])
            if isinstance(k, K):
                if a[2].v + n > k.v:
                    raise self.exc('struct.error')
                self.setitem(a[1], App('sliceobj', a[2], K(a[2].v + n), NONE), p)
                return NONE
        return self.not_known('struct.pack_into', a, rk)

    def l_itertools__repeat(self, a, kw, rk):
        if n_(a) == 2 and isinstance(a[1], K) and isinstance(a[1].v, int) and a[1].v <= 64 and not self.is_int(a[0]):
            return self.new_list([a[0]] * a[1].v)
        return App('repeatit', *[self.frz(x) for x in a])

    def l_collections__namedtuple(self, a, kw, rk):
        names = a[1]
        if isinstance(names, K):
            s = names.v
        else:
            s = ' '.join(x.v for x in self.to_iter(names)[1])
        e = Ext('namedtuple:%s:%s' % (a[0].v, s))
        ci = ClassInfo(a[0].v, a[0].v, [e, Ext('object')], {}, self.loc[0] if self.loc else 'client', self.loc[1] if self.loc else 0)
        self.number_class(ci)
        return Cls(ci)

    def l_io__BytesIO(self, a, kw, rk):
        return self.opaque_call(Ext('io.BytesIO'), a, rk, ty='stream', havoc=False)

    def l_io__StringIO(self, a, kw, rk):
        return self.opaque_call(Ext('io.StringIO'), a, rk, ty='stream', havoc=False)

    def l_infi__exceptools__chain(self, a, kw, rk):
        return a[0]

    def l_contextlib__closing(self, a, kw, rk):
        return App('closing', a[0])

    def l_contextlib__suppress(self, a, kw, rk):
        return App('suppress', Tup(a))

    def l_contextlib__contextmanager(self, a, kw, rk):
        return App('ctxmgrfn', a[0])

    def make_cached(self, f):
        return App('cachedfn', f, self.alloc('frame', None, {}))

    def call_cached(self, f, args, kwargs):
        """functools.lru_cache: one evaluation per distinct tuple of arguments"""
        key = []
        for x in list(args) + [v for _, v in kwargs]:
            if isinstance(x, Obj) and self.h(x).kind in ('list', 'dict', 'set', 'bytearray') and not isinstance(self.h(x).cls, ClassInfo):
                raise self.exc('TypeError', K('unhashable type'))
            cls = self.inst_class(x)
            if cls is not None and (cls.find('__eq__') or cls.find('__hash__')) or not isinstance(x, (K, Obj, Cls, Fn, Tup)):
                raise Unmodelled('a cached call with %r' % (x,))
            key.append((type(x.v).__name__ if isinstance(x, K) else '', x))
        key = 'k%r' % ((key, [k for k, _ in kwargs]),)
        t = self.h(f.args[1]).f
        if key in t:
            return t[key]
        r = self.call(f.args[0], args, kwargs)
        self.hm(f.args[1], internal=True).f[key] = r
        return r

    def l_functools__lru_cache(self, a, kw, rk):
        if n_(a) == 1 and isinstance(a[0], (Fn, Bound)):
            return self.make_cached(a[0])
        return App('cachedeco', NONE)

    l_functools__cache = l_functools__lru_cache

    def l_functools__cached_property(self, a, kw, rk):
        return App('cachedprop', a[0])

    def l_dataclasses__dataclass(self, a, kw, rk):
        eq = kw.get('eq', TRUE) != FALSE
        if set(kw) - {'eq', 'repr', 'frozen'} or kw.get('frozen', FALSE) != FALSE:
            raise Unmodelled('dataclass options')
        if not a:
            return App('dataclassdeco', K(eq))
        return self.make_dataclass(a[0], eq)

    def make_dataclass(self, c, eq):
        fields = {}
        for k in reversed(c.info.mro()):
            if isinstance(k, ClassInfo):
                if k is not c.info:
                    fields.update(getattr(k, 'dataclass', None) or ())
                else:
                    for n, has in k.ann:
                        fields[n] = k.ns.get(n) if has else None
        for v in fields.values():
            if v is not None and not isinstance(v, (K, Tup, Cls, Fn, Ext)):
                raise Unmodelled('dataclass field default')
        c.info.dataclass = list(fields.items())
        c.info.dataclass_eq = eq and '__eq__' not in c.info.ns
        return c

    def l_logging__getLogger(self, a, kw, rk):
        return Ext('logging.logger')

    def l_warnings__warn(self, a, kw, rk):
        return NONE

    def l_operator__itemgetter(self, a, kw, rk):
        return App('itemgetter', a[0])

    def l_operator__attrgetter(self, a, kw, rk):
        if '.' in a[0].v:
            raise Unmodelled('attrgetter of a dotted name')
        return App('attrgetter', a[0].v)

    def l_operator__methodcaller(self, a, kw, rk):
        return App('methodcaller', a[0].v, tuple(a[1:]), tuple(rk))

    OPS = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'mod': ast.Mod,
           'pow': ast.Pow, 'lshift': ast.LShift, 'rshift': ast.RShift, 'and': ast.BitAnd, 'or': ast.BitOr, 'xor': ast.BitXor,
           'concat': ast.Add}
    CMP = {'eq': ast.Eq, 'ne': ast.NotEq, 'lt': ast.Lt, 'le': ast.LtE, 'gt': ast.Gt, 'ge': ast.GtE, 'is': ast.Is,
           'is_not': ast.IsNot}

    def call_operator(self, n, a, kw):
        if n in self.OPS:
            return self.binop(self.OPS[n], a[0], a[1])
        if n in self.CMP:
            return self.compare(self.CMP[n], a[0], a[1])
        if n == 'iadd':
            return self.inplace(ast.Add, a[0], a[1])
        if n in ('neg', 'pos', 'inv', 'invert'):
            return self.unary({'neg': ast.USub, 'pos': ast.UAdd}.get(n, ast.Invert), a[0])
        if n == 'matmul' and any(self.plain_inst(x) is not None for x in a):
            for x, y, m in self.operands(a[0], a[1], '__matmul__', '__rmatmul__'):
                r = self.inst_class(x).find(m) if self.inst_class(x) is not None else None
                if r:
                    v = self.call(Bound(r[1], x), [y], [])
                    if v != NOTIMPL:
                        return v
            if all(self.known_kind(x) for x in a):
                raise self.exc('TypeError', K('unsupported operand type'))
        if n == 'not':
            return self.not_(a[0])
        if n == 'truth':
            return K(self.truth(a[0]))
        if n == 'getitem':
            return self.getitem(a[0], a[1])
        if n == 'setitem':
            self.setitem(a[0], a[1], a[2])
            return NONE
        if n == 'contains':
            return self.in_val(a[1], a[0])
        if n == 'index':
            return a[0]
        return None


def n_(a):
    return len(a)
