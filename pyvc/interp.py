"""Symbolic execution of the repository's Python source, read from /repo/modred on every run.

Nothing of the source is dropped: every statement executed is translated, a construct that is not
known raises Unsupported.  Functions of the repository are inlined unless a contract is given for
them (ctx.run.contracts); library functions are the models of npmodel.
"""
import ast, builtins, functools, os, types
from collections import namedtuple
import z3
from core import *
import core
import values as V
from values import Arr, binop, compare

REPO = os.environ.get('PYVC_REPO', '/repo/modred')


class IFunc(object):
    def __init__(self, node, env, mod, qual, defaults, kwdefaults, cls=None):
        self.node, self.env, self.mod, self.qual = node, env, mod, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.static = None

    def __repr__(self):
        return 'IFunc(%s)' % self.qual


class ICls(object):
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.mod = name, bases, mod
        self.ns = {}
        self.stamps = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ICls):
                for x in b.mro():
                    if x not in out:
                        out.append(x)
        return out

    def find(self, name):
        for k in self.mro():
            if name in k.ns:
                return k, k.ns[name]
        return None, None

    def __repr__(self):
        return 'ICls(%s)' % self.name


class Obj(object):
    count = 0

    def __init__(self, cls):
        Obj.count += 1
        self.serial = Obj.count
        self.cls = cls
        self.attrs = {}
        self.stamps = {}

    def __repr__(self):
        return 'Obj(%s)' % self.cls.name


class Bound(object):
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __repr__(self):
        return 'Bound(%r)' % (self.fn,)


class Native(object):
    """a modelled library function: Python callable taking interpreter values"""
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return 'Native(%s)' % self.name


class NS(object):
    """a modelled library module"""
    def __init__(self, name, members):
        self.name, self.members = name, members

    def __repr__(self):
        return 'NS(%s)' % self.name


class Opaque(object):
    """a value about which nothing is known but its identity"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class SRange(object):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        n = binop('-', self.stop, self.start)
        if self.step == 1:
            if ctx().valid(z(n) >= 0):
                return n
            return mknum(z3.If(z(n) >= 0, z(n), 0))
        st = self.step
        f = ctx().run.range_len
        if f is not None and not isinstance(st, int):
            return f(self.start, self.stop, st)
        t = z(n) + z(st) - 1
        return mknum(z3.If(z(n) >= 0, t / z(st), 0))

    def at(self, i):
        if self.step == 1:
            return binop('+', self.start, i)
        f = ctx().run.range_mul
        return binop('+', self.start, binop('*', i, self.step) if f is None else f(i, self.step))


class SList(object):
    """a list of symbolic length; at(i) gives item i (i a number, within range)"""
    def __init__(self, n, at, kind='list', name=None):
        self.n, self.at, self.kind, self.name = n, at, kind, name
        self.meta = {}
        self.appended = []

    def __repr__(self):
        return 'SList(%s %s)' % (self.name, self.n)


class Star(object):
    """positional arguments *seq of symbolic number"""
    def __init__(self, seq):
        self.seq = seq


class Module(object):
    def __init__(self, name):
        self.name = name
        self.env = {}

    def __repr__(self):
        return 'Module(%s)' % self.name


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Frame(object):
    __slots__ = ('locals', 'parent', 'mod', 'globals_', 'fn', 'nonlocals')

    def __init__(self, mod, parent=None, fn=None):
        self.locals = {}
        self.parent = parent
        self.mod = mod
        self.globals_ = set()
        self.nonlocals = set()
        self.fn = fn


UNDEF = object()
NATIVE_EXC = {n: getattr(builtins, n) for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


class Interp(object):
    def __init__(self, run):
        import npmodel
        self.run = run
        self.modules = {}
        self.depth = 0
        self.libs = npmodel.libs(self)
        self.builtins = npmodel.builtin_table(self)
        self.sources = run.sources
        self.cls_writes = []

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = Module(name)
        self.modules[name] = m
        tree = self.sources.tree(name)
        m.env['__name__'] = 'modred.' + name
        fr = Frame(m)
        fr.locals = m.env
        for st in tree.body:
            self.stmt(st, fr)
        return m

    def import_(self, modname, level, fr):
        """value of a module"""
        if level:
            return self.module(modname)
        if modname == 'modred' or modname.startswith('modred.'):
            return self.module(modname.split('.', 1)[1]) if '.' in modname else Module('modred')
        if modname == 'mpi4py' and not self.run.cfg.get('mpi', True):
            raise PyRaise(ImportError, ('mpi4py',))
        if modname in self.libs:
            return self.libs[modname]
        top = modname.split('.')[0]
        if top in self.libs:
            v = self.libs[top]
            for part in modname.split('.')[1:]:
                v = self.getattr(v, part)
            return v
        raise Unsupported('import of %s' % modname)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        self.run.step(self, st, fr)
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        op = OPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.assign(t, self.inplace(op, cur, lambda: self.ev(st.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, self.mangle(t.attr, fr))
            self.setattr(o, self.mangle(t.attr, fr), self.inplace(op, cur, lambda: self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.key(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, lambda: self.ev(st.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def store_into(self, cur, r):
        """the result of an elementwise operation goes into an existing array: NumPy refuses values of a larger type"""
        import values as V
        t = V.type_of(r)
        if t in V.RANK and cur.dtype in V.RANK and V.RANK.index(t) > V.RANK.index(cur.dtype) and not (t == 'int' and cur.dtype == 'bool'):
            raise PyRaise(TypeError, ('cannot cast the result of an elementwise operation in place (%s to %s)' % (t, cur.dtype),))
        cur.written(r)

    def inplace(self, op, cur, val):
        v = val()
        if isinstance(cur, Arr) and cur.ndim > 0:
            import loops
            if not cur.view and loops.inplace_outer(cur, op, v):
                return cur
            cur.fresh()
            r = self.binop(op, cur, v)
            self.store_into(cur, r)
            return cur
        h = getattr(cur, 'sym_inplace', None)
        if h is not None:
            return h(self, op, v)
        if isinstance(cur, list) and op == '+':
            if isinstance(v, (list, tuple)):
                self.note_list_write(cur)
                cur.extend(v)
                return cur
            raise Unsupported('list += %s' % type(v).__name__)
        if isinstance(cur, SList) and cur.kind == 'list' and op == '+':
            r = self.binop(op, cur, v if isinstance(v, (list, SList)) else self.builtins['list'].f(v))
            self.slist_set(cur, r.n, r.at)
            return cur
        if isinstance(cur, Obj):
            for nm in ('__i%s__' % DUNDER[op],):
                if cur.cls.find(nm)[1] is not None:
                    return self.call(self.getattr(cur, nm), [v], {})
        if isinstance(cur, (dict, set)):
            raise Unsupported('in-place operator on %s' % type(cur).__name__)
        return self.binop(op, cur, v)

    def s_If(self, st, fr):
        test = self.ev(st.test, fr)
        if self.run.noise_if is not None and isinstance(test, SBool) and self.run.noise_if(self, st, fr, test):
            return
        if self.truth(test):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Return(self, st, fr):
        raise Ret(None if st.value is None else self.ev(st.value, fr))

    def s_Break(self, st, fr):
        raise Brk()

    def s_Continue(self, st, fr):
        raise Cont()

    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        items = self.concrete_iter(it)
        if items is None:
            return self.run.symbolic_for(self, st, fr, it)
        broke = False
        for x in items:
            self.assign(st.target, x, fr)
            try:
                self.block(st.body, fr)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(st.orelse, fr)

    def s_While(self, st, fr):
        r = self.run.symbolic_while(self, st, fr)
        if r is not NotImplemented:
            return
        n = 0
        while True:
            t = self.ev(st.test, fr)
            if isinstance(t, SBool) and n > 64:
                raise Unsupported('unbounded while loop without an invariant')
            if not self.truth(t):
                self.block(st.orelse, fr)
                return
            n += 1
            if n > 10000:
                raise Unsupported('long while loop')
            try:
                self.block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue

    def s_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr, st.name)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, fr)
        name = st.name
        cls = fr.locals.get('__class_building__')
        if cls is not None and name.startswith('__') and not name.endswith('__'):
            name = '_' + cls.name.lstrip('_') + name
        self.bind(name, f, fr)

    def decorate(self, d, f, fr):
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') and isinstance(f, IFunc):
            f.static = d.id
            return f
        return self.call(self.ev(d, fr), [f], {})

    def mkfunc(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.ev(d, fr),) for d in a.kw_defaults]
        cls = fr.locals.get('__class_building__')
        q = name
        if cls is not None:
            q = cls.name + '.' + name
        elif fr.fn is not None:
            q = fr.fn.qual.split(':')[-1] + '.' + name
        return IFunc(node, fr, fr.mod, fr.mod.name + ':' + q, defaults, kwd, cls)

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        for b in bases:
            if isinstance(b, ICls) or b is object or isinstance(b, type) and issubclass(b, BaseException) or isinstance(b, Opaque):
                continue
            raise Unsupported('base class %r' % (b,))
        if st.keywords or st.decorator_list:
            raise Unsupported('class keywords or decorators')
        c = ICls(st.name, bases, fr.mod)
        f2 = Frame(fr.mod, fr)
        f2.locals = c.ns
        c.ns['__class_building__'] = c
        for s in st.body:
            self.stmt(s, f2)
        del c.ns['__class_building__']
        self.bind(st.name, c, fr)

    def s_Import(self, st, fr):
        for al in st.names:
            v = self.import_(al.name, 0, fr)
            if al.asname:
                self.bind(al.asname, v, fr)
            else:
                self.bind(al.name.split('.')[0], self.import_(al.name.split('.')[0], 0, fr), fr)

    def s_ImportFrom(self, st, fr):
        if st.level:
            if st.module is None:
                for al in st.names:
                    self.bind(al.asname or al.name, self.module(al.name), fr)
                return
            m = self.import_(st.module, st.level, fr)
        else:
            m = self.import_(st.module, 0, fr)
        for al in st.names:
            if al.name == '*':
                raise Unsupported('import *')
            self.bind(al.asname or al.name, self.getattr(m, al.name), fr)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Tuple):
                for e in t.elts:
                    if not isinstance(e, ast.Name):
                        raise Unsupported('del')
                    fr.locals.pop(e.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.key(t.slice, fr)
                if isinstance(o, dict):
                    del o[k]
                elif isinstance(o, list) and isinstance(k, (int, slice)):
                    self.note_list_write(o)
                    del o[k]
                else:
                    raise Unsupported('del item')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, Obj) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def s_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise PyRaise(AssertionError)

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported('bare raise')
        v = self.ev(st.exc, fr)
        raise self.as_exc(v)

    def as_exc(self, v):
        if isinstance(v, type) and issubclass(v, BaseException):
            return PyRaise(v)
        if isinstance(v, PyRaise):
            return v
        if isinstance(v, ICls):
            return PyRaise(v)
        if isinstance(v, Obj):
            e = PyRaise(v.cls)
            e.obj = v
            return e
        raise Unsupported('raise %r' % (v,))

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(e.etype, ICls):
            if isinstance(t, ICls):
                return t in e.etype.mro()
            for k in e.etype.mro():
                for b in k.bases:
                    if isinstance(b, type) and isinstance(t, type) and issubclass(b, t):
                        return True
            return False
        return isinstance(t, type) and issubclass(e.etype, t)

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, fr)):
                        if h.name:
                            fr.locals[h.name] = e
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def s_With(self, st, fr):
        for item in st.items:
            v = self.ev(item.context_expr, fr)
            enter = getattr(v, 'sym_enter', None)
            if enter is None:
                raise Unsupported('with %r' % (v,))
            x = enter()
            if item.optional_vars is not None:
                self.assign(item.optional_vars, x, fr)
        self.block(st.body, fr)
        for item in st.items:
            pass

    def s_Global(self, st, fr):
        fr.globals_.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    # ------------------------------------------------------------ names and targets
    def bind(self, name, v, fr):
        if name in fr.globals_:
            fr.mod.env[name] = v
        elif name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.locals:
                    p.locals[name] = v
                    return
                p = p.parent
        else:
            fr.locals[name] = v

    def name(self, n, fr):
        f = fr
        first = True
        while f is not None:
            # class bodies are not enclosing scopes of the functions in them
            if (first or '__class_building__' not in f.locals and not getattr(f, 'is_class', False)) and n in f.locals:
                v = f.locals[n]
                if v is POISON:
                    raise Unsupported('value of %s carried over loop iterations' % n)
                return v
            first = False
            f = f.parent
        if n in fr.mod.env:
            return fr.mod.env[n]
        if n in self.builtins:
            return self.builtins[n]
        if n in NATIVE_EXC:
            return NATIVE_EXC[n]
        raise PyRaise(NameError if n not in getattr(fr.fn, 'localnames', ()) else UnboundLocalError, (n,))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.concrete_iter(v)
                if items is None:
                    raise Unsupported('starred unpacking of a symbolic sequence')
                items = list(items)
                k = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - k - 1
                vals = items[:k] + [items[k:len(items) - after]] + items[len(items) - after:]
                tg = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            else:
                if isinstance(v, SList) or isinstance(v, Arr) and not isinstance(v.shape_[0], int):
                    n = v.n if isinstance(v, SList) else v.shape_[0]
                    if not ctx().decide(z(n) == len(t.elts)):
                        raise PyRaise(ValueError, ('unpack',))
                    vals = [self.getitem(v, i) for i in range(len(t.elts))]
                else:
                    items = self.concrete_iter(v)
                    if items is None:
                        raise Unsupported('unpacking of a symbolic sequence')
                    vals = list(items)
                if len(vals) != len(t.elts):
                    raise PyRaise(ValueError, ('unpack',))
                tg = t.elts
            for e, x in zip(tg, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.key(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def mangle(self, attr, fr):
        if fr is not None and attr.startswith('__') and not attr.endswith('__'):
            f = fr
            while f is not None:
                if f.fn is not None and f.fn.cls is not None:
                    return '_' + f.fn.cls.name.lstrip('_') + attr
                f = f.parent
        return attr

    def setattr(self, o, attr, v, fr=None):
        attr = self.mangle(attr, fr)
        if isinstance(o, Obj):
            k, f = o.cls.find(attr)
            if isinstance(f, IFunc) and f.static == 'property':
                raise Unsupported('assignment of a property')
            if o.cls.find('__setattr__')[1] is not None:
                raise Unsupported('__setattr__')
            o.attrs[attr] = v
            o.stamps[attr] = ctx().tick() if ctx() else 0
            if ctx() is not None:
                ctx().attr_writes.append((o, attr))
            if getattr(o, 'frozen', None):
                ctx().mutated.append('%s.%s' % (o.frozen, attr))
            return
        if ctx() is not None:
            ctx().attr_writes.append((o, attr))
        if isinstance(o, ICls):
            o.ns[attr] = v
            o.stamps[attr] = ctx().tick() if ctx() else 0
            return
        if isinstance(o, Module):
            o.env[attr] = v
            return
        if isinstance(o, Arr) and attr == 'shape':
            raise Unsupported('assignment of shape')
        if isinstance(o, IFunc):
            raise Unsupported('function attribute')
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def note_list_write(self, l):
        if ctx() is not None:
            ctx().heap_writes.append(('list', l))
        fz = self.run.frozen_lists.get(id(l))
        if fz is not None:
            ctx().mutated.append(fz[1])

    def slist_set(self, o, n, at):
        """in-place change of a list of symbolic length"""
        self.note_list_write(o)
        o.n, o.at = n, at
        o.meta = {}

    def setitem(self, o, k, v):
        if isinstance(o, dict):
            if ctx() is not None:
                ctx().heap_writes.append(('dictionary', o))
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, int):
                self.note_list_write(o)
                try:
                    o[k] = v
                except IndexError:
                    raise PyRaise(IndexError)
                return
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                items = self.concrete_iter(v)
                if items is not None:
                    self.note_list_write(o)
                    o[k] = list(items)
                    return
            raise Unsupported('list item assignment')
        if isinstance(o, Arr) or isinstance(o, SList):
            return self.run.setitem(self, o, k, v)
        if isinstance(o, Obj):
            return self.call(self.getattr(o, '__setitem__'), [k, v], {})
        h = getattr(o, 'sym_setitem', None)
        if h is not None:
            return h(self, k, v)
        raise Unsupported('item assignment on %s' % type(o).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.newlist(list(self.elts(e.elts, fr)))

    def newlist(self, l):
        if ctx() is not None:
            ctx().lists.append(l)
        return l

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.concrete_iter(self.ev(x.value, fr))
                if it is None:
                    raise Unsupported('starred symbolic sequence')
                out.extend(it)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.key(e.slice, fr))

    def key(self, s, fr):
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_BinOp(self, e, fr):
        return self.binop(OPS[type(e.op)], self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (SNum, Arr)):
                return self.binop('*', -1, v)
            if isinstance(v, Obj):
                return self.call(self.getattr(v, '__neg__'), [], {})
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            if isinstance(v, SNum) and v.is_int:
                return mknum(-v.t - 1)
            if isinstance(v, Arr) and v.dtype == 'bool':
                return V.elementwise(lambda x: mkbool(z3.Not(z(x))), v, dtype='bool')
        raise Unsupported('unary operator')

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            res = self.cmp(op, left, right)
            if len(e.ops) > 1:
                if not self.truth(res):
                    return False
            left = right
        return res

    def cmp(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            if isinstance(op, ast.NotIn):
                return mkbool(z3.Not(z(r)))
            return r
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[type(op)]
        return self.compare(o, a, b)

    def compare(self, o, a, b):
        for x in (a, b):
            if hasattr(x, 'sym_compare') and not isinstance(x, Opaque):
                r = x.sym_compare(self, o, a, b)
                if r is not NotImplemented:
                    return r
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Obj) and o in ('==', '!='):
                nm = '__eq__' if o == '==' else '__ne__'
                k, f = x.cls.find(nm)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
                if o == '!=':
                    k, f = x.cls.find('__eq__')
                    if f is not None:
                        r = self.call(Bound(f, x), [y], {})
                        return mkbool(z3.Not(z(r)))
                if not isinstance(y, Obj):
                    continue
                return (x is y) == (o == '==')
        if isinstance(a, (Obj, ICls, IFunc, Opaque, Module)) or isinstance(b, (Obj, ICls, IFunc, Opaque, Module)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                r = self.run.opaque_compare(self, o, a, b)
                if r is not NotImplemented:
                    return r
            if o == '==':
                return self.is_(a, b)
            if o == '!=':
                return not self.is_(a, b)
            raise Unsupported('order of objects')
        if isinstance(a, (SList, SRange)) or isinstance(b, (SList, SRange)):
            return self.run.list_compare(self, o, a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) != type(b) and not (isinstance(a, type(b)) or isinstance(b, type(a))):
                return o == '!='
            if o in ('==', '!='):
                if len(a) != len(b):
                    return o == '!='
                fs = [self.compare('==', x, y) for x, y in zip(a, b)]
                r = z3.And([z(f) if not isinstance(f, bool) else z3.BoolVal(f) for f in fs]) if fs else z3.BoolVal(True)
                return mkbool(r if o == '==' else z3.Not(r))
        return compare(o, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if a is None or b is None:
            s = b if a is None else a
            t = getattr(s, 'is_none_term', None)
            return False if t is None else SBool(t)
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return a is b or (type(a) == type(b) and a == b)
        r = self.run.opaque_compare(self, 'is', a, b)
        return False if r is NotImplemented else r

    def contains(self, a, b):
        if isinstance(b, (dict, set, str)):
            try:
                return a in b
            except TypeError:
                raise PyRaise(TypeError)
        items = self.concrete_iter(b)
        if items is None:
            raise Unsupported('in on a symbolic sequence')
        fs = []
        for x in items:
            r = a is x or self.compare('==', a, x)
            fs.append(z(r) if not isinstance(r, bool) else z3.BoolVal(r))
        return mkbool(z3.Or(fs)) if fs else False

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.ev(x.value, fr)
                out.append(v if isinstance(v, str) else '<%s>' % type(v).__name__)
        return ''.join(out)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, 'gen')

    def e_SetComp(self, e, fr):
        return set(self.comp(e, fr, 'list'))

    def e_DictComp(self, e, fr):
        out = {}
        def rec(gens, f):
            if not gens:
                out[self.ev(e.key, f)] = self.ev(e.value, f)
                return
            g = gens[0]
            items = self.concrete_iter(self.ev(g.iter, f))
            if items is None:
                raise Unsupported('dict comprehension over a symbolic sequence')
            for x in items:
                f2 = Frame(f.mod, f, None)
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    rec(gens[1:], f2)
        rec(e.generators, self.subframe(fr))
        return out

    def subframe(self, fr):
        f = Frame(fr.mod, fr, fr.fn)
        return f

    def comp(self, e, fr, kind):
        out = []
        g0 = e.generators[0]
        it = self.ev(g0.iter, fr)
        items = self.concrete_iter(it)
        if items is None:
            if len(e.generators) == 1 and not g0.ifs:
                if self.run.lazy_map is not None:
                    r = self.run.lazy_map(self, e, fr, it)
                    if r is not NotImplemented:
                        return r
                return self.lazy_map(e, fr, it)
            return self.run.symbolic_comp(self, e, fr, it)
        def rec(gens, f, items=None):
            if not gens:
                out.append(self.ev(e.elt, f))
                return
            g = gens[0]
            if items is None:
                items = self.concrete_iter(self.ev(g.iter, f))
                if items is None:
                    raise Unsupported('nested comprehension over a symbolic sequence')
            for x in items:
                f2 = self.subframe(f)
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    rec(gens[1:], f2)
        rec(e.generators, self.subframe(fr), items)
        return self.newlist(out)

    def lazy_map(self, e, fr, it):
        """[f(x) for x in it] with a symbolic number of items: item i on demand, from the state now"""
        snap = self.snapshot(fr)
        n, at = self.seq(it)
        g = e.generators[0]
        t0 = ctx().clock

        def item(i):
            c = ctx()
            old = c.lazy_limit
            c.lazy_limit = t0 if old is None else min(old, t0)
            try:
                f2 = self.subframe(snap)
                self.assign(g.target, at(i), f2)
                return self.ev(e.elt, f2)
            finally:
                c.lazy_limit = old
        # one evaluation now, for an arbitrary item: effects and errors show here
        c = ctx()
        ev0 = len(c.events)
        i = SNum(z3.Int(c.fresh('item')))
        if self.run.lazy_probe is not None:
            self.run.lazy_probe(z(n), i, lambda: item(i))
        elif c.decide(z(n) > 0):
            c.assume(z3.And(i.t >= 0, i.t < z(n)))
            mark = c.clock
            rec = self.run.begin_map(self, n, i)
            item(i)
            self.run.end_map(self, rec, n, i)
            self.run.map_effects(self, ev0, i, n)
        return SList(n, item)

    def snapshot(self, fr):
        f = Frame(fr.mod, None, fr.fn)
        f.globals_ = fr.globals_
        chain = []
        p = fr
        while p is not None:
            chain.append(p)
            p = p.parent
        for p in reversed(chain):
            f.locals.update({k: (list(v) if type(v) is list else v) for k, v in p.locals.items()})
        return f

    def seq(self, it):
        """(length, at) of a sequence value"""
        if isinstance(it, SRange):
            return it.length(), it.at
        if isinstance(it, SList):
            return it.n, it.at
        if isinstance(it, (list, tuple)):
            return len(it), lambda i: self.getitem(it, i)
        if isinstance(it, Arr):
            return it.shape_[0], lambda i: self.getitem(it, i)
        if getattr(it, 'sym_seq', None) is not None:
            return it.sym_seq(self)
        raise Unsupported('sequence %s' % type(it).__name__)

    def concrete_iter(self, it):
        if isinstance(it, (list, tuple, range, str, set, frozenset)):
            return it
        if isinstance(it, dict):
            return list(it)
        if type(it).__name__ in ('dict_keys', 'dict_values', 'dict_items', 'zip', 'map', 'enumerate', 'reversed', 'list_iterator', 'generator', 'tuple_iterator', 'range_iterator', 'list_reverseiterator'):
            return list(it)
        if isinstance(it, SRange):
            if isinstance(it.start, int) and isinstance(it.stop, int) and isinstance(it.step, int):
                return range(it.start, it.stop, it.step)
            n = it.length()
            if isinstance(n, int) and n <= 64:
                return [it.at(i) for i in range(n)]
            return None
        if isinstance(it, SList):
            if isinstance(it.n, int) and it.n <= 64:
                return [it.at(i) for i in range(it.n)]
            return None
        if isinstance(it, Arr):
            n = it.shape_[0] if it.ndim else None
            if n is None:
                raise PyRaise(TypeError, ('iteration over a 0-d array',))
            if isinstance(n, int):
                return [self.getitem(it, i) for i in range(n)]
            return None
        if getattr(it, 'sym_seq', None) is not None:
            return None
        if isinstance(it, Obj):
            raise Unsupported('iteration of an object') if it.cls.find('__iter__')[1] is not None else PyRaise(TypeError, ('not iterable',))
        if it is None or isinstance(it, (int, float, SNum, SBool, Opaque, IFunc, Bound)):
            raise PyRaise(TypeError, ('not iterable',))
        raise Unsupported('iteration of %s' % type(it).__name__)

    def truth(self, v):
        if isinstance(v, SBool):
            return ctx().decide(v.t)
        if isinstance(v, SNum):
            return ctx().decide(v.t != 0)
        if isinstance(v, Arr):
            if v.ndim == 0 and v.elem_ is not None:
                return self.truth(v.elem_())
            raise Unsupported('truth of an array')
        if isinstance(v, SList):
            return ctx().decide(z(v.n) != 0)
        if isinstance(v, SRange):
            return ctx().decide(z(v.length()) != 0)
        if isinstance(v, Obj):
            if v.cls.find('__bool__')[1] is not None or v.cls.find('__len__')[1] is not None:
                raise Unsupported('truth of an object')
            return True
        if V.unknown(v):
            h = getattr(v, 'sym_truth', None)
            if h is None:
                raise Unsupported('truth of %s' % type(v).__name__)
            return self.truth(h(self))
        return bool(v)

    def binop(self, op, a, b):
        for x, y, nm in ((a, b, '__%s__' % DUNDER[op]), (b, a, '__r%s__' % DUNDER[op])):
            if isinstance(x, Obj):
                k, f = x.cls.find(nm)
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        if op == '%' and isinstance(a, str):
            return '<formatted>'
        r = self.run.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        if isinstance(a, SList) or isinstance(b, SList):
            if op == '+':
                return self.concat(a, b)
            if op == '*' and isinstance(b, (int, SNum)):
                raise Unsupported('repetition of a symbolic list')
        if op == '*' and isinstance(a, (list, tuple)) and isinstance(b, SNum):
            if len(a) == 1:
                x = a[0]
                return SList(b if ctx().valid(b.t >= 0) else mknum(z3.If(b.t >= 0, b.t, 0)), lambda i: x)
            raise Unsupported('repetition')
        if op == '*' and isinstance(b, (list, tuple)) and isinstance(a, SNum):
            return self.binop(op, b, a)
        if isinstance(a, (list, tuple)) and isinstance(b, type(a)) and op == '+':
            return a + b
        return binop(op, a, b)

    def concat(self, a, b):
        na, fa = self.seq(a)
        nb, fb = self.seq(b)
        def at(i):
            if ctx().decide(z(i) < z(na)):
                return fa(i)
            return fb(mknum(z(i) - z(na)))
        return SList(mknum(z(na) + z(nb)), at)

    # ------------------------------------------------------------ attributes, items
    def getattr(self, o, attr):
        if isinstance(o, NS):
            if attr in o.members:
                return o.members[attr]
            raise Unsupported('%s.%s is not modelled' % (o.name, attr))
        if isinstance(o, Module):
            if attr in o.env:
                return o.env[attr]
            raise PyRaise(AttributeError, (attr,))
        if isinstance(o, Obj):
            if attr in o.attrs:
                c = ctx()
                if c.lazy_limit is not None and o.stamps.get(attr, 0) > c.lazy_limit:
                    raise Unsupported('attribute changed after it was captured')
                v = o.attrs[attr]
                if (o.cls.name, attr) in self.run.havoc_attrs:
                    return self.run.havoc_attrs[(o.cls.name, attr)]()
                if v is POISON:
                    raise Unsupported('attribute %s carried over loop iterations' % attr)
                return v
            if attr == '__class__':
                return o.cls
            k, f = o.cls.find(attr)
            if f is not None or k is not None:
                if isinstance(f, IFunc):
                    if f.static == 'property':
                        return self.call(f, [o], {})
                    if f.static == 'staticmethod':
                        return f
                    return Bound(f, o.cls if f.static == 'classmethod' else o)
                return f
            r = self.run.obj_attr(self, o, attr)
            if r is not NotImplemented:
                return r
            raise PyRaise(AttributeError, (attr,))
        if isinstance(o, ICls):
            if attr == '__name__':
                return o.name
            k, f = o.find(attr)
            if k is not None:
                if isinstance(f, IFunc) and f.static == 'classmethod':
                    return Bound(f, o)
                return f
            raise PyRaise(AttributeError, (attr,))
        if isinstance(o, Arr):
            import npmodel
            return npmodel.arr_attr(self, o, attr)
        r = self.run.getattr(self, o, attr)
        if r is not NotImplemented:
            return r
        if isinstance(o, (str, list, dict, tuple, set)) and not attr.startswith('__'):
            import npmodel
            return npmodel.native_method(self, o, attr)
        if isinstance(o, SList):
            import npmodel
            return npmodel.slist_attr(self, o, attr)
        if isinstance(o, tuple) and hasattr(o, '_fields') and attr in o._fields:
            return getattr(o, attr)
        if o is None:
            raise PyRaise(AttributeError, (attr,))
        if isinstance(o, SNum):
            if attr == 'conj' or attr == 'conjugate':
                return Native('conj', lambda: V.num_conj(o))
            if attr == 'real' and o.t.sort() != V.Num:
                return o
        if isinstance(o, (int, float)) and attr in ('conjugate', 'conj'):
            return Native('conj', lambda: o)
        if isinstance(o, type) and attr == '__name__':
            return o.__name__
        if isinstance(o, PyRaise):
            if attr == 'args':
                return o.eargs
        if isinstance(o, IFunc):
            if attr == '__name__':
                return o.node.name
        if isinstance(o, (int, float, bool)):
            raise PyRaise(AttributeError, (attr,))
        raise Unsupported('attribute %s of %s' % (attr, type(o).__name__))

    def getitem(self, o, k):
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise(IndexError)
            if isinstance(k, slice):
                if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    return o[k]
                return self.slice_seq(o, k)
            if isinstance(k, SNum):
                c = ctx()
                n = len(o)
                i = V.norm_index(k, n)
                if isinstance(i, int):
                    return o[i]
                for j in range(n - 1):
                    if c.decide(z(i) == j):
                        return o[j]
                c.assume(z(i) == n - 1)
                return o[n - 1]
            raise PyRaise(TypeError, ('list indices',))
        if isinstance(o, dict):
            if is_sym_key(k):
                raise Unsupported('symbolic dictionary key')
            try:
                return o[k]
            except KeyError:
                raise PyRaise(KeyError, (k,))
        if isinstance(o, SList):
            if isinstance(k, slice):
                return self.slice_seq(o, k)
            if isinstance(k, (int, SNum)):
                return o.at(V.norm_index(k, o.n))
            raise PyRaise(TypeError)
        if isinstance(o, SRange):
            if isinstance(k, (int, SNum)):
                return o.at(V.norm_index(k, o.length()))
            if isinstance(k, slice) and o.step == 1:
                b = V.slice_bounds(k, o.length())
                return SRange(binop('+', o.start, b[0]), binop('+', o.start, b[1]))
        if isinstance(o, Arr):
            r = self.run.getitem(self, o, k)
            if r is not NotImplemented:
                return r
            return V.index_arr(o, k)
        if isinstance(o, Obj):
            return self.call(self.getattr(o, '__getitem__'), [k], {})
        h = getattr(o, 'sym_getitem', None)
        if h is not None:
            return h(self, k)
        r = self.run.getitem(self, o, k)
        if r is not NotImplemented:
            return r
        if o is None or isinstance(o, (int, float, SNum)):
            raise PyRaise(TypeError, ('not subscriptable',))
        raise Unsupported('item of %s' % type(o).__name__)

    def slice_seq(self, o, k):
        n, at = self.seq(o)
        if k.start is None and k.stop is None and k.step == -1:
            r = SList(n, lambda i: at(mknum(z(n) - 1 - z(i))))
            r.reversal_of = o
            return r
        b = V.slice_bounds(k, n)
        if b is None:
            raise Unsupported('slice step of a sequence')
        lo, hi = b
        r = SList(mknum(z(hi) - z(lo)), lambda i: at(mknum(z(i) + z(lo))))
        if isinstance(o, SList):
            r.meta = dict(o.meta)
            p = r.meta.pop('handles', None)
            if p is not None:
                S = V.one(V.th().norm_word((('S', V.sel_interval(lo, hi, n), False),)))
                r.meta['handles'] = V.mul(p, S)
            if 'of' in r.meta:
                base, off = r.meta['of']
                r.meta['of'] = (base, mknum(z(off) + z(lo)))
            if 'int_at' in r.meta:
                f = r.meta['int_at']
                r.meta['int_at'] = lambda i: f(z3.simplify(z(i) + z(lo)))
        return r

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f.fn is None or f.fn.cls is None:
                f = f.parent
            return Super(f.fn.cls, f.locals[f.fn.node.args.args[0].arg])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals':
            raise Unsupported('locals()')
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, dict):
                    raise Unsupported('** of %s' % type(d).__name__)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw) if isinstance(f.fn, IFunc) else f.fn.f(f.obj, *args, **kw)
        if isinstance(f, IFunc):
            c = self.run.contract_for(f)
            if c is not None:
                return c(self, f, list(args), kw)
            return self.inline(f, args, kw)
        if isinstance(f, Native):
            for x in args:
                if hasattr(x, 'sym_np'):
                    r = x.sym_np(self, f.name, list(args), kw)
                    if r is not NotImplemented:
                        return r
            try:
                return f.f(*args, **kw)
            except TypeError as e:
                if 'argument' in str(e) and f.name in str(e):
                    raise Unsupported('call of %s: %s' % (f.name, e))
                raise
        if isinstance(f, ICls):
            return self.instantiate(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyRaise(f, tuple(args))
        if isinstance(f, type) and issubclass(f, tuple) and hasattr(f, '_fields'):
            try:
                return f(*args, **kw)
            except TypeError as e:
                raise PyRaise(TypeError, e.args)
        if isinstance(f, Obj):
            k, m = f.cls.find('__call__')
            if m is None:
                raise PyRaise(TypeError, ('not callable',))
            return self.call(Bound(m, f), args, kw)
        r = self.run.call_opaque(self, f, args, kw)
        if r is not NotImplemented:
            return r
        if callable(f) and f in SAFE_NATIVE:
            return f(*args, **kw)
        if f is None or isinstance(f, (int, float, str, list)):
            raise PyRaise(TypeError, ('not callable',))
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, cls, args, kw):
        h = self.run.class_contract(cls)
        if h is not None:
            return h(self, cls, list(args), kw)
        o = Obj(cls)
        k, new = cls.find('__new__')
        if new is not None:
            raise Unsupported('__new__')
        if any(isinstance(b, type) and issubclass(b, BaseException) for m in cls.mro() for b in m.bases):
            o.attrs['args'] = tuple(args)
            return o
        k, init = cls.find('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise PyRaise(TypeError, ('takes no arguments',))
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        for n in names:
            if args:
                loc[n] = args.pop(0)
                if n in kw:
                    raise PyRaise(TypeError, ('multiple values for ' + n,))
        if args:
            if a.vararg is None:
                raise PyRaise(TypeError, ('too many positional arguments',))
        if a.vararg is not None:
            loc[a.vararg.arg] = args[0].seq if len(args) == 1 and isinstance(args[0], Star) else tuple(args)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in loc:
                continue
            if n in kw:
                loc[n] = kw.pop(n)
            elif i >= len(names) - nd:
                loc[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise PyRaise(TypeError, ('missing argument ' + n,))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults[i] is not None:
                loc[x.arg] = f.kwdefaults[i][0]
            else:
                raise PyRaise(TypeError, ('missing argument ' + x.arg,))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise(TypeError, ('unexpected keyword ' + ','.join(kw),))
        return loc

    def inline(self, f, args, kw):
        if self.depth > 40:
            raise Unsupported('recursion')
        fr = Frame(f.mod, f.env if f.env.mod is f.mod and f.env.locals is not f.mod.env else None, f)
        if f.cls is not None and f.env.locals is f.cls.ns:
            fr.parent = f.env.parent if f.env.parent is not None and f.env.parent.locals is not f.mod.env else None
        fr.locals = self.bind_args(f, args, kw)
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.ev(f.node.body, fr)
            finally:
                self.depth -= 1
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            raise Unsupported('generator function')
        self.run.covered(f)
        self.depth += 1
        try:
            self.block(f.node.body, fr)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Poison(object):
    def __repr__(self):
        return 'POISON'


POISON = Poison()


def is_sym_key(k):
    return isinstance(k, (SNum, SBool, Arr)) or isinstance(k, tuple) and any(is_sym_key(x) for x in k)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '@': 'matmul', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}
SAFE_NATIVE = set()


class Sources(object):
    """parsed source of the repository"""
    def __init__(self, root=None):
        self.root = root or REPO
        self.trees = {}

    def tree(self, name):
        if name not in self.trees:
            p = os.path.join(self.root, name + '.py')
            self.trees[name] = ast.parse(open(p).read(), p)
        return self.trees[name]
