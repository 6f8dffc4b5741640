"""Work shared by an arbitrary number of workers: runs of tasks, chunked loops, ring exchanges.

One arbitrary worker r of P is executed.  A loop with a symbolic number of iterations splits into the path that
executes one iteration (and ends there) and the path that goes on after the loop.  A loop of P passes that hands lists on
from worker to worker is executed from the invariant "in pass k this worker holds what worker (r-k) mod P held in pass 0".
Arithmetic is linear: products, remainders and rounded quotients are terms of uninterpreted functions with the instances
of their laws that concern the terms in sight.
"""
import ast
import copy
import os
import math
import z3
from fractions import Fraction
from common import *
import loops
import interp as IP
from interp import POISON, NS

I_ = z3.IntSort()


def zmin(a, b):
    return z3.If(a <= b, a, b)


MEMO = {}


def consts(t):
    """names of the constants of a term"""
    h = MEMO.get(t.get_id())
    if h is not None and h[0].eq(t):
        return h[1]
    if not z3.is_app(t):
        r = frozenset()
    elif t.num_args() == 0:
        r = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        r = frozenset().union(*[consts(x) for x in t.children()])
    if len(MEMO) > 400000:
        MEMO.clear()
    MEMO[t.get_id()] = (t, r)
    return r


def apps(t, decl):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(decl):
                out.append(x)
            todo.extend(x.children())
    return out


class Noise(object):
    """a number that only times and progress messages depend on"""
    def __init__(self, nz=False):
        self.nz = nz

    def sym_binop(self, I, op, a, b):
        if op == '/' and nonzero(b) is False:
            ctx().prove(z3.BoolVal(False), 'no division by zero')
        return Noise(op == '*' and bool(nonzero(a)) and bool(nonzero(b)))

    def sym_compare(self, I, o, a, b):
        if isinstance(a, NoiseArr) or isinstance(b, NoiseArr):
            return NoiseArr()
        return SBool(z3.Bool(ctx().run.W.taint(ctx().fresh('noise'))))

    def sym_np(self, I, name, args, kw):
        return Noise()

    def sym_getattr(self, I, attr):
        return Native(attr, lambda *a, **k: Noise())


class NoiseArr(Noise):
    """an array of such numbers"""
    def sym_np(self, I, name, args, kw):
        return Noise() if name in ('sum', 'count_nonzero', 'max', 'min', 'mean') else NoiseArr()


def nonzero(x):
    if isinstance(x, Noise):
        return x.nz
    if isinstance(x, Quot):
        return ctx().valid(x.num != 0)
    if isinstance(x, (int, float)):
        return x != 0
    if isinstance(x, SNum):
        return ctx().valid(x.t != 0)
    return False


def as_int(t):
    """the integer term of a real term that is one"""
    if t.sort() == I_:
        return t
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.children()[0]
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        ks = [as_int(x) for x in t.children()]
        if any(k is None for k in ks):
            return None
        k = t.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            return -ks[0]
        r = ks[0]
        for x in ks[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
        return z3.simplify(r)
    return None


def int_of(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.IntVal(int(x)) if x == int(x) else None
    if isinstance(x, SNum):
        return as_int(x.t)
    return None


class Quot(object):
    """a quotient of integers, not rounded yet"""
    def __init__(self, num, den):
        self.num, self.den = num, den

    def sym_binop(self, I, op, a, b):
        o = b if a is self else a
        k = int_of(o)
        if a is self and k is not None and op in '+-':
            d = ctx().run.W.product(k, self.den)
            return Quot(z3.simplify(self.num + d if op == '+' else self.num - d), self.den)
        return Noise().sym_binop(I, op, a, b)

    def sym_compare(self, I, o, a, b):
        k = int_of(b if a is self else a)
        if k is None or not ctx().valid(self.den > 0):
            raise Unsupported('comparison of a quotient')
        p = ctx().run.W.product(k, self.den)
        x, y = (self.num, p) if a is self else (p, self.num)
        return mkbool({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[o])

    def sym_np(self, I, name, args, kw):
        W = ctx().run.W
        if name in ('ceil', 'floor') and len(args) == 1 and not kw:
            return W.rounded(self.num, self.den, name == 'ceil')
        return NotImplemented

    def sym_int(self):
        if not ctx().valid(self.num >= 0):
            raise Unsupported('int of a quotient')
        return ctx().run.W.rounded(self.num, self.den, False)


FACTS = {}


def fact(key, build):
    """assumes a fact; its term is built once for all paths"""
    k = tuple(x if isinstance(x, str) else x.get_id() for x in key)
    h = FACTS.get(k)
    if h is None or not all(x is y or not isinstance(x, str) and x.eq(y) for x, y in zip(key, h[0])):
        if len(FACTS) > 100000:
            FACTS.clear()
        h = FACTS[k] = (key, z3.simplify(build()))
    ctx().assume(h[1])


class Cut(object):
    """how a range of tasks is divided among the workers (contract of find_assignments, decided under C01)"""
    def __init__(self, W, base, n):
        c = ctx()
        self.W, self.base, self.n = W, base, n
        self.f = z3.Function(c.fresh('cut'), I_, I_)
        self.points = []
        self.loops = list(W.open)
        self.owners = []
        c.assume(self.f(0) == 0)
        c.assume(self.f(z(W.P)) == n)
        self.point(z3.IntVal(0))
        self.point(z(W.P))

    def point(self, p):
        c = ctx()
        p = z3.simplify(p)
        if any(p.eq(q) for q in self.points):
            return
        P = z(self.W.P)
        f, n = self.f, self.n
        fact(('range', f, p, P, n), lambda: z3.Implies(z3.And(0 <= p, p <= P), z3.And(0 <= f(p), f(p) <= n)))
        for q in self.points:
            fact(('order', f, p, q, P), lambda: z3.And(z3.Implies(z3.And(0 <= p, p <= q, q <= P), f(p) <= f(q)), z3.Implies(z3.And(0 <= q, q <= p, p <= P), f(q) <= f(p))))
        self.points.append(p)

    def mention(self, w):
        f, n, P = self.f, self.n, z(self.W.P)
        w = z3.simplify(w)
        self.point(w)
        self.point(w + 1)
        fact(('filled', f, w, P, n), lambda: z3.Implies(z3.And(0 <= w, w < P, f(w) < n), f(w) < f(z3.simplify(w + 1))))

    def lo(self, w):
        self.W.mention(w)
        return z3.simplify(self.base + self.f(z3.simplify(w)))

    def hi(self, w):
        self.W.mention(w)
        return z3.simplify(self.base + self.f(z3.simplify(w + 1)))

    def owner(self, x):
        """the worker whose run has task x (there is one: the runs cover the tasks)"""
        c = ctx()
        for y, o in self.owners:
            if y.eq(x):
                return o
        if not c.valid(z3.And(self.base <= x, x < self.base + self.n)):
            return None
        o = z3.Int(c.fresh('owner'))
        c.assume(z3.And(0 <= o, o < z(self.W.P)))
        c.assume(z3.And(self.lo(o) <= x, x < self.hi(o)))
        self.owners.append((x, o))
        return o

    def __repr__(self):
        return 'cut of %s tasks from %s' % (self.n, self.base)


class Chunk(object):
    """part h of the run of a worker, of the given width (None: all of it)"""
    def __init__(self, cut, h=None, width=None):
        self.cut, self.h, self.width = cut, h, width

    def lo(self, w):
        a, b = self.cut.lo(w), self.cut.hi(w)
        if self.width is None:
            return a
        return zmin(a + self.cut.W.product(self.h, self.width), b)

    def hi(self, w):
        if self.width is None:
            return self.cut.hi(w)
        return zmin(self.lo(w) + self.width, self.cut.hi(w))

    def __repr__(self):
        return 'part %s of width %s of the %r' % (self.h, self.width, self.cut)


class HVec(object):
    """vector number i of a collection"""
    def __init__(self, coll, i):
        self.coll, self.i = coll, i

    def sym_binop(self, I, op, a, b):
        return lin_binop(I, op, a, b)

    def sym_inplace(self, I, op, v):
        ctx().mutated.append('a vector of ' + self.coll.name)
        return I.binop(op, self, v)

    def sym_deepcopy(self, I):
        return HVec(self.coll, self.i)


class Lin(object):
    """sum of numbers times vectors of collections"""
    def __init__(self, terms):
        self.terms = terms

    def sym_binop(self, I, op, a, b):
        return lin_binop(I, op, a, b)


def lin_binop(I, op, a, b):
    t = lambda x: [(1, x)] if isinstance(x, HVec) else list(x.terms)
    va, vb = isinstance(a, (HVec, Lin)), isinstance(b, (HVec, Lin))
    if op == '+' and va and vb:
        return Lin(t(a) + t(b))
    if op == '*' and va != vb:
        v, s = (a, b) if va else (b, a)
        if not isinstance(s, bool) and (isinstance(s, (int, float, SNum)) or len(t(v)) == 1 and t(v)[0][0] == 1):
            return Lin([(s if k == 1 else binop('*', k, s), x) for k, x in t(v)])
    return NotImplemented


class Handle(object):
    not_iterable = True

    def __init__(self, coll, i):
        self.coll, self.i = coll, i

    def sym_getattr(self, I, attr):
        c = ctx()
        W = c.run.W
        if attr == 'get':
            def get():
                if self.coll.nogets:
                    c.prove(z3.BoolVal(False), 'nothing is read from output handles')
                return HVec(self.coll, z(self.i))
            return Native('get', get)
        if attr == 'put':
            return Native('put', lambda v: W.put(I, self, v))
        raise PyRaise(AttributeError, (attr,))


class Coll(object):
    """a collection of handles"""
    def __init__(self, name, n, nogets=False):
        self.name, self.n, self.nogets = name, n, nogets
        self.list = SList(n, lambda i: Handle(self, i), name=name)
        ctx().run.frozen_lists[id(self.list)] = (self.list, name)
        ctx().run.W.colls.append(self)


class Cx(object):
    """a complex number; for an inner product, `of` says of which vectors"""
    def __init__(self, re, im, of=None):
        self.re, self.im, self.of = re, im, of

    def sym_type(self):
        return Opaque('the type of an inner product')

    def sym_np(self, I, name, args, kw):
        if name in ('asarray', 'array') and len(args) == 1 and not kw:
            return self
        return NotImplemented

    def sym_getattr(self, I, attr):
        if attr == 'dtype':
            return DType()
        raise Unsupported('attribute %s of an inner product' % attr)


class DType(object):
    """the number type of a table or an inner product (widening keeps values)"""
    def sym_compare(self, I, o, a, b):
        if o in ('==', '!=') and isinstance(a, DType) and isinstance(b, DType):
            return SBool(z3.Bool(ctx().run.W.taint(ctx().fresh('same_type'))))
        return NotImplemented

    def sym_np(self, I, name, args, kw):
        if name in ('result_type', 'promote_types') and all(isinstance(x, DType) for x in args):
            return Promoted(args)
        return NotImplemented


class Promoted(DType):
    def __init__(self, of):
        self.of = of


class InnerProduct(object):
    def __init__(self):
        self.fs = {}

    def value(self, A, i, B, j):
        c = ctx()
        if A.name > B.name:
            x = self.value(B, j, A, i)
            return Cx(x.re, -x.im, (A, i, B, j))
        k = A.name + '*' + B.name
        if k not in self.fs:
            self.fs[k] = [z3.Function('ip_%s_%s' % (p, k), I_, I_, z3.RealSort()) for p in ('re', 'im')]
        re, im = self.fs[k]
        i, j = z3.simplify(i), z3.simplify(j)
        if A is B:
            c.assume(z3.And(re(i, j) == re(j, i), im(i, j) == -im(j, i)))
        return Cx(re(i, j), im(i, j), (A, i, B, j))

    def sym_call(self, I, args, kw):
        if len(args) != 2 or kw or not all(isinstance(x, HVec) for x in args):
            raise Unsupported('arguments of the inner product')
        a, b = args
        return self.value(a.coll, a.i, b.coll, b.i)


class Table(object):
    """the array of inner products: under construction ('new'), with this worker's part ('own'), or with given entries"""
    def __init__(self, shape, entry=None, state='new', boolean=False):
        self.shape, self.entry, self.state, self.boolean = shape, entry, state, boolean

    def read(self):
        if self.entry is None:
            raise Unsupported('reading the array while it is filled')
        return self.entry

    def sym_setitem(self, I, k, v):
        if self.state != 'new' or not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported('assignment to the array of inner products')
        a, b = (z(V.norm_index(x, n)) for x, n in zip(k, self.shape))
        ctx().run.W.written(self, a, b, v)

    def sym_getattr(self, I, attr):
        if attr == 'T':
            e = self.read()
            return Table(self.shape[::-1], lambda i, j: e(j, i), 'expr', self.boolean)
        if attr in ('conj', 'conjugate'):
            e = self.read()
            return Native('conj', lambda: Table(self.shape, lambda i, j: conj(e(i, j)), 'expr'))
        if attr == 'transpose':
            return Native('transpose', lambda: self.sym_getattr(I, 'T'))
        if attr == 'shape':
            return self.shape
        if attr == 'dtype':
            return DType()
        if attr == 'astype':
            def astype(t, copy=True):
                if isinstance(t, Promoted) or isinstance(t, DType):
                    return self
                raise Unsupported('conversion of the array')
            return Native('astype', astype)
        if attr == 'sum':
            return Native('sum', lambda *a, **k: Noise())
        raise Unsupported('attribute %s of the array of inner products' % attr)

    def sym_np(self, I, name, args, kw):
        if name in ('abs', 'absolute'):
            return NoiseArr() if self.entry is None or self.boolean else Magnitudes(self)
        if name in ('conj', 'conjugate') and len(args) == 1 and not kw:
            return self.sym_getattr(I, 'conj').f()
        if name == 'transpose' and len(args) == 1 and not kw:
            return self.sym_getattr(I, 'T')
        if name in ('triu', 'tril'):
            k = args[1] if len(args) > 1 else kw.get('k', 0)
            if not isinstance(k, int):
                raise Unsupported('triu')
            if self.entry is None:
                return NoiseArr()
            e = self.read()
            keep = (lambda i, j: j - i >= k) if name == 'triu' else (lambda i, j: j - i <= k)
            return Table(self.shape, lambda i, j: where(keep(i, j), e(i, j)), 'expr')
        if name == 'multiply' and len(args) == 2 and not kw and all(isinstance(x, Table) for x in args):
            return self.times(args[0], args[1])
        return NotImplemented

    def times(self, a, b):
        same_shape(a, b)
        ea, eb = a.read(), b.read()
        if a.boolean and b.boolean:
            return Table(a.shape, lambda i, j: z3.And(ea(i, j), eb(i, j)), 'expr', True)
        if a.boolean:
            return Table(a.shape, lambda i, j: where(ea(i, j), eb(i, j)), 'expr')
        if b.boolean:
            return Table(a.shape, lambda i, j: where(eb(i, j), ea(i, j)), 'expr')
        raise Unsupported('product of arrays of inner products')

    def sym_binop(self, I, op, a, b):
        if isinstance(a, Table) and isinstance(b, Table):
            if op in ('*', '&') and (op == '*' or a.boolean and b.boolean):
                return self.times(a, b)
            if op in '+-' and not a.boolean and not b.boolean:
                same_shape(a, b)
                ea, eb = a.read(), b.read()
                s = 1 if op == '+' else -1
                return Table(a.shape, lambda i, j: Cx(ea(i, j).re + s * eb(i, j).re, ea(i, j).im + s * eb(i, j).im), 'expr')
        return NotImplemented

    def sym_inplace(self, I, op, v):
        r = self.sym_binop(I, op, self, v)
        if r is NotImplemented:
            raise Unsupported('in-place operator on the array of inner products')
        self.entry, self.state = r.entry, r.state      # NumPy works in place; views are not tracked: none is used before
        return self

    def sym_compare(self, I, o, a, b):
        x, k = (a, b) if isinstance(a, Table) else (b, a)
        if o in ('==', '!=') and isinstance(k, (int, float)) and k == 0 and not x.boolean:
            e = x.read()
            f = lambda i, j: z3.And(e(i, j).re == 0, e(i, j).im == 0)
            return Table(x.shape, f if o == '==' else (lambda i, j: z3.Not(f(i, j))), 'expr', True)
        return NotImplemented


class Magnitudes(NoiseArr):
    """np.abs of the array; only comparisons with numbers matter"""
    def __init__(self, table):
        self.table = table

    def sym_compare(self, I, o, a, b):
        k = b if a is self else a
        if isinstance(k, (int, float)) and not isinstance(k, bool) and k >= 0 and o in ('<', '<=', '>', '>=', '==', '!='):
            o = o if a is self else {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(o, o)
            e = self.table.read()
            k2 = z3.RealVal(str(Fraction(k) * Fraction(k)))
            op = {'<': lambda t: t < k2, '<=': lambda t: t <= k2, '>': lambda t: t > k2, '>=': lambda t: t >= k2, '==': lambda t: t == k2, '!=': lambda t: t != k2}[o]
            return Table(self.table.shape, lambda i, j: op(e(i, j).re * e(i, j).re + e(i, j).im * e(i, j).im), 'expr', True)
        return NoiseArr.sym_compare(self, I, o, a, b) if hasattr(NoiseArr, 'sym_compare') else NotImplemented


def same_shape(a, b):
    if not ctx().valid(z3.And(z(a.shape[0]) == z(b.shape[0]), z(a.shape[1]) == z(b.shape[1]))):
        raise Unsupported('shapes of arrays of inner products')


def conj(x):
    return Cx(x.re, -x.im)


def where(cond, x):
    return Cx(z3.If(cond, x.re, z3.RealVal(0)), z3.If(cond, x.im, z3.RealVal(0)))


class Cells(object):
    """[None] * n, to be filled with sums of vectors"""
    def __init__(self, n):
        self.n = n
        self.state = 'new'
        self.none = []
        self.line = ctx().run.cur

    def sym_len(self):
        return self.n

    def index(self, k):
        return z3.simplify(z(V.norm_index(k, self.n)))

    def sym_getitem(self, I, k):
        k = self.index(k)
        if self.state == 'new':
            return Cell(self, k, True)
        for x, b in self.none:
            if x.eq(k):
                break
        else:
            b = z3.Bool(ctx().run.W.taint(ctx().fresh('empty')))
            self.none.append((k, b))
        return Cell(self, k, b) if self.state == 'filling' else Cell(self, k, False)

    def sym_setitem(self, I, k, v):
        ctx().run.W.added(self, self.index(k), v)

    def sym_seq(self, I):
        return self.n, lambda i: self.sym_getitem(I, i)


class Cell(object):
    def __init__(self, cells, k, none):
        self.cells, self.k = cells, k
        self.is_none_term = z3.BoolVal(none) if isinstance(none, bool) else none

    def plus(self, v):
        ctx().prove(z3.Not(self.is_none_term), 'nothing is added to None')
        return Added(self, v)

    def sym_binop(self, I, op, a, b):
        if op == '+' and isinstance(a, Cell) != isinstance(b, Cell):
            return self.plus(b if a is self else a)
        return NotImplemented

    def sym_inplace(self, I, op, v):
        if op != '+':
            raise Unsupported('in-place operator on a sum')
        return self.plus(v)


class Added(object):
    def __init__(self, cell, v):
        self.cell, self.v = cell, v


class Request(object):
    def __init__(self):
        self.done = False

    def sym_getattr(self, I, attr):
        if attr in ('Wait', 'wait'):
            def wait(*a, **k):
                self.done = True
            return Native(attr, wait)
        raise Unsupported('request.' + attr)


class Comm(object):
    def __init__(self, W):
        self.W = W

    def sym_getattr(self, I, attr):
        W = self.W
        if attr == 'isend':
            return Native(attr, lambda obj, dest, tag=0: W.send(I, obj, dest, tag))
        if attr == 'recv':
            return Native(attr, lambda buf=None, source=None, tag=None, status=None: W.recv(I, source, tag))
        if attr in ('Get_size', 'Get_rank'):
            return Native(attr, lambda: W.P if attr == 'Get_size' else W.r)
        if attr in ('size', 'rank'):
            return W.P if attr == 'size' else W.r
        if attr in ('Barrier', 'barrier'):
            return Native(attr, lambda: W.event('barrier'))
        if attr == 'allgather':
            import spmd
            return Native(attr, lambda obj=None: spmd.Gathered(W.P))
        raise Unsupported('communicator method ' + attr)


class Custom(object):
    def __init__(self, W):
        self.W = W

    def sym_getattr(self, I, attr):
        if attr == 'allreduce':
            return Native(attr, self.allreduce)
        raise Unsupported('custom_comm.' + attr)

    def allreduce(self, x, *a, **k):
        if a or k or not isinstance(x, Table):
            raise Unsupported('allreduce of something else')
        self.W.event('allreduce')
        return self.W.reduced(x)


class World(object):
    def __init__(self, I, c, run, mpi=True):
        run.W = self
        self.I, self.c, self.run, self.mpi = I, c, run, mpi
        self.tainted = set()
        self.workers = []
        self.cuts = []
        self.hooks = []
        self.open = []          # open loops: dicts
        self.products = []
        self.seen = set()
        self.roundings = []
        self.active = None
        self.muted = 0
        self.skel = []
        self.pending = []
        self.ip = InnerProduct()
        self.colls = []
        self.widths = []
        self.mul = z3.Function('times', I_, I_, I_)
        self.mod = z3.Function('rem', I_, I_, I_)
        self.records = run.__dict__.setdefault('ring_records', [])
        self.sites = run.__dict__.setdefault('ring_sites', {})
        if mpi:
            self.P = c.int_('P', 1)
            self.r = c.int_('rank', 0)
            c.assume(self.r.t < self.P.t)
            self.taint('rank')
        else:
            self.P, self.r = 1, 0
        self.mention(z3.IntVal(0))
        self.mention(z(self.r))
        self.install()

    # ------------------------------------------------------------ terms
    def taint(self, name):
        self.tainted.add(name)
        return name

    def uniform(self, t):
        return not any(n in self.tainted for n in consts(t))

    def new(self, name, *of):
        """a constant; depends on the worker if one of the terms does"""
        n = self.c.fresh(name)
        if not all(self.uniform(t) for t in of):
            self.taint(n)
        return z3.Int(n)

    def mention(self, w):
        w = z3.simplify(w)
        if any(w.eq(x) for x in self.workers):
            return
        self.workers.append(w)
        for k in list(self.cuts):
            k.mention(w)
        for h in list(self.hooks):
            h(w)

    def on_worker(self, h):
        self.hooks.append(h)
        for w in list(self.workers):
            h(w)

    def product(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(x) or z3.is_int_value(y):
            return z3.simplify(x * y)
        if not self.c.valid(y >= 0):
            if not self.c.valid(x >= 0):
                return x * y
            x, y = y, x
        for a, b in ((x, y), (y, x)):
            if any(a.eq(p) and b.eq(q) for p, q in self.products):
                return self.mul(a, b)
        self.law(x, y)
        return self.mul(x, y)

    def law(self, x, y):
        c, m = self.c, self.mul
        if any(x.eq(p) and y.eq(q) for p, q in self.products):
            return
        t = m(x, y)
        fact(('times', x, y), lambda: z3.And(z3.Implies(z3.And(x >= 0, y >= 0), t >= 0), z3.Implies(z3.And(x >= 1, y >= 0), t >= y), z3.Implies(z3.And(x >= 0, y >= 1), t >= x),
                                             z3.Implies(x == 0, t == 0), z3.Implies(x == 1, t == y), z3.Implies(x == 2, t == 2 * y)))
        for p, q in self.products:
            if q.eq(y):
                s = m(p, q)
                fact(('times2', x, y, p), lambda: z3.And(z3.Implies(z3.And(x + 1 <= p, y >= 0), t + y <= s), z3.Implies(z3.And(p + 1 <= x, y >= 0), s + y <= t),
                                                         z3.Implies(x == p, t == s), z3.Implies(x == p + 1, t == s + y), z3.Implies(p == x + 1, s == t + y)))
        self.products.append((x, y))

    def rem(self, x, m):
        c = self.c
        x, m = z3.simplify(x), z3.simplify(m)
        t = self.mod(x, m)
        k = (x.get_id(), m.get_id())
        if k not in self.seen:
            self.seen.add(k)
            self.keep = getattr(self, 'keep', []) + [(x, m)]
            c.assume(z3.Implies(m > 0, z3.And(0 <= t, t < m)))
            c.assume(z3.Implies(z3.And(m > 0, -m <= x, x < 0), t == x + m))
            c.assume(z3.Implies(z3.And(m > 0, 0 <= x, x < m), t == x))
            c.assume(z3.Implies(z3.And(m > 0, m <= x, x < 2 * m), t == x - m))
        return t

    def laws(self, t):
        """laws of the products and remainders that occur in a term"""
        for x in apps(t, self.mul):
            self.law(*x.children())
        for x in apps(t, self.mod):
            self.rem(*x.children())

    def at_worker(self, t, w):
        """a term of this worker, for worker w"""
        if not self.mpi:
            return t
        ks = [n for n in consts(t) if n in self.tainted]
        if ks not in ([], ['rank']):
            raise Unsupported('a term that depends on the worker in an unknown way: %s' % ks)
        u = z3.simplify(z3.substitute(t, (self.r.t, w)))
        self.laws(u)
        return u

    def rounded(self, num, den, up):
        c = self.c
        num, den = z3.simplify(num), z3.simplify(den)
        for a, b, u, q in self.roundings:
            if a.eq(num) and b.eq(den) and u == up:
                return q
        if not c.valid(den > 0):
            raise Unsupported('rounded quotient with a divisor not known to be positive')
        if not c.valid(num >= 0) and c.valid(num <= 0):
            return mknum(z3.simplify(-z(self.rounded(-num, den, not up))))
        if z3.is_int_value(den) and den.as_long() == 1:
            q = mknum(num)
        else:
            t = self.new('quotient', num, den)
            p = self.product(t, den)
            c.assume(z3.And(num <= p, p - den < num) if up else z3.And(p <= num, num < p + den))
            # signs
            c.assume(z3.Implies(num >= 0, t >= 0))
            c.assume(z3.Implies(num >= 1, t >= 1) if up else z3.Implies(num >= den, t >= 1))
            q = SNum(t)
        self.roundings.append((num, den, up, q))
        return q

    def binop(self, I, op, a, b):
        if op == '*' and isinstance(a, list) and isinstance(b, SNum) and len(a) == 1 and a[0] is None:
            if not self.c.valid(b.t >= 0):
                raise Unsupported('number of sums')
            return Cells(b)
        if op == '*' and isinstance(b, list) and isinstance(a, SNum):
            return self.binop(I, op, b, a)
        if isinstance(a, SNum) or isinstance(b, SNum):
            if op == '/' and V.is_number(a) and V.is_number(b):
                x, y = int_of(a), int_of(b)
                if x is not None and y is not None:
                    if not self.c.valid(y != 0):
                        self.c.prove(y != 0, 'no division by zero')
                    if self.c.valid(y > 0):
                        return Quot(x, y)
            ia = isinstance(a, (int, SNum)) and not isinstance(a, bool) and z(a).sort() == I_
            ib = isinstance(b, (int, SNum)) and not isinstance(b, bool) and z(b).sort() == I_
            if ia and ib:
                if op == '*':
                    return mknum(self.product(z(a), z(b)))
                if op == '**' and isinstance(b, int) and b == 2:
                    return mknum(self.product(z(a), z(a)))
                if op == '//' and isinstance(b, SNum) and self.c.valid(b.t > 0):
                    return self.rounded(z(a), b.t, False)
                if op == '%' and isinstance(b, SNum) and self.c.valid(b.t > 0):
                    return mknum(self.rem(z(a), b.t))
        return type(self.run).binop(self.run, I, op, a, b)

    # ------------------------------------------------------------ the surroundings of the code
    def install(self):
        I, c, run = self.I, self.c, self.run
        run.binop = self.binop
        if self.mpi:
            MPI = NS('MPI', {n: Opaque('MPI.' + n) for n in ('Intracomm', 'SUM', 'MINLOC', 'MAXLOC')})
            MPI.members['COMM_WORLD'] = Comm(self)
            I.libs['mpi4py'] = NS('mpi4py', dict(MPI=MPI))
            I.libs['mpi4py.MPI'] = MPI
            run.contracts['class reductions:Intracomm'] = lambda I, cls, a, k: Custom(self)

            def make_set(I, x):
                k = c.int_('num_nodes', 1)
                c.assume(k.t <= z(self.P))
                return SList(k, None, kind='set')
            run.make_set = make_set
        run.contracts['parallel:find_assignments'] = self.assignments
        run.contracts['vectorspace:VectorSpaceHandles.print_msg'] = lambda I, f, a, k: None
        N = I.libs['numpy'].members
        for nm in ('ceil', 'floor'):
            N[nm] = Native(nm, lambda x, nm=nm: self.plain_round(x, nm))
        for nm in ('result_type', 'promote_types', 'triu', 'tril', 'multiply'):
            if nm not in N or N[nm].name != nm:
                N[nm] = Native(nm, lambda *a, **k: (_ for _ in ()).throw(Unsupported('numpy function')))
        z0, s0 = N['zeros'], N['sum']

        def zeros(shape, dtype=None, **k):
            if isinstance(dtype, (DType, Opaque)) and isinstance(shape, tuple) and len(shape) == 2:
                return Table(shape)
            return z0.f(shape, dtype, **k)
        N['zeros'] = Native('zeros', zeros)
        I.libs['time'] = NS('time', dict(time=Native('time', lambda: Noise()), perf_counter=Native('perf_counter', lambda: Noise())))
        run.minmax = self.minmax
        run.symbolic_comp = self.filtered
        run.lazy_map = self.nones
        run.sum_seq = self.sum_seq
        run.range_len = self.range_len
        run.range_mul = lambda i, step: mknum(self.product(z(i), z(step)))
        run.lazy_probe = self.probe
        run.noise_if = self.noise_if
        run.loop_rules = [self.loop]
        run.havoc_attrs = {('VectorSpaceHandles', 'prev_print_time'): lambda: Noise()}
        run.at_end = self.at_end
        run.assumed.add('mpi4py: a message is received by the recv with its source and tag, messages between the same workers with the same tag in order; isend does not wait')

    def plain_round(self, x, name):
        if isinstance(x, (int, float)):
            return float(math.ceil(x) if name == 'ceil' else math.floor(x))
        if isinstance(x, SNum):
            k = as_int(x.t)
            if k is not None:
                return mknum(k)
        raise Unsupported('rounding')

    def assignments(self, I, f, args, kw):
        b = I.bind_args(f, args, kw)
        c = self.c
        t = b['tasks']
        if b.get('task_weights') is not None:
            raise Unsupported('weighted tasks')
        n, at = I.seq(t)
        i = z3.Int(c.fresh('task'))
        if isinstance(t, (list, tuple)):
            if not len(t) or not all(isinstance(x, (int, SNum)) and c.valid(z(x) == z(t[0]) + k) for k, x in enumerate(t)):
                raise Unsupported('tasks that are not a range of numbers')
            e = SNum(i + z(t[0]))
        else:
            e = self.under(z3.And(0 <= i, i < z(n)), lambda: at(SNum(i)))
        first = z3.simplify(z3.substitute(z(e), (i, z3.IntVal(0)))) if isinstance(e, SNum) else None
        if first is None or not c.valid(z(e) == first + i):
            raise Unsupported('tasks that are not a range of numbers')
        k = self.cut(first, z(n))
        r = SList(self.P, lambda w: IP.SRange(mknum(k.lo(z(w))), mknum(k.hi(z(w)))))
        r.meta['cut'] = k
        return r

    def cut(self, base, n):
        base, n = z3.simplify(base), z3.simplify(n)
        if not self.c.valid(n >= 0):
            raise Unsupported('number of tasks')
        for k in self.cuts:
            if self.c.valid(z3.And(k.n == n, k.base == base)):
                return k
        k = Cut(self, base, n)
        if not (self.uniform(base) and self.uniform(n)):
            raise Unsupported('tasks that depend on the worker')
        self.cuts.append(k)
        for w in list(self.workers):
            k.mention(w)
        self.on_cut(k)
        return k

    def on_cut(self, k):
        pass

    def minmax(self, I, name, x):
        c = self.c
        n, at = I.seq(x)
        if not c.valid(z(n) == z(self.P)):
            return type(self.run).minmax(self.run, I, name, x)
        w = z3.Int(c.fresh('extreme_worker'))
        c.assume(z3.And(0 <= w, w < z(self.P)))
        self.mention(w)
        e = z(at(SNum(w)))
        i = z3.Int('any_worker')
        v = z3.Int(c.fresh(name))      # of all workers: the same for each
        c.assume(v == e)
        self.on_worker(lambda u: c.assume(z3.Implies(z3.And(0 <= u, u < z(self.P)), z(at(SNum(u))) <= v if name == 'max' else z(at(SNum(u))) >= v)))
        return SNum(v)

    def filtered(self, I, e, fr, it):
        """[x for x in runs if ...], the condition true for the first workers only"""
        c = self.c
        n, at = I.seq(it)
        g = e.generators[0]
        if len(e.generators) != 1 or len(g.ifs) != 1 or not c.valid(z(n) == z(self.P)):
            raise Unsupported('filtered comprehension')
        snap = I.snapshot(fr)

        def pred(w):
            f2 = I.subframe(snap)
            I.assign(g.target, at(SNum(w)), f2)
            r = I.ev(g.ifs[0], f2)
            if isinstance(r, SNum):
                r = SBool(r.t != 0)
            return z(r)

        def item(i):
            f2 = I.subframe(snap)
            I.assign(g.target, at(i), f2)
            return I.ev(e.elt, f2)
        return SList(SNum(self.prefix(n, pred)), item)

    def prefix(self, n, pred):
        """number of workers of which pred is true: the first ones"""
        c = self.c
        if not c.valid(z(n) == z(self.P)):
            raise Unsupported('number of true items')
        x, y = z3.Int(c.fresh('wx')), z3.Int(c.fresh('wy'))
        c.assume(z3.And(0 <= x, x <= y, y < z(self.P)))
        self.mention(x)
        self.mention(y)
        px, py = pred(x), pred(y)
        if not c.valid(z3.Implies(py, px)):
            raise Unsupported('a condition that is not true for the first workers only')
        self.run.assumed.add('counting lemma: a predicate on 0..n-1 that is true on a prefix holds of i iff i < (number of true entries)')
        m = z3.Int(c.fresh('active'))
        c.assume(z3.And(0 <= m, m <= z(self.P)))
        self.on_worker(lambda w: c.assume(z3.Implies(z3.And(0 <= w, w < z(self.P)), pred(w) == (w < m))))
        self.active = m
        return m

    def nones(self, I, e, fr, it):
        """[None for ... in ...]"""
        if not (isinstance(e, ast.ListComp) and isinstance(e.elt, ast.Constant) and e.elt.value is None):
            return NotImplemented
        n, at = I.seq(it)
        if not self.c.valid(z(n) >= 0):
            raise Unsupported('number of sums')
        return Cells(n)

    def sum_seq(self, I, x):
        """how many items a comprehension has, or how many are true"""
        n, at = I.seq(x)
        c = self.c
        i = z3.Int(c.fresh('item'))
        k = len(c.taken)
        e = self.under(z3.And(0 <= i, i < z(n)), lambda: at(SNum(i)))
        if len(c.taken) != k or e is None:
            raise Unsupported('sum of a symbolic sequence')
        if isinstance(e, int) and e == 1:
            return mknum(z(n))
        if isinstance(e, (bool, SBool)):
            return mknum(z(self.prefix(n, lambda w: z(at(SNum(w))))))
        raise Unsupported('sum of a symbolic sequence')

    def probe(self, n, i, f):
        """an arbitrary item of a list is computed once when the list is made"""
        self.under(z3.And(0 <= i.t, i.t < n), f)

    def under(self, cond, f):
        """f() where cond holds; without assuming it afterwards, unless decisions are taken"""
        c = self.c
        c.solver.push()
        k, t = len(c.pc), len(c.taken)
        c.assume(cond)
        r = None
        if c.valid(z3.BoolVal(False)):
            c.solver.pop()
            del c.pc[k:]
            c.vcache = {}
            return None
        r = f()
        if len(c.taken) != t:
            return r            # decisions were taken: this path goes on where cond holds
        new = c.pc[k:]
        c.solver.pop()
        del c.pc[k:]
        c.vcache = {}
        for x in new:
            if not x.eq(cond):
                c.assume(z3.Implies(cond, x))
        return r

    def noise_if(self, I, st, fr, test):
        """a branch that only the clock decides may do nothing but report progress"""
        if not (z3.is_const(test.t) and test.t.decl().name().startswith('noise')) or st.orelse:
            return False
        c = self.c
        h = loops.Heap(c)
        names = loops.assigned(st.body)
        k = len(self.skel), len(self.pending)
        I.block(st.body, fr)
        h.check(self.run)
        if (len(self.skel), len(self.pending)) != k:
            raise Unsupported('a branch that the clock decides')
        for x in names:
            if x in fr.locals:
                fr.locals[x] = POISON
        return True

    def range_len(self, start, stop, step):
        n = z3.simplify(z(stop) - z(start))
        c = self.c
        if c.decide(n <= 0):
            return 0
        return self.rounded(n, z(step), True)

    # ------------------------------------------------------------ communication
    def event(self, *e):
        if not self.muted:
            self.skel.append(e)

    def send(self, I, obj, dest, tag):
        q = Request()
        self.pending.append((obj, dest, tag, q, False))
        return q

    def recv(self, I, source, tag):
        c = self.c
        if not self.open:
            raise Unsupported('a message outside a loop')
        L = self.open[-1]
        if len(self.pending) != 1 or L.get('exchanged') and not self.muted:
            raise Unsupported('a receive that is not paired with one earlier send')
        obj, dest, stag, q, _ = self.pending.pop()
        L.setdefault('requests', []).append(q)
        S, D, ST, RT, r, P = z(source), z(dest), z(stag), z(tag), self.r.t, self.P.t
        m = P
        if self.active is not None and c.valid(r < self.active) and c.valid(z3.And(0 <= S, S < self.active, 0 <= D, D < self.active)) and not c.valid(self.active == P):
            m = self.active
        if not self.muted:
            c.prove(z3.And(0 <= S, S < m, 0 <= D, D < m, r < m), 'messages are exchanged with workers that exist and take part')
            c.prove(self.at_worker(D, S) == r, 'the worker a message is expected from sends to this worker')
            c.prove(self.at_worker(S, D) == r, 'the worker a message is sent to expects it from this worker')
            c.prove(self.at_worker(ST, S) == RT, 'the tag of the message expected is that of the message sent')
            c.prove(self.at_worker(RT, D) == ST, 'the tag of the message sent is that expected')
            L['exchanged'] = m
        items = obj if isinstance(obj, tuple) else (obj,)
        out = []
        for n, x in enumerate(items):
            t = self.same_for_all((self.run.cur, 'item %d of the message' % n), x, self.match)
            if t is None:
                raise Unsupported('what a message carries')
            kind, ch, who = t
            out.append(self.make(kind, ch, who(S)))
        return tuple(out) if isinstance(obj, tuple) else out[0]

    def holders(self):
        """whose chunk this worker may hold: its own, or that of the worker `shift` places before it"""
        yield lambda w: w
        for L in reversed(self.open):
            if L.get('shift') is not None:
                yield self.earlier(L)

    def earlier(self, L):
        f = lambda w: self.before(w, L['shift'], L)
        f.way = 'before at level %d' % [n for n, x in enumerate(self.open) if x is L][0]
        return f

    def before(self, w, k, L):
        """worker (w - k) mod P, where 0 <= k <= P"""
        c = self.c
        w, k = z3.simplify(w), z3.simplify(k)
        for a, b, o in L.setdefault('befores', []):
            if a.eq(w) and b.eq(k):
                return o
        o = z3.Int(self.taint(c.fresh('origin')))
        P = z(self.P)
        x = w - k if L['sign'] < 0 else w + k
        c.assume(o == z3.If(x < 0, x + P, z3.If(x >= P, x - P, x)))
        L['befores'].append((w, k, o))
        self.mention(o)
        return o

    def kind(self, x):
        """('int',) or ('vec', collection), length, position function of a list"""
        c = self.c
        if isinstance(x, (list, tuple)):
            if len(x) > 1 or len(x) == 1 and not isinstance(x[0], (HVec, int, SNum)):
                return None
            x = SList(len(x), lambda i, x=x: x[0])
        try:
            n, at = self.I.seq(x)
        except Unsupported:
            return None
        if isinstance(n, int) and n == 0 or c.valid(z(n) == 0):
            return ('any',), z3.IntVal(0), lambda i: i
        i = z3.Int(c.fresh('at'))
        t = len(c.taken)
        e = self.under(z3.And(0 <= i, i < z(n)), lambda: at(SNum(i)))
        if len(c.taken) != t:
            raise Unsupported('item of a list')
        if isinstance(e, HVec):
            return ('vec', e.coll), z(n), lambda j: z3.substitute(e.i, (i, j))
        if isinstance(e, Handle):
            return ('handle', e.coll), z(n), lambda j: z3.substitute(z(e.i), (i, j))
        if isinstance(e, (int, SNum)) and z(e).sort() == I_:
            return ('int',), z(n), lambda j: z3.substitute(z(e), (i, j))
        return None

    def chunks(self):
        for k in self.cuts:
            for L in reversed(self.open):
                for wd in [z3.IntVal(1)] + self.widths:
                    yield Chunk(k, z(L['i']), wd)
            yield Chunk(k)

    def match(self, x):
        """(kind, chunk, holder) of a list that is a chunk of someone's tasks"""
        c = self.c
        if not isinstance(x, (list, tuple, SList, IP.SRange)):
            return None
        k = self.kind(x)
        if k is None:
            return None
        kind, n, pos = k
        hint = getattr(x, 'chunk', None)
        if hint is not None:
            if kind in (hint[0], ('any',)) and self.is_chunk(kind, n, pos, hint[1], hint[2](z(self.r))):
                return hint
            hint = None
        if kind == ('any',):
            return None
        for who in self.holders():
            w = who(z(self.r))
            for ch in self.chunks():
                if self.is_chunk(kind, n, pos, ch, w):
                    return kind, ch, who
        return None

    def level_name(self, t):
        """a term with the open loops' iterations named by their depth"""
        return str(z3.simplify(z3.substitute(t, *[(z(L['i']), z3.Int('level%d' % n)) for n, L in enumerate(self.open)]))) if self.open else str(t)

    def shape_of(self, kind, ch):
        level = None
        if ch.h is not None:
            level = [n for n, L in enumerate(self.open) if z(L['i']).eq(ch.h)]
            level = level[0] if level else str(ch.h)
        kind = ('vec', kind[1].name) if kind[0] == 'vec' else kind
        return kind, self.level_name(ch.cut.base), self.level_name(ch.cut.n), level, None if ch.width is None else str(ch.width)

    def same_for_all(self, key, x, match):
        """the chunk that every worker holds here; empty lists are explained by what other paths show"""
        k = self.kind(x) if isinstance(x, (list, tuple, SList, IP.SRange)) else None
        if k is None:
            return None
        known = self.remembered(key)
        t = match(x) if k[0] != ('any',) else None
        m = t and (self.shape_of(t[0], t[1]), self.way(t[2]))
        if not known:
            if k[0] == ('any',):
                raise Postponed('%s is empty' % (key[1],))
            self.remember(key, m)
            return t
        if known == [m]:
            return t
        if known == [None]:
            if k[0] == ('any',):
                return None
            raise Unsupported('%s: not the same on every worker' % (key[1],))
        out = None
        for y in known:
            out = None
            for who in self.holders():
                if y is not None and self.way(who) == y[1] and out is None:
                    out = self.rebuild(y[0], k, who)
            if out is None:
                if os.environ.get('RING_DEBUG'):
                    print('SAME', key, known, m, k, self.cuts, self.uniform_facts())
                raise Unsupported('%s: not the same on every worker' % (key[1],))
        if len(known) > 1:
            raise Unsupported('%s: not the same on every worker' % (key[1],))
        return out

    def uniform_facts(self):
        return [f for f in self.c.pc if self.uniform(f)]

    def remembered(self, key):
        """what other paths that other workers may be on at the same time have shown"""
        memory = self.run.__dict__.setdefault('ring_memory', {})
        if key not in memory:
            return []
        uni = self.uniform_facts()
        ids = {f.get_id() for f in uni}
        out = []
        for facts, m in memory[key]:
            if m in out:
                continue
            if {f.get_id() for f in facts} != ids and self.exclusive(uni, facts):
                continue
            out.append(m)
        return out

    def exclusive(self, uni, facts):
        memo = self.run.__dict__.setdefault('ring_exclusive', {})
        k = tuple(f.get_id() for f in uni), tuple(f.get_id() for f in facts)
        if k not in memo:
            q = z3.Solver()
            core.limit(q, 2000)
            q.add(*uni)
            q.add(*facts)
            memo[k] = (q.check() == z3.unsat, uni, facts)
        return memo[k][0]

    def remember(self, key, m):
        self.run.ring_memory.setdefault(key, []).append((self.uniform_facts(), m))

    def rebuild(self, known, k, who):
        kind, base, n, level, width = known
        for q in self.cuts:
            if self.level_name(q.base) != base or self.level_name(q.n) != n:
                continue
            if level is None:
                ch = Chunk(q)
            elif isinstance(level, int) and level < len(self.open):
                ws = [w for w in [z3.IntVal(1)] + self.widths if str(w) == width]
                if not ws:
                    continue
                ch = Chunk(q, z(self.open[level]['i']), ws[0])
            else:
                continue
            if kind[0] == 'vec':
                kind = ('vec', [x for x in self.colls if x.name == kind[1]][0])
            if k[0] in (('any',), kind) and self.is_chunk(k[0], k[1], k[2], ch, who(z(self.r))):
                return kind, ch, who
        return None

    def way(self, who):
        return getattr(who, 'way', 'own')

    def held(self, st, name, v, L0):
        """the chunk of this worker's tasks that a variable holds after the first pass"""
        def match(x):
            t = self.match(x)
            if t is None or t[0][0] not in ('vec', 'int') or t[1].h is not None and t[1].h.eq(z3.IntVal(0)) or self.way(t[2]) != 'own':
                return None
            return t
        t = self.same_for_all((st.lineno, name), v, match)
        return None if t is None else t[:2]

    def is_chunk(self, kind, n, pos, ch, w):
        c = self.c
        lo, hi = ch.lo(w), ch.hi(w)
        if not c.valid(n == hi - lo):
            return False
        j = z3.Int('position')
        return kind == ('any',) or c.valid(z3.Implies(z3.And(0 <= j, j < n), pos(j) == lo + j))

    def make(self, kind, ch, w, who=None):
        lo, hi = ch.lo(w), ch.hi(w)
        n = mknum(hi - lo)
        if kind[0] == 'vec':
            r = SList(n, lambda i: HVec(kind[1], z3.simplify(lo + z(i))))
        elif kind[0] == 'int':
            r = SList(n, lambda i: mknum(lo + z(i)))
        if kind[0] in ('vec', 'int'):
            if who is not None:
                r.chunk = (kind, ch, who)
            return r
        raise Unsupported('list of unknown contents')

    # ------------------------------------------------------------ loops
    def pin(self, st, it, n, at):
        """coverage: the iteration to execute; None: go on after the loop; NotImplemented: either (safety)"""
        return NotImplemented

    def gathered(self, I, st, fr, it):
        """a loop that does nothing but append one item per iteration to an empty list, as a comprehension"""
        if st.orelse or not st.body:
            return False
        *before, last = st.body
        ifs = []
        while isinstance(last, ast.If) and not last.orelse and not before and len(last.body) >= 1:
            ifs.append(last.test)
            *before, last = last.body
        if not (isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and isinstance(last.value.func, ast.Attribute) and last.value.func.attr == 'append' and
                isinstance(last.value.func.value, ast.Name) and len(last.value.args) == 1 and not last.value.keywords and not isinstance(last.value.args[0], ast.Starred)):
            return False
        X = last.value.func.value.id
        l = fr.locals.get(X)
        if type(l) is not list or l:
            return False
        temps = {}

        class Inline(ast.NodeTransformer):
            def visit_Name(self, n):
                return temps.get(n.id, n) if isinstance(n.ctx, ast.Load) else n
        inline = lambda e: Inline().visit(copy.deepcopy(e))
        for b in before:
            if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)):
                return False
            temps[b.targets[0].id] = inline(b.value)
        names = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} | set(temps)
        elt = inline(last.value.args[0])
        if X in names or any(isinstance(x, ast.Name) and x.id == X for e in [elt] + ifs for x in ast.walk(e)):
            return False
        import gc
        for r in gc.get_referrers(l):
            if r is fr.locals or r is self.c.lists or type(r).__name__ in ('frame', 'cell') or isinstance(r, tuple) and len(r) == 2 and r[0] == 'list':
                continue
            return False
        e = ast.copy_location(ast.ListComp(elt=elt, generators=[ast.comprehension(target=st.target, iter=ast.Name(id='%it', ctx=ast.Load()), ifs=ifs, is_async=0)]), st)
        ast.fix_missing_locations(e)
        fr.locals['%it'] = it
        try:
            r = I.ev(e, fr)
        finally:
            del fr.locals['%it']
        for k in names:
            if k in fr.locals or k in temps:
                fr.locals[k] = POISON
        fr.locals[X] = r
        return True

    def loop(self, I, st, fr, it):
        c = self.c
        if self.gathered(I, st, fr, it):
            return
        n, at = I.seq(it)
        uni = self.uniform(z(n))
        names = loops.assigned(st.body) | loops.assigned([ast.Assign(targets=[st.target], value=ast.Constant(value=None))])
        outer = {k: fr.locals.get(k) for k in names}
        special = {k for k, v in outer.items() if isinstance(v, Table)}
        p = NotImplemented if self.muted else self.pin(st, it, n, at)
        if self.muted:
            body = False
        elif p is NotImplemented:
            body = c.decide(z3.Bool(c.fresh('inside')))
        else:
            body = p is not None
        self.skel.append(('loop', st.lineno, uni))
        touched = self.stored(I, st.body, fr)
        if not body:
            for k in names - special:
                if k in fr.locals:
                    fr.locals[k] = POISON
            for x in touched:
                self.close(x, st)
            if st.orelse:
                I.block(st.orelse, fr)
            return
        i = self.new('it', z(n))
        c.assume(z3.And(0 <= i, i < z(n)))
        c.check_feasible()
        L = dict(i=i, n=z(n), at=at, it=it, line=st.lineno, st=st, skel=len(self.skel), pend=len(self.pending))
        if p is not NotImplemented:
            c.assume(i == z(p))
        ring = self.mpi and c.valid(z(n) == z(self.P))
        for x in touched:
            if isinstance(x, Cells) and x.state == 'new':
                x.state = 'filling'
                x.filler = st
        later = False
        h = loops.Heap(c)
        if ring and c.decide(i != 0):
            later = True
            L['sign'] = self.run.cfg.get('sign', -1)
            self.muted += 1
            L0 = dict(L, i=z3.IntVal(0))
            self.open.append(L0)
            self.body(I, st, fr, at, 0)
            self.open.pop()
            self.muted -= 1
            self.open.append(L)
            L['shift'] = z3.simplify(i - 1)
            inv = {}
            for k in sorted(names):
                v = fr.locals.get(k)
                t = self.held(st, k, v, L0) if v is not None and v is not POISON else None
                if t is not None:
                    inv[k] = t
            for k in names - special:
                if k in inv:
                    kind, ch = inv[k]
                    o = self.before(z(self.r), L['shift'], L)
                    fr.locals[k] = self.make(kind, ch, o, self.earlier(L))
                elif k in fr.locals:
                    fr.locals[k] = POISON
        else:
            self.open.append(L)
            if not ring:
                for k in names - special:
                    if k in fr.locals:
                        fr.locals[k] = POISON
        c.check_feasible()
        self.body(I, st, fr, at, SNum(i))
        # ---- the end of the iteration
        h.check(self.run)
        for k in special:
            if fr.locals.get(k) is not outer[k]:
                raise Unsupported('the array is replaced in a loop')
        if later:
            o = self.before(z(self.r), i, L)
            for k, (kind, ch) in sorted(inv.items()):
                v = fr.locals.get(k)
                kk = self.kind(v) if v is not None and v is not POISON else None
                ok = kk is not None and kk[0] in (kind, ('any',))
                if not ok:
                    raise Unsupported('%s changes its kind from pass to pass' % k)
                lo, hi = ch.lo(o), ch.hi(o)
                j = z3.Int('position')
                c.prove(kk[1] == hi - lo, 'after the pass, %s holds as many items as the preceding worker had' % k)
                c.prove(z3.Implies(z3.And(0 <= j, j < kk[1]), kk[2](j) == lo + j), 'after the pass, %s holds what the preceding worker had' % k)
        for q in L.get('requests', []):
            self.run.obligation(c, 'every send is completed', q.done, 'frame', 0, '', None)
        self.run.obligation(c, 'every send is received in its round', len(self.pending) == L['pend'], 'frame', 0, '', None)
        self.record(L, later)
        self.run.obligation(c, 'no vector is modified', not c.mutated, 'frame', 0, 'modified: %s' % c.mutated, None)
        self.end_body(L)
        raise PathDone()

    def end_body(self, L):
        pass

    def body(self, I, st, fr, at, i):
        try:
            I.assign(st.target, at(i), fr)
            I.block(st.body, fr)
        except IP.Cont:
            pass
        except (IP.Brk, IP.Ret):
            raise Unsupported('a loop that is left early')

    def stored(self, I, body, fr):
        """tables and cell lists that the body assigns items of"""
        out = []
        for k, node in loops.stores(body).items():
            if isinstance(node, ast.Name):
                v = fr.locals.get(node.id)
                if isinstance(v, (Table, Cells)) and not any(v is x for x in out):
                    out.append(v)
        for b in body:           # handed to a function that may assign items
            for x in ast.walk(b):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                    for a in list(x.value.args) + [k.value for k in x.value.keywords]:
                        if isinstance(a, ast.Name) and any(isinstance(t, ast.Name) and t.id == a.id for t in x.targets):
                            v = fr.locals.get(a.id)
                            if isinstance(v, (Table, Cells)) and not any(v is y for y in out):
                                out.append(v)
        return out

    def close(self, x, st):
        """after the loop that fills a table or a list of sums"""
        if self.muted:
            return
        if isinstance(x, Cells):
            if x.state == 'new':
                x.state = 'full'
            elif x.state == 'full':
                raise Unsupported('sums filled by two loops')
            return
        if self.open or x.state != 'new':
            if self.open:
                return
            raise Unsupported('an array filled by two loops')
        self.filled(x)

    # ------------------------------------------------------------ who communicates when
    def record(self, L, later):
        c = self.c
        skel = tuple(self.skel[L['skel']:]) if L else tuple(self.skel)
        line = (L['line'], later) if L else (0, False)
        uni = [f for f in c.pc if self.uniform(f)]
        rec = dict(line=line, skel=skel, uni=uni, p2p=bool(L and L.get('exchanged') is not None))
        if L and not rec['p2p']:
            rec['idle'] = c.valid(z3.BoolVal(False)) or (self.active is not None and not c.valid(self.active == z(self.P)) and c.valid(z(self.r) >= self.active))
        if L and rec['p2p']:
            rec['all'] = not (self.active is not None and L['exchanged'] is self.active)
        self.records.append(rec)

    def at_end(self):
        """collective operations do not depend on the worker; a worker is absent from an exchange only if it takes no part"""
        run = self.run
        recs = run.ring_records
        comm = set()
        grow = True
        while grow:
            grow = False
            for r in recs:
                if r['line'][0] not in comm and (r['p2p'] or any(e[0] in ('barrier', 'allreduce') or e[0] == 'loop' and e[1] in comm for e in r['skel'])):
                    comm.add(r['line'][0])
                    grow = True
        bad = None
        groups = {}
        for r in recs:
            s = tuple(e[:2] for e in r['skel'] if e[0] != 'loop' or e[1] in comm)
            groups.setdefault(r['line'], []).append((s, r))
            for e in r['skel']:
                if e[0] == 'loop' and e[1] in comm and not e[2]:
                    bad = 'the number of rounds of the loop at line %s depends on the worker' % e[1]
        for line, rs in groups.items():
            for n, (s, r) in enumerate(rs):
                for s2, r2 in rs[:n]:
                    if s != s2:
                        if not self.exclusive(r['uni'], r2['uni']):
                            bad = 'collective operations after line %s: %s or %s' % (line, s, s2)
            if any(r['p2p'] for s, r in rs):
                for s, r in rs:
                    if not r['p2p'] and not (r['idle'] and not any(x['p2p'] and x['all'] for _, x in rs)) and not r['idle']:
                        bad = 'a worker that takes part skips the exchange in the loop at line %s' % line[0]
        run.obligation(self.c, 'all workers take part in the same communication', bad is None, 'frame', 0, bad or '', None)

    # ------------------------------------------------------------ given by the property
    def written(self, table, a, b, v):
        raise Unsupported('array assignment')

    def added(self, cells, k, v):
        raise Unsupported('list assignment')

    def put(self, I, handle, v):
        self.c.prove(z3.BoolVal(False), 'nothing is put into any handle')

    def filled(self, table):
        raise Unsupported('array')

    def reduced(self, table):
        raise Unsupported('array')
