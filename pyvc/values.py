"""Symbolic arrays and the operations of numbers and arrays."""
from fractions import Fraction as Fr
import numbers
import numpy as real_np
import z3
from core import *
import core
import algebra
from algebra import one

Num = z3.DeclareSort('Num')        # entries of arrays that are only moved around


class Buf(object):
    n = 0

    def __init__(self, name=None, frozen=False):
        Buf.n += 1
        self.id = Buf.n
        self.name = name
        self.frozen = frozen          # belongs to the caller
        self.version = 0
        self.stamp = 0


class Arr(object):
    """a numpy array.  Contents, any of:
      poly: 2D matrix polynomial (1D: as a column, 0D: as 1 x 1)
      spec: 1D vector given as (vec, exponent, conj): diag(self) is that letter
      elem: function of index terms giving the entry
      absof: the entrywise magnitude of the array with that polynomial
    """
    def __init__(self, shape, poly=None, spec=None, elem=None, absof=None, dtype='complex', buf=None, view=False, name=None):
        self.shape_ = tuple(shape)
        self.poly, self.spec, self.elem_, self.absof = poly, spec, elem, absof
        self.dtype = dtype
        self.buf = buf if buf is not None else Buf()
        self.view = view
        self.ver = self.buf.version
        self.name = name
        self.blocks = None
        self.diagpoly = None
        self.axis1 = None             # 2D broadcast vector: ('row'|'col', Arr 1D)
        self.meta = {}

    def __repr__(self):
        return 'Arr(%s%s)' % (self.name or '', self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    def fresh(self):
        if self.ver != self.buf.version:
            raise Unsupported('read of an array whose memory was written through another one')
        c = ctx()
        if c.lazy_limit is not None and self.buf.stamp > c.lazy_limit:
            raise Unsupported('array written after it was captured')
        if self.meta.get('locked') is not None:
            raise Unsupported('array is read while a loop writes it')
        c.reads[self.buf.id] = c.tick()
        return self

    def like(self, shape=None, view=False, **kw):
        r = Arr(self.shape_ if shape is None else shape, dtype=kw.pop('dtype', self.dtype),
                buf=self.buf if view else None, view=view, **kw)
        return r

    def written(self, content):
        """in-place change of the whole content"""
        c = ctx()
        b = self.buf
        b.version += 1
        b.stamp = c.tick()
        c.heap_writes.append(('buf', b.id))
        if b.frozen:
            c.mutated.append(b.name)
        if self.view:
            raise Unsupported('in-place change of a view')
        self.ver = b.version
        self.poly, self.spec, self.elem_, self.absof = content.poly, content.spec, content.elem_, content.absof
        self.diagpoly = content.diagpoly
        self.axis1 = None
        self.blocks = None


def mark_written(a):
    b = a.buf
    b.version += 1
    b.stamp = ctx().tick()
    ctx().heap_writes.append(('buf', b.id))
    if b.frozen:
        ctx().mutated.append(b.name)


def th():
    return ctx().th


def dkey(d):
    return ctx().dims.key(z(d))


def T(p):
    return th().T(p, True, False)


def C(p):
    return th().T(p, False, True)


def H(p):
    return th().T(p, True, True)


def mul(*ps):
    r = ps[0]
    for p in ps[1:]:
        r = th().mul(r, p)
    return r


def padd(a, b, f=1):
    return th().add(a, b, Fr(f))


ID = one()


def new_atom(base, rows, cols, **attrs):
    c = ctx()
    n = c.fresh(base)
    c.th.atoms[n] = dict(rows=dkey(rows), cols=dkey(cols), **attrs)
    c.th.new(n)
    return one((('A', n, False, False),)), n


def matrix(base, rows, cols, frozen=False, **attrs):
    p, n = new_atom(base, rows, cols, **attrs)
    a = Arr((rows, cols), poly=p, dtype='real' if attrs.get('real') else 'complex', name=n, buf=Buf(n, frozen))
    f = z3.Function('ent_' + n, z3.IntSort(), z3.IntSort(), Num)
    a.elem_ = lambda i, j: f(z(i), z(j))
    return a


def spectrum(base, n, real=True, pos=False, nonneg=False, nonzero=False):
    c = ctx()
    nm = c.fresh(base)
    c.th.vecs[nm] = dict(n=dkey(n), real=real, pos=pos, nonneg=nonneg or pos, nonzero=nonzero or pos)
    c.th.new(nm)
    f = z3.Function('val_' + nm, z3.IntSort(), z3.RealSort())
    c.th.vecs[nm]['fn'] = f
    return specvec((nm,), n)


def vec_fn(v):
    """entry i of a vector (name, sel...) of real values"""
    f = th().vecs[v[0]]['fn']
    def e(i):
        i = z(i)
        for s in reversed(v[1:]):
            i = sel_at(s, i)
        return SNum(f(i))
    return e


def sel_at(s, i):
    if s[0] == 'I':
        return z3.simplify(i + ctx().dims.term(s[1]))
    return th().idx[s[1]]['at'](i)


def specvec(v, n, e=Fr(1), conj=False, **kw):
    a = Arr((n,), spec=(v, Fr(e), conj), dtype='real' if th().vecs[v[0]]['real'] else 'complex', **kw)
    if th().vecs[v[0]]['real'] and a.spec[1] == 1:
        a.elem_ = vec_fn(v)
    return a


def diag_poly(a):
    """polynomial of the diagonal array of a 1D array"""
    if a.spec is not None:
        v, e, c = a.spec
        if e == 0:
            return ID
        return one((th().canon_letter(('D', v, e, c)),))
    if a.diagpoly is not None:
        return a.diagpoly
    if a.poly is not None and is_dim(a.shape_[0], 1):
        return a.poly
    raise Unsupported('diagonal array of this vector')


def is_dim(d, n):
    if isinstance(d, int) and isinstance(n, int):
        return d == n
    return ctx().valid(z(d) == z(n), quick=True)


def same_dim(a, b):
    """decides (branching if need be) whether two sizes agree"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ctx().decide(z(a) == z(b))


def need_same(a, b, what):
    if not same_dim(a, b):
        raise PyRaise(ValueError, ('shapes not aligned: %s' % what,))


def matpoly(a):
    """content of an array as a matrix (1D: column)"""
    a.fresh()
    if a.poly is not None:
        return a.poly
    if a.ndim == 2 and a.axis1 is not None:
        return None
    return None


def needpoly(a):
    p = matpoly(a)
    if p is None:
        raise Unsupported('matrix content of %r' % (a,))
    return p


def elem(a):
    a.fresh()
    if a.elem_ is None:
        if a.spec is not None and th().vecs[a.spec[0][0]]['real']:
            v, e, c = a.spec
            f = vec_fn(v)
            if e == 2:
                return lambda i: SNum(z(f(i)) * z(f(i)))
            if e == -1:
                return lambda i: SNum(1 / z(f(i)))
        if a.poly is not None and a.ndim in (1, 2):
            f = poly_entry(a.poly)
            return f if a.ndim == 2 else (lambda i: f(i, z3.IntVal(0)))
        raise Unsupported('entries of %r' % (a,))
    return a.elem_


def poly_entry(p):
    """entry (i, j) of the matrix given by a polynomial: selections outside are index maps, the rest is an uninterpreted function of the indices, one per polynomial"""
    p = th().canon(p)
    left, right = [], []
    while p and all(len(w) and w[0][0] == 'S' and w[0][2] for m, w in p) and len(set(w[0] for m, w in p)) == 1:
        left.append(next(iter(p))[1][0][1])
        p = {(m, w[1:]): f for (m, w), f in p.items()}
    while p and all(len(w) and w[-1][0] == 'S' and not w[-1][2] for m, w in p) and len(set(w[-1] for m, w in p)) == 1:
        right.append(next(iter(p))[1][-1][1])
        p = {(m, w[:-1]): f for (m, w), f in p.items()}
    if not p:
        g = lambda i, j: SNum(z3.Function('num', z3.RealSort(), Num)(z3.RealVal(0)))
    elif len(p) == 1 and len(next(iter(p))[1]) == 1 and next(iter(p))[1][0][0] == 'A' and not next(iter(p))[0] and next(iter(p.values())) == 1:
        _, nm, tr, cj = next(iter(p))[1][0]
        fn = z3.Function('ent_' + nm, z3.IntSort(), z3.IntSort(), Num)
        def g(i, j):
            v = SNum(fn(z(j), z(i)) if tr else fn(z(i), z(j)))
            return num_conj(v) if cj else v
    else:
        fn = z3.Function('entry_' + str(sorted(p.items(), key=str)), z3.IntSort(), z3.IntSort(), Num)
        g = lambda i, j: SNum(fn(z(i), z(j)))
    def e(i, j):
        i, j = z(i), z(j)
        for s in left:
            i = z3.simplify(sel_at(s, i))
        for s in right:
            j = z3.simplify(sel_at(s, j))
        return g(i, j)
    return e


# ------------------------------------------------------------------ products
def dot(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return binop('*', a, b)
    a.fresh(), b.fresh()
    if a.ndim == 2 and b.ndim == 2:
        need_same(a.shape_[1], b.shape_[0], 'dot')
        return Arr((a.shape_[0], b.shape_[1]), poly=mul(needpoly(a), needpoly(b)), dtype=joint(a, b))
    if a.ndim == 2 and b.ndim == 1:
        need_same(a.shape_[1], b.shape_[0], 'dot')
        return Arr((a.shape_[0],), poly=mul(needpoly(a), needpoly(b)), dtype=joint(a, b))
    if a.ndim == 1 and b.ndim == 2:
        need_same(a.shape_[0], b.shape_[0], 'dot')
        return Arr((b.shape_[1],), poly=mul(T(needpoly(b)), needpoly(a)), dtype=joint(a, b))
    if a.ndim == 1 and b.ndim == 1:
        need_same(a.shape_[0], b.shape_[0], 'dot')
        return Arr((), poly=mul(T(needpoly(a)), needpoly(b)), dtype=joint(a, b))
    if a.ndim == 0 or b.ndim == 0:
        return binop('*', a, b)
    raise Unsupported('dot of %dD and %dD arrays' % (a.ndim, b.ndim))


RANK = ['bool', 'int', 'real', 'complex']


def type_of(x):
    """type of the entries of an array or of a number"""
    if isinstance(x, Arr):
        return x.dtype
    if isinstance(x, (bool, SBool)):
        return 'bool'
    if isinstance(x, int):
        return 'int'
    if isinstance(x, (float, Fr)):
        return 'real'
    if isinstance(x, SNum):
        return 'int' if x.is_int else 'real' if x.t.sort() != Num or getattr(x, 'isreal', True) else 'complex'
    return 'complex'


def joint(*xs):
    """the type NumPy gives to sums and products"""
    return RANK[max(RANK.index(type_of(x)) if type_of(x) in RANK else 3 for x in xs)]


def inexact(x):
    """the type of quotients and of results of linear algebra"""
    return 'complex' if x == 'complex' else 'real'


def result_type(op, a, b):
    t = joint(a, b)
    if op == '/' or t == 'bool' and op not in '|&^':
        return inexact(t) if op == '/' else 'int'
    return t


def scalar_mono(v):
    """(fraction, monomial) of a scalar number, or None"""
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, Fr)):
        return Fr(v), ()
    if isinstance(v, float):
        return Fr(v), ()
    if isinstance(v, SNum):
        t = z3.simplify(v.t)
        if z3.is_rational_value(t):
            return Fr(t.numerator_as_long(), t.denominator_as_long()), ()
        if z3.is_int_value(t):
            return Fr(t.as_long()), ()
        if z3.is_const(t):
            return Fr(1), ((t.decl().name(), 1),)
        m = getattr(v, 'mono', None)
        if m is not None:
            return m
        key = str(t)
        return Fr(1), (('{' + key + '}', 1),)
    return None


def scale(a, f, m):
    a.fresh()
    kw = {}
    if a.poly is not None:
        kw['poly'] = th().add({}, a.poly, f, m)
    elif a.spec is not None and f == 1 and m == ():
        kw['spec'] = a.spec
    if a.elem_ is not None and not m:
        e = a.elem_
        def el(*i):
            v = e(*i)
            if isinstance(v, SNum) or isinstance(v, (int, Fr, float)):
                return binop('*', v, f if f.denominator != 1 else int(f))
            if f == 1:
                return v
            raise Unsupported('scaled entries')
        kw['elem'] = el
    dp = None
    if a.ndim == 1 and 'spec' not in kw and (a.spec is not None or a.diagpoly is not None):
        dp = th().add({}, diag_poly(a), f, m)
    if not kw and dp is None:
        raise Unsupported('scaling of %r' % (a,))
    r = Arr(a.shape_, dtype=a.dtype, **kw)
    r.diagpoly = dp
    return r


def power(a, e):
    a.fresh()
    e = Fr(e) if not isinstance(e, float) else Fr(e).limit_denominator(1000)
    if e == 1:
        r = Arr(a.shape_, poly=a.poly, spec=a.spec, elem=a.elem_, absof=a.absof, dtype=a.dtype)
        r.diagpoly = a.diagpoly
        return r
    if a.spec is None:
        if a.ndim == 1 and is_dim(a.shape_[0], 1) and a.poly is not None:
            raise Unsupported('power of a 1-vector without spectrum')
        raise Unsupported('power of %r' % (a,))
    v, e0, c = a.spec
    info = th().vecs[v[0]]
    ne = e0 * e
    if e.denominator != 1 and not info['nonneg']:
        raise Unsupported('fractional power of values not known to be non-negative')
    if ne < 0 and not info['nonzero']:
        raise Unsupported('negative power of values not known to be nonzero')
    return specvec(v, a.shape_[0], ne, c)


def spec_prod(a, b, sign=1):
    va, ea, ca = a.spec
    vb, eb, cb = b.spec
    if va == vb and ca == cb:
        if sign < 0 and not th().vecs[va[0]]['nonzero']:
            raise Unsupported('division by values not known to be nonzero')
        return specvec(va, a.shape_[0], ea + sign * eb, ca)
    raise Unsupported('product of different spectra')


def inv_diag(a):
    """1D array 1/a"""
    if a.spec is not None:
        return power(a, -1)
    raise Unsupported('reciprocal of %r' % (a,))


def arr_mul(a, b, sign=1):
    """elementwise a*b (sign 1) or a/b (sign -1), for arrays"""
    a.fresh(), b.fresh()
    if a.ndim == 2 and b.ndim == 1:
        need_same(a.shape_[1], b.shape_[0], 'broadcast')
        d = b if sign > 0 else inv_diag(b)
        return Arr(a.shape_, poly=mul(needpoly(a), diag_poly(d)), dtype=joint(a, b))
    if a.ndim == 1 and b.ndim == 2 and sign > 0:
        return arr_mul(b, a)
    if a.ndim == 2 and b.ndim == 2:
        for x, y in ((a, b), (b, a)):
            if y.axis1 is not None and (sign > 0 or y is b):
                kind, v = y.axis1
                d = v if sign > 0 else inv_diag(v)
                if kind == 'col':
                    need_same(x.shape_[0], v.shape_[0], 'broadcast')
                    return Arr(x.shape_, poly=mul(diag_poly(d), needpoly(x)), dtype=joint(a, b))
                need_same(x.shape_[1], v.shape_[0], 'broadcast')
                return Arr(x.shape_, poly=mul(needpoly(x), diag_poly(d)), dtype=joint(a, b))
    if a.ndim == 1 and b.ndim == 1:
        need_same(a.shape_[0], b.shape_[0], 'broadcast')
        if a.spec is not None and b.spec is not None:
            return spec_prod(a, b, sign)
        if b.spec is not None and a.poly is not None:
            d = b if sign > 0 else inv_diag(b)
            return Arr(a.shape_, poly=mul(diag_poly(d), a.poly), dtype=joint(a, b))
        if a.spec is not None and b.poly is not None and sign > 0:
            return arr_mul(b, a)
    if a.elem_ is not None and b.elem_ is not None:
        return elementwise(lambda x, y: binop('*' if sign > 0 else '/', x, y), a, b)
    raise Unsupported('elementwise product of %r and %r' % (a, b))


def broadcast(arrs):
    """common shape, and for every array the function from indices of the result to its own"""
    nd = max(a.ndim for a in arrs)
    shape = []
    for d in range(nd):
        size = 1
        for a in arrs:
            k = d - (nd - a.ndim)
            if k < 0:
                continue
            x = a.shape_[k]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(size, int) and size == 1:
                size = x
            elif not same_dim(x, size):
                if not ctx().valid(z3.And(z(x) != 1, z(size) != 1)):
                    raise Unsupported('broadcast of a size that may be one')
                raise PyRaise(ValueError, ('broadcast',))
        shape.append(size)

    def restrict(a):
        off = nd - a.ndim
        one_ = [isinstance(x, int) and x == 1 for x in a.shape_]
        return lambda i: [z3.IntVal(0) if one_[k] else i[k + off] for k in range(a.ndim)]
    return tuple(shape), [restrict(a) for a in arrs]


def elementwise(f, *arrs, **kw):
    """entrywise function of arrays, with broadcasting (numbers allowed)"""
    real = [a for a in arrs if isinstance(a, Arr)]
    shape, fs = broadcast(real)
    fs = iter(fs)
    es = [(elem(a), next(fs)) if isinstance(a, Arr) else None for a in arrs]

    def el(*i):
        return f(*[e[0](*e[1](i)) if e is not None else a for a, e in zip(arrs, es)])
    return Arr(shape, elem=el, dtype=kw.get('dtype', 'real'))


def arr_add(a, b, sign=1):
    a.fresh(), b.fresh()
    f = lambda x, y: binop('+' if sign > 0 else '-', x, y)
    if any(isinstance(x, int) and x == 1 and not (isinstance(y, int) and y == 1) for u, v in ((a, b), (b, a)) for x, y in zip(u.shape_[::-1], v.shape_[::-1])) or a.ndim != b.ndim:
        return elementwise(f, a, b, dtype=joint(a, b))
    if a.ndim == b.ndim:
        for x, y in zip(a.shape_, b.shape_):
            need_same(x, y, 'sum')
        if a.poly is not None and b.poly is not None:
            r = Arr(a.shape_, poly=padd(a.poly, b.poly, sign), dtype=joint(a, b))
            if a.elem_ is not None and b.elem_ is not None and (not b.poly or not a.poly):
                r.elem_ = a.elem_ if not b.poly else b.elem_ if sign > 0 else None
            return r
        if a.elem_ is not None and b.elem_ is not None:
            return elementwise(f, a, b, dtype=joint(a, b))
    raise Unsupported('sum of %r and %r' % (a, b))


# ------------------------------------------------------------------ numbers
def num_binop(op, a, b):
    if isinstance(a, float) or isinstance(b, float):
        a = Fr(a) if isinstance(a, float) else a
        b = Fr(b) if isinstance(b, float) else b
    ta, tb = z(a), z(b)
    if z3.is_bool(ta):
        ta = z3.If(ta, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(tb):
        tb = z3.If(tb, z3.IntVal(1), z3.IntVal(0))
    if ta.sort() == Num or tb.sort() == Num:
        return num_sort_op(op, ta, tb)
    ints = ta.sort() == z3.IntSort() and tb.sort() == z3.IntSort()
    if op == '+':
        return mknum(ta + tb)
    if op == '-':
        return mknum(ta - tb)
    if op == '*':
        r = mknum(ta * tb)
        return r
    if op == '/':
        if not ctx().valid(tb != 0):
            if ctx().decide(tb == 0):
                raise PyRaise(ZeroDivisionError)
        r = mknum(z3.ToReal(ta) / z3.ToReal(tb) if ints else (ta if ta.sort() == z3.RealSort() else z3.ToReal(ta)) / (tb if tb.sort() == z3.RealSort() else z3.ToReal(tb)))
        if isinstance(r, SNum):
            ma, mb = scalar_mono(a if not isinstance(a, float) else Fr(a)), scalar_mono(b)
            if ma and mb and mb[0] != 0:
                r.mono = (ma[0] / mb[0], algebra.mono_mul(ma[1], tuple((s, -e) for s, e in mb[1])))
        return r
    if op == '//' and ints:
        if ctx().valid(tb > 0):
            q = exact_quotient(ta, tb)
            return mknum(q if q is not None else ta / tb)
        raise Unsupported('floor division by a number not known to be positive')
    if op == '%' and ints:
        if ctx().valid(tb > 0):
            return mknum(ta % tb)
        raise Unsupported('remainder by a number not known to be positive')
    if op == '**':
        if isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1) if ta.sort() == z3.IntSort() else z3.RealVal(1)
            for _ in range(b):
                r = r * ta
            return mknum(r)
    raise Unsupported('operator %s on symbolic numbers' % op)


QUOT = []


def exact_quotient(a, b):
    """a/b when a is a product with b (also found among the known factors)"""
    c = ctx()
    for q in c.run.quotients + getattr(c, 'quotients', []):
        if c.valid(z(q) * b == a, quick=True):
            return z(q)
    return None


FN = {}


def num_term(v):
    """a number as a term of the sort of entries"""
    t = z(v)
    if t.sort() == Num:
        return t
    t = z3.simplify(t)
    if t.sort() == z3.IntSort():
        t = z3.simplify(z3.ToReal(t))
    return z3.Function('num', z3.RealSort(), Num)(t)


def num_sort_op(op, a, b):
    a, b = num_term(a), num_term(b)
    if op in '+-*/':
        f = z3.Function('op' + op, Num, Num, Num)
        return SNum(f(a, b))
    raise Unsupported('operator %s on entries' % op)


def is_sym(v):
    return isinstance(v, (SNum, SBool, Arr))


def is_number(v):
    return isinstance(v, (int, float, Fr, SNum, SBool, bool)) or (isinstance(v, complex))


def binop(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        r = arr_binop(op, a, b)
        if isinstance(r, Arr) and r is not a and r is not b:
            r.dtype = result_type(op, a, b)
        return r
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        if not (is_number(a) and is_number(b)):
            raise Unsupported('operator %s on %s and %s' % (op, type(a).__name__, type(b).__name__))
        return num_binop(op, a, b)
    if isinstance(a, Fr) or isinstance(b, Fr):
        if isinstance(a, float):
            a = Fr(a)
        if isinstance(b, float):
            b = Fr(b)
    try:
        return PY[op](a, b)
    except (TypeError, ZeroDivisionError, ValueError, IndexError, OverflowError) as e:
        raise PyRaise(type(e), e.args)


import operator
PY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
      '**': operator.pow, '@': operator.matmul, '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift}


def arr_binop(op, a, b):
    if op == '@':
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            raise PyRaise(TypeError, ('matmul',))
        return dot(a, b)
    if op == '**':
        if isinstance(a, Arr) and isinstance(b, (int, float, Fr)):
            return power(a, b)
        raise Unsupported('power')
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim == 0 and b.ndim == 0 and a.poly is not None and b.poly is not None and op in '+-':
            return arr_add(a, b, 1 if op == '+' else -1)
        if a.ndim == 0 or b.ndim == 0:
            if op == '*' and a.poly is not None and b.poly is not None and (a.ndim, b.ndim) in ((0, 1), (1, 0), (0, 0)):
                s, v = (a, b) if a.ndim == 0 else (b, a)
                return Arr(v.shape_, poly=mul(v.poly, s.poly))
            raise Unsupported('0D array arithmetic')
        if op in ('+', '-'):
            return arr_add(a, b, 1 if op == '+' else -1)
        if op in ('*', '/'):
            return arr_mul(a, b, 1 if op == '*' else -1)
        if a.elem_ is not None and b.elem_ is not None:
            return elementwise(lambda x, y: binop(op, x, y), a, b)
        raise Unsupported('array operator ' + op)
    arr, s = (a, b) if isinstance(a, Arr) else (b, a)
    if isinstance(s, (SBool, bool)):
        raise Unsupported('array and boolean')
    if not is_number(s):
        if hasattr(s, 'item') and getattr(s, 'ndim', 1) == 0:
            s = s.item()
        else:
            raise Unsupported('array operator %s with %s' % (op, type(s).__name__))
    if op in '*/' and arr.poly is None and arr.elem_ is not None and isinstance(s, SNum) and (op == '*' or arr is a):
        if op == '/' and not ctx().run.fact_valid(ctx(), z(s) != 0):
            raise Unsupported('division of an array by a number not known to be nonzero')
        def nz(x):
            if op == '*':
                return binop('*', x, s)
            tx, ts = z(x), z(s)
            if tx.sort() == Num:
                raise Unsupported('division of entries')
            return mknum((z3.ToReal(tx) if tx.sort() == z3.IntSort() else tx) / (z3.ToReal(ts) if ts.sort() == z3.IntSort() else ts))
        r = elementwise(nz, arr)
        m = scalar_mono(s)
        return r
    if op == '*':
        m = scalar_mono(s)
        if m is None:
            raise Unsupported('scalar')
        return scale(arr, *m)
    if op == '/' and arr is a:
        m = scalar_mono(s)
        if m is None or m[0] == 0:
            raise Unsupported('division')
        if m[1] and not ctx().valid(z(s) != 0):
            raise Unsupported('division of an array by a number not known to be nonzero')
        return scale(arr, 1 / m[0], tuple((n, -e) for n, e in m[1]))
    if op == '/' and arr is b and isinstance(s, (int, float, Fr)) and s == 1:
        return inv_diag(arr)
    if op in ('+', '-') and isinstance(s, (int, float)) and s == 0:
        return arr if arr is a else (arr if op == '+' else scale(arr, Fr(-1), ()))
    if arr.elem_ is not None or arr.spec is not None:
        if arr is a:
            return elementwise(lambda x: binop(op, x, s), arr)
        return elementwise(lambda x: binop(op, s, x), arr)
    raise Unsupported('array operator %s with a number' % op)


CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


MODELS = ('ring', 'spmd', 'vecs', 'common', 'loops', 'nested', 'arrays')


def unknown(x):
    """is x a value of the model, of which equality and truth are not Python's"""
    m = type(x).__module__
    return m.startswith('spec_') or m in MODELS


def compare(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        arr = a if isinstance(a, Arr) else b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return elementwise(lambda x, y: compare(op, x, y), a, b, dtype='bool')
        if b is None or a is None:
            raise Unsupported('array compared with None')
        if arr is a:
            return elementwise(lambda x: compare(op, x, b), a, dtype='bool')
        return elementwise(lambda x: compare(op, a, x), b, dtype='bool')
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        if not (is_number(a) and is_number(b)):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise PyRaise(TypeError, ('unorderable',))
        ta, tb = z(a), z(b)
        if ta.sort() == Num or tb.sort() == Num:
            if ta.sort() != tb.sort():
                f = z3.Function('num', z3.RealSort(), Num)
                lift = lambda t: t if t.sort() == Num else f(z3.simplify(z3.ToReal(t)) if t.sort() == z3.IntSort() else t)
                ta, tb = lift(ta), lift(tb)
            if op == '==':
                return mkbool(ta == tb)
            if op == '!=':
                return mkbool(ta != tb)
            ctx().run.assumed.add('the order of entries compared with a number is arbitrary (both outcomes are verified)')
            return SBool(z3.Function('order' + op, Num, Num, z3.BoolSort())(ta, tb))
        return mkbool(CMP[op](ta, tb))
    for x, y in ((a, b), (b, a)):
        if y is not None and unknown(x) and not (a is b and op in ('==', '!=')):
            raise Unsupported('comparison of %s' % type(x).__name__)
    try:
        r = CMP[op](a, b)
    except TypeError as e:
        raise PyRaise(TypeError, e.args)
    return r


def snum_abs(v):
    if isinstance(v, SNum):
        if v.t.sort() == Num:
            return SNum(z3.Function('abs', Num, Num)(v.t))
        return mknum(z3.If(v.t >= 0, v.t, -v.t))
    return abs(v)


# ------------------------------------------------------------------ transposition, conjugation, indexing
def transpose(a):
    a.fresh()
    if a.ndim < 2:
        return a
    if a.ndim == 2:
        r = a.like(shape=(a.shape_[1], a.shape_[0]), view=True, poly=None if a.poly is None else T(a.poly))
        if a.elem_ is not None:
            e = a.elem_
            r.elem_ = lambda i, j: e(j, i)
        if a.axis1 is not None:
            r.axis1 = ('row' if a.axis1[0] == 'col' else 'col', a.axis1[1])
        return r
    raise Unsupported('transposition of %dD arrays' % a.ndim)


def num_conj(v):
    if isinstance(v, SNum) and v.t.sort() == Num:
        f = z3.Function('conj', Num, Num)
        if z3.is_app(v.t) and v.t.decl().name() == 'conj':
            return SNum(v.t.arg(0))
        return SNum(f(v.t))
    if z3.is_expr(v) and v.sort() == Num:
        return num_conj(SNum(v)).t
    return v


def conj(a):
    a.fresh()
    if not isinstance(a, Arr):
        return a
    # numpy returns the array itself for real data: the result may share memory
    r = a.like(view=True, poly=None if a.poly is None else C(a.poly))
    if a.spec is not None:
        v, e, c = a.spec
        r.spec = (v, e, False if th().vecs[v[0]]['real'] else not c)
    if a.diagpoly is not None:
        r.diagpoly = C(a.diagpoly)
    if a.elem_ is not None:
        e0 = a.elem_
        if a.dtype in ('real', 'int', 'bool'):
            r.elem_ = e0
        else:
            r.elem_ = lambda *i: num_conj(e0(*i))
    if a.absof is not None:
        r.absof = a.absof
    return r


def copy_arr(a):
    a.fresh()
    r = Arr(a.shape_, poly=a.poly, spec=a.spec, elem=a.elem_, absof=a.absof, dtype=a.dtype, name=a.name)
    r.diagpoly, r.axis1, r.blocks = a.diagpoly, a.axis1, a.blocks
    r.meta = dict(a.meta)
    return r


def alias(a):
    r = copy_arr(a)
    r.buf, r.view, r.ver = a.buf, True, a.ver
    return r


class IdxArr(object):
    """array of indices: n entries, at(i) -> term"""


def index_array(base, k, n, inj=False, at=None, frozen=False, full=None):
    """1D integer array with k entries, columns of an n-column array"""
    c = ctx()
    nm = c.fresh(base)
    f = z3.Function('idx_' + nm, z3.IntSort(), z3.IntSort())
    at = at or (lambda i: f(z(i)))
    c.th.idx[nm] = dict(n=dkey(n), k=dkey(k), inj=inj, at=at)
    c.th.new(nm)
    a = Arr((k,), elem=lambda i: SNum(at(z(i))), dtype='int', name=nm, buf=Buf(nm, frozen))
    a.meta['idx'] = nm
    return a


def norm_bound(x, n, low):
    c = ctx()
    if x is None:
        return None
    if isinstance(x, (Arr, list, tuple, str, float)):
        if isinstance(x, Arr) and x.ndim == 0:
            raise Unsupported('slice bound')
        raise PyRaise(TypeError, ('slice indices must be integers',))
    if isinstance(x, bool) or not isinstance(x, (int, SNum)):
        raise Unsupported('slice bound %r' % (x,))
    t = z(x)
    if t.sort() != z3.IntSort():
        raise PyRaise(TypeError, ('slice indices must be integers',))
    if c.decide(t < 0):
        t = z3.simplify(t + z(n))
        if c.decide(t < 0):
            t = z3.IntVal(0)
    elif not c.valid(t <= z(n)):
        if not c.decide(t <= z(n)):
            t = z(n)
    return mknum(t)


def slice_bounds(s, n):
    """(lo, hi) of a slice of step one on a dimension of size n; branches where needed"""
    c = ctx()
    if not (s.step is None or (isinstance(s.step, int) and s.step == 1)):
        return None
    lo = norm_bound(s.start, n, True)
    hi = norm_bound(s.stop, n, False)
    lo = 0 if lo is None else lo
    hi = n if hi is None else hi
    if not c.valid(z(lo) <= z(hi)):
        if not c.decide(z(lo) <= z(hi)):
            hi = lo
    return lo, hi


def sel_interval(lo, hi, n):
    d = ctx().dims
    return ('I', dkey(lo), dkey(hi), dkey(n))


def norm_index(i, n):
    """python index -> non-negative; raises IndexError where out of range"""
    c = ctx()
    t = z(i)
    if t.sort() != z3.IntSort():
        raise PyRaise(IndexError, ('only integers are valid indices',))
    if c.decide(t < 0):
        t = z3.simplify(t + z(n))
    if not c.valid(z3.And(t >= 0, t < z(n))):
        if not c.decide(z3.And(t >= 0, t < z(n))):
            raise PyRaise(IndexError, ('index out of bounds',))
    return mknum(t)


def is_full_slice(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step in (None, 1)


def index_arr(a, key):
    a.fresh()
    if not isinstance(key, tuple):
        key = (key,)
    if a.meta.get('family') is not None:
        import arrays
        if not isinstance(key[0], (int, SNum)) or isinstance(key[0], bool):
            raise Unsupported('rows of an array filled row by row')
        r = arrays.family_row(a, norm_index(key[0], a.shape_[0]))
        return index_arr(r, key[1:]) if len(key) > 1 else r
    key = tuple(int(k) if isinstance(k, real_np.integer) else k for k in key)
    if any(k is Ellipsis for k in key):
        i = key.index(Ellipsis)
        fill = a.ndim - sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:i] + (slice(None),) * fill + key[i + 1:]
    if any(k is None for k in key):
        if a.ndim == 1 and len(key) == 2 and is_full_slice(key[0] if key[1] is None else key[1]):
            col = key[1] is None
            n = a.shape_[0]
            r = a.like(shape=(n, 1) if col else (1, n), view=True)
            r.axis1 = ('col' if col else 'row', a)
            if a.poly is not None:
                r.poly = a.poly if col else T(a.poly)
            if a.elem_ is not None:
                e = a.elem_
                r.elem_ = (lambda i, j: e(i)) if col else (lambda i, j: e(j))
            return r
        raise Unsupported('newaxis')
    if len(key) > a.ndim:
        raise PyRaise(IndexError, ('too many indices',))
    key = key + (slice(None),) * (a.ndim - len(key))
    if all(is_full_slice(k) for k in key):
        return alias(a)
    # each axis: ('int', t) / ('I', lo, hi) / ('rev',) / ('X', idx arr)
    ax = []
    for k, n in zip(key, a.shape_):
        if isinstance(k, slice):
            b = slice_bounds(k, n)
            if b is not None:
                ax.append(('I',) + b)
            elif k.start is None and k.stop is None and isinstance(k.step, int) and k.step == -1:
                ax.append(('R', n))
            elif isinstance(k.step, int) and k.step > 1:
                lo = norm_bound(k.start, n, True)
                lo = 0 if lo is None else lo
                hi = norm_bound(k.stop, n, False)
                hi = n if hi is None else hi
                cnt = mknum(z3.If(z(hi) > z(lo), (z(hi) - z(lo) + (k.step - 1)) / k.step, 0))
                ax.append(('G', lo, k.step, cnt))
            else:
                raise Unsupported('slice step')
        elif isinstance(k, (int, SNum)) and not isinstance(k, bool):
            ax.append(('int', norm_index(k, n)))
        elif isinstance(k, Arr) and k.dtype == 'int' and k.ndim == 1:
            ax.append(('X', k))
        elif isinstance(k, Arr) and k.dtype == 'int' and a.ndim == 1:
            e, ek = elem(a), elem(k)
            c, n = ctx(), a.shape_[0]
            js = [z3.Int(c.fresh('ix')) for _ in k.shape_]
            rng = z3.And([z3.And(0 <= j, j < z(d)) for j, d in zip(js, k.shape_)])
            v = z(ek(*js))
            if c.valid(z3.Implies(rng, z3.And(0 <= v, v < z(n)))):
                return Arr(k.shape_, elem=lambda *i: e(z(ek(*i))), dtype=a.dtype)
            if c.valid(z3.Implies(rng, z3.And(-z(n) <= v, v < z(n)))):
                return Arr(k.shape_, elem=lambda *i: e(z3.simplify(z3.If(z(ek(*i)) < 0, z(ek(*i)) + z(n), z(ek(*i))))), dtype=a.dtype)
            if c.decide(z3.And(rng, z3.Not(z3.And(-z(n) <= v, v < z(n))))):
                raise PyRaise(IndexError, ('index out of bounds',))
            raise Unsupported('indices not known to be within bounds')
        elif isinstance(k, (list, range, tuple)) or type(k).__name__ == 'SRange':
            ax.append(list_axis(k, n))
        else:
            raise Unsupported('index %s' % type(k).__name__)
    return take(a, ax)


def list_axis(k, n):
    if type(k).__name__ == 'SRange':
        if k.step == 1:
            ctx().run.side(ctx(), z3.And(z(k.start) >= 0, z(k.stop) <= z(n)), 'index range within bounds')
            return ('I', k.start, k.stop)
        raise Unsupported('range as index')
    k = list(k)
    if all(isinstance(x, int) for x in k) and k == list(range(k[0], k[0] + len(k))) if k else False:
        if isinstance(n, int) or ctx().valid(z(k[-1]) < z(n)):
            if k[0] >= 0:
                return ('I', k[0], k[-1] + 1)
    ks = [z(x) for x in k]
    def at(i):
        r = ks[-1] if ks else z3.IntVal(0)
        for j in range(len(ks) - 2, -1, -1):
            r = z3.If(z(i) == j, ks[j], r)
        return r
    return ('X', index_array('list', len(k), n, inj=False, at=at))


def axis_sel(x, n):
    """selection key of an axis description"""
    if x[0] == 'I':
        return sel_interval(x[1], x[2], n)
    if x[0] == 'R':
        nm = rev_name(n)
        return ('X', nm)
    if x[0] == 'X':
        return ('X', idx_for(x[1], n))
    raise Unsupported('selection')


def rev_name(n):
    c = ctx()
    k = dkey(n)
    nm = 'rev%d' % k
    if nm not in c.th.idx:
        c.th.idx[nm] = dict(n=k, k=k, inj=True, at=lambda i: z3.simplify(z(n) - 1 - i))
        c.th.new(nm)
    return nm


def idx_for(a, n):
    nm = a.meta.get('idx')
    if nm is None:
        k = index_array('take', a.shape_[0], n, at=lambda i: z(elem(a)(i)))
        nm = k.meta['idx']
        a.meta['idx'] = nm
    return nm


def axis_len(x):
    if x[0] == 'I':
        return mknum(z(x[2]) - z(x[1]))
    if x[0] == 'R':
        return x[1]
    if x[0] == 'G':
        return x[3]
    return x[1].shape_[0]


def axis_at(x):
    if x[0] == 'I':
        return lambda i: z3.simplify(z(i) + z(x[1]))
    if x[0] == 'R':
        return lambda i: z3.simplify(z(x[1]) - 1 - z(i))
    if x[0] == 'G':
        return lambda i: z3.simplify(z(i) * x[2] + z(x[1]))
    if x[0] == 'X':
        e = elem(x[1])
        def at(i):
            t = z(e(i))
            return t
        return at
    return None


def take(a, ax):
    shape = tuple(axis_len(x) for x in ax if x[0] != 'int')
    view = not any(x[0] == 'X' for x in ax)
    r = Arr(shape, dtype=a.dtype, buf=a.buf if view else None, view=view)
    # polynomial content
    if a.poly is not None and a.ndim == 2 and not any(x[0] == 'G' for x in ax):
        p = a.poly
        for d in (0, 1):
            x, n = ax[d], a.shape_[d]
            if x[0] == 'int':
                s = sel_interval(x[1], mknum(z(x[1]) + 1), n)
            else:
                s = axis_sel(x, n)
            S = one(th().norm_word((('S', s, False),)))
            p = mul(T(S), p) if d == 0 else mul(p, S)
        if ax[0][0] == 'int' and ax[1][0] != 'int':
            p = T(p)
        r.poly = p
    if a.ndim == 1:
        x = ax[0]
        if x[0] == 'int':
            if a.elem_ is not None or a.spec is not None:
                try:
                    v = elem(a)(z(x[1]))
                except Unsupported:
                    v = None
                if v is not None:
                    return v if not z3.is_expr(v) else SNum(v)
            if a.poly is not None:
                s = sel_interval(x[1], mknum(z(x[1]) + 1), a.shape_[0])
                return Arr((), poly=mul(T(one((('S', s, False),))), a.poly), dtype=a.dtype)
            raise Unsupported('entry of %r' % (a,))
        if x[0] != 'G':
            s = axis_sel(x, a.shape_[0])
            if a.spec is not None:
                r.spec = (th().vec_sel(a.spec[0], s), a.spec[1], a.spec[2])
            if a.poly is not None:
                r.poly = mul(T(one(th().norm_word((('S', s, False),)))), a.poly)
            if a.absof is not None:
                r.absof = mul(T(one(th().norm_word((('S', s, False),)))), a.absof)
        if a.meta.get('idx') is not None and x[0] != 'G':
            # selection of an index array: composition
            nm = a.meta['idx']
            info = th().idx[nm]
            at = axis_at(x)
            inj = info['inj'] and x[0] in 'IR'
            k2 = index_array(nm + 'o', shape[0], ctx().dims.term(info['n']), inj=inj, at=lambda i: info['at'](at(i)))
            if x[0] in 'IRX' and info.get('letter', True):
                r.meta['idx'] = k2.meta['idx']
                th().idx[k2.meta['idx']]['of'] = (nm, axis_sel(x, a.shape_[0]))
    if a.elem_ is not None:
        e = a.elem_
        ats = [(x[0], z(x[1]) if x[0] == 'int' else axis_at(x)) for x in ax]
        def el(*i):
            i = list(i)
            full = []
            for kind, f in ats:
                full.append(f if kind == 'int' else f(i.pop(0)))
            return e(*full)
        r.elem_ = el
        if not shape:
            v = el()
            if not isinstance(v, Arr):
                return v if not z3.is_expr(v) else SNum(v)
    return r
