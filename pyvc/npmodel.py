"""Models (assumed contracts) of the library functions the repository uses."""
from fractions import Fraction as Fr
from collections import namedtuple
import builtins
import math
import numpy as real_np
import z3
from core import *
import values as V
from values import Arr, mul, padd, H, T, C, ID, one, dot, binop, compare, elem, is_dim, need_same, matpoly, needpoly, th


def assumed(name):
    ctx().run.assumed.add(name)


# ------------------------------------------------------------------ builtins
def builtin_table(I):
    import interp as IP

    def b_len(x):
        if isinstance(x, Arr):
            if x.ndim == 0:
                raise PyRaise(TypeError, ('len of unsized object',))
            return x.shape_[0]
        if isinstance(x, IP.SList):
            return x.n
        if isinstance(x, IP.SRange):
            return x.length()
        if isinstance(x, IP.Obj):
            k, f = x.cls.find('__len__')
            if f is None:
                raise PyRaise(TypeError, ('no len',))
            return I.call(IP.Bound(f, x), [], {})
        r = I.run.opaque_len(I, x)
        if r is not NotImplemented:
            return r
        if isinstance(x, (list, tuple, dict, str, set, range)):
            return len(x)
        raise PyRaise(TypeError, ('no len',))

    def b_range(*a):
        if len(a) == 1:
            a = (0, a[0])
        a = tuple(int(x) if isinstance(x, real_np.integer) else x for x in a)
        for x in a:
            if isinstance(x, SNum) and not x.is_int or isinstance(x, (float, Fr)) or x is None:
                raise PyRaise(TypeError, ('range',))
        if all(isinstance(x, int) for x in a):
            return range(*a)
        st = a[2] if len(a) > 2 else 1
        if isinstance(st, SNum) and not ctx().valid(st.t > 0):
            raise Unsupported('range with a step not known to be positive')
        if isinstance(st, int) and st <= 0:
            raise Unsupported('descending symbolic range')
        return IP.SRange(a[0], a[1], st)

    def b_list(x=()):
        items = I.concrete_iter(x)
        if items is None:
            if isinstance(x, IP.SList):
                r = IP.SList(x.n, x.at, name=x.name)
                r.meta = dict(x.meta)
                return r
            n, at = I.seq(x)
            r = IP.SList(n, at)
            if isinstance(x, IP.SRange):
                r.meta['range'] = (x.start, x.step)
            return r
        return I.newlist(list(items))

    def b_tuple(x=()):
        items = I.concrete_iter(x)
        if items is None:
            return b_list(x)
        return tuple(items)

    def b_enumerate(x, start=0):
        items = I.concrete_iter(x)
        if items is None:
            n, at = I.seq(x)
            return IP.SList(n, lambda i: (binop('+', i, start), at(i)))
        return [(i + start, v) for i, v in enumerate(items)]

    def b_zip(*xs):
        its = [I.concrete_iter(x) for x in xs]
        if all(i is not None for i in its):
            return [tuple(t) for t in zip(*its)]
        sq = [I.seq(x) for x in xs]
        n = sq[0][0]
        for m, _ in sq[1:]:
            n = num_min(n, m)
        return IP.SList(n, lambda i: tuple(at(i) for _, at in sq))

    def b_map(f, *xs):
        its = [I.concrete_iter(x) for x in xs]
        if all(i is not None for i in its):
            return [I.call(f, list(t), {}) for t in zip(*its)]
        raise Unsupported('map over a symbolic sequence')

    def b_reversed(x):
        items = I.concrete_iter(x)
        if items is not None:
            return list(items)[::-1]
        n, at = I.seq(x)
        return IP.SList(n, lambda i: at(mknum(z(n) - 1 - z(i))))

    def b_abs(x):
        if hasattr(x, "sym_abs"):
            return x.sym_abs()
        if isinstance(x, Arr):
            return np_abs(x)
        return V.snum_abs(x)

    def minmax(name, op):
        def f(*a, **kw):
            if kw:
                raise Unsupported('%s with keywords' % name)
            if len(a) == 1:
                items = I.concrete_iter(a[0])
                if items is None:
                    return I.run.minmax(I, name, a[0])
                if not len(items):
                    raise PyRaise(ValueError, ('empty',))
                a = list(items)
            r = a[0]
            for x in a[1:]:
                r = num_min(r, x) if name == 'min' else num_max(r, x)
            return r
        return f

    def b_int(x=0, base=None):
        if base is not None:
            return int(x, base)
        if isinstance(x, SNum):
            if x.is_int:
                return x
            if V.ctx().valid(x.t >= 0):
                return mknum(z3.ToInt(x.t))
            return mknum(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
        if isinstance(x, SBool):
            return mknum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(x, (int, float, str)):
            try:
                return int(x)
            except ValueError as e:
                raise PyRaise(ValueError, e.args)
        if isinstance(x, Fr):
            return int(x)
        if hasattr(x, 'sym_int'):
            return x.sym_int()
        raise Unsupported('int of %s' % type(x).__name__)

    def b_float(x=0.0):
        if isinstance(x, SNum):
            return mknum(z3.ToReal(x.t)) if x.is_int else x
        if isinstance(x, (int, float, Fr)):
            return float(x)
        raise Unsupported('float')

    def b_bool(x=False):
        return I.truth(x)

    def b_sum(x, start=0):
        items = I.concrete_iter(x)
        if items is None:
            return I.run.sum_seq(I, x)
        r = start
        for v in items:
            r = I.binop('+', r, v)
        return r

    def b_isinstance(x, t):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if isinstance(k, IP.ICls):
                if isinstance(x, IP.Obj) and k in x.cls.mro():
                    return True
            elif k is I.libs['numpy'].members['ndarray']:
                if isinstance(x, Arr):
                    return True
                h = getattr(x, 'sym_isarray', None)
                if h is not None and h():
                    return True
            elif isinstance(k, IP.Native):
                py = {'int': int, 'float': float, 'list': list, 'tuple': tuple, 'dict': dict, 'str': str, 'bool': bool}.get(k.name)
                if py is None:
                    raise Unsupported('isinstance of %s' % k.name)
                if isinstance(x, py) or py is int and isinstance(x, SNum) and x.is_int or py is float and isinstance(x, SNum) and not x.is_int or py is list and isinstance(x, IP.SList) and x.kind == 'list':
                    return True
                if isinstance(x, IP.Opaque):
                    raise Unsupported('isinstance of an opaque value')
            elif isinstance(k, type) and issubclass(k, BaseException):
                if isinstance(x, PyRaise) and isinstance(x.etype, type) and issubclass(x.etype, k):
                    return True
            elif k is object:
                return True
            else:
                raise Unsupported('isinstance of %r' % (k,))
        return False

    def b_type(x):
        r = I.run.type_of(I, x)
        if r is not NotImplemented:
            return r
        if isinstance(x, IP.Obj):
            return x.cls
        if isinstance(x, Arr):
            return I.libs['numpy'].members['ndarray']
        return TypeToken(I, x)

    def b_iter(x):
        if getattr(x, 'not_iterable', False):
            raise PyRaise(TypeError, ('not iterable',))
        if I.concrete_iter(x) is None and not isinstance(x, (IP.SList, IP.SRange, Arr)):
            raise Unsupported('iter')
        return x

    def b_print(*a, **k):
        return None

    def b_getattr(o, n, *d):
        try:
            return I.getattr(o, n)
        except PyRaise as e:
            if d and e.etype is AttributeError:
                return d[0]
            raise

    def b_hasattr(o, n):
        try:
            I.getattr(o, n)
            return True
        except PyRaise as e:
            if e.etype is AttributeError:
                return False
            raise

    def b_all(x):
        items = I.concrete_iter(x)
        if items is None:
            return I.run.quant_seq(I, 'all', x)
        for v in items:
            if not I.truth(v):
                return False
        return True

    def b_any(x):
        items = I.concrete_iter(x)
        if items is None:
            return I.run.quant_seq(I, 'any', x)
        for v in items:
            if I.truth(v):
                return True
        return False

    def b_sorted(x, key=None, reverse=False):
        items = I.concrete_iter(x)
        if items is None:
            if key is None and isinstance(x, IP.SList) and getattr(x.at(0), 'sym_sorted', None):
                # a list in another order
                c = ctx()
                n, at = x.n, x.at
                q = z3.Function(c.fresh('place'), z3.IntSort(), z3.IntSort())
                i = z3.Int(c.fresh('pi'))
                c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), z3.And(0 <= q(i), q(i) < z(n)))))
                return IP.SList(n, lambda i: at(SNum(q(z(i)))), name='sorted')
            raise Unsupported('sorted')
        items = list(items)
        if any(isinstance(v, (SNum, Arr)) for v in items):
            raise Unsupported('sorted')
        return sorted(items, key=(lambda v: I.call(key, [v], {})) if key else None, reverse=bool(reverse))

    def b_dict(*a, **k):
        return dict(*a, **k)

    def b_set(x=()):
        items = I.concrete_iter(x)
        if items is None:
            return I.run.make_set(I, x)
        return set(items)

    def b_round(x, n=None):
        if isinstance(x, (SNum, Arr)):
            raise Unsupported('round')
        return round(x) if n is None else round(x, n)

    def b_str(x=''):
        return str(x) if isinstance(x, (str, int, float)) else '<%s>' % type(x).__name__

    def b_id(x):
        raise Unsupported('id')

    def b_setattr(o, n, v):
        I.setattr(o, n, v)

    def b_slice(*a):
        return slice(*a)

    def b_divmod(a, b):
        return (binop('//', a, b), binop('%', a, b))

    def b_pow(a, b):
        return binop('**', a, b)

    def b_callable(x):
        return isinstance(x, (IP.IFunc, IP.Native, IP.Bound, IP.ICls))

    def b_open(*a, **k):
        return I.run.open_(I, *a, **k)

    t = {}
    fs = dict(len=b_len, range=b_range, list=b_list, tuple=b_tuple, enumerate=b_enumerate, zip=b_zip, map=b_map, reversed=b_reversed,
              abs=b_abs, min=minmax('min', '<'), max=minmax('max', '>'), int=b_int, float=b_float, bool=b_bool, sum=b_sum,
              isinstance=b_isinstance, type=b_type, iter=b_iter, print=b_print, getattr=b_getattr, hasattr=b_hasattr, all=b_all, any=b_any,
              sorted=b_sorted, dict=b_dict, set=b_set, round=b_round, str=b_str, repr=b_str, id=b_id, setattr=b_setattr, slice=b_slice,
              divmod=b_divmod, pow=b_pow, callable=b_callable, open=b_open)
    for k, v in fs.items():
        t[k] = IP.Native(k, v)
    t['complex'] = IP.Native('complex', lambda *a: complex(*a) if not any(is_s(x) for x in a) else (_ for _ in ()).throw(Unsupported('complex')))
    t['object'] = object
    t['Ellipsis'] = Ellipsis
    t['NotImplemented'] = NotImplemented
    t['__name__'] = 'modred'
    return t


def is_s(x):
    return isinstance(x, (SNum, SBool, Arr))


class TypeToken(object):
    """type(x) of a number or other value"""
    def __init__(self, I, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, TypeToken) and kind(self.x) == kind(o.x)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(kind(self.x))


def kind(x):
    if isinstance(x, SBool) or isinstance(x, bool):
        return 'bool'
    if isinstance(x, SNum):
        return 'int' if x.is_int else ('num' if x.t.sort() == V.Num else 'float')
    return type(x).__name__


def num_min(a, b):
    if not is_s(a) and not is_s(b):
        return min(a, b)
    ta, tb = z(a), z(b)
    c = ctx()
    if ta.sort() != tb.sort():
        ta, tb = (z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in (ta, tb))
    if c.valid(ta <= tb):
        return a
    if c.valid(tb <= ta):
        return b
    return mknum(z3.If(ta <= tb, ta, tb))


def num_max(a, b):
    if not is_s(a) and not is_s(b):
        return max(a, b)
    ta, tb = z(a), z(b)
    c = ctx()
    if ta.sort() != tb.sort():
        ta, tb = (z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in (ta, tb))
    if c.valid(ta >= tb):
        return a
    if c.valid(tb >= ta):
        return b
    return mknum(z3.If(ta >= tb, ta, tb))


# ------------------------------------------------------------------ numpy
def np_abs(x):
    if not isinstance(x, Arr):
        return V.snum_abs(x)
    x.fresh()
    if x.poly is not None:
        r = Arr(x.shape_, absof=x.poly, dtype='real')
        if x.elem_ is not None:
            e = x.elem_
            r.elem_ = lambda *i: V.snum_abs(e(*i))
        return r
    if x.spec is not None and th().vecs[x.spec[0][0]]['nonneg']:
        return V.alias(x)
    e = elem(x)
    return Arr(x.shape_, elem=lambda *i: V.snum_abs(e(*i)), dtype='real')


def to_array(I, x, ndmin=0, copy=True):
    import interp as IP
    if isinstance(x, Arr):
        r = V.copy_arr(x) if copy else x
        if ndmin == 2 and r.ndim < 2:
            r = atleast_2d(I, r)
        return r
    if isinstance(x, (int, float, Fr, SNum, SBool, bool)):
        e = x
        r = Arr((), elem=lambda: e, dtype='int' if isinstance(x, int) or isinstance(x, SNum) and x.is_int else 'real')
        if isinstance(x, (int, float, Fr)) and not isinstance(x, bool):
            r.poly = {((), ()): Fr(x)} if x else {}
        if ndmin == 2:
            r = Arr((1, 1), elem=lambda i, j: e, poly=r.poly, dtype=r.dtype)
        elif ndmin == 1:
            r = Arr((1,), elem=lambda i: e, poly=r.poly, dtype=r.dtype)
        return r
    if x is None:
        raise Unsupported('array of None')
    r = I.run.array_of(I, x, ndmin)
    if r is not NotImplemented:
        return r
    items = I.concrete_iter(x)
    if items is not None and len(items) and all(isinstance(v, (int, float, Fr, SNum, SBool)) for v in items):
        items = list(items)
        ints = all(isinstance(v, int) or isinstance(v, SNum) and v.is_int for v in items)
        def el(i):
            i = z3.simplify(z(i))
            if z3.is_int_value(i):
                return items[i.as_long()]
            t = z(items[-1])
            for j in range(len(items) - 2, -1, -1):
                t = z3.If(i == j, z(items[j]), t)
            return mknum(t)
        return Arr((len(items),), elem=el, dtype='int' if ints else 'real')
    if items is not None and len(items) and all(isinstance(v, Arr) for v in items):
        return stack_rows(I, list(items))
    if isinstance(x, (IP.SList, IP.SRange)):
        n, at = I.seq(x)
        return seq_array(I, n, at)
    if items is not None and len(items) == 0:
        return Arr((0,), elem=lambda i: 0, dtype='real')
    raise Unsupported('array of %s' % type(x).__name__)


def seq_array(I, n, at):
    c = ctx()
    i = SNum(z3.Int(c.fresh('probe')))
    v = at(i) if not isinstance(n, int) or n > 0 else 0
    if isinstance(v, (SNum, int, float, Fr, SBool)):
        return Arr((n,), elem=lambda k: at(SNum(z(k)) if z3.is_expr(k) else k), dtype='int' if isinstance(v, int) or isinstance(v, SNum) and v.is_int else 'real')
    if isinstance(v, Arr):
        sh = v.shape_
        def el(k, *r):
            return elem(at(SNum(z(k)) if z3.is_expr(k) else k))(*r)
        return Arr((n,) + sh, elem=el, dtype=v.dtype)
    raise Unsupported('array of a sequence of %s' % type(v).__name__)


def stack_rows(I, items):
    sh = items[0].shape_
    for a in items[1:]:
        if a.ndim != len(sh):
            raise PyRaise(ValueError, ('inhomogeneous',))
        for x, y in zip(sh, a.shape_):
            need_same(x, y, 'stack')
    es = [elem(a) for a in items]
    def el(k, *r):
        k = z3.simplify(z(k))
        if z3.is_int_value(k):
            return es[k.as_long()](*r)
        for j in range(len(es) - 1):
            if ctx().decide(k == j):
                return es[j](*r)
        return es[-1](*r)
    return Arr((len(items),) + sh, elem=el, dtype=items[0].dtype)


def atleast_1d(I, x):
    x = to_array(I, x, copy=False)
    if x.ndim == 0:
        r = Arr((1,), poly=x.poly, dtype=x.dtype, buf=x.buf, view=True)
        r.ver = x.ver
        r.diagpoly = x.poly
        if x.elem_ is not None:
            e = x.elem_
            r.elem_ = lambda i: e()
        r.spec = getattr(x, 'spec0', None)
        r.absof = x.absof
        return r
    return V.alias(x)


def atleast_2d(I, x):
    x = to_array(I, x, copy=False)
    if x.ndim >= 2:
        return V.alias(x)
    if x.ndim == 0:
        x = atleast_1d(I, x)
    n = x.shape_[0]
    r = Arr((1, n), poly=None if x.poly is None else T(x.poly), dtype=x.dtype, buf=x.buf, view=True)
    r.ver = x.ver
    if x.absof is not None:
        r.absof = T(x.absof)
    r.axis1 = ('row', x)
    if x.elem_ is not None:
        e = x.elem_
        r.elem_ = lambda i, j: e(j)
    return r


def squeeze(I, x, axis=None):
    if axis is not None:
        raise Unsupported('squeeze with axis')
    x = to_array(I, x, copy=False)
    x.fresh()
    if x.ndim == 0:
        return x
    if x.ndim == 1:
        if ctx().decide(z(x.shape_[0]) == 1):
            r = Arr((), poly=x.poly if x.poly is not None else None, dtype=x.dtype, buf=x.buf, view=True)
            r.ver = x.ver
            r.spec0 = x.spec
            if r.poly is None and x.spec is not None:
                r.poly = V.diag_poly(x)
            r.absof = x.absof
            if x.elem_ is not None:
                e = x.elem_
                r.elem_ = lambda: e(z3.IntVal(0))
            return r
        return V.alias(x)
    if x.ndim == 2:
        r1, c1 = (ctx().decide(z(d) == 1) for d in x.shape_)
        if not r1 and not c1:
            return V.alias(x)
        src = None
        if x.axis1 is not None:
            src = x.axis1[1]
        if r1 and c1:
            r = Arr((), poly=x.poly, dtype=x.dtype, buf=x.buf, view=True)
            if src is not None:
                r.spec0 = src.spec
                if r.poly is None and src.spec is not None:
                    r.poly = V.diag_poly(src)
            if x.elem_ is not None:
                e = x.elem_
                r.elem_ = lambda: e(z3.IntVal(0), z3.IntVal(0))
        else:
            k = 1 if r1 else 0
            r = Arr((x.shape_[k],), poly=None if x.poly is None else (T(x.poly) if r1 else x.poly), dtype=x.dtype, buf=x.buf, view=True)
            if src is not None:
                r.spec, r.diagpoly = src.spec, src.diagpoly
            if x.absof is not None:
                r.absof = T(x.absof) if r1 else x.absof
            if x.elem_ is not None:
                e = x.elem_
                r.elem_ = (lambda j: e(z3.IntVal(0), j)) if r1 else (lambda i: e(i, z3.IntVal(0)))
        r.ver = x.ver
        return r
    raise Unsupported('squeeze of %dD' % x.ndim)


def np_diag(I, x, k=0):
    if k != 0:
        raise Unsupported('diag with offset')
    x = to_array(I, x, copy=False)
    x.fresh()
    if x.ndim == 1:
        n = x.shape_[0]
        try:
            p = V.diag_poly(x)
        except Unsupported:
            p = None
        r = Arr((n, n), poly=p, dtype=x.dtype)
        if p is None:
            raise Unsupported('diag of %r' % (x,))
        return r
    if x.ndim == 2:
        need_same(x.shape_[0], x.shape_[1], 'diag of a rectangular array')
        p = needpoly(x)
        nf = ctx().reduced(p)
        if len(nf) == 1:
            (m, w), c = list(nf.items())[0]
            if not m and c == 1 and len(w) == 1 and w[0][0] == 'D':
                return V.specvec(w[0][1], x.shape_[0], w[0][2], w[0][3])
            if not m and c == 1 and len(w) == 0:
                raise Unsupported('diagonal of the identity')
        if all(len(w) and all(l[0] == 'D' for l in w) for m, w in nf):
            r = Arr((x.shape_[0],), dtype=x.dtype)
            r.diagpoly = nf
            return r
        raise Unsupported('diagonal of a general array')
    raise Unsupported('diag')


def zeros(I, shape, dtype=None, fill=0):
    if isinstance(shape, (int, SNum)):
        shape = (shape,)
    items = I.concrete_iter(shape)
    if items is None:
        raise Unsupported('zeros with a symbolic rank')
    shape = tuple(items)
    for d in shape:
        if not isinstance(d, int) and not (isinstance(d, SNum) and d.is_int):
            raise PyRaise(TypeError, ('shape',))
        if isinstance(d, SNum) and not ctx().valid(d.t >= 0):
            if ctx().decide(d.t < 0):
                raise PyRaise(ValueError, ('negative dimensions',))
        if isinstance(d, int) and d < 0:
            raise PyRaise(ValueError, ('negative dimensions',))
    poly = {} if fill == 0 and len(shape) <= 2 else None
    r = Arr(shape, poly=poly, elem=lambda *i: fill, dtype='real')
    r.meta['fill'] = fill
    dt = getattr(dtype, 'name', dtype)
    r.meta['dtype'] = dt
    if dt in ('int', int):
        r.dtype = 'int'
    elif dt in ('complex', complex):
        r.dtype = 'complex'
    return r


def hstack(I, xs, axis=1):
    items = I.concrete_iter(xs)
    if items is None:
        return I.run.stack_seq(I, xs, axis)
    items = [to_array(I, x, copy=False) for x in items]
    if not items:
        raise PyRaise(ValueError, ('need at least one array',))
    if len(items) == 1:
        return V.copy_arr(items[0])
    nd = items[0].ndim
    if any(a.ndim != nd for a in items):
        raise PyRaise(ValueError, ('dimensions differ',))
    if nd == 1:
        axis = 0
    if axis >= nd:
        raise PyRaise(ValueError, ('axis',))
    for k in range(nd):
        if k != axis:
            for a in items[1:]:
                need_same(items[0].shape_[k], a.shape_[k], 'stack')
    total = 0
    offs = []
    for a in items:
        offs.append(total)
        total = binop('+', total, a.shape_[axis])
    shape = list(items[0].shape_)
    shape[axis] = total
    poly = {}
    if nd <= 2 and all(a.poly is not None for a in items):
        for a, o in zip(items, offs):
            J = one((('S', V.sel_interval(o, binop('+', o, a.shape_[axis]), total), False),))
            t = mul(a.poly, T(J)) if nd == 2 and axis == 1 else mul(J, a.poly)
            poly = padd(poly, t)
        add_tiling(offs, items, axis, total)
    else:
        poly = None
    r = Arr(shape, poly=poly, dtype=V.joint(*items))
    if all(a.elem_ is not None for a in items):
        es = [a.elem_ for a in items]
        ends = [z(binop('+', o, a.shape_[axis])) for a, o in zip(items, offs)]
        def el(*i):
            k = z(i[axis])
            for j in range(len(es) - 1):
                if ctx().decide(k < ends[j]):
                    break
            else:
                j = len(es) - 1
            ii = list(i)
            ii[axis] = z3.simplify(k - z(offs[j]))
            return es[j](*ii)
        r.elem_ = el
    return r


def add_tiling(offs, items, axis, total):
    """sum of J J^T over a tiling of 0..total is the identity; also for every known selection of that many columns"""
    c = ctx()
    p = {((), ()): Fr(-1)}
    for a, o in zip(items, offs):
        J = one((('S', V.sel_interval(o, binop('+', o, a.shape_[axis]), total), False),))
        p = padd(p, mul(J, T(J)))
    c.hyp(p, 'the intervals tile')


def libs(I):
    import interp as IP
    N = IP.Native

    def nat(name):
        def deco(f):
            return f
        return deco

    A = lambda x: to_array(I, x, copy=False)

    def array(x, dtype=None, copy=True, ndmin=0, order=None):
        if dtype is not None:
            return I.run.astype(I, to_array(I, x, ndmin=ndmin), dtype)
        return to_array(I, x, ndmin=ndmin)

    def asarray(x, dtype=None):
        if dtype is not None:
            return I.run.astype(I, to_array(I, x, copy=False), dtype)
        return to_array(I, x, copy=False)

    def np_dot(a, b):
        return dot(A(a), A(b)) if not (V.is_number(a) or V.is_number(b)) else binop('*', a, b)

    def np_sum(x, axis=None, dtype=None):
        x = A(x)
        return I.run.arr_sum(I, x, axis)

    def np_conj(x):
        return V.conj(x) if isinstance(x, Arr) else V.num_conj(x)

    def np_transpose(x, axes=None):
        if axes is not None:
            import libx
            return libx.arr_transpose(I, A(x), axes)
        return V.transpose(A(x))

    def np_sqrt(x):
        if isinstance(x, Arr):
            return V.power(x, Fr(1, 2))
        if isinstance(x, (int, float)):
            return math.sqrt(x)
        return I.run.num_sqrt(I, x)

    def np_real(x):
        x = A(x)
        if x.dtype in ('real', 'int'):
            return V.alias(x)
        if x.poly is not None:
            p = x.poly
            q = V.C(p)
            return Arr(x.shape_, poly=V.th().add(V.th().add({}, p, Fr(1, 2)), q, Fr(1, 2)), dtype='real')
        if x.elem_ is not None:
            e = x.elem_
            return Arr(x.shape_, elem=lambda *i: SNum(z3.Function('re', V.Num, V.Num)(V.num_term(e(*i)))), dtype='real')
        raise Unsupported('real part')

    def vstack(xs):
        items = I.concrete_iter(xs)
        if items is not None:
            items = [atleast_2d(I, x) for x in items]
            return hstack(I, items, 0)
        return hstack(I, xs, 0)

    def np_hstack(xs):
        if isinstance(xs, Arr):
            return I.run.hstack_array(I, xs)
        return hstack(I, xs, 1)

    def concatenate(xs, axis=0):
        if not isinstance(axis, int):
            raise Unsupported('axis')
        return hstack(I, xs, axis)

    def eye(n, *a):
        if a:
            raise Unsupported('eye')
        r = Arr((n, n), poly=dict(ID), dtype='real')
        r.elem_ = lambda i, j: mknum(z3.If(z(i) == z(j), z3.RealVal(1), z3.RealVal(0)))
        return r

    def ceil(x):
        if isinstance(x, SNum):
            if x.is_int:
                return x
            return mknum(-z3.ToInt(-x.t))
        if isinstance(x, Fr):
            return math.ceil(x)
        if isinstance(x, (int, float)):
            return float(math.ceil(x))
        raise Unsupported('ceil')

    def np_round(x, *a):
        if isinstance(x, Arr):
            return I.run.np_round(I, x)
        if isinstance(x, SNum):
            return I.run.np_round(I, x)
        return round(x)

    def argsort(x, *a, **k):
        if a or k and set(k) - {'kind'}:
            raise Unsupported('argsort options')
        return I.run.argsort(I, A(x))

    def iscomplexobj(x):
        x = A(x)
        if x.dtype in ('real', 'int', 'bool'):
            return False
        t = x.meta.get('iscomplex')
        if t is not None:
            return t
        raise Unsupported('iscomplexobj of data of unknown kind')

    def multi_dot(xs):
        items = [A(x) for x in I.concrete_iter(xs)]
        r = items[0]
        for x in items[1:]:
            r = dot(r, x)
        return r

    def inv(x):
        assumed('numpy.linalg.inv: inv(A) A = A inv(A) = I (A invertible)')
        x = A(x)
        need_same(x.shape_[0], x.shape_[1], 'inv')
        p = needpoly(x)
        memo = ctx().run_memo.setdefault('inv', [])
        for q, r in memo:
            d = padd(p, q, -1)
            if not ctx().th.canon(d):
                return V.copy_arr(r)
        n = x.shape_[0]
        q, nm = V.new_atom('inv', n, n)
        ctx().hyp(padd(mul(p, q), ID, -1), 'inv right')
        ctx().hyp(padd(mul(q, p), ID, -1), 'inv left')
        r = Arr((n, n), poly=q, dtype=V.inexact(x.dtype))
        memo.append((p, r))
        ctx().singular_ok.append(p)
        return V.copy_arr(r)

    def solve(a, b):
        assumed('numpy.linalg.solve(A, B) = inv(A) B')
        return dot(inv(a), A(b))

    def cholesky(x):
        assumed('numpy.linalg.cholesky(W) = L with L L^* = W, L invertible (W Hermitian positive definite)')
        x = A(x)
        need_same(x.shape_[0], x.shape_[1], 'cholesky')
        p = needpoly(x)
        n = x.shape_[0]
        L, nm = V.new_atom('chol', n, n)
        ctx().hyp(padd(mul(L, H(L)), p, -1), 'cholesky')
        r = Arr((n, n), poly=L, dtype=V.inexact(x.dtype))
        return r

    def np_svd(x, full_matrices=True, compute_uv=True):
        if full_matrices is not False or compute_uv is not True:
            raise Unsupported('numpy.linalg.svd with other options')
        assumed('numpy.linalg.svd(A, full_matrices=False): A = U diag(S) V^*, U^*U = I, V^*V = I, S real, nonincreasing and non-negative, min(m, n) values')
        x = A(x)
        p = needpoly(x)
        m, n = x.shape_
        k = num_min(m, n)
        U, un = V.new_atom('U', m, k)
        W, wn = V.new_atom('VH', k, n)
        S = V.spectrum('S', k, real=True, nonneg=True)
        D = V.diag_poly(S)
        c = ctx()
        c.hyp(padd(p, mul(U, D, W), -1), 'svd')
        c.hyp(padd(mul(H(U), U), ID, -1), 'svd U')
        c.hyp(padd(mul(W, H(W)), ID, -1), 'svd V')
        if c.valid(z(m) <= z(n)):
            c.hyp(padd(mul(U, H(U)), ID, -1), 'svd U square')
        if c.valid(z(n) <= z(m)):
            c.hyp(padd(mul(H(W), W), ID, -1), 'svd V square')
        f = c.th.vecs[S.spec[0][0]]['fn']
        i, j = z3.Ints('i j')
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(k)), f(i) >= 0)))
        c.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < z(k)), f(i) >= f(j))))
        c.run_memo.setdefault('np_svd', []).append(dict(A=p, U=U, W=W, S=S, f=f, k=k))
        if c.run.cfg.get('nonzero'):
            c.assume(f(0) > 0)
        return (Arr((m, k), poly=U, dtype=V.inexact(x.dtype)), S, Arr((k, n), poly=W, dtype=V.inexact(x.dtype)))

    def np_eigh(x, UPLO='L'):
        assumed('numpy.linalg.eigh(A): A V = V E, V^*V = V V^* = I, E real and ascending (A Hermitian)')
        x = A(x)
        need_same(x.shape_[0], x.shape_[1], 'eigh')
        p = needpoly(x)
        c = ctx()
        n = x.shape_[0]
        c.run.require_mat(c, padd(p, H(p), -1), 'array given to numpy.linalg.eigh is Hermitian')
        Q, qn = V.new_atom('Q', n, n)
        E = V.spectrum('E', n, real=True)
        D = V.diag_poly(E)
        c.hyp(padd(mul(p, Q), mul(Q, D), -1), 'eigh')
        c.hyp(padd(mul(H(Q), Q), ID, -1), 'eigh V')
        c.hyp(padd(mul(Q, H(Q)), ID, -1), 'eigh V square')
        f = c.th.vecs[E.spec[0][0]]['fn']
        i, j = z3.Ints('i j')
        c.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < z(n)), f(i) <= f(j))))
        c.run_memo.setdefault('np_eigh', []).append(dict(A=p, Q=Q, E=E, f=f, n=n))
        if c.run.cfg.get('nonzero'):
            w = z3.Int(c.fresh('wit'))
            c.assume(z3.And(0 <= w, w < z(n), f(w) != 0))
            c.run_memo.setdefault('witnesses', []).append(w)
        return (E, Arr((n, n), poly=Q, dtype=V.inexact(x.dtype)))

    def sp_inv(a, overwrite_a=False, check_finite=True):
        r = inv(a)
        scrap(a, overwrite_a)
        return r

    def scrap(x, over):
        # LAPACK may use the memory of the argument as its workspace
        if over is True and isinstance(x, Arr):
            V.mark_written(x)
        elif over is not False:
            raise Unsupported('whether an argument is overwritten')

    def sp_eig(a, b=None, left=False, right=True, overwrite_a=False, check_finite=True, **kw):
        if b is not None or kw or left is not True or right is not True:
            raise Unsupported('scipy.linalg.eig with other options')
        assumed('scipy.linalg.eig(A, left=True, right=True): A R = R E, L^*A = E L^*, and L^*R diagonal and invertible (eigenvalues distinct)')
        x = A(a)
        need_same(x.shape_[0], x.shape_[1], 'eig')
        p = needpoly(x)
        n = x.shape_[0]
        R, _ = V.new_atom('R', n, n)
        L, _ = V.new_atom('L', n, n)
        E = V.spectrum('lam', n, real=False, nonzero=bool(ctx().run.cfg.get('nonzero_eigs', True)))
        G = V.spectrum('lr', n, real=False, nonzero=True)
        D = V.diag_poly(E)
        c = ctx()
        c.hyp(padd(mul(p, R), mul(R, D), -1), 'eig right')
        c.hyp(padd(mul(H(L), p), mul(D, H(L)), -1), 'eig left')
        c.hyp(padd(mul(H(L), R), V.diag_poly(G), -1), 'eig left and right')
        ra = Arr((n, n), poly=R)
        la = Arr((n, n), poly=L)
        c.run_memo['eig'] = dict(R=R, L=L, E=E.spec, G=G.spec)
        scrap(a, overwrite_a)
        return (E, la, ra)

    def lyap(a, q, method=None):
        assumed('scipy.linalg.solve_discrete_lyapunov(A, Q) = X with A X A^* - X + Q = 0')
        a, q = A(a), A(q)
        need_same(a.shape_[0], a.shape_[1], 'lyapunov')
        need_same(a.shape_[0], q.shape_[0], 'lyapunov')
        need_same(q.shape_[0], q.shape_[1], 'lyapunov')
        pa, pq = needpoly(a), needpoly(q)
        c = ctx()
        herm = c.mat_zero(padd(pq, H(pq), -1))[0]
        n = a.shape_[0]
        X, nm = V.new_atom('gram', n, n, herm=herm)
        c.hyp(padd(padd(mul(pa, X, H(pa)), X, -1), pq), 'lyapunov')
        # for a stable A and Q = F F^* the solution is positive semidefinite
        c.run_memo.setdefault('gram', []).append((X, pa, pq, nm))
        return Arr((n, n), poly=X)

    def norm(x, *a, **k):
        raise Unsupported('norm')

    def count_nonzero(x, *a):
        return I.run.arr_sum(I, A(x), None)

    def searchsorted(*a, **k):
        raise Unsupported('searchsorted')

    def np_min(x):
        return I.run.arr_min(I, A(x))

    def np_max(x):
        return I.run.arr_max(I, A(x))

    def np_where(*a):
        return I.run.np_where(I, *a)

    def arange(*a, **k):
        if k:
            raise Unsupported('arange')
        r = I.builtins['range'].f(*a)
        if isinstance(r, range):
            return to_array(I, list(r)) if len(r) else Arr((0,), elem=lambda i: 0, dtype='int')
        n = r.length()
        x = V.index_array('arange', n, n, inj=True, at=lambda i: z(r.at(SNum(z(i)))))
        x.meta.pop('idx')
        return x

    def multiply(a, b):
        return binop('*', a, b)

    def np_all(x, axis=None):
        return I.run.quant_arr(I, 'all', A(x))

    def np_any(x, axis=None):
        return I.run.quant_arr(I, 'any', A(x))

    def hook(name):
        return N(name, lambda *a, **k: I.run.lib(I, name, a, k))

    ndarray = IP.Opaque('numpy.ndarray')
    lin = IP.NS('numpy.linalg', dict(inv=N('inv', inv), cholesky=N('cholesky', cholesky), svd=N('svd', np_svd), eigh=N('eigh', np_eigh), solve=N('solve', solve),
                                     multi_dot=N('multi_dot', multi_dot), lstsq=hook('numpy.linalg.lstsq'), eigvals=hook('numpy.linalg.eigvals'), norm=hook('numpy.linalg.norm'),
                                     eig=hook('numpy.linalg.eig'), pinv=hook('numpy.linalg.pinv'), LinAlgError=real_np.linalg.LinAlgError))
    def ufunc(op):
        def f(a, b, out=None):
            a, b = (to_array(I, x) if isinstance(x, (list, tuple)) else x for x in (a, b))
            r = binop(op, a, b)
            if out is None:
                return r
            if not isinstance(out, Arr) or out.view or not isinstance(r, Arr) or len(r.shape_) != len(out.shape_) or not all(V.same_dim(p, q) for p, q in zip(r.shape_, out.shape_)):
                raise Unsupported('output argument')
            I.store_into(out, r)
            return out
        return f

    npm = dict(
        array=N('array', array), asarray=N('asarray', asarray), ascontiguousarray=N('ascontiguousarray', lambda x, dtype=None: asarray(x, dtype)),
        asanyarray=N('asanyarray', asarray),
        dot=N('dot', np_dot), matmul=N('matmul', np_dot), sum=N('sum', np_sum), abs=N('abs', np_abs), absolute=N('abs', np_abs), conj=N('conj', np_conj),
        conjugate=N('conj', np_conj), transpose=N('transpose', np_transpose), sqrt=N('sqrt', np_sqrt), real=N('real', np_real), diag=N('diag', lambda x, k=0: np_diag(I, x, k)),
        vstack=N('vstack', vstack), hstack=N('hstack', np_hstack), concatenate=N('concatenate', concatenate), eye=N('eye', eye), identity=N('identity', eye),
        zeros=N('zeros', lambda shape, dtype=None: zeros(I, shape, dtype)), empty=N('empty', lambda shape, dtype=None: I.run.empty(I, shape, dtype)),
        ones=N('ones', lambda shape, dtype=None: zeros(I, shape, dtype, 1)), ceil=N('ceil', ceil), floor=hook('numpy.floor'), round=N('round', np_round), argsort=N('argsort', argsort),
        atleast_1d=N('atleast_1d', lambda x: atleast_1d(I, x)), atleast_2d=N('atleast_2d', lambda x: atleast_2d(I, x)), squeeze=N('squeeze', lambda x, axis=None: squeeze(I, x, axis)),
        iscomplexobj=N('iscomplexobj', iscomplexobj), count_nonzero=N('count_nonzero', count_nonzero), min=N('min', np_min), max=N('max', np_max), amin=N('min', np_min), amax=N('max', np_max),
        where=N('where', np_where), arange=N('arange', arange), multiply=N('multiply', multiply), all=N('all', np_all), any=N('any', np_any), power=N('power', ufunc('**')),
        linalg=lin, ndarray=ndarray, newaxis=None, pi=math.pi, inf=float('inf'), nan=float('nan'), copy=N('copy', lambda x: to_array(I, x)),
        subtract=N('subtract', ufunc('-')), add=N('add', ufunc('+')), divide=N('divide', ufunc('/')), true_divide=N('divide', ufunc('/')),
        reciprocal=N('reciprocal', lambda a: binop('/', 1, a)), float64=N('float', lambda x=0.0: I.builtins['float'].f(x)), float32=N('single', lambda x=0.0: I.run.single(x, 'single')), float16=N('half', lambda x=0.0: I.run.single(x, 'half')), int64=N('int', lambda x=0: I.builtins['int'].f(x)),
        shape=N('shape', lambda x: A(x).shape_), size=N('size', lambda x: arr_attr(I, A(x), 'size')), ndim=N('ndim', lambda x: A(x).ndim), integer=IP.Opaque('numpy.integer'), random=IP.NS('numpy.random', {}))
    for nm in ('triu', 'tril', 'cumsum', 'argmin', 'argmax', 'diff', 'allclose', 'isclose', 'array_equal', 'linspace', 'outer', 'vdot', 'inner', 'trapz', 'savetxt', 'loadtxt', 'ogrid', 'swapaxes', 'reshape', 'ravel',
               'zeros_like', 'result_type', 'ones_like', 'empty_like', 'einsum', 'tensordot', 'kron', 'fliplr', 'flipud', 'flip', 'stack', 'column_stack', 'block', 'expand_dims', 'moveaxis', 'prod', 'mean', 'cumprod', 'sign', 'logical_and',
               'logical_or', 'logical_not', 'maximum', 'minimum', 'isscalar', 'nonzero', 'flatnonzero', 'unique', 'searchsorted', 'sort', 'rint', 'floor_divide', 'mod', 'isnan', 'imag', 'angle', 'full', 'take', 'tile', 'repeat', 'append', 'delete', 'insert', 'fromfunction', 'indices', 'add_reduce', 'r_', 'c_'):
        npm.setdefault(nm, hook('numpy.' + nm))
    npm['random'] = IP.NS('numpy.random', dict(normal=hook('numpy.random.normal'), random=hook('numpy.random.random')))
    npm['ogrid'] = I_getter(I, 'numpy.ogrid')
    for d in ('float', 'complex', 'int', 'bool'):
        pass
    NP = IP.NS('numpy', npm)
    sl = IP.NS('scipy.linalg', dict(eig=N('eig', sp_eig), solve_discrete_lyapunov=N('solve_discrete_lyapunov', lyap), inv=N('inv', sp_inv), cholesky=hook('scipy.linalg.cholesky'), hankel=hook('scipy.linalg.hankel'),
                                    eigh=hook('scipy.linalg.eigh'), svd=hook('scipy.linalg.svd'), lstsq=hook('scipy.linalg.lstsq'), solve=N('solve', solve), sqrtm=hook('scipy.linalg.sqrtm'), solve_lyapunov=hook('scipy.linalg.solve_lyapunov')))
    ss = IP.NS('scipy.signal', dict(StateSpace=hook('scipy.signal.StateSpace'), dlsim=hook('scipy.signal.dlsim'), dimpulse=hook('scipy.signal.dimpulse')))
    SP = IP.NS('scipy', dict(linalg=sl, signal=ss))
    npm['polymul'] = hook('numpy.polymul')
    npm['polyadd'] = hook('numpy.polyadd')

    def nt(name, fields, **kw):
        if isinstance(fields, str):
            fields = fields.replace(',', ' ').split()
        return namedtuple(name, fields)

    out = dict(numpy=NP, scipy=SP, collections=IP.NS('collections', dict(namedtuple=N('namedtuple', nt))),
               time=IP.NS('time', dict(time=N('time', lambda: SNum(z3.Real(ctx().fresh('time')))))),
               copy=IP.NS('copy', dict(deepcopy=N('deepcopy', lambda x: I.run.deepcopy(I, x)), copy=N('copy', lambda x: I.run.deepcopy(I, x)))),
               inspect=IP.NS('inspect', {}), os=IP.NS('os', dict(path=IP.NS('os.path', {}))),
               sys=IP.NS('sys', dict(stdout=IP.NS('sys.stdout', dict(write=N('write', lambda s: None))), stderr=IP.NS('sys.stderr', dict(write=N('write', lambda s: None))))),
               pickle=IP.NS('pickle', dict(load=hook('pickle.load'), dump=hook('pickle.dump'))),
               functools=IP.NS('functools', dict(partial=N('partial', lambda f, *a, **k: N('partial', lambda *b, **l: I.call(f, list(a) + list(b), dict(k, **l)))),
                                                 reduce=N('reduce', lambda f, xs, *i: py_reduce(I, f, xs, *i)))),
               math=IP.NS('math', dict(ceil=N('ceil', lambda x: I.builtins['int'].f(ceil(x))), sqrt=N('sqrt', np_sqrt), floor=hook('math.floor'), pi=math.pi)),
               itertools=IP.NS('itertools', dict(product=N('product', lambda *xs: py_product(I, xs)), chain=N('chain', lambda *xs: py_chain(I, xs)), accumulate=hook('itertools.accumulate'))),
               operator=IP.NS('operator', dict(add=N('add', lambda a, b: I.binop('+', a, b)), mul=N('mul', lambda a, b: I.binop('*', a, b)))),
               warnings=IP.NS('warnings', dict(warn=N('warn', lambda *a, **k: None))),
               socket=IP.NS('socket', dict(gethostname=N('gethostname', lambda *a: 'host'))),
               codecs=IP.NS('codecs', dict(encode=N('encode', lambda *a: '686f7374'))))
    out['__future__'] = IP.NS('__future__', {k: None for k in ('division', 'print_function', 'absolute_import', 'unicode_literals')})
    return out


class I_getter(object):
    def __init__(self, I, name):
        self.I, self.name = I, name

    def sym_getitem(self, I, k):
        import libx
        if self.name == 'numpy.ogrid':
            return libx.ogrid(I, k)
        raise Unsupported(self.name)


def py_reduce(I, f, xs, *init):
    items = I.concrete_iter(xs)
    if items is None:
        raise Unsupported('reduce over a symbolic sequence')
    items = list(init) + list(items)
    r = items[0]
    for x in items[1:]:
        r = I.call(f, [r, x], {})
    return r


def py_product(I, xs):
    import itertools
    its = [I.concrete_iter(x) for x in xs]
    if any(i is None for i in its):
        import interp as IP
        if len(xs) == 2:
            (n1, a1), (n2, a2) = I.seq(xs[0]), I.seq(xs[1])
            r = IP.SList(mknum(z(n1) * z(n2)), None)
            r.meta['product'] = ((n1, a1), (n2, a2))
            def at(i):
                raise Unsupported('items of a symbolic product')
            r.at = at
            return r
        raise Unsupported('product')
    return list(itertools.product(*its))


def py_chain(I, xs):
    out = []
    for x in xs:
        items = I.concrete_iter(x)
        if items is None:
            raise Unsupported('chain')
        out.extend(items)
    return out


# ------------------------------------------------------------------ attributes
def arr_attr(I, a, attr):
    import interp as IP
    N = IP.Native
    if attr == 'shape':
        return a.shape_
    if attr == 'ndim':
        return a.ndim
    if attr == 'size':
        r = 1
        for d in a.shape_:
            r = binop('*', r, d)
        return r
    if attr == 'T':
        return V.transpose(a)
    if attr == 'real':
        return I.libs['numpy'].members['real'].f(a)
    if attr == 'dtype':
        return I.run.dtype_of(I, a)
    if attr in ('dot', '__matmul__'):
        return N('dot', lambda b: dot(a, to_array(I, b, copy=False)) if not V.is_number(b) else binop('*', a, b))
    if attr in ('conj', 'conjugate'):
        return N('conj', lambda: V.conj(a))
    if attr == 'transpose':
        def tr(*ax):
            if ax and not (len(ax) == a.ndim == 2 and ax == (1, 0)) and ax != ((1, 0),):
                return I.run.lib(I, 'arr.transpose', (a,) + ax, {})
            return V.transpose(a)
        return N('transpose', tr)
    if attr == 'squeeze':
        return N('squeeze', lambda axis=None: squeeze(I, a, axis))
    if attr == 'copy':
        return N('copy', lambda: V.copy_arr(a))
    if attr == 'sum':
        return N('sum', lambda axis=None: I.run.arr_sum(I, a, axis))
    if attr == 'min':
        return N('min', lambda: I.run.arr_min(I, a))
    if attr == 'max':
        return N('max', lambda: I.run.arr_max(I, a))
    if attr == 'all':
        return N('all', lambda: I.run.quant_arr(I, 'all', a))
    if attr == 'any':
        return N('any', lambda: I.run.quant_arr(I, 'any', a))
    if attr == 'argsort':
        return N('argsort', lambda: I.run.argsort(I, a))
    if attr == 'diagonal':
        return N('diagonal', lambda: np_diag(I, a))
    if attr in ('flatten', 'reshape', 'astype', 'view', 'swapaxes', 'argmin', 'argmax', 'cumsum', 'ravel', 'tolist', 'item', 'fill', 'nonzero', 'round', 'prod', 'mean', 'sort', 'take', 'repeat'):
        return N(attr, lambda *x, **k: I.run.lib(I, 'arr.' + attr, (a,) + x, k))
    raise Unsupported('array attribute %s' % attr)


PURE_METHODS = {
    str: {'lower', 'upper', 'format', 'join', 'split', 'strip', 'startswith', 'endswith', 'replace', 'encode', 'lstrip', 'rstrip'},
    list: {'append', 'extend', 'index', 'copy', 'pop', 'insert', 'count', 'reverse', 'clear', 'remove'},
    dict: {'items', 'keys', 'values', 'get', 'pop', 'update', 'copy', 'setdefault', 'clear'},
    tuple: {'index', 'count', '_asdict', '_replace'},
    set: {'add', 'update', 'discard', 'remove'},
}


def native_method(I, o, attr):
    import interp as IP
    for t, names in PURE_METHODS.items():
        if isinstance(o, t):
            if t is tuple and hasattr(o, '_fields') and attr in o._fields:
                return getattr(o, attr)
            if attr not in names:
                break
            if t is str and attr == 'format':
                return IP.Native('format', lambda *a, **k: '<formatted>')
            if t is list and attr in ('append', 'extend', 'pop', 'insert', 'reverse', 'clear', 'remove'):
                def f(*a):
                    if attr == 'append' and len(a) == 1:
                        import loops
                        if loops.append_outer(I, o, a[0]):
                            return
                    I.note_list_write(o)
                    I.run.list_mutation(I, o, attr, a)
                    if attr == 'extend':
                        items = I.concrete_iter(a[0])
                        if items is None:
                            raise Unsupported('extend by a symbolic sequence')
                        return o.extend(items)
                    try:
                        return getattr(o, attr)(*a)
                    except (IndexError, ValueError) as e:
                        raise PyRaise(type(e), e.args)
                return IP.Native(attr, f)
            def g(*a, **k):
                try:
                    return getattr(o, attr)(*a, **k)
                except (KeyError, IndexError, ValueError) as e:
                    raise PyRaise(type(e), e.args)
            return IP.Native(attr, g)
    raise PyRaise(AttributeError, (attr,)) if not hasattr(o, attr) else Unsupported('method %s of %s' % (attr, type(o).__name__))


def slist_attr(I, o, attr):
    import interp as IP
    if attr in ('append',):
        import loops
        return IP.Native('append', lambda x: loops.append_outer(I, o, x) or I.run.slist_append(I, o, x))
    if attr == 'copy':
        return IP.Native('copy', lambda: I.builtins['list'].f(o))
    raise Unsupported('attribute %s of a symbolic list' % attr)
