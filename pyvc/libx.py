"""More library models."""
import z3
from core import *
import values as V
import npmodel as NPM
from values import Arr, binop, elem

TABLE = {}


def lib(name):
    def deco(f):
        TABLE[name] = f
        return f
    return deco


@lib('arr.flatten')
@lib('arr.ravel')
@lib('numpy.ravel')
def flatten(I, a, order=None):
    a.fresh()
    if order not in (None, 'C'):
        raise Unsupported('order')
    if a.ndim == 1:
        return V.copy_arr(a)
    e = elem(a)
    if a.ndim == 0:
        return Arr((1,), elem=lambda i: e(), dtype=a.dtype)
    if a.ndim == 2:
        n, m = a.shape_
        if isinstance(m, int) and m == 1:
            return Arr((n,), elem=lambda i: e(z(i), z3.IntVal(0)), dtype=a.dtype)
        if isinstance(n, int) and n == 1:
            return Arr((m,), elem=lambda i: e(z3.IntVal(0), z(i)), dtype=a.dtype)
        return Arr((binop('*', n, m),), elem=lambda i: e(z(i) / z(m), z(i) % z(m)), dtype=a.dtype)
    raise Unsupported('flatten')


@lib('scipy.linalg.hankel')
def sp_hankel(I, c, r=None):
    NPM.assumed('scipy.linalg.hankel(c, r): entry (i, j) is c[i+j] if i+j < len(c), else r[i+j-len(c)+1]; zeros for r by default')
    c = flatten(I, NPM.to_array(I, c))
    r = NPM.zeros(I, c.shape_) if r is None else flatten(I, NPM.to_array(I, r))
    ec, er, n = elem(c), elem(r), z(c.shape_[0])

    def e(i, j):
        k = z3.simplify(z(i) + z(j))
        return ec(k) if ctx().decide(k < n) else er(z3.simplify(k - n + 1))
    return Arr((c.shape_[0], r.shape_[0]), elem=e, dtype=V.joint(c, r))


def ogrid(I, key):
    key = key if isinstance(key, tuple) else (key,)
    out = []
    for d, k in enumerate(key):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported('ogrid')
        lo = 0 if k.start is None else k.start
        n = IPmod().SRange(lo, k.stop).length()
        sh = [1] * len(key)
        sh[d] = n
        out.append(Arr(tuple(sh), elem=(lambda d, lo: lambda *i: binop('+', lo, SNum(z(i[d]))))(d, lo), dtype='int'))
    return out[0] if len(out) == 1 else out


def IPmod():
    import interp
    return interp


@lib('arr.swapaxes')
@lib('numpy.swapaxes')
def swapaxes(I, a, i, j):
    a = NPM.to_array(I, a, copy=False)
    i, j = (k + a.ndim if k < 0 else k for k in (i, j))
    if not (0 <= i < a.ndim and 0 <= j < a.ndim):
        raise PyRaise(ValueError, ('axis',))
    if a.ndim == 2 and i != j:
        return V.transpose(a)
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return permute(I, a, p)


@lib('arr.transpose')
def arr_transpose(I, a, *ax):
    if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
        ax = tuple(ax[0])
    if sorted(ax) != list(range(a.ndim)):
        raise PyRaise(ValueError, ('axes',))
    return permute(I, a, list(ax))


@lib('numpy.moveaxis')
def moveaxis(I, a, s, d):
    a = NPM.to_array(I, a, copy=False)
    s, d = (k + a.ndim if k < 0 else k for k in (s, d))
    p = [k for k in range(a.ndim) if k != s]
    p.insert(d, s)
    return permute(I, a, p)


def permute(I, a, p):
    a.fresh()
    e = elem(a)
    r = Arr(tuple(a.shape_[k] for k in p), dtype=a.dtype, buf=a.buf, view=True)
    r.ver = a.ver
    inv = [p.index(k) for k in range(len(p))]
    r.elem_ = lambda *i: e(*[i[k] for k in inv])
    return r


class System(object):
    """scipy.signal.StateSpace"""
    def __init__(self, A, B, C, D, dt):
        self.A, self.B, self.C, self.D, self.dt = A, B, C, D, dt


@lib('scipy.signal.StateSpace')
def state_space(I, *abcd, **kw):
    if len(abcd) != 4 or set(kw) - {'dt'}:
        raise Unsupported('StateSpace')
    a = [V.copy_arr(NPM.to_array(I, x, copy=False)) for x in abcd]
    for x in a:
        if x.ndim != 2:
            raise Unsupported('StateSpace of %dD arrays' % x.ndim)
    A, B, C, D = a
    for x, y in ((A.shape_[0], A.shape_[1]), (A.shape_[0], B.shape_[0]), (A.shape_[0], C.shape_[1]), (C.shape_[0], D.shape_[0]), (B.shape_[1], D.shape_[1])):
        V.need_same(x, y, 'StateSpace')
    return System(A, B, C, D, kw.get('dt'))


@lib('scipy.signal.dlsim')
def dlsim(I, sys, u, t=None, x0=None):
    NPM.assumed('scipy.signal.dlsim(system, u, x0): x[0] = x0 (zero by default), x[k+1] = A x[k] + B u[k], y[k] = C x[k] + D u[k], one output per input')
    if not isinstance(sys, System) or t is not None or sys.dt is None:
        raise Unsupported('dlsim')
    c = ctx()
    y = V.matrix('outputs', u.shape_[0], sys.C.shape_[0])
    x = V.matrix('states', u.shape_[0], sys.A.shape_[0])
    c.run_memo.setdefault('dlsim', []).append((y, sys, u, x0))
    return (IPmod().Opaque('times'), y, x)


@lib('scipy.signal.dimpulse')
def dimpulse(I, sys, x0=None, t=None, n=None):
    NPM.assumed('scipy.signal.dimpulse(system, n): one response per input, n steps (100 by default), D at step 0 and C A^(k-1) B at step k')
    if not isinstance(sys, System) or t is not None or x0 is not None or sys.dt is None:
        raise Unsupported('dimpulse')
    c = ctx()
    n = 100 if n is None else n
    q, p = sys.C.shape_[0], sys.B.shape_[1]
    f = z3.Function(c.fresh('markov'), z3.IntSort(), z3.IntSort(), z3.IntSort(), V.Num)
    g = elem(sys.D)
    c.run_memo.setdefault('dimpulse', []).append((f, sys, n))

    def at(i):
        def e(k, s):
            k = z3.simplify(z(k))
            d = z(g(z(s), z(i)))
            if not z3.is_expr(d) or d.sort() != V.Num:
                d = z3.Function('num', z3.RealSort(), V.Num)(z3.simplify(z3.ToReal(d)) if d.sort() == z3.IntSort() else d)
            return SNum(z3.simplify(z3.If(k == 0, d, f(k - 1, z(s), z(i)))))
        return Arr((n, q), elem=e)
    return (IPmod().Opaque('times'), IPmod().SList(p, at))


@lib('numpy.linspace')
def linspace(I, a, b, n=50):
    NPM.assumed('numpy.linspace(a, b, n): n numbers, the first a, the last b, equally spaced')
    c = ctx()
    s = V.spectrum('lin', n, real=True)
    f = c.th.vecs[s.spec[0][0]]['fn']
    i = z3.Int(c.fresh('li'))
    a, b = z(a), z(b)
    # what is used: between the ends
    lo, hi = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
    c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), z3.And(lo <= f(i), f(i) <= hi))))
    return s


@lib('numpy.random.normal')
def random_normal(I, loc=0.0, scale=1.0, size=None):
    NPM.assumed('numpy.random.normal/random: real entries of the requested shape (in [0, 1) for random); a square random array is invertible')
    return random_array(I, size)


@lib('numpy.random.random')
def random_random(I, size=None):
    NPM.assumed('numpy.random.normal/random: real entries of the requested shape (in [0, 1) for random); a square random array is invertible')
    r = random_array(I, size)
    if r.ndim == 1:
        c = ctx()
        f = c.th.vecs[r.spec[0][0]]['fn']
        i = z3.Int(c.fresh('ri'))
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(r.shape_[0])), z3.And(0 <= f(i), f(i) < 1))))
    return r


def random_array(I, size):
    size = (size,) if isinstance(size, (int, SNum)) else size
    if not isinstance(size, (tuple, list)):
        raise Unsupported('random number')
    size = tuple(size)
    if len(size) == 1:
        return V.spectrum('rnd', size[0], real=True)
    if len(size) == 2:
        return V.matrix('rnd', size[0], size[1], real=True)
    raise Unsupported('random array')


@lib('arr.reshape')
def arr_reshape(I, a, *shape, **kw):
    if kw and kw != {'order': 'C'}:
        raise Unsupported('reshape order')
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    return reshape(I, a, shape)


@lib('numpy.reshape')
def np_reshape(I, a, shape, order='C'):
    if order != 'C':
        raise Unsupported('reshape order')
    return reshape(I, NPM.to_array(I, a, copy=False), tuple(shape) if isinstance(shape, (tuple, list)) else (shape,))


def reshape(I, a, shape):
    """sizes of one may be added and removed"""
    a.fresh()
    c = ctx()
    shape = list(shape)
    is1 = lambda d: isinstance(d, int) and d == 1
    if any(isinstance(d, int) and d == -1 for d in shape):
        k = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
        rest = [d for d in shape if not (isinstance(d, int) and d == -1)]
        left = [d for d in a.shape_]
        for d in rest:
            for x in left:
                if is1(d) and is1(x) or (not is1(d) and V.is_dim(x, d)):
                    left.remove(x)
                    break
            else:
                if not is1(d):
                    raise Unsupported('reshape')
        big = [d for d in left if not is1(d)]
        if len(k) != 1 or len(big) > 1:
            raise Unsupported('reshape')
        shape[k[0]] = big[0] if big else 1
    src = [(k, d) for k, d in enumerate(a.shape_) if not is1(d)]
    dst = [(k, d) for k, d in enumerate(shape) if not is1(d)]
    if len(src) != len(dst):
        raise Unsupported('reshape')
    for (i, x), (j, y) in zip(src, dst):
        V.need_same(x, y, 'reshape')
    if len(shape) == a.ndim and not [1 for (i, x), (j, y) in zip(src, dst) if i != j]:
        return V.alias(a)
    r = Arr(tuple(shape), dtype=a.dtype, buf=a.buf, view=True)
    r.ver = a.ver
    pos = {i: j for (i, x), (j, y) in zip(src, dst)}
    e = elem(a)
    r.elem_ = lambda *ix: e(*[ix[pos[k]] if k in pos else z3.IntVal(0) for k in range(a.ndim)])
    if a.poly is not None and a.ndim in (1, 2) and len(shape) in (1, 2):
        # a column may become a row and so on
        if a.ndim == 1 and len(shape) == 2:
            r.poly = a.poly if is1(shape[1]) else V.T(a.poly)
        elif a.ndim == 2 and len(shape) == 1:
            r.poly = a.poly if is1(a.shape_[1]) else V.T(a.poly)
        elif a.ndim == 2 and len(shape) == 2:
            r.poly = V.T(a.poly)
    return r


@lib('numpy.linalg.eigvals')
def eigvals(I, a):
    a = NPM.to_array(I, a, copy=False)
    V.need_same(a.shape_[0], a.shape_[1], 'eigvals')
    f = z3.Function(ctx().fresh('eigenvalue'), z3.IntSort(), V.Num)
    NPM.assumed('numpy.linalg.eigvals: some numbers, as many as rows (only printed)')
    return Arr((a.shape_[0],), elem=lambda i: SNum(f(z(i))))


@lib('numpy.diff')
def np_diff(I, a, n=1, axis=-1):
    a = NPM.to_array(I, a, copy=False)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    e = elem(a)
    return Arr((mknum(z(a.shape_[0]) - 1),), elem=lambda i: binop('-', e(z3.simplify(z(i) + 1)), e(z(i))), dtype=a.dtype)


def round_half_even(t):
    t = z(t)
    if t.sort() == z3.IntSort():
        return SNum(t)
    if t.sort() != z3.RealSort():
        raise Unsupported('rounding of entries')
    h = t + z3.RealVal('1/2')
    r = z3.ToInt(h)
    return SNum(z3.ToReal(z3.If(z3.And(z3.ToReal(r) == h, r % 2 != 0), r - 1, r)))


@lib('numpy.round')
@lib('numpy.around')
@lib('numpy.rint')
@lib('arr.round')
def np_round(I, a, decimals=0):
    if not (isinstance(decimals, int) and decimals == 0):
        raise Unsupported('decimals')
    NPM.assumed('numpy.round: nearest integer, halves to even')
    if not isinstance(a, Arr):
        return round_half_even(a)
    e = elem(a)
    return Arr(a.shape_, elem=lambda *i: round_half_even(e(*i)), dtype=a.dtype)


@lib('arr.astype')
def arr_astype(I, a, dtype, copy=True):
    return I.run.astype(I, a, dtype)


@lib('numpy.linalg.lstsq')
def lstsq(I, a, b, rcond=None):
    """X with A^* A X = A^* B"""
    NPM.assumed('numpy.linalg.lstsq(A, B)[0]: a solution of the normal equations A^* A X = A^* B (the one of least norm)')
    a, b = NPM.to_array(I, a), NPM.to_array(I, b)
    if a.ndim != 2 or b.ndim not in (1, 2):
        raise Unsupported('lstsq')
    if not (rcond is None or isinstance(rcond, str) and rcond == 'warn' or isinstance(rcond, (int, float)) and not isinstance(rcond, bool) and rcond <= 1e-13):
        # above the size of rounding errors: no solution of the normal equations any more when singular values are small
        if not isinstance(rcond, (int, float)) or rcond <= 1e-11:
            raise Unsupported('rcond %r' % (rcond,))
        c = ctx()
        c.run.obligation(c, 'least squares without a truncation above rounding errors', False, 'algebra', 0, 'rcond is %r' % (rcond,), None)
        raise Failed()
    V.need_same(a.shape_[0], b.shape_[0], 'lstsq')
    c = ctx()
    A, B = V.needpoly(a), V.needpoly(b)
    X, nm = V.new_atom('X', a.shape_[1], b.shape_[1] if b.ndim == 2 else 1)
    dt = V.inexact(V.joint(a, b))
    if dt == 'real':
        c.th.atoms[nm]['real'] = True
    c.hyp(V.padd(V.mul(V.H(A), A, X), V.mul(V.H(A), B), -1), 'normal equations')
    x = Arr((a.shape_[1],) + b.shape_[1:], poly=X, dtype=dt)
    c.run_memo.setdefault('lstsq', []).append((a, b, X))
    import interp as IP
    return (x, IP.Opaque('residuals'), IP.Opaque('rank'), IP.Opaque('singular values'))


NAMES = {'bool': 'bool', 'int': 'int', 'real': 'float', 'complex': 'complex'}


@lib('numpy.result_type')
def result_type(I, *xs):
    """the type that holds all of them, as a name that array constructors accept"""
    r = []
    for x in xs:
        nm = getattr(x, 'name', x)
        if not isinstance(x, Arr) and nm in ('bool', 'int', 'float', 'complex'):
            r.append({'float': 'real'}.get(nm, nm))
        elif isinstance(x, Arr) and x.dtype in V.RANK:
            r.append(x.dtype)
        else:
            raise Unsupported('result_type')
    if not r:
        raise Unsupported('result_type')
    t = NAMES[V.RANK[max(V.RANK.index(x) for x in r)]]
    if t == 'bool':
        raise Unsupported('arrays of truth values')
    return I.builtins[t]


def like(fill):
    def f(I, a, dtype=None):
        a = NPM.to_array(I, a, copy=False)
        if dtype is None and a.dtype not in ('int', 'real', 'complex'):
            raise Unsupported('type of an array')
        return NPM.zeros(I, a.shape_, I.builtins[NAMES[a.dtype]] if dtype is None else dtype, fill)
    return f


lib('numpy.zeros_like')(like(0))
lib('numpy.ones_like')(like(1))


@lib('numpy.array_equal')
def array_equal(I, a, b):
    r = allclose(I, a, b)
    if r is not True and ctx().decide(z(r)):
        raise Unsupported('arrays that happen to be equal')
    return r is True


@lib('numpy.allclose')
def allclose(I, a, b, *args, **k):
    """nothing is known of the answer, unless the two arrays are the same"""
    c = ctx()
    a, b = (NPM.to_array(I, x, copy=False) for x in (a, b))
    if a.ndim != b.ndim:
        raise Unsupported('comparison of arrays with different numbers of dimensions')
    for x, y in zip(a.shape_, b.shape_):
        if not c.valid(z(x) == z(y)):
            raise Unsupported('comparison of arrays that may have different sizes')
    a.fresh()
    b.fresh()
    if a is b:
        return True
    if a.poly is not None and b.poly is not None and c.mat_zero(V.padd(a.poly, b.poly, -1))[0]:
        return True
    return V.mkbool(z3.Bool(c.fresh('about_equal')))
