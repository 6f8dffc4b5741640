"""Common parts of the run-time contract checks: generators, comparisons, oracles."""
import contextlib, copy, io, itertools, os, sys, warnings
import numpy as np
import fakempi

warnings.simplefilter('ignore')


class Violation(Exception):
    pass


class Skip(Exception):
    pass


def req(cond, msg):
    if not cond:
        raise Violation(msg)


def close(a, b, what, tol=1e-8, scale=None):
    a = np.asarray(a)
    b = np.asarray(b)
    req(a.shape == b.shape, '%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    try:
        d = np.abs(a - b).max()
    except TypeError:
        raise Violation('%s: not numeric' % what)
    s = max(np.abs(b).max(), 1e-300) if scale is None else scale
    req(np.isfinite(d) and d <= tol * s, '%s: differs from its specification by %.3g (scale %.3g)' % (what, d, s))


def same(a, b, what):
    a = np.asarray(a)
    b = np.asarray(b)
    req(a.shape == b.shape and np.array_equal(a, b), '%s was modified' % what)


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def H(a):
    return np.asarray(a).conj().T


def rnd(rng, shape, cplx=False):
    a = rng.standard_normal(shape)
    if cplx:
        a = a + 1j * rng.standard_normal(shape)
    return a


def orth(rng, n, k, cplx):
    q, _ = np.linalg.qr(rnd(rng, (n, max(k, 1)), cplx))
    return q[:, :k]


def weights(rng, n, kind, cplx):
    """(weights as passed, full array)"""
    if kind == 'none':
        return None, np.eye(n)
    if kind == '1d':
        w = rng.uniform(0.5, 2.0, n)
        return w, np.diag(w)
    q = orth(rng, n, n, cplx)
    W = q.dot(np.diag(rng.uniform(0.5, 2.0, n))).dot(H(q))
    W = (W + H(W)) / 2
    return W, W


def wsqrt(W):
    return H(np.linalg.cholesky(W))


def with_spectrum(rng, n, m, sv, W, cplx):
    """n x m array with singular values sv in the W inner product"""
    r = len(sv)
    U = np.linalg.solve(wsqrt(W), orth(rng, n, r, cplx))
    V = orth(rng, m, r, cplx)
    return U.dot(np.diag(sv)).dot(H(V))


class Handle(object):
    """A vector handle that records what is done to it."""
    def __init__(self, vec=None, log=None, name=None):
        self.vec = vec
        self.log = log
        self.name = name

    def get(self):
        return self.vec

    def put(self, vec):
        self.vec = vec
        if self.log is not None:
            self.log.append((self.name, np.array(vec)))


class V(object):
    """A vector object that offers nothing but what the documentation asks for
    (addition, scalar multiplication), and keeps an array inside."""
    def __init__(self, a):
        self.a = a

    def __add__(self, o):
        return type(self)(self.a + o.a)

    def __sub__(self, o):
        return type(self)(self.a - o.a)

    def __mul__(self, s):
        return type(self)(self.a * s)
    __rmul__ = __mul__

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.a, dtype=dtype)


class VI(V):
    """the same with operations in place, as arrays have them"""
    def __iadd__(self, o):
        self.a = self.a + o.a
        return self

    def __isub__(self, o):
        self.a = self.a - o.a
        return self

    def __imul__(self, s):
        self.a = self.a * s
        return self


class VA(V):
    def __eq__(self, o):
        return isinstance(o, V) and np.array_equal(self.a, o.a)
    __hash__ = None


def selections(rng, n, how):
    if how == 'none' or n == 0:
        return None
    if how == 'all':
        return list(range(n))
    if how == 'range':
        return range(max(1, n - 1))
    if how == 'rev':
        return list(range(n))[::-1]
    if how == 'one':
        return [int(rng.integers(n))]
    if how == 'empty':
        return []
    if how == 'array':
        return np.array([int(rng.integers(n)) for _ in range(n)])
    return [int(rng.integers(n)) for _ in range(max(1, n // 2 + 1))]


def layout(A, how):
    """the same array in another memory layout"""
    if how == 'F':
        return np.asfortranarray(A)
    if how == 'rev':
        return np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1]
    if how == 'view':
        b = np.zeros(tuple(2 * s + 1 for s in A.shape), A.dtype)
        v = b[tuple(slice(1, 2 * s + 1, 2) for s in A.shape)]
        v[...] = A
        return v
    return A


LAY = ['C', 'C', 'F', 'rev', 'view']


def sel_cols(a, idx):
    return a if idx is None else np.asarray(a)[:, list(idx)]


def serial():
    return fakempi.load(1, 1, mpi=False)[1][0]


def collect(P, nodes=1):
    return fakempi.load(P, nodes)


def product_cases(rng, budget, **axes):
    """Random cases over the product of axes; every value of every axis comes
    up early (each axis cycles through its own shuffled order)."""
    keys = sorted(axes)
    cyc = {}
    while budget > 0:
        c = {}
        for k in keys:
            if not cyc.get(k):
                cyc[k] = list(axes[k])
                rng.shuffle(cyc[k])
            v = cyc[k].pop()
            c[k] = v.item() if hasattr(v, 'item') else v
        c['seed'] = int(rng.integers(2 ** 31))
        yield c
        budget -= 1


def handles(X, log=None, name='', kind=None, wrap=None):
    kind = kind or (lambda a: a)
    return [Handle((wrap or (VI if (j + X.shape[1]) % 2 else V))(kind(np.array(X[:, j]))), log, (name, j)) for j in range(X.shape[1])]


def outs(log, key, k):
    return [Handle(None, log, (key, j)) for j in range(k)]
