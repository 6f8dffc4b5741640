"""Parts shared by the specifications: symbolic inputs and the contracts that replace calls."""
from fractions import Fraction as Fr
import z3
from core import *
import core
import values as V
import interp as IP
import npmodel as NPM
from values import elem, Arr, mul, padd, H, T, C, ID, one, matrix, spectrum, index_array, diag_poly
from interp import SList, SRange, Obj, Opaque, Native, Bound

UNITS = {}      # property -> [(name, function, cfg)]


def unit(prop, name=None, **cfg):
    def deco(f):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            UNITS.setdefault(p, []).append((name or f.__name__, f, cfg))
        return f
    return deco


def units(prop, f, name, cfgs):
    for cfg in cfgs:
        UNITS.setdefault(prop, []).append((name + '[' + ','.join('%s=%s' % kv for kv in sorted(cfg.items()) if kv[0] != 'mpi') + ']', f, cfg))


def product(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


# ------------------------------------------------------------------ inputs
def tol(c, kind, name):
    """None, or a symbolic non-negative number"""
    if kind is None or kind == 'None':
        return None
    t = c.real_(name)
    c.assume(t.t >= 0)
    return t


def the_weights(c, kind, n):
    """(argument, weight matrix polynomial)"""
    if kind == 'none':
        return None, dict(ID)
    if kind == '1d':
        w = spectrum('w', n, real=True, pos=True)
        w.buf.frozen, w.buf.name = True, 'inner_product_weights'
        c.assume(V.z(n) >= 2) if False else None
        return w, diag_poly(w)
    W = matrix('W', n, n, frozen=True, herm=True)
    return W, W.poly


def indices(c, kind, name='ind'):
    """mode indices: None, or an index array of symbolic length whose bound is fixed later"""
    if kind is None or kind == 'None':
        return None
    k = c.int_('num_' + name, 0)
    n = c.int_('bound_' + name, 0)
    a = index_array(name, k, n, inj=False, frozen=True)
    f = z3.Function('idx_' + name, z3.IntSort(), z3.IntSort())
    return a


def sel_of(c, ind, K):
    """selection polynomial of mode indices for K columns"""
    if ind is None:
        return dict(ID)
    nm = ind.meta['idx']
    c.th.idx[nm]['n'] = c.dims.key(z(K))
    return one((('S', ('X', nm), False),))


def no_mutation(c, run, what='inputs are not modified'):
    run.obligation(c, what, not c.mutated, 'frame', 0, 'modified: %s' % c.mutated, None)


# ------------------------------------------------------------------ kept parts of decompositions
def kept(c, kind, A, atol, rtol, extra=()):
    """the values kept by the decomposition `kind` of A with these tolerances (C08 is the contract that defines them)"""
    memo = c.run_memo.setdefault('kept', [])
    for k2, A2, a2, r2, e2, rec in memo:
        if k2 == kind and same_tol(c, a2, atol) and same_tol(c, r2, rtol) and e2 == extra:
            if c.mat_zero(padd(A, A2, -1))[0]:
                return rec
    return None


def same_tol(c, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (int, float, Fr)) and isinstance(b, (int, float, Fr)):
        return a == b
    return c.valid(z(a) == z(b))


def bind(I, f, args, kw):
    return I.bind_args(f, args, kw)


def svd_contract(I, f, args, kw):
    b = bind(I, f, args, kw)
    c = ctx()
    A = NPM.to_array(I, b['array'], copy=False)
    p = V.needpoly(A)
    rec = kept(c, 'svd', p, b['atol'], b['rtol'])
    if rec is None:
        m, n = A.shape_
        K = c.int_('nsv', 1)
        c.assume(z3.And(K.t <= z(m), K.t <= z(n)))
        U, _ = V.new_atom('U', m, K)
        W, _ = V.new_atom('V', n, K)
        S = V.spectrum('S', K, real=True, pos=True)
        D = diag_poly(S)
        c.hyp(padd(mul(p, W), mul(U, D), -1), 'svd A V = U S')
        c.hyp(padd(mul(H(p), U), mul(W, D), -1), 'svd A^* U = V S')
        c.hyp(padd(mul(H(U), U), ID, -1), 'svd U^*U')
        c.hyp(padd(mul(H(W), W), ID, -1), 'svd V^*V')
        rec = dict(K=K, U=U, V=W, S=S, m=m, n=n)
        c.run_memo['kept'].append(('svd', p, b['atol'], b['rtol'], (), rec))
    return (Arr((rec['m'], rec['K']), poly=rec['U']), V.alias(rec['S']), Arr((rec['n'], rec['K']), poly=rec['V']))


def eigh_contract(I, f, args, kw):
    b = bind(I, f, args, kw)
    c = ctx()
    A = NPM.to_array(I, b['array'], copy=False)
    p = V.needpoly(A)
    pd = b['is_positive_definite']
    if not isinstance(pd, bool):
        pd = I.truth(pd)
    c.run.require_mat(c, padd(p, H(p), -1), 'array given to eigh is Hermitian')
    rec = kept(c, 'eigh', p, b['atol'], b['rtol'], (pd,))
    if rec is None:
        n = A.shape_[0]
        K = c.int_('nev', 1)
        c.assume(K.t <= z(n))
        Q, _ = V.new_atom('Q', n, K)
        E = V.spectrum('E', K, real=True, pos=pd, nonzero=True)
        c.hyp(padd(mul(p, Q), mul(Q, diag_poly(E)), -1), 'eigh A Q = Q E')
        c.hyp(padd(mul(H(Q), Q), ID, -1), 'eigh Q^*Q')
        rec = dict(K=K, Q=Q, E=E, n=n)
        c.run_memo['kept'].append(('eigh', p, b['atol'], b['rtol'], (pd,), rec))
    return (V.alias(rec['E']), Arr((rec['n'], rec['K']), poly=rec['Q']))


def eigb_contract(I, f, args, kw):
    b = bind(I, f, args, kw)
    c = ctx()
    A = NPM.to_array(I, b['array'], copy=False)
    p = V.needpoly(A)
    V.need_same(A.shape_[0], A.shape_[1], 'eig')
    sc = b['scale_choice']
    if not isinstance(sc, str) or sc.lower() not in ('left', 'right'):
        raise PyRaise(ValueError, ('scale choice',))
    memo = c.run_memo.setdefault('eigb', [])
    for q, s, rec in memo:
        if s == sc.lower() and c.mat_zero(padd(p, q, -1))[0]:
            break
    else:
        n = A.shape_[0]
        R, _ = V.new_atom('R', n, n)
        L, _ = V.new_atom('L', n, n)
        E = V.spectrum('lam', n, real=False, nonzero=True)
        D = diag_poly(E)
        c.hyp(padd(mul(p, R), mul(R, D), -1), 'eig A R = R E')
        c.hyp(padd(mul(H(L), p), mul(D, H(L)), -1), 'eig L^*A = E L^*')
        c.hyp(padd(mul(H(L), R), ID, -1), 'eig L^*R = I')
        c.hyp(padd(mul(R, H(L)), ID, -1), 'eig R L^* = I (square)')
        c.run.assumed.add('a one-sided inverse of a square array is two-sided')
        c.run.assumed.add('low-order maps have distinct nonzero eigenvalues')
        rec = dict(E=E, R=R, L=L, n=n)
        memo.append((p, sc.lower(), rec))
    n = rec['n']
    return (V.alias(rec['E']), Arr((n, n), poly=rec['R']), Arr((n, n), poly=rec['L']))


# ------------------------------------------------------------------ vector handles
def handles(c, name, n, m, poly=None):
    """m handles of vectors of dimension n: column i of a matrix"""
    if poly is None:
        poly = matrix(name, n, m).poly
    import vecs
    return vecs.make(c, name, n, m, poly)


def hpoly(I, h):
    if isinstance(h, SList) and 'handles' in h.meta:
        return h.meta['handles'], h.n
    raise Unsupported('handles of unknown content')


class VSH(object):
    """contracts of VectorSpaceHandles (decided under C02, C03, C04)"""
    def __init__(self, c, W):
        self.W = W
        self.puts = []

    comm = None

    def install(self, run):
        run.contracts['class vectorspace:VectorSpaceHandles'] = self.make
        run.contracts['vectorspace:VectorSpaceHandles.compute_inner_product_array'] = self.ip
        run.contracts['vectorspace:VectorSpaceHandles.compute_symm_inner_product_array'] = self.symm
        run.contracts['vectorspace:VectorSpaceHandles.lin_combine'] = self.lin
        if not run.cfg.get('mpi'):
            run.contracts['parallel:call_and_bcast'] = lambda I, f, args, kw: I.call(args[0], args[1:], kw)

    def collective(self, what):
        """all workers have to call these together"""
        if self.comm is not None:
            self.comm.calls.append((what,))

    def make(self, I, cls, args, kw):
        k, init = cls.find('__init__')
        b = I.bind_args(init, [None] + args, kw)
        o = Obj(cls)
        o.attrs.update({n: b[n] for n in ('inner_product', 'max_vecs_per_node', 'verbosity')})
        ctx().run_memo.setdefault('vsh', []).append(o)
        return o

    def ip(self, I, f, args, kw):
        self.collective('compute_inner_product_array')
        b = bind(I, f, args, kw)
        (p, m), (q, n) = hpoly(I, b['row_vec_handles']), hpoly(I, b['col_vec_handles'])
        self.need_ip(b['self'])
        return self.named(Arr((m, n), poly=mul(H(p), self.W, q)))

    def symm(self, I, f, args, kw):
        self.collective('compute_symm_inner_product_array')
        b = bind(I, f, args, kw)
        p, m = hpoly(I, b['vec_handles'])
        self.need_ip(b['self'])
        return self.named(Arr((m, m), poly=mul(H(p), self.W, p)))

    def named(self, a):
        return a

    def need_ip(self, o):
        ip = o.attrs['inner_product']
        ctx().run.obligation(ctx(), "the caller's inner product is used", ip is self.ipf, 'frame', 0, 'inner product is %r' % (ip,), None)

    ipf = Opaque('inner_product')

    def lin(self, I, f, args, kw):
        self.collective('lin_combine')
        b = bind(I, f, args, kw)
        c = ctx()
        p, m = hpoly(I, b['basis_vec_handles'])
        out = b['sum_vec_handles']
        co = NPM.to_array(I, b['coeff_array'], copy=False)
        if co.ndim != 2:
            raise Unsupported('coefficients that are not 2D')
        ci = b['coeff_array_col_indices']
        if ci is not None:
            co = V.index_arr(co, (slice(None), ci))
        if not V.same_dim(co.shape_[0], m) or not V.same_dim(co.shape_[1], out.n):
            raise PyRaise(ValueError, ('numbers of coefficients and handles',))
        self.puts.append((out, mul(p, V.needpoly(co))))
        return None


def each_worker(I, c, run, vsh, session):
    """without mpi4py, or on rank zero and on an arbitrary other rank of any number of workers (rank zero's broadcasts are what the other receives)"""
    if not run.cfg.get('mpi'):
        session(I, '')
        return
    import spmd
    import interp
    P, r = c.int_('P', 1), c.int_('rank', 1)
    c.assume(z3.And(P.t >= 2, r.t < P.t))
    comms = []
    for rank in (0, r):
        J = interp.Interp(run)
        comm = vsh.comm = spmd.install(J, c, run, P, rank)
        if comms:
            first = comms[0].calls
            comm.root_token = lambda k: first[k][2] if k < len(first) and first[k][0] == 'bcast' else spmd.RootValue(k)
        comms.append(comm)
        session(J, 'rank zero: ' if rank == 0 else 'other rank: ')
    a, b = ([x[:2] if x[0] == 'bcast' else x[:1] for x in cm.calls] for cm in comms)
    run.obligation(c, 'all workers take part in the same collective calls', [str(x) for x in a] == [str(x) for x in b], 'frame', 0, '%r and %r' % (a, b), None)


def dec_contracts(run):
    run.contracts['util:svd'] = svd_contract
    run.contracts['util:eigh'] = eigh_contract
    run.contracts['util:eig_biorthog'] = eigb_contract


def fld(r, name):
    """field of a named tuple result"""
    return getattr(r, name)


def mat(a, what='result'):
    if isinstance(a, Arr):
        p = V.matpoly(a)
        if p is not None:
            return p
        if a.ndim == 1:
            raise Unsupported('%s as a column' % what)
    if a is None:
        ctx().run.obligation(ctx(), 'the result is an array', False, 'shape', 0, 'it is None', None)
        raise Failed()
    raise Unsupported('%s is not a matrix (%r)' % (what, a))


def prove_diag(c, a, want, name):
    """1D array equals the diagonal of a polynomial"""
    c.prove_mat(diag_poly(a), want, name)


def prove_shape(c, a, shape, name):
    ok = a.ndim == len(shape)
    if not ok:
        c.run.obligation(c, name, False, 'shape', 0, 'dimensions %s' % (a.shape_,), None)
        return
    c.prove(z3.And([z(x) == z(y) for x, y in zip(a.shape_, shape)] + [z3.BoolVal(True)]), name)
