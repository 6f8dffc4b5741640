from common import *
import spmd


class Files(object):
    """where a put function writes and a get function reads; `text` brings a 1D array back as one column"""
    def __init__(self, text=False):
        self.text = text
        self.puts, self.gets = [], []
        self.kept = {}

    def put_fn(self):
        files = self

        class Put(object):
            def sym_call(self, I, args, kw):
                if ctx().loops or ctx().replaying:
                    raise Unsupported('put in a symbolic loop')
                files.puts.append((list(args), dict(kw)))
                if len(args) > 1:
                    files.kept[id(args[1])] = args[0]
        return Put()

    def get_fn(self):
        files = self

        class Get(object):
            def sym_call(self, I, args, kw):
                if ctx().loops or ctx().replaying:
                    raise Unsupported('get in a symbolic loop')
                files.gets.append((list(args), dict(kw)))
                if len(args) != 1 or kw or id(args[0]) not in files.kept:
                    raise PyRaise(IOError, ('nothing stored at %r' % (args,),))
                v = files.kept[id(args[0])]
                v.fresh()
                r = V.copy_arr(v)
                if files.text and r.ndim == 1:
                    r = V.index_arr(r, (slice(None), None))
                return r
        return Get()


def same_array(c, a, b):
    """None if a and b are the same array value, otherwise what differs"""
    if a is b:
        return None
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return 'not an array: %r' % (a if not isinstance(a, Arr) else b,)
    a.fresh()
    b.fresh()
    if a.ndim != b.ndim:
        return '%d and %d dimensions' % (a.ndim, b.ndim)
    for x, y in zip(a.shape_, b.shape_):
        if not c.valid(z(x) == z(y)):
            return 'shapes %r and %r' % (a.shape_, b.shape_)
    p, q = (diag_poly(x) if x.ndim == 1 and x.diagpoly is not None or x.spec is not None else x.poly for x in (a, b))
    if p is not None and q is not None:
        return None if c.mat_zero(padd(p, q, -1))[0] else 'values'
    if a.elem_ is None or b.elem_ is None:
        return 'values unknown'
    i = [z3.Int(c.fresh('entry')) for _ in a.shape_]
    rng = z3.And([z3.And(0 <= k, k < z(n)) for k, n in zip(i, a.shape_)])
    return None if c.valid(z3.Implies(rng, z(elem(a)(*i)) == z(elem(b)(*i)))) else 'entries'


def pair(I, c, run):
    """two workers of the same run: rank zero and any other one, if there is one"""
    P = c.int_('P', 1)
    r = c.int_('rank', 1)
    c.assume(z3.And(P.t >= 2, r.t < P.t))
    out = []
    for rank in (0, r):
        J = IP.Interp(run)
        comm = spmd.install(J, c, run, P, rank)
        out.append((J, comm))
    return out


def one(I, c, run):
    """one worker, without or with mpi4py"""
    if run.cfg['mpi']:
        return [(I, spmd.install(I, c, run, 1, 0))]
    return [(I, None)]


def workers(I, c, run):
    return pair(I, c, run) if run.cfg['world'] == 'MPI' else one(I, c, run)


def build(J, cls, put, get):
    mod, name = cls.split('.')
    C_ = J.module(mod).env[name]
    kw = dict(put_array=put)
    k, init = C_.find('__init__')
    names = [a.arg for a in init.node.args.args]
    if 'get_array' in names:
        kw['get_array'] = get
    if 'verbosity' in names:
        kw['verbosity'] = 0
    if name == 'LTIGalerkinProjectionHandles':
        return J.call(C_, [Opaque('inner_product'), [Opaque('h0'), Opaque('h1')]], kw)
    if name == 'LTIGalerkinProjectionArrays':
        c = ctx()
        X = V.matrix('basis', c.int_('n', 1), c.int_('r', 1), frozen=True)
        return J.call(C_, [X], kw)
    return J.call(C_, [], kw)


ONE_D = ('eigvals', 'sing_vals', 'correlation_array_eigvals', 'sum_correlation_array_eigvals', 'proj_correlation_array_eigvals')

POD = dict(put_decomp=['eigvals', 'eigvecs'], put_eigvals=['eigvals'], put_eigvecs=['eigvecs'], put_correlation_array=['correlation_array'], put_proj_coeffs=['proj_coeffs'])
BPOD = dict(put_decomp=['sing_vals', 'L_sing_vecs', 'R_sing_vecs'], put_sing_vals=['sing_vals'], put_L_sing_vecs=['L_sing_vecs'], put_R_sing_vecs=['R_sing_vecs'], put_Hankel_array=['Hankel_array'],
            put_direct_proj_coeffs=['direct_proj_coeffs'], put_adjoint_proj_coeffs=['adjoint_proj_coeffs'])
DMD = dict(put_decomp=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs'], put_eigvals=['eigvals'], put_R_low_order_eigvecs=['R_low_order_eigvecs'],
           put_L_low_order_eigvecs=['L_low_order_eigvecs'], put_correlation_array_eigvals=['correlation_array_eigvals'], put_correlation_array_eigvecs=['correlation_array_eigvecs'], put_correlation_array=['correlation_array'],
           put_cross_correlation_array=['cross_correlation_array'], put_spectral_coeffs=['spectral_coeffs'], put_proj_coeffs=['proj_coeffs', 'adv_proj_coeffs'])
TLS = dict(put_decomp=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'],
           put_eigvals=['eigvals'], put_R_low_order_eigvecs=['R_low_order_eigvecs'], put_L_low_order_eigvecs=['L_low_order_eigvecs'],
           put_sum_correlation_array_eigvals=['sum_correlation_array_eigvals'], put_sum_correlation_array_eigvecs=['sum_correlation_array_eigvecs'],
           put_proj_correlation_array_eigvals=['proj_correlation_array_eigvals'], put_proj_correlation_array_eigvecs=['proj_correlation_array_eigvecs'],
           put_correlation_array=['correlation_array'], put_cross_correlation_array=['cross_correlation_array'], put_adv_correlation_array=['adv_correlation_array'],
           put_sum_correlation_array=['sum_correlation_array'], put_proj_correlation_array=['proj_correlation_array'], put_spectral_coeffs=['spectral_coeffs'], put_proj_coeffs=['proj_coeffs', 'adv_proj_coeffs'])
ERA = dict(put_model=['A', 'B', 'C'], put_decomp=['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'Hankel_array2'], put_sing_vals=['sing_vals'])
LTI = dict(put_model=['A_reduced', 'B_reduced', 'C_reduced'], put_A_reduced=['A_reduced'], put_B_reduced=['B_reduced'], put_C_reduced=['C_reduced'])
CLASSES = {'pod.PODHandles': POD, 'bpod.BPODHandles': BPOD, 'dmd.DMDHandles': DMD, 'dmd.TLSqrDMDHandles': TLS, 'era.ERA': ERA, 'ltigalerkinproj.LTIGalerkinProjectionHandles': LTI, 'ltigalerkinproj.LTIGalerkinProjectionArrays': LTI}


def fill(c, J, o, table, arrays):
    for n in sorted(set(sum(table.values(), []))):
        if n not in arrays:
            if n in ONE_D:
                arrays[n] = V.spectrum(n, c.int_('size_' + n, 1))
            else:
                arrays[n] = V.matrix(n, c.int_('rows_' + n, 1), c.int_('cols_' + n, 1))
        J.setattr(o, n, arrays[n])


def collectives(comm):
    return [(x[0],) + ((str(x[1]),) if x[0] == 'bcast' else ()) for x in comm.calls]


def meet(ws):
    """rank zero's broadcasts as other ranks receive them"""
    if len(ws) == 2:
        first = ws[0][1]

        def token(k):
            if k < len(first.calls) and first.calls[k][0] == 'bcast':
                return first.calls[k][2]
            return spmd.RootValue(k)
        ws[1][1].root_token = token


def matched(c, run, ws):
    if len(ws) == 2:
        a, b = collectives(ws[0][1]), collectives(ws[1][1])
        run.obligation(c, 'all workers take part in the same collective calls', a == b, 'frame', 0, '%r and %r' % (a, b), None)


def put(I, c, run):
    cls, meth = run.cfg['cls'], run.cfg['method']
    names = CLASSES[cls][meth]
    ws = workers(I, c, run)
    meet(ws)
    arrays = {}
    for k, (J, comm) in enumerate(ws):
        F = Files()
        o = build(J, cls, F.put_fn(), F.get_fn())
        fill(c, J, o, CLASSES[cls], arrays)
        if comm is not None:
            comm.calls[:] = []
        dests = [Opaque('dest_' + n) for n in names]
        J.call(J.getattr(o, meth), list(dests), {})
        if k:
            run.obligation(c, 'other ranks do not put', not F.puts, 'frame', 0, '%d puts' % len(F.puts), None)
            continue
        run.obligation(c, 'each array is put once', len(F.puts) == len(names), 'frame', 0, '%d puts of %d' % (len(F.puts), len(names)), None)
        for n, d in zip(names, dests):
            at = [p for p in F.puts if len(p[0]) == 2 and not p[1] and p[0][1] is d]
            run.obligation(c, '%s is put once to its own destination' % n, len(at) == 1, 'frame', 0, '%r' % (F.puts,), None)
            if len(at) == 1:
                bad = same_array(c, at[0][0][0], arrays[n])
                run.obligation(c, 'what is put is %s itself' % n, bad is None, 'algebra', 0, bad, None)
    matched(c, run, ws)


GETS = {'pod.PODHandles': dict(get_decomp='put_decomp', get_correlation_array='put_correlation_array', get_proj_coeffs='put_proj_coeffs'),
        'bpod.BPODHandles': dict(get_decomp='put_decomp', get_Hankel_array='put_Hankel_array', get_direct_proj_coeffs='put_direct_proj_coeffs', get_adjoint_proj_coeffs='put_adjoint_proj_coeffs'),
        'dmd.DMDHandles': dict(get_decomp='put_decomp', get_correlation_array='put_correlation_array', get_cross_correlation_array='put_cross_correlation_array', get_spectral_coeffs='put_spectral_coeffs', get_proj_coeffs='put_proj_coeffs'),
        'dmd.TLSqrDMDHandles': dict(get_decomp='put_decomp', get_correlation_array='put_correlation_array', get_cross_correlation_array='put_cross_correlation_array', get_adv_correlation_array='put_adv_correlation_array',
                                    get_sum_correlation_array='put_sum_correlation_array', get_proj_correlation_array='put_proj_correlation_array', get_spectral_coeffs='put_spectral_coeffs', get_proj_coeffs='put_proj_coeffs')}


def get(I, c, run):
    """an object restored from what another one stored"""
    cls, meth = run.cfg['cls'], run.cfg['method']
    names = CLASSES[cls][GETS[cls][meth]]
    ws = workers(I, c, run)
    meet(ws)
    arrays = {}
    F0 = Files(run.cfg['store'] == 'text')
    srcs = [Opaque('src_' + n) for n in names]
    for k, (J, comm) in enumerate(ws):
        F = F0 if k == 0 else Files()
        o = build(J, cls, F.put_fn(), F.get_fn())
        if k == 0:
            fill(c, J, o, CLASSES[cls], arrays)
            for n, s in zip(names, srcs):
                F0.kept[id(s)] = arrays[n]
            o = build(J, cls, F.put_fn(), F.get_fn())
        if comm is not None:
            comm.calls[:] = []
        J.call(J.getattr(o, meth), list(srcs), {})
        if k == 0:
            run.obligation(c, 'each source is read once', len(F.gets) == len(srcs) and all(sum(1 for g in F.gets if g[0] and g[0][0] is s) == 1 for s in srcs), 'frame', 0, '%r' % (F.gets,), None)
        else:
            run.obligation(c, 'other ranks read no source', not F.gets, 'frame', 0, '%r' % (F.gets,), None)
        run.obligation(c, 'nothing is put', not F.puts, 'frame', 0, '', None)
        for n in names:
            v = o.attrs.get(n)
            bad = same_array(c, v, arrays[n])
            if n in ONE_D and isinstance(v, Arr) and v.ndim == 1:
                v.fresh()
                bad = None if c.valid(z(v.shape_[0]) == z(arrays[n].shape_[0])) and v.spec is not None and c.mat_zero(padd(diag_poly(v), diag_poly(arrays[n]), -1))[0] else bad or 'values'
            if n not in ONE_D and F0.text and False:
                pass
            run.obligation(c, '%s is restored on %s' % (n, 'rank zero' if k == 0 else 'every other rank'), bad is None, 'algebra', 0, bad, None)
    matched(c, run, ws)


WORLDS = (('MPI', True), ('one', True), ('noMPI', False))
units('C21', put, 'put', [dict(cls=k, method=m, world=w, mpi=x) for k in CLASSES for m in sorted(CLASSES[k]) for w, x in (WORLDS if not k.startswith('era') and k != 'ltigalerkinproj.LTIGalerkinProjectionArrays' else WORLDS[1:])])
units('C21', get, 'get', [dict(cls=k, method=m, world=w, mpi=x, store=s) for k in GETS for m in sorted(GETS[k]) for w, x in WORLDS for s in ('exact', 'text')])
