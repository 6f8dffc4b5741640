from common import *
import spmd


class Fn(object):
    """any function: every call is logged and gives a value of its own"""
    def __init__(self):
        self.calls = []

    def sym_call(self, I, args, kw):
        if ctx().loops or ctx().replaying:
            raise Unsupported('function called in a symbolic loop')
        v = Opaque('result_%d' % len(self.calls))
        self.calls.append((list(args), dict(kw), v))
        ctx().events.append(('call',))
        return v


def world(I, c, run):
    if not run.cfg['mpi']:
        return None
    return spmd.install(I, c, run)


def same(x, y):
    return len(x) == len(y) and all(p is q for p, q in zip(x, y))


def helper(I, c, run):
    comm = world(I, c, run)
    par = I.module('parallel')
    if comm is not None:
        comm.calls[:] = []
    c.events[:] = []
    f = Fn()
    val = Opaque('value')
    args = [Opaque('a%d' % i) for i in range(run.cfg['n'])]
    kw = {'k%d' % i: Opaque('kv%d' % i) for i in range(run.cfg['n'] // 2)}
    fn = par.env[run.cfg['f']]
    # and every keyword that the helper itself could take for its own
    spec = fn.node.args
    kw.update({a.arg: Opaque('own_' + a.arg) for a in spec.args[1 + run.cfg['n']:] + spec.kwonlyargs})
    bc = run.cfg['f'] == 'bcast'
    r = I.call(fn, [val], {}) if bc else I.call(fn, [f] + args, kw)
    one = comm is None
    root = True if comm is None else c.decide(z(comm.r) == 0)
    many = False if comm is None else c.decide(z(comm.P) > 1)
    say = lambda name, ok, detail='': run.obligation(c, name, bool(ok), 'frame', 0, detail, None)
    if not bc:
        if root:
            say('rank zero runs the function once', len(f.calls) == 1, '%d calls' % len(f.calls))
            if len(f.calls) == 1:
                a, k, v = f.calls[0]
                say('with the given positional arguments', same(a, args), '%r' % (a,))
                say('with the given keyword arguments', sorted(k) == sorted(kw) and all(k[n] is kw[n] for n in kw), '%r' % (k,))
                say('its result is returned on rank zero', r is v, repr(r))
                val = v
        else:
            say('other ranks do not run the function', not f.calls, '%d calls' % len(f.calls))
    elif root:
        say('the value is returned on rank zero', r is val, repr(r))
    bs = [] if comm is None else [x for x in comm.calls if x[0] == 'bcast']
    others = [] if comm is None else [x for x in comm.calls if x[0] not in ('bcast', 'barrier')]
    say('no other communication', not others, '%r' % (others,))
    if run.cfg['f'] == 'call_from_rank_zero':
        say('nothing is sent', not bs, '%d broadcasts' % len(bs))
        if not root:
            say('nothing is returned on other ranks', r is None, repr(r))
        return
    if not many:
        return
    say('every rank takes part in one broadcast', len(bs) == 1, '%d broadcasts' % len(bs))
    if len(bs) == 1:
        c.prove(z(bs[0][1]) == 0, 'rank zero is the root')
        if root:
            say('rank zero sends the result', bs[0][2] is val, repr(bs[0][2]))
        else:
            say("other ranks return what rank zero sent", isinstance(r, spmd.RootValue) and comm.calls[r.k][0] == 'bcast' and comm.calls[r.k] is bs[0], repr(r))


def identity(I, c, run):
    comm = world(I, c, run)
    par = I.module('parallel')
    E = par.env
    rank, size, dist = I.call(E['get_rank'], [], {}), I.call(E['get_num_MPI_workers'], [], {}), I.call(E['is_distributed'], [], {})
    P, r = (1, 0) if comm is None else (comm.P, comm.r)
    c.prove(z(rank) == z(r), 'rank of this worker')
    c.prove(z(size) == z(P), 'number of workers')
    c.prove(z(I.call(E['get_num_procs'], [], {})) == z(P), 'number of processes')
    c.prove(z(dist) == (z(P) > 1), 'distributed if and only if there are several workers')
    c.prove(z(I.call(E['is_rank_zero'], [], {})) == (z(r) == 0), 'rank zero')
    n0 = len(comm.calls) if comm is not None else 0
    I.call(E['barrier'], [], {})
    if comm is not None:
        k = [x[0] for x in comm.calls[n0:]]
        many = c.decide(z(P) > 1)
        run.obligation(c, 'every worker takes part in the barrier', k == ['barrier'] if many else all(x == 'barrier' for x in k), 'frame', 0, '%r' % (k,), None)


units('C06', helper, 'rank zero helper', [dict(f=f, mpi=m, world=w, n=n) for f in ('call_and_bcast', 'bcast', 'call_from_rank_zero') for m, w in ((True, 'MPI'), (False, 'noMPI')) for n in ((0, 3) if f != 'bcast' else (0,))])
units('C06', identity, 'workers', [dict(mpi=m, world=w) for m, w in ((True, 'MPI'), (False, 'noMPI'))])
