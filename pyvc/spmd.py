"""One arbitrary worker of an arbitrary number of workers: mpi4py by contract."""
import z3
from core import *
import values as V
import interp as IP
from interp import Native, NS, Opaque, SList, SBool


class RootValue(object):
    """the value passed to a broadcast by its root, on another worker"""
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'RootValue(%d)' % self.k


class Comm(object):
    """the world communicator seen from rank `r` of `P`; collective calls are logged in order"""
    def __init__(self, c, P, r):
        self.P, self.r = P, r
        self.calls = []
        self.root_token = None

    def __repr__(self):
        return 'COMM_WORLD'

    def sym_getattr(self, I, attr):
        c = ctx()
        if attr in ('size',):
            return self.P
        if attr == 'rank':
            return self.r
        if attr == 'Get_size':
            return Native('Get_size', lambda: self.P)
        if attr == 'Get_rank':
            return Native('Get_rank', lambda: self.r)
        if attr in ('Barrier', 'barrier'):
            def bar():
                self.calls.append(('barrier',))
                c.events.append(('barrier',))
            return Native('Barrier', bar)
        if attr == 'bcast':
            def bcast(obj=None, root=0):
                self.calls.append(('bcast', root, obj))
                c.events.append(('bcast',))
                if c.decide(z(self.r) == z(root)):
                    return obj
                if self.root_token is not None:
                    return self.root_token(len(self.calls) - 1)
                return RootValue(len(self.calls) - 1)
            return Native('bcast', bcast)
        if attr == 'allgather':
            def allgather(obj=None):
                self.calls.append(('allgather', obj))
                return Gathered(self.P)
            return Native('allgather', allgather)
        raise Unsupported('communicator method %s' % attr)


class Gathered(object):
    def __init__(self, n):
        self.n = n

    def sym_seq(self, I):
        def at(i):
            raise Unsupported('value gathered from a worker')
        return self.n, at


def install(I, c, run, P=None, r=None):
    """modred sees mpi4py with P workers and is rank r (both arbitrary unless given)"""
    P = c.int_('P', 1) if P is None else P
    if r is None:
        r = c.int_('rank', 0)
        c.assume(r.t < z(P))
    comm = Comm(c, P, r)
    MPI = NS('MPI', {n: Opaque('MPI.' + n) for n in ('Intracomm', 'SUM', 'MINLOC', 'MAXLOC', 'TAG_UB', 'MAX', 'MIN', 'PROD')})
    MPI.members['COMM_WORLD'] = comm
    I.libs['mpi4py'] = NS('mpi4py', dict(MPI=MPI))
    I.libs['mpi4py.MPI'] = MPI
    run.contracts['class reductions:Intracomm'] = lambda I, cls, a, k: Opaque('custom_comm')
    old = run.make_set

    def make_set(I, x):
        if isinstance(x, Gathered):
            k = c.int_('num_nodes', 1)
            c.assume(k.t <= z(x.n))
            return SList(k, None, kind='set')
        return old(I, x)
    run.make_set = make_set
    run.assumed.add('mpi4py collectives: bcast delivers the object of the root to every worker, Barrier has no effect on data, Get_size/Get_rank give the number of workers and this rank')
    return comm


def assignments_contract(I, f, args, kw):
    """find_assignments (decided under C01): run k is tasks[cut(k):cut(k+1)], cuts ascending from 0 to the number of tasks"""
    b = I.bind_args(f, args, kw)
    c = ctx()
    n, at = I.seq(b['tasks'])
    P = f.env.mod.env['_num_MPI_workers'] if hasattr(f.env, 'mod') else None
    cut = z3.Function(c.fresh('cut'), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints('i j')
    c.assume(cut(0) == 0)
    c.assume(cut(z(P)) == z(n))
    c.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= z(P)), cut(i) <= cut(j)), patterns=[z3.MultiPattern(cut(i), cut(j))]))

    def run_of(k):
        k = z(k)
        lo, hi = cut(k), cut(z3.simplify(k + 1))
        c.assume(z3.And(0 <= lo, lo <= hi, hi <= z(n)))
        r = SList(mknum(hi - lo), lambda t: at(mknum(lo + z(t))))
        r.meta['run'] = (lo, hi)
        return r
    r = SList(P, run_of)
    r.meta['cut'] = cut
    c.run_memo.setdefault('cuts', []).append((cut, P, n))
    return r
