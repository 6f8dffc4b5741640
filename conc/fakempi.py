"""A stand-in for mpi4py that runs every rank of a world as a thread of this process.

modred's modules are loaded once per rank (as separate module objects, from
/repo's working tree) with `mpi4py` replaced by this stand-in, so that the real
SPMD code runs on any number of ranks.  `send` is synchronous (it returns only
once the message was received), which is the strictest behaviour MPI allows, so
that code that relies on buffering shows up as a deadlock.  Nothing here knows
anything about modred.
"""
import importlib, pickle, sys, threading, types, time, collections

TIMEOUT = 20.0


class Deadlock(Exception):
    pass


class Aborted(Exception):
    pass


class _Req(object):
    def __init__(self, fn=None, val=None):
        self._fn = fn
        self._val = val

    def wait(self, status=None):
        if self._fn is not None:
            self._val = self._fn()
            self._fn = None
        return self._val
    Wait = wait

    def test(self, status=None):
        return (True, self.wait())


class World(object):
    def __init__(self, size, nodes=1):
        self.size = size
        self.nodes = max(1, min(nodes, size))
        self.cond = threading.Condition()
        self.reset()

    def reset(self):
        self.box = collections.defaultdict(collections.deque)
        self.coll = {}
        self.collseq = [0] * self.size
        self.aborted = False
        self.running = False
        self.log = []

    def _wait(self, pred, what):
        end = time.monotonic() + TIMEOUT
        with self.cond:
            while not pred():
                if self.aborted:
                    raise Aborted()
                left = end - time.monotonic()
                if left <= 0:
                    self.aborted = True
                    self.cond.notify_all()
                    raise Deadlock(what)
                self.cond.wait(min(left, 0.5))

    def post(self, src, dst, tag, obj):
        if not (0 <= dst < self.size):
            raise ValueError('invalid destination rank %r' % (dst,))
        msg = [pickle.dumps(obj, -1), False]
        with self.cond:
            self.box[(src, dst)].append((tag, msg))
            self.cond.notify_all()
        return msg

    def take(self, src, dst, tag):
        if not (0 <= src < self.size):
            raise ValueError('invalid source rank %r' % (src,))
        got = []

        def pred():
            q = self.box[(src, dst)]
            for k, (t, m) in enumerate(q):
                if tag in (-1, t):
                    del q[k]
                    got.append(m)
                    m[1] = True
                    self.cond.notify_all()
                    return True
            return False
        self._wait(pred, 'rank %d waits for a message from rank %d, tag %r' % (dst, src, tag))
        return pickle.loads(got[0][0])

    def collective(self, rank, kind, val):
        """every rank gives val, gets the list of all"""
        if not self.running:
            return [val] * self.size
        seq = self.collseq[rank]
        self.collseq[rank] += 1
        with self.cond:
            slot = self.coll.setdefault(seq, {'kind': kind, 'vals': {}})
            if slot['kind'] != kind:
                self.aborted = True
                self.cond.notify_all()
                raise Deadlock('collective mismatch: %s and %s' % (slot['kind'], kind))
            slot['vals'][rank] = pickle.dumps(val, -1)
            self.cond.notify_all()
        self._wait(lambda: len(slot['vals']) == self.size, 'rank %d waits in collective %s' % (rank, kind))
        return [pickle.loads(slot['vals'][r]) for r in range(self.size)]

    def run(self, fn, args=()):
        """fn(rank, *args) on every rank; returns the list of results; raises
        the first error; raises Deadlock for messages left behind."""
        self.reset()
        self.running = True
        res = [None] * self.size
        err = [None] * self.size

        def go(r):
            try:
                res[r] = fn(r, *args)
            except BaseException as e:     # noqa
                err[r] = e
                with self.cond:
                    self.aborted = True
                    self.cond.notify_all()
        if self.size == 1:
            go(0)
        else:
            ts = [threading.Thread(target=go, args=(r,)) for r in range(self.size)]
            for t in ts:
                t.daemon = True
                t.start()
            for t in ts:
                t.join(TIMEOUT * 3)
                if t.is_alive():
                    err.append(Deadlock('a rank does not end'))
                    break
        self.running = False
        real = [e for e in err if e is not None and not isinstance(e, Aborted)]
        if real:
            for e in real:
                if not isinstance(e, Deadlock):
                    raise e
            raise real[0]
        left = sum(len(q) for q in self.box.values())
        if left:
            raise Deadlock('%d message(s) sent but never received' % left)
        if len(set(self.collseq)) != 1:
            raise Deadlock('ranks entered different numbers of collectives')
        return res


def make_mpi(world, rank):
    """A module object standing for mpi4py.MPI as seen by one rank."""
    MPI = types.ModuleType('mpi4py.MPI')

    class Comm(object):
        def __new__(cls, comm=None):
            o = object.__new__(cls)
            return o

        def __init__(self, *a):
            pass
        rank = property(lambda s: rank)
        size = property(lambda s: world.size)
        Get_rank = lambda s: rank
        Get_size = lambda s: world.size

        def Get_attr(s, key):
            return 2 ** 21 - 1

        def send(s, obj, dest, tag=0):
            m = world.post(rank, dest, tag, obj)
            world._wait(lambda: m[1], 'rank %d: send to rank %d, tag %r is not received' % (rank, dest, tag))
        ssend = send

        def isend(s, obj, dest, tag=0):
            m = world.post(rank, dest, tag, obj)
            return _Req(lambda: world._wait(
                lambda: m[1], 'rank %d: isend to rank %d, tag %r is not received' % (rank, dest, tag)))
        issend = isend

        def recv(s, buf=None, source=0, tag=-1, status=None):
            return world.take(source, rank, tag)

        def irecv(s, buf=None, source=0, tag=-1):
            return _Req(lambda: world.take(source, rank, tag))

        def sendrecv(s, sendobj, dest, sendtag=0, recvbuf=None, source=0, recvtag=-1, status=None):
            m = world.post(rank, dest, sendtag, sendobj)
            r = world.take(source, rank, recvtag)
            world._wait(lambda: m[1], 'rank %d: sendrecv to rank %d is not received' % (rank, dest))
            return r

        def Barrier(s):
            world.collective(rank, 'barrier', None)
        barrier = Barrier

        def bcast(s, obj=None, root=0):
            return world.collective(rank, 'bcast', obj)[root]

        def allgather(s, obj):
            if not world.running:
                return [(obj, r % world.nodes) for r in range(world.size)]
            return world.collective(rank, 'allgather', obj)

        def gather(s, obj, root=0):
            v = world.collective(rank, 'gather', obj)
            return v if rank == root else None

        def scatter(s, obj, root=0):
            return world.collective(rank, 'scatter', obj)[root][rank]

        def reduce(s, sendobj=None, op=None, root=0):
            v = world.collective(rank, 'reduce', sendobj)
            o = op or MPI.SUM
            acc = v[0]
            for x in v[1:]:
                acc = o(acc, x)
            return acc if rank == root else None

        def allreduce(s, sendobj=None, op=None):
            v = world.collective(rank, 'allreduce', sendobj)
            o = op or MPI.SUM
            acc = v[0]
            for x in v[1:]:
                acc = o(acc, x)
            return acc

    class Op(object):
        def __init__(self, f):
            self.f = f

        def __call__(self, a, b):
            return self.f(a, b)
    MPI.Comm = Comm
    MPI.Intracomm = type('Intracomm', (Comm,), {})
    MPI.COMM_WORLD = MPI.Intracomm()
    MPI.TAG_UB = 1
    MPI.ANY_TAG = -1
    MPI.SUM = Op(lambda a, b: a + b)
    MPI.PROD = Op(lambda a, b: a * b)
    MPI.MAX = Op(lambda a, b: b if b > a else a)
    MPI.MIN = Op(lambda a, b: b if b < a else a)

    def loc(better):
        def f(a, b):
            (u, i), (v, j) = a, b
            if u == v:
                return (u, min(i, j))
            return (u, i) if better(u, v) else (v, j)
        return f
    MPI.MAXLOC = Op(loc(lambda u, v: u > v))
    MPI.MINLOC = Op(loc(lambda u, v: u < v))
    pkg = types.ModuleType('mpi4py')
    pkg.MPI = MPI
    return pkg, MPI


_loaded = {}


def load(size=1, nodes=1, ranks=None, mpi=True, repo='/repo'):
    """The world of `size` ranks and, for each rank, a namespace of freshly
    loaded modred modules."""
    key = (size, nodes, mpi)
    if key not in _loaded:
        _loaded[key] = (World(size, nodes), {})
    world, spaces = _loaded[key]
    for r in (range(size) if ranks is None else ranks):
        if r in spaces:
            continue
        saved = {k: sys.modules.get(k) for k in ('mpi4py', 'mpi4py.MPI')}
        if mpi:
            pkg, MPI = make_mpi(world, r)
            sys.modules['mpi4py'] = pkg
            sys.modules['mpi4py.MPI'] = MPI
        else:
            sys.modules['mpi4py'] = None
            sys.modules.pop('mpi4py.MPI', None)
        name = 'modred_w%d_%d_%d_r%d' % (size, nodes, mpi, r)
        top = types.ModuleType(name)
        top.__path__ = [repo + '/modred']
        top.__package__ = name
        sys.modules[name] = top
        ns = types.SimpleNamespace(MPI=MPI if mpi else None)
        try:
            mods = ['py2to3', 'parallel', 'util', 'vectorspace', 'vectors', 'pod', 'bpod', 'dmd', 'era', 'okid', 'ltigalerkinproj']
            if mpi:
                mods.append('reductions')
            for m in mods:
                setattr(ns, m, importlib.import_module(name + '.' + m))
        finally:
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        spaces[r] = ns
    return world, [spaces.get(r) for r in range(size)]
