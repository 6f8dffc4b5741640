"""Task assignment: the loop over the workers, with invariant
   f tasks are assigned so far (0 <= f <= n), in order; f = 0 before the first worker; one assignment per worker;
   after the last worker f = n."""
from common import *
import ast
import loops
import spmd


class Runs(object):
    """the list of assignments while the loop runs"""
    def __init__(self, owner):
        self.owner = owner
        self.added = []
        self.done = False

    def sym_getattr(self, I, attr):
        if attr == 'append' and not self.done:
            return Native('append', lambda x: self.added.append(x))
        raise Unsupported('use of the list of assignments')

    def sym_inplace(self, I, op, v):
        if op == '+' and isinstance(v, (list, tuple)) and not self.done:
            self.added += list(v)
            return self
        raise Unsupported('use of the list of assignments')

    def sym_binop(self, I, op, a, b):
        if op == '+' and a is self and isinstance(b, list) and not self.done:
            self.added += b
            return self
        return NotImplemented

    def sym_len(self):
        raise Unsupported('number of assignments so far')


class Sums(object):
    """sums of consecutive weights: S(i) is the sum of the first i weights"""
    def __init__(self, c, wt, n, equal=False):
        self.c, self.wt, self.n = c, wt, n
        self.S = z3.Function('weight_of_first', z3.IntSort(), z3.RealSort())
        i = z3.Int('i')
        self.offsets = [z3.IntVal(0)]
        if equal:        # all weights 1: the sum of the first k is k
            self.S = lambda k: z3.ToReal(z(k))
            return
        c.assume(self.S(0) == 0)
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), self.S(i + 1) == self.S(i) + wt(i))))
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), wt(i) >= 0)))

    def prefix(self, x):
        """function giving the sum of the first k entries of the array x"""
        c = self.c
        if x.ndim != 1:
            raise Unsupported('sum of a %dD array' % x.ndim)
        i = z3.Int(c.fresh('k'))
        e = elem(x)
        c.run.assumed.add('sum and cumsum add the entries in exact arithmetic; the sum of weights f .. k-1 is S(k) - S(f) for the running sums S')
        inside = z3.And(0 <= i, i < z(x.shape_[0]))
        for o in self.offsets:
            if c.valid(z3.Implies(inside, z3.And(o + i < z(self.n), real(z(e(i))) == self.wt(o + i)))):
                return lambda k, o=o: self.S(z3.simplify(o + z(k))) - self.S(o)
        G = z3.Function(c.fresh('running_sum'), z3.IntSort(), z3.RealSort())
        c.assume(G(0) == 0)
        j = z3.Int('i')
        c.facts.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < z(x.shape_[0])), G(j + 1) == G(j) + real(z(e(j))))))
        return lambda k: G(z(k))


def real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def argmin(I, x, axis=None):
    c = ctx()
    x = NPM.to_array(I, x, copy=False)
    if x.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported('argmin')
    n, e = x.shape_[0], elem(x)
    if c.decide(z(n) == 0):
        raise PyRaise(ValueError, ('attempt to get argmin of an empty sequence',))
    k, i = z3.Int(c.fresh('argmin')), z3.Int('i')
    c.assume(z3.And(0 <= k, k < z(n)))
    v = real(z(e(k)))
    c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), v <= real(z(e(i))))))
    return SNum(k)


def cumsum(S):
    def f(I, x, axis=None, dtype=None):
        x = NPM.to_array(I, x, copy=False)
        if axis not in (None, 0, -1) or dtype is not None:
            raise Unsupported('cumsum')
        p = S.prefix(x)
        return Arr(x.shape_, elem=lambda i: SNum(p(z3.simplify(z(i) + 1))), dtype='real')
    return f


def assign(I, c, run):
    P = c.int_('P', 1)
    if run.cfg['mpi']:
        spmd.install(I, c, run, P, None)
    else:
        P = 1
    n = c.int_('num_tasks', 0)
    task = z3.Function('task', z3.IntSort(), z3.IntSort())
    tasks = SList(n, lambda i: SNum(task(z(i))), name='tasks')
    run.frozen_lists[id(tasks)] = (tasks, 'tasks')
    if run.cfg['weights']:
        w = z3.Function('weight', z3.IntSort(), z3.RealSort())
        wt = lambda i: w(i)
        if run.cfg['weights'] == 'array':
            arg = Arr((n,), elem=lambda i: SNum(w(z(i))), dtype='real', buf=V.Buf('task_weights', True))
        else:
            arg = SList(n, lambda i: SNum(w(z(i))), name='task_weights')
            run.frozen_lists[id(arg)] = (arg, 'task_weights')
    else:
        wt = lambda i: z3.RealVal(1)
        arg = None
    S = Sums(c, wt, n, arg is None)
    N = I.libs['numpy'].members
    N['argmin'] = Native('argmin', lambda x, axis=None: argmin(I, x, axis))
    N['cumsum'] = Native('cumsum', lambda *a, **k: cumsum(S)(I, *a, **k))
    total = lambda x: SNum(S.prefix(x)(x.shape_[0]))
    run.sum_seq = lambda I2, x: total(NPM.to_array(I2, x, copy=False))
    run.arr_sum = lambda I2, x, axis=None: total(x)
    lib0 = type(run).lib
    extra = {'arr.argmin': argmin, 'arr.cumsum': cumsum(S), 'numpy.cumsum': cumsum(S), 'numpy.argmin': argmin}

    def lib(I2, name, a, k):
        if name in extra:
            return extra[name](I2, *a, **k)
        return lib0(run, I2, name, a, k)
    run.lib = lib
    box = {}

    def loop(I2, st, fr, it):
        if 'runs' in box or fr.mod.name != 'parallel':
            return NotImplemented
        m, at = I2.seq(it)
        names = loops.assigned(st.body) | {x.func.value.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}
        lists = [k for k in names if isinstance(fr.locals.get(k), list) and not fr.locals[k]]
        ints = [k for k in sorted(loops.assigned(st.body)) if isinstance(fr.locals.get(k), int) and not isinstance(fr.locals.get(k), bool)]
        if len(lists) != 1 or len(ints) != 1:
            raise Unsupported('a loop that fills one list and moves one position')
        L, pos = lists[0], ints[0]
        c.prove(z(m) == z(P), 'one assignment per worker')
        c.prove(z(fr.locals[pos]) == 0, 'the first run starts at the first task')
        runs = box['runs'] = Runs(None)
        others = [k for k in loops.assigned(st.body) if k not in (L, pos)]
        body = c.decide(z3.Bool(c.fresh('a_worker')))
        h = loops.Heap(c)
        fr.locals[L] = runs
        for k in others:
            fr.locals[k] = IP.POISON
        if not body:
            fr.locals[pos] = n
            runs.done = True
            I2.block(st.orelse, fr)
            return
        w, f = c.int_('worker', 0), c.int_('assigned', 0)
        c.assume(z3.And(w.t < z(P), f.t <= n.t, z3.Implies(w.t == 0, f.t == 0)))
        c.check_feasible()
        S.offsets.append(f.t)
        fr.locals[pos] = f
        try:
            I2.assign(st.target, at(w), fr)
            I2.block(st.body, fr)
        except IP.Cont:
            pass
        except (IP.Brk, IP.Ret):
            raise Unsupported('a loop that is left early')
        h.check(run)
        if fr.locals[L] is not runs:
            raise Unsupported('another list')
        run.obligation(c, 'one assignment per worker', len(runs.added) == 1, 'frame', 0, '%d' % len(runs.added), None)
        if len(runs.added) != 1:
            raise PathDone()
        x = runs.added[0]
        new = z(fr.locals[pos])
        k, xat = I2.seq(x)
        c.prove(z3.And(f.t <= new, new <= n.t), 'assigned tasks only grow')
        c.prove(z(k) == new - f.t, 'the run ends where the next one starts')
        i = z3.Int(c.fresh('i'))
        c.assume(z3.And(0 <= i, i < z(k)))
        if c.solver.check() != z3.unsat:
            c.prove(z(xat(SNum(i))) == task(f.t + i), 'the run is consecutive tasks, in order')
        raise Checked(w, f, new)

    run.loop_rules = [loop]
    try:
        r = I.call(I.module('parallel').env['find_assignments'], [tasks] + ([arg] if arg is not None else []), {})
    except Checked as e:
        shares(c, run, S, P, n, e.w, e.f, e.new)
        no_mutation(c, run)
        return
    if 'runs' not in box:
        if isinstance(r, list) and not run.cfg['mpi']:          # one worker: the loop is executed as it stands
            run.obligation(c, 'one assignment per worker', len(r) == 1, 'frame', 0, '', None)
            k, at = I.seq(r[0])
            c.prove(z(k) == n.t, 'a single worker gets all tasks')
            i = z3.Int(c.fresh('i'))
            c.assume(z3.And(0 <= i, i < n.t))
            if c.solver.check() != z3.unsat:
                c.prove(z(at(SNum(i))) == task(i), 'in order')
            no_mutation(c, run)
            return
        raise Unsupported('how the assignments are made')
    run.obligation(c, 'the list of assignments is returned', r is box['runs'], 'frame', 0, repr(r), None)
    no_mutation(c, run)


class Checked(Exception):
    def __init__(self, w, f, new):
        self.w, self.f, self.new = w, f, new


def shares(c, run, S, P, n, w, f, new):
    """which run: on a path of its own (the index of the last obligation is no longer assumed)"""
    rem = z3.ToReal(z(P) - w.t)
    if c.decide(f.t == n.t):
        c.prove(new == n.t, 'no task left: an empty run')
        return
    c.prove(new >= f.t + 1, 'tasks left: the run is not empty')
    if c.decide(w.t == z(P) - 1):
        c.prove(new == n.t, 'the last worker takes everything left')
        return
    share = (S.S(n.t) - S.S(f.t)) / rem
    e = z3.Int(c.fresh('other_end'))
    c.assume(z3.And(e >= f.t + 1, e <= n.t))
    c.hints.append(z3.simplify(e - f.t - 1))
    dist = lambda x: z3.If(S.S(x) - S.S(f.t) - share >= 0, S.S(x) - S.S(f.t) - share, share - S.S(x) + S.S(f.t))
    c.prove(dist(new) <= dist(e), 'the weight of the run is closest to an even share')


units('C01', assign, 'find_assignments', [dict(mpi=m, weights=w) for m in (False, True) for w in (None, 'array', 'list')])
