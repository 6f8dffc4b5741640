"""Path context: path condition, decisions, dimensions, obligations, side assumptions."""
from fractions import Fraction as Fr
import itertools
import time
import z3
import algebra


class Unsupported(Exception):
    """the construct is outside what the verifier translates: nothing is decided"""


class Postponed(Exception):
    """the path needs what other paths show: it is executed after them"""


class Infeasible(Exception):
    """the path condition is unsatisfiable: this path does not exist"""


class PyRaise(Exception):
    """the program under verification raises"""
    def __init__(self, etype, args=()):
        Exception.__init__(self, '%s%r' % (getattr(etype, '__name__', etype), tuple(str(a)[:80] for a in args)))
        self.etype, self.eargs = etype, args
        self.obj = None


class PathDone(Exception):
    """the path ends here as intended"""


class Failed(Exception):
    """an obligation is not discharged; ends the path"""


def limit(s, ms):
    """resource limit of a query: independent of the load of the machine (about ms milliseconds), with a far time limit"""
    s.set('rlimit', int(ms * 2500))
    s.set('timeout', int(ms * 10))


def index_terms(fs, seen=None):
    """integer terms without bound variables that occur as arguments of uninterpreted functions"""
    out, todo, done = {}, list(fs), set()
    while todo:
        x = todo.pop()
        if x.get_id() in done or z3.is_quantifier(x) or z3.is_var(x):
            continue
        done.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for a in x.children():
                if a.sort() == z3.IntSort():
                    out[z3.simplify(a)] = 1
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
            out[x] = 1
        todo.extend(x.children())
    return list(out)


def sort_terms(fs, sort, most=60):
    out, seen, todo = [], set(), list(fs)
    while todo and len(out) < most:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.sort() == sort:
                out.append(t)
            todo.extend(t.children())
    return out


def instances(facts, fs, hints=(), rounds=2, limit=6000, cap=26):
    """ground instances of universally quantified facts at the index terms in sight"""
    terms = list(hints)
    known = set(t.get_id() for t in terms)
    out, keep = [], []
    qf = [f for f in facts if not z3.is_quantifier(f)]
    qs = [f for f in facts if z3.is_quantifier(f)]
    other = [q for q in qs if any(q.var_sort(i) != z3.IntSort() for i in range(q.num_vars()))]
    qs = [q for q in qs if not any(q is o for o in other)]
    for q in other:
        if q.num_vars() == 1:
            for t in sort_terms(fs, q.var_sort(0)):
                out.append(z3.substitute_vars(q.body(), t))
    ground = list(fs) + qf
    done = set()
    for _ in range(rounds):
        for t in index_terms(ground):
            if t.get_id() not in known and len(terms) < cap:
                known.add(t.get_id())
                terms.append(t)
        new = []
        for n, q in enumerate(qs):
            k = q.num_vars()
            body = q.body()
            for tup in itertools.product(terms, repeat=k) if k <= 2 else ():
                key = (n,) + tuple(t.get_id() for t in tup)
                if key in done or len(done) > limit:
                    continue
                done.add(key)
                new.append(z3.substitute_vars(body, *reversed(tup)))
        out.extend(new)
        ground = new
        if not new:
            break
    return qf + out


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def z(v):
    """z3 term of a number"""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, (SNum, SBool)):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('infinite or nan constant')
        return z3.RealVal(str(Fr(v)))
    if isinstance(v, Fr):
        return z3.RealVal(str(v))
    if hasattr(v, 'dtype') and hasattr(v, 'item'):
        return z(v.item())
    raise Unsupported('no term for %r' % (type(v),))


class SBool(object):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        raise Unsupported('truth of a symbolic boolean outside the interpreter')

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SNum(object):
    """symbolic integer or real number"""
    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    def __repr__(self):
        return 'S(%s)' % self.t

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise Unsupported('truth of a symbolic number outside the interpreter')

    __eq__ = object.__eq__


def mknum(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SNum(t)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


class Dims(object):
    """dimension keys: ints index a table of z3 integer terms, equal terms (as known) get one key"""
    def __init__(self, c):
        self.c = c
        self.reps = []
        self.memo = {}
        self.zero = self.key(0)

    def key(self, t):
        t = z3.simplify(z(t))
        sid = t.get_id()
        if sid in self.memo and self.memo[sid][0].eq(t):
            k = self.memo[sid][1]
            return k
        k = None
        for i, r in enumerate(self.reps):
            if self.c.valid(r == t, quick=True):
                k = i
                break
        if k is None:
            self.reps.append(t)
            k = len(self.reps) - 1
        self.memo[sid] = (t, k)
        return k

    def canon(self, k):
        r = self.reps[k]
        for i in range(k):
            if self.c.valid(self.reps[i] == r, quick=True):
                return i
        return k

    def term(self, k):
        return self.reps[k]

    def eq(self, a, b):
        return a == b or self.c.valid(self.reps[a] == self.reps[b], quick=True)

    def le(self, a, b):
        return a == b or self.c.valid(self.reps[a] <= self.reps[b], quick=True)

    def add(self, a, b):
        return self.key(self.reps[a] + self.reps[b])

    def sub(self, a, b):
        return self.key(self.reps[a] - self.reps[b])

    def show(self, k):
        return str(self.reps[k]).replace('\n', ' ')


class Ctx(object):
    """one path of one function verification"""

    def __init__(self, run, trace=()):
        self.run = run
        self.trace = list(trace)      # decisions to follow
        self.taken = []
        self.choices = {}             # position of a decision -> number of alternatives, of which one suffices
        self.pending = []             # alternative traces found
        self.solver = z3.Solver()
        limit(self.solver, 8000)
        self.solver.set('random_seed', 0)
        self.npc = 0
        self.pc = []
        self.vcache = {}
        self.counter = {}
        self.dims = Dims(self)
        self.th = algebra.Theory(self.dims)
        self.hyps = []                # (name, poly)
        self.clock = 0
        self.events = []
        self.attr_writes = []
        self.heap_writes = []
        self.lists = []
        self.notes = []
        self.mutated = []
        self.printed = 0
        self.ideal = None
        self.lazy_limit = None
        self.facts = []               # quantified facts used only for obligations
        self.canary = []
        self.loops = []               # loops with a symbolic number of iterations that are open
        self.replaying = 0
        self.capture = None
        self.reads = {}               # buffer -> time of its last read
        self.hints = []               # index terms at which facts are instantiated

    # ---- names
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s_%d' % (base, n)

    def int_(self, base, lo=None):
        v = z3.Int(self.fresh(base))
        if lo is not None:
            self.assume(v >= lo)
        return SNum(v)

    def real_(self, base):
        return SNum(z3.Real(self.fresh(base)))

    # ---- path condition
    def assume(self, f):
        f = z(f)
        if z3.is_true(z3.simplify(f)):
            return
        self.pc.append(f)
        self.solver.add(f)
        self.npc += 1
        self.vcache = {}


    def check_feasible(self):
        if self.solver.check() == z3.unsat:
            raise Infeasible()

    def valid(self, f, quick=False):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        h = self.vcache.get(k)
        if h is not None and h[0].eq(f):
            return h[1]
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(f))
        if quick:
            limit(self.solver, 3000)
        r = self.solver.check() == z3.unsat
        if quick:
            limit(self.solver, 8000)
        self.solver.pop()
        self.run.solver_time += time.time() - t0
        self.run.queries += 1
        self.vcache[k] = (f, r)
        return r

    def decide(self, f):
        """branch on a boolean term"""
        f = z3.simplify(z(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.valid(f):
            return True
        if self.valid(z3.Not(f)):
            return False
        i = len(self.taken)
        if i < len(self.trace):
            d = self.trace[i]
        else:
            d = True
            self.pending.append(self.taken + [False])
        self.taken.append(d)
        if len(self.taken) > 200:
            raise Unsupported('more than 200 symbolic branches on a path')
        self.assume(f if d else z3.Not(f))
        return d

    def choose(self, names):
        """one of several ways to go on, of which one suffices"""
        i = len(self.taken)
        d = self.trace[i] if i < len(self.trace) else names[0]
        self.choices[i] = names
        self.taken.append(d)
        return d

    # ---- obligations
    def prove(self, f, name, info=None):
        """an arithmetic/logical obligation"""
        if not self.run.wanted(name):
            return True
        f = z(f) if not isinstance(f, bool) else z3.BoolVal(f)
        t0 = time.time()
        ok = self.valid(f)
        detail = None
        if not ok and self.facts:
            ok = self.with_facts(f)
            if not ok and self.run.retries > 0:
                # once more with more instances and more time; a few times per unit
                self.run.retries -= 1
                ok = self.with_facts(f, 30000, rounds=3, limit=20000, cap=60)
        if not ok:
            # a model of the ground instances is a candidate counterexample; without one nothing is decided
            base = list(self.pc) + [z3.Not(f)]
            s = z3.Solver()
            limit(s, 15000)
            s.add(*base)
            s.add(*instances(self.facts, base, self.hints + [z3.IntVal(0)]))
            r = s.check()
            if r == z3.unsat:
                ok = True
            elif r == z3.unknown and not self.refuted(base):
                ok = None
                detail = 'z3: no answer within its resource limit'
            else:
                detail = 'z3: %s' % r
                if r == z3.sat:
                    m = s.model()
                    detail += ' ' + ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:600]
        self.run.obligation(self, name, ok, 'z3', time.time() - t0, detail if not ok else None, f)
        return bool(ok)

    def refuted(self, base):
        """a model for small sizes"""
        s = z3.Solver()
        limit(s, 10000)
        s.add(*base)
        s.add(*instances(self.facts, base, self.hints + [z3.IntVal(0)]))
        for t in index_terms(base):
            if z3.is_const(t):
                s.add(t >= -3, t <= 3)
        return s.check() == z3.sat

    def with_facts(self, f, ms=10000, hints=(), **wider):
        """validity under the quantified facts: first at ground instances, then as they stand"""
        base = list(self.pc) + [z3.Not(f)]
        s = z3.Solver()
        limit(s, ms)
        s.add(*base)
        s.add(*instances(self.facts, base, list(hints) + self.hints + [z3.IntVal(0)], **wider))
        if s.check() == z3.unsat:
            return True
        s = z3.Solver()
        limit(s, ms)
        if wider:
            s.set('random_seed', 7)
        s.add(*self.pc)
        s.add(*self.facts)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def hyp(self, poly, name):
        """a matrix equation poly = 0"""
        if poly:
            self.hyps.append((name, poly))
            self.ideal = None

    def get_ideal(self, seconds=40):
        key = (self.npc, len(self.hyps))
        if self.ideal is None or self.ideal[0] != key:
            hs = [p for _, p in self.hyps] + self.unit_hyps()
            self.ideal = (key, algebra.Ideal(self.th, hs, seconds=seconds))
        self.ideal[1].deadline = time.process_time() + seconds
        return self.ideal[1]

    def unit_hyps(self):
        return []

    def mat_zero(self, poly, rounds=6, seconds=40):
        p = self.th.canon(poly)
        if not p:
            return True, {}, 0
        idl = self.get_ideal(seconds)
        try:
            cert, nf = idl.member(p, rounds)
        except algebra.AlgebraError as e:
            return False, p, 0
        return cert is not None, nf, len(cert or ())

    def prove_mat(self, a, b, name):
        """matrix obligation a == b (polynomials)"""
        if not self.run.wanted(name):
            return True
        t0 = time.time()
        d = self.th.add(a, b, Fr(-1))
        ok, nf, n = self.mat_zero(d)
        detail = None
        if not ok:
            detail = 'difference reduces to %s' % algebra.show(self.th, nf)[:700]
            if self.ideal is not None and self.ideal[1].gave_up:
                ok = None
        self.run.obligation(self, name, ok, 'algebra', time.time() - t0, detail, None)
        return ok

    def reduced(self, poly):
        p = self.th.canon(poly)
        idl = self.get_ideal()
        for _ in range(3):
            nf, _c = idl.reduce(p)
            if not idl.complete_step():
                break
        return idl.reduce(p)[0]

    def tick(self):
        self.clock += 1
        return self.clock
