"""Distributed reductions: any number of workers, any worker, any round.

A round of the loop is executed on an arbitrary worker and, at its first message, on the worker it names; both start
from the state the loop invariant gives them.  The invariant of each variable is selected from templates (below) by
dropping the ones that are not inductive; the ones left are then proved with the property.
"""
from common import *
import ast
import loops

MPI = 'mpi4py point-to-point messages: send, recv and sendrecv deliver the object sent to the matching call of the addressee'


class Val(object):
    """the combination, in order, of the contributions of workers lo .. hi-1 (lo < hi)"""
    def __init__(self, lo, hi):
        self.lo, self.hi = z3.simplify(z(lo)), z3.simplify(z(hi))

    def __repr__(self):
        return 'C[%s,%s)' % (self.lo, self.hi)

    @property
    def is_none_term(self):
        """contributions and combinations of any value, None included"""
        return z3.Function('is_none', z3.IntSort(), z3.IntSort(), z3.BoolSort())(self.lo, self.hi)

    def sym_truth(self, I):
        return SBool(z3.Function('is_true', z3.IntSort(), z3.IntSort(), z3.BoolSort())(self.lo, self.hi))

    def sym_compare(self, I, o, a, b):
        if o in ('==', '!=') and (a is None or b is None):
            return SBool(self.is_none_term if o == '==' else z3.Not(self.is_none_term))
        raise Unsupported('comparison of contributions')


class Mess(object):
    """some combination that is not of interest"""
    def __repr__(self):
        return 'Mess'

    @property
    def is_none_term(self):
        return z3.Bool(ctx().fresh('is_none'))

    def sym_compare(self, I, o, a, b):
        raise Unsupported('comparison of contributions')


class Done(Exception):
    def __init__(self, action):
        self.action = action


# templates: (name, f(worker, low, m, P) -> [(condition, value)])   low: position of the worker in its block of m workers
def t_block(r, low, m, P):
    s = r - low
    return [(z3.BoolVal(True), Val(s, z3.If(s + m < P, s + m, P)))]


def t_full(r, low, m, P):
    return [(r - low + m <= P, Val(r - low, r - low + m))]


def t_first(r, low, m, P):
    return [(low == 0, Val(r, z3.If(r + m < P, r + m, P)))]


def t_prefix(r, low, m, P):
    return [(z3.BoolVal(True), Val(r - low, r + 1))]


def t_before(r, low, m, P):
    return [(low > 0, Val(r - low, r))]


def t_before_none(r, low, m, P):
    return [(low > 0, Val(r - low, r)), (low == 0, None)]


def t_own(r, low, m, P):
    return [(z3.BoolVal(True), Val(r, r + 1))]


OBJ = dict(block=t_block, full=t_full, first=t_first, prefix=t_prefix, before=t_before, before_or_none=t_before_none, own=t_own)
FLAG = dict(some_before=lambda r, low, m, P: low > 0, none_before=lambda r, low, m, P: low == 0)
FOUND = {}
KEEP = []


class World(object):
    def __init__(self, I, c, run, f, args, cand):
        self.I, self.c, self.run, self.f, self.args = I, c, run, f, args
        self.P = c.int_('P', 1)
        self.r = c.int_('rank', 0)
        c.assume(self.r.t < self.P.t)
        self.tag_ub = c.int_('tag_ub', 1)
        self.cand = cand
        self.cur = [self.r]
        self.phase = 'before'
        self.m = None
        self.comms = 0
        self.minloc = run.cfg.get('minloc')
        self.known = []
        for nm in ('Hi', 'Bit', 'Low'):
            setattr(self, nm, z3.Function(nm, z3.IntSort(), z3.IntSort()))

    # ---- bits of a worker number, for the mask m of the round (a power of two)
    def bits(self, u):
        c, u, m = self.c, z3.simplify(z(u)), self.m
        h, b, l = self.Hi(u), self.Bit(u), self.Low(u)
        if not any(u.eq(x) for x in self.known):
            self.known.append(u)
            c.assume(z3.And(u == h + z3.If(b == 1, m, 0) + l, z3.Or(b == 0, b == 1), l >= 0, l < m, z3.Implies(u >= 0, h >= 0)))
            c.assume(z3.Implies(z3.And(u >= 0, u < m), z3.And(h == 0, b == 0, l == u)))
            c.run.assumed.add('bits of an integer: u = h + 2^k b + l with h a multiple of 2^(k+1), b in {0, 1}, 0 <= l < 2^k, uniquely')
        return h, b, l

    def with_bit(self, u, bit):
        """u with its bit at the mask set to `bit`"""
        c = self.c
        h, b, l = self.bits(u)
        t = h + z3.If(z3.simplify(z(bit)) == 1, self.m, 0) + l if not isinstance(bit, int) else h + (self.m if bit else 0) + l
        t = z3.simplify(t)
        h2, b2, l2 = self.bits(t)
        c.assume(z3.And(h2 == h, l2 == l, b2 == z(bit)))
        return SNum(t)

    def binop(self, I, op, a, b):
        if op not in ('&', '|', '^', '<<', '%', '>>') or not isinstance(a, (SNum, int)) or not isinstance(b, (SNum, int)) or isinstance(a, int) and isinstance(b, int):
            return type(self.run).binop(self.run, I, op, a, b)
        c = self.c
        if op == '%':
            if c.valid(z3.And(0 <= z(a), z(a) < z(b))):
                return a
            return NotImplemented
        if op == '<<' and isinstance(b, int):
            return mknum(z(a) * 2 ** b)
        if op == '>>':
            raise Unsupported('shift to the right')
        if self.m is None:
            raise Unsupported('bits outside the loop')
        for x, y in ((a, b), (b, a)):
            if c.valid(z(x) == self.m):
                h, bt, l = self.bits(y)
                if op == '&':
                    return mknum(z3.If(bt == 1, self.m, 0))
                if op == '|':
                    return self.with_bit(y, 1)
                return self.with_bit(y, z3.If(bt == 1, z3.IntVal(0), z3.IntVal(1)))
            if op == '&' and c.valid(z(x) == -self.m - 1):
                return self.with_bit(y, 0)
            if op == '&' and c.valid(z(x) == self.m - 1):
                return SNum(self.bits(y)[2])
        raise Unsupported('bits of %r and %r' % (a, b))

    # ---- values
    def val(self, x):
        if isinstance(x, tuple) and self.minloc and len(x) == 2 and isinstance(x[0], Val) and not isinstance(x[1], Val):
            if not self.c.valid(z3.And(x[0].hi == x[0].lo + 1, z(x[1]) == x[0].lo)):
                raise Unsupported('a pair of a contribution and a number that is not its worker')
            return Val(x[0].lo, x[0].hi)
        if self.minloc and isinstance(x, Val) and getattr(x, 'bare', False):
            return Mess()
        return x

    def op(self, a, b):
        a, b = self.val(a), self.val(b)
        for x in (a, b):
            if not isinstance(x, (Val, Mess)):
                raise PyRaise(TypeError, ('operation on %r' % (x,),))
        if isinstance(a, Val) and isinstance(b, Val) and self.c.valid(a.hi == b.lo):
            return Val(a.lo, b.hi)
        return Mess()

    def same(self, x, want):
        x = self.val(x)
        if want is None or x is None:
            return x is want
        if isinstance(x, Mess):
            return False
        return isinstance(x, Val) and self.c.valid(z3.And(x.lo == want.lo, x.hi == want.hi))

    # ---- messages
    def attr(self, I, o, attr):
        N = Native
        rank = o.attrs['_worker']
        if attr in ('size', 'Get_size'):
            return self.P if attr == 'size' else N(attr, lambda: self.P)
        if attr in ('rank', 'Get_rank'):
            return rank if attr == 'rank' else N(attr, lambda: rank)
        if attr == 'send':
            return N(attr, lambda obj, dest=None, tag=0: self.message(dict(kind='send', obj=obj, dest=dest, stag=tag)))
        if attr == 'recv':
            return N(attr, lambda buf=None, source=None, tag=None, status=None: self.message(dict(kind='recv', source=source, rtag=tag)))
        if attr == 'sendrecv':
            return N(attr, lambda sendobj, dest=None, sendtag=0, recvbuf=None, source=None, recvtag=None, status=None:
                     self.message(dict(kind='sendrecv', obj=sendobj, dest=dest, stag=sendtag, source=source, rtag=recvtag)))
        if attr == 'bcast':
            return N(attr, lambda obj=None, root=0: self.message(dict(kind='bcast', obj=obj, root=root)))
        raise Unsupported('communicator method %s' % attr)

    def message(self, a):
        c, run = self.c, self.run
        run.assumed.add(MPI)
        if len(self.cur) > 1:
            raise Done(a)
        self.comms += 1
        me = self.r.t
        if a['kind'] == 'bcast':
            c.prove(z3.And(0 <= z(a['root']), z(a['root']) < self.P.t), 'root of the broadcast is a worker')
            if c.decide(me == z(a['root'])):
                return a['obj']
            b = self.partner(a['root'])
            ok = b is not None and b['kind'] == 'bcast' and c.valid(z(b['root']) == z(a['root']))
            run.obligation(c, 'all workers take part in the same broadcast', ok, 'frame', 0, repr(b), None)
            return b['obj'] if ok else Mess()
        peer = a.get('dest', a.get('source'))
        if peer is None or 'dest' in a and 'source' in a and (a['source'] is None or not c.valid(z(a['dest']) == z(a['source']))) or 'source' in a and a['rtag'] is None:
            raise Unsupported('message without a named partner')
        c.prove(z3.And(0 <= z(peer), z(peer) < self.P.t, z(peer) != me), 'messages go to other workers that exist')
        b = self.partner(peer)
        kind = {'send': 'recv', 'recv': 'send', 'sendrecv': 'sendrecv'}[a['kind']]
        name = 'every message sent is received by its addressee in the same round'
        if b is None or b['kind'] != kind:
            run.obligation(c, name, False, 'frame', 0, '%s with worker %s, which does %s' % (a['kind'], z3.simplify(z(peer)), b and b['kind']), None)
            raise PathDone()
        good = []
        if 'dest' in a:
            good += [z(b['source']) == me, z(b['rtag']) == z(a['stag'])] if b['source'] is not None and b['rtag'] is not None else [z3.BoolVal(False)]
        if 'source' in a:
            good += [z(b['dest']) == me, z(b['stag']) == z(a['rtag'])]
        if not c.prove(z3.And(good), name):
            raise PathDone()
        return b['obj'] if 'source' in a else None

    def partner(self, t):
        """what worker t does first, in this phase"""
        self.cur.append(t)
        try:
            self.call(t)
        except Done as e:
            return e.action
        finally:
            self.cur.pop()
        return None

    def call(self, t):
        o = Obj(self.cls)
        o.attrs['_worker'] = t
        v = Val(z(t), z(t) + 1)
        v.bare = True
        return self.I.call(Bound(self.f, o), [v] + self.args[0], self.args[1])

    # ---- the loop
    def rule(self, I, st, fr):
        c, run, P = self.c, self.run, self.P.t
        me = z(self.cur[-1])
        names = loops.assigned(st.body)
        mask = [k for k in names if isinstance(fr.locals.get(k), int) and not isinstance(fr.locals[k], bool) and fr.locals[k] == 1]
        if len(mask) != 1:
            raise Unsupported('a loop over powers of two')
        mask = mask[0]
        objs = [k for k in sorted(names) if k in fr.locals and (fr.locals[k] is None or isinstance(self.val(fr.locals[k]), (Val, Mess)))]
        flags = [k for k in sorted(names) if k in fr.locals and isinstance(fr.locals[k], (bool, SBool))]
        key = (self.f.qual, st.lineno - self.f.node.lineno)
        inv = self.cand.setdefault(key, {})
        main = len(self.cur) == 1
        if main and self.phase != 'before':
            raise Unsupported('a second loop')
        if main:
            for k in objs:
                for t in inv.setdefault(k, sorted(OBJ)):
                    self.check(k, t, fr.locals[k], me, z3.IntVal(0), z3.IntVal(1), 'start')
            for k in flags:
                for t in inv.setdefault(k, sorted(FLAG)):
                    self.check(k, t, fr.locals[k], me, z3.IntVal(0), z3.IntVal(1), 'start')
            self.m = c.int_('mask', 1).t
            self.phase = 'loop' if c.decide(z3.Bool(c.fresh('a_round'))) else 'after'
        if self.phase == 'before':
            raise Done(None)
        low = self.bits(me)[2]
        for k in names:
            if k == mask:
                fr.locals[k] = SNum(self.m)
            elif k in objs:
                fr.locals[k] = self.read(inv.get(k, []), me, low)
            elif k in flags:
                for t in inv.get(k, []):
                    fr.locals[k] = mkbool(FLAG[t](me, low, self.m, P))
                    break
                else:
                    fr.locals[k] = IP.POISON
            else:
                fr.locals[k] = IP.POISON
        test = I.truth(I.ev(st.test, fr))
        if self.phase == 'after':
            if test:
                raise Infeasible() if main else Done(None)
            self.comms = 0 if main else self.comms
            return
        if not test:
            if main:
                raise Infeasible()
            raise Done(None)
        try:
            I.block(st.body, fr)
        except IP.Cont:
            pass
        except (IP.Brk, IP.Ret):
            raise Unsupported('a loop that is left early')
        if not main:
            raise Done(None)
        c.prove(z(fr.locals[mask]) == 2 * self.m, 'the mask doubles in every round')
        run.obligation(c, 'at most one exchange per round', self.comms <= 1, 'frame', 0, '%d' % self.comms, None)
        h, b, l = self.bits(me)
        low2 = l + z3.If(b == 1, self.m, 0)
        for k in objs + flags:
            for t in inv[k]:
                self.check(k, t, fr.locals.get(k, IP.POISON), me, low2, 2 * self.m, 'step')
        raise PathDone()

    def read(self, ts, me, low):
        c = self.c
        got = []
        for t in ts:
            for cond, v in OBJ[t](me, low, self.m, self.P.t):
                if c.decide(cond):
                    got.append(v)
        if not got:
            return Mess()
        for v in got[1:]:
            if v is None or got[0] is None:
                if v is not got[0]:
                    raise Infeasible()
            else:
                c.assume(z3.And(v.lo == got[0].lo, v.hi == got[0].hi))
        if len(got) > 1:
            c.check_feasible()
        return got[0]

    def check(self, k, t, v, me, low, m, when):
        c = self.c
        name = 'invariant %s of %s: %s' % (t, k, when)
        if t in FLAG:
            want = FLAG[t](me, low, m, self.P.t)
            ok = isinstance(v, (bool, SBool)) and c.valid(z(v) == want)
            self.run.obligation(c, name, ok, 'z3', 0, repr(v), None)
            return
        for cond, want in OBJ[t](me, low, m, self.P.t):
            if c.decide(cond):
                self.run.obligation(c, name, bool(self.same(v, want)), 'z3', 0, '%r instead of %r' % (v, want), None)


OPS = ('MINLOC', 'MAXLOC')


def world(I, c, run, name, args, kw, cand):
    M = {k: Opaque('MPI.' + k) for k in ('SUM', 'MINLOC', 'MAXLOC', 'PROD', 'MAX', 'MIN')}
    M['TAG_UB'] = Opaque('TAG_UB')
    M['Intracomm'] = Opaque('Intracomm')
    M['ANY_SOURCE'] = M['ANY_TAG'] = None
    I.libs['mpi4py'] = IP.NS('mpi4py', dict(MPI=IP.NS('mpi4py.MPI', M)))
    box = []
    M['COMM_WORLD'] = IP.NS('COMM_WORLD', dict(Get_attr=Native('Get_attr', lambda k: box[0].tag_ub)))
    cls = I.module('reductions').env['Intracomm']
    if not isinstance(cls, IP.ICls):
        raise Unsupported('class Intracomm')
    k, f = cls.find(name)
    if f is None:
        run.obligation(c, 'the communicator has its own %s' % name, False, 'frame', 0, '', None)
        raise PathDone()
    op = M[run.cfg['minloc']] if run.cfg['minloc'] else Opaque('operation')
    W = World(I, c, run, f, (args, dict(kw, op=op)), cand)
    op.sym_call = lambda I2, a, k: W.op(*a, **k)
    box.append(W)
    W.cls = cls
    run.binop = W.binop
    run.obj_attr = W.attr
    run.while_rules = [W.rule]
    return W, f


def infer(name, cfg, fn, sources):
    """drop templates until the rest is inductive"""
    import run as R
    key = (name, cfg.get('minloc'), cfg.get('method'), id(sources))
    if key in FOUND:
        return FOUND[key]
    old = core.CTX
    cand = {}
    try:
        for _ in range(20):
            r = R.Run(name, lambda I, c, run: fn(I, c, run, cand), cfg, sources=sources).go()
            bad = {tuple(f['name'].split(':')[0].split()[1:4:2]) for f in r.failed if f['name'].startswith('invariant ')}
            if not bad:
                break
            for k in cand:
                for v in cand[k]:
                    cand[k][v] = [t for t in cand[k][v] if (t, v) not in bad]
    finally:
        core.set_ctx(old)
    FOUND[key] = cand
    KEEP.append(sources)
    return cand


def method(I, c, run, cand=None):
    name = run.cfg['method']
    if cand is None:
        cand = infer(name, run.cfg, method, run.sources)
    args = []
    kw = {}
    W = None
    if name == 'reduce':
        root = c.int_('root', 0)
        kw['root'] = root
    W, f = world(I, c, run, name, args, kw, cand)
    if name == 'reduce':
        c.assume(root.t < W.P.t)
    if name == 'allreduce':
        def reduce_contract(I2, f2, a, k):
            b = I2.bind_args(f2, a, k)
            me = b['self'].attrs['_worker']
            v = W.val(b['sendobj'])
            bare = isinstance(b['sendobj'], Val)
            ok = bare and c.valid(z3.And(b['sendobj'].lo == z(me), b['sendobj'].hi == z(me) + 1)) and b['op'] is W.args[1]['op']
            run.obligation(c, 'own contribution and operation are handed on', bool(ok), 'frame', 0, '', None)
            c.prove(z3.And(0 <= z(b['root']), z(b['root']) < W.P.t), 'root is a worker')
            if c.decide(z(me) == z(b['root'])):
                return Val(0, W.P.t) if ok else Mess()
            return None
        run.contracts['reductions:Intracomm.reduce'] = reduce_contract
    r = W.call(W.r)
    run.obligation(c, 'at most one further exchange', W.comms <= 1, 'frame', 0, '%d' % W.comms, None)
    me, P = W.r.t, W.P.t

    def want(lo, hi, what):
        run.obligation(c, what, bool(W.same(r, Val(lo, hi))), 'z3', 0, 'delivers %r' % (r,), None)
    if name == 'reduce':
        if c.decide(me == root.t):
            want(0, P, 'the root gets all contributions, in rank order')
        else:
            run.obligation(c, 'the other workers get nothing', r is None, 'frame', 0, 'delivers %r' % (r,), None)
    elif name == 'allreduce':
        want(0, P, 'every worker gets all contributions, in rank order')
    elif name == 'scan':
        want(0, me + 1, 'own and all lower contributions, in rank order')
    elif c.decide(me == 0):
        run.obligation(c, 'rank zero gets nothing', r is None, 'frame', 0, 'delivers %r' % (r,), None)
    else:
        want(0, me, 'all lower contributions, in rank order')


def lemma(I, c, run):
    """C[a,b) op C[b,d) = C[a,d) for an associative operation, by induction on d"""
    E = z3.DeclareSort('E')
    OP = z3.Function('OP', E, E, E)
    X = z3.Function('X', z3.IntSort(), E)
    C_ = z3.Function('C', z3.IntSort(), z3.IntSort(), E)
    a, b, d = z3.Ints('a b d')
    x, y, w = z3.Consts('x y w', E)
    define = lambda lo, hi: z3.And(C_(lo, lo + 1) == X(lo), z3.Implies(lo < hi, C_(lo, hi + 1) == OP(C_(lo, hi), X(hi))))
    assoc = lambda x, y, w: OP(OP(x, y), w) == OP(x, OP(y, w))
    c.prove(z3.Implies(z3.And(a < b, define(a, b), define(b, b)), OP(C_(a, b), C_(b, b + 1)) == C_(a, b + 1)), 'combination of runs, base case')
    c.prove(z3.Implies(z3.And(a < b, b < d, define(a, d), define(b, d), OP(C_(a, b), C_(b, d)) == C_(a, d), assoc(C_(a, b), C_(b, d), X(d))),
                       OP(C_(a, b), C_(b, d + 1)) == C_(a, d + 1)), 'combination of runs, induction step')


for m in ('reduce', 'allreduce', 'scan', 'exscan'):
    units('C05', method, m, [dict(method=m, minloc=x) for x in (None, 'MINLOC', 'MAXLOC')])
units('C05', lemma, 'lemma', [dict()])
