"""A verification unit: path exploration, obligations, and what the interpreter asks of its surroundings."""
from fractions import Fraction as Fr
import time, traceback
import z3
from core import *
import core
import values as V
import interp as IP
import npmodel as NPM
from values import Arr, mul, padd, H, T, C, ID, one, binop, compare, elem, is_dim, th, dkey
from interp import Interp, IFunc, ICls, Obj, Bound, Native, NS, Opaque, SRange, SList, Sources


class Run(object):
    def __init__(self, name, fn, cfg=None, sources=None, seconds=120, max_paths=400):
        self.name, self.fn, self.cfg = name, fn, cfg or {}
        self.sources = sources or Sources()
        self.seconds, self.max_paths = seconds, max_paths
        self.solver_time = 0.0
        self.only = None        # names of the obligations this unit is about (None: all)
        self.queries = 0
        self.assumed = set()
        self.functions = set()
        self.used_contracts = set()
        self.last_chance = True
        self.obligations = []
        self.failed = []
        self.unsupported = []
        self.contracts = {}
        self.frozen_lists = {}
        self.retries = 4
        self.quotients = []
        self.paths = 0
        self.normal_paths = 0
        self.raised = []
        self.smt_log = []

    # ------------------------------------------------------------ exploration
    def go(self):
        t0 = time.time()
        todo, later, self.last_chance, rounds = [[]], [], False, 0
        self.deadline = time.process_time() + self.seconds
        while todo or later:
            if not todo:
                todo, later, rounds = later[::-1], [], rounds + 1
                self.last_chance = rounds == 3
            tr = todo.pop()
            self.paths += 1
            if self.paths > self.max_paths or time.process_time() > self.deadline:
                self.unsupported.append('%s: path or time budget exhausted' % self.name)
                break
            n = len(self.obligations)
            c = self.path(tr)
            todo.extend(c.pending)
            if self.postponed:
                del self.obligations[n:]
                later.append(list(c.taken))
        if 'at_end' in self.__dict__ and not self.unsupported:
            self.at_end()
        set_ctx(None)
        self.wall = time.time() - t0
        if not self.obligations and not self.unsupported:
            self.failed.append(dict(unit=self.name, name='at least one obligation is generated', detail='none was'))
        if not self.normal_paths and not self.unsupported and not self.failed:
            self.failed.append(dict(unit=self.name, name='some path ends normally (precondition not contradictory)', detail=''))
        return self

    def path(self, tr):
        """executes one path"""
        c = Ctx(self, tr)
        c.run_memo = {}
        c.singular_ok = []
        c.quotients = []
        set_ctx(c)
        self.frozen_lists = {}
        self.contracts = {}
        self.loop_rules = []
        self.while_rules = []
        self.iter_at = None
        self.havoc_attrs = {}
        for k in ('make_set', 'binop', 'minmax', 'symbolic_comp', 'sum_seq', 'at_end', 'W'):
            self.__dict__.pop(k, None)
        self.range_len = self.range_mul = None
        self.postponed = False
        self.lazy_probe = None
        self.lazy_map = None
        self.noise_if = None
        self.steps = 0
        try:
            I = Interp(self)
            self.fn(I, c, self)
            c.check_feasible()
            self.normal_paths += 1
        except Infeasible:
            pass
        except PathDone:
            self.normal_paths += 1
        except Failed:
            pass
        except Postponed as e:
            if self.reachable(c):
                self.postponed = not self.last_chance
                if self.last_chance:
                    self.unsupported.append('%s: %s%s' % (self.name, e, self.where(e)))
        except Unsupported as e:
            if self.reachable(c):
                self.unsupported.append('%s: %s%s' % (self.name, e, self.where(e)))
        except PyRaise as e:
            if self.reachable(c):
                self.obligation(c, 'no exception under the precondition', False, 'z3', 0, 'raises %s' % e, None)
        except RecursionError as e:
            self.unsupported.append('%s: recursion' % self.name)
        return c

    def reachable(self, c):
        """may the path that ends here be taken?"""
        if c.solver.check() == z3.unsat:
            return False
        return not (c.facts and c.with_facts(z3.BoolVal(False)))

    def where(self, e):
        cur = getattr(self, 'cur', None)
        return ' at %s:%s' % cur if cur else ''

    def wanted(self, name):
        return self.only is None or name in self.only

    def obligation(self, c, name, ok, backend, secs, detail, f):
        if not self.wanted(name):
            return
        self.obligations.append((name, ok, backend, secs))
        if ok is None:
            self.unsupported.append('%s: undecided: %s (%s)' % (self.name, name, detail))
        elif not ok:
            self.failed.append(dict(unit=self.name, name=name, detail=(detail or '')[:1500], path=[str(x)[:200] for x in c.pc[-8:]]))

    # ------------------------------------------------------------ interpreter hooks
    def step(self, I, st, fr):
        self.steps += 1
        self.cur = (fr.mod.name, st.lineno)
        if self.steps > 200000 or (self.steps % 50 == 0 and time.process_time() > self.deadline):
            raise Unsupported('time budget')

    def covered(self, f):
        self.functions.add(f.qual)

    def contract_for(self, f):
        c = self.contracts.get(f.qual)
        if c is not None:
            self.used_contracts.add(f.qual)
        return c

    def class_contract(self, cls):
        c = self.contracts.get('class ' + cls.mod.name + ':' + cls.name)
        if c is not None:
            self.used_contracts.add(cls.mod.name + ':' + cls.name)
        return c

    def symbolic_for(self, I, st, fr, it):
        import loops
        return loops.symbolic_for(self, I, st, fr, it)

    def symbolic_while(self, I, st, fr):
        import loops
        return loops.symbolic_while(self, I, st, fr)

    def symbolic_comp(self, I, e, fr, it):
        import loops
        return loops.symbolic_comp(self, I, e, fr, it)

    def begin_map(self, I, n, i):
        return None

    def end_map(self, I, rec, n, i):
        pass

    def map_effects(self, I, ev0, i, n):
        if len(ctx().events) != ev0:
            import loops
            loops.map_effects(self, I, ev0, i, n)

    def setitem(self, I, o, k, v):
        import loops, arrays
        if isinstance(o, Arr):
            return arrays.setitem(self, I, o, k, v)
        return loops.setitem(self, I, o, k, v)

    def getitem(self, I, o, k):
        h = getattr(o, 'sym_getitem', None)
        if h is not None:
            return h(I, k)
        return NotImplemented

    def getattr(self, I, o, attr):
        h = getattr(o, 'sym_getattr', None)
        if h is not None:
            return h(I, attr)
        if isinstance(o, IP.Super):
            mro = o.obj.cls.mro()
            for k in mro[mro.index(o.cls) + 1:]:
                if attr in k.ns:
                    f = k.ns[attr]
                    return Bound(f, o.obj) if isinstance(f, IFunc) else f
            if attr == '__init__':
                return Native('object.__init__', lambda *a, **k: None)
            raise PyRaise(AttributeError, (attr,))
        return NotImplemented

    def obj_attr(self, I, o, attr):
        return NotImplemented

    def binop(self, I, op, a, b):
        for x in (a, b):
            h = getattr(x, 'sym_binop', None)
            if h is not None:
                return h(I, op, a, b)
        return NotImplemented

    def opaque_compare(self, I, o, a, b):
        for x in (a, b):
            h = getattr(x, 'sym_compare', None)
            if h is not None:
                return h(I, o, a, b)
        if o == 'is' or o in ('==', '!='):
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                return (a is b) == (o != '!=')
        return NotImplemented

    def opaque_len(self, I, x):
        h = getattr(x, 'sym_len', None)
        return h() if h is not None else NotImplemented

    def list_compare(self, I, o, a, b):
        if o in ('==', '!='):
            if isinstance(a, (SList, SRange, list, tuple)) and isinstance(b, (SList, SRange, list, tuple)):
                na, fa = I.seq(a)
                nb, fb = I.seq(b)
                c = ctx()
                eq = None
                if isinstance(nb, int) and nb == 0:
                    eq = mkbool(z(na) == 0)
                elif isinstance(na, int) and na == 0:
                    eq = mkbool(z(nb) == 0)
                else:
                    i = z3.Int(c.fresh('eqi'))
                    if c.valid(z(na) == z(nb)):
                        x, y = fa(SNum(i)), fb(SNum(i))
                        e = I.compare('==', x, y)
                        if c.valid(z3.Implies(z3.And(0 <= i, i < z(na)), z(e))):
                            eq = True
                if eq is None and isinstance(getattr(a, 'meta', None), dict) and 'handles' in a.meta and isinstance(getattr(b, 'meta', None), dict) and 'handles' in b.meta:
                    eq = c.run_memo.setdefault(('equal lists', id(a), id(b)), SBool(z3.Bool(c.fresh('equal_handles'))))
                if eq is None:
                    raise Unsupported('comparison of symbolic lists')
                if o == '==':
                    return eq
                return mkbool(z3.Not(z(eq)))
        raise Unsupported('list comparison')

    def call_opaque(self, I, f, args, kw):
        h = getattr(f, 'sym_call', None)
        if h is not None:
            return h(I, args, kw)
        if isinstance(f, Opaque):
            raise Unsupported('call of %r' % (f,))
        return NotImplemented

    def type_of(self, I, x):
        h = getattr(x, 'sym_type', None)
        return h() if h is not None else NotImplemented

    def array_of(self, I, x, ndmin):
        h = getattr(x, 'sym_array', None)
        if h is not None:
            return h(I, ndmin)
        import nested
        return nested.array_of(I, x, ndmin)

    def single(self, x, nm):
        if not isinstance(x, (int, float, SNum)) or z(x).sort() == V.Num:
            raise Unsupported('conversion to a shorter type')
        t = z(x)
        return SNum(z3.Function('rounded_to_' + nm, z3.RealSort(), z3.RealSort())(z3.ToReal(t) if t.is_int() else t))

    def astype(self, I, a, dtype):
        import interp
        nm = getattr(dtype, 'name', None)
        if isinstance(dtype, NPM.TypeToken):
            r = V.copy_arr(a)
            return r
        if nm in ('single', 'half'):
            f = z3.Function('rounded_to_' + nm, z3.RealSort(), z3.RealSort())
            if a.dtype == 'complex':
                raise Unsupported('conversion of the type of an array')
            e = V.elem(a)
            r = Arr(a.shape_, elem=lambda *i: SNum(f(z3.ToReal(z(e(*i))) if z(e(*i)).is_int() else z(e(*i)))))
            r.dtype = 'real'
            return r
        if nm == 'complex' or (nm == 'float' and a.dtype in ('real', 'int')):
            r = V.copy_arr(a)
            r.dtype = 'complex' if nm == 'complex' else 'real'
            return r
        if nm == 'int' and a.dtype in ('int', 'bool'):
            return V.copy_arr(a)
        to = {'float': 'real', 'int': 'int'}.get(nm)
        if to is None or a.dtype == 'bool':
            raise Unsupported('conversion of the type of an array')
        # lossy: imaginary parts are dropped, reals are truncated
        r = I.libs['numpy'].members['real'].f(a) if a.dtype == 'complex' else V.copy_arr(a)
        r = V.copy_arr(r)
        if to == 'int':
            import arrays
            try:
                e = V.elem(r)
            except Unsupported:
                e = None
            p = None
            if r.ndim in (1, 2):
                p, nm2 = V.new_atom('truncated', r.shape_[0], r.shape_[1] if r.ndim == 2 else 1)
                ctx().th.atoms[nm2]['real'] = True
            r = Arr(r.shape_, poly=p, elem=None if e is None else lambda *i: arrays.to_int(e(*i)))
        r.dtype = to
        return r

    def dtype_of(self, I, a):
        return Native({'real': 'float', 'complex': 'complex', 'int': 'int', 'bool': 'bool'}[a.dtype], lambda *x: (_ for _ in ()).throw(Unsupported('dtype call')))

    # ---- reductions of arrays of numbers
    def arr_sum(self, I, x, axis):
        x.fresh()
        c = ctx()
        if axis is not None or x.ndim != 1:
            raise Unsupported('sum')
        if x.dtype == 'bool':
            return self.count(x)
        raise Unsupported('sum of entries')

    def count(self, x):
        """number of true entries; for a predicate true on a prefix only, it is the length of the prefix"""
        c = ctx()
        n = x.shape_[0]
        e = elem(x)
        N = z3.Int(c.fresh('count'))
        c.assume(z3.And(N >= 0, N <= z(n)))
        c.run_memo.setdefault('counts', []).append(N)
        i, j = z3.Int(c.fresh('ci')), z3.Int(c.fresh('cj'))
        pi, pj = z(e(i)), z(e(j))
        ok = self.fact_valid(c, z3.Implies(z3.And(0 <= i, i <= j, j < z(n), pj), pi))
        if ok:
            self.assumed.add('counting lemma: a predicate on 0..n-1 that is true on a prefix holds of i iff i < (number of true entries)')
            c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), pi == (i < N))))
        return SNum(N)

    def fact_valid(self, c, f, ms=5000):
        t0 = time.time()
        r = c.valid(f, quick=True) or c.with_facts(f, ms)
        self.solver_time += time.time() - t0
        self.queries += 1
        return r

    def arr_min(self, I, x):
        return self.arr_ext(x, False)

    def arr_max(self, I, x):
        return self.arr_ext(x, True)

    def arr_ext(self, x, mx):
        c = ctx()
        x.fresh()
        if x.ndim != 1:
            raise Unsupported('extremum')
        e = elem(x)
        n = x.shape_[0]
        if not c.valid(z(n) > 0):
            if not c.decide(z(n) > 0):
                raise PyRaise(ValueError, ('zero-size array',))
        i, w = z3.Int(c.fresh('mi')), z3.Int(c.fresh('mw'))
        ev = z(e(w))
        v = z3.Const(c.fresh('ext'), ev.sort())
        c.assume(z3.And(0 <= w, w < z(n), v == ev))
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), (v >= z(e(i))) if mx else (v <= z(e(i))))))
        return SNum(v)

    def argsort(self, I, x):
        c = ctx()
        x.fresh()
        n = x.shape_[0]
        if x.ndim != 1:
            raise Unsupported('argsort')
        e = elem(x)
        self.assumed.add('numpy.argsort: a permutation of the indices that sorts the entries in ascending order')
        p = V.index_array('argsort', n, n, inj=True)
        at = c.th.idx[p.meta['idx']]['at']
        q = z3.Function('inv_' + p.meta['idx'], z3.IntSort(), z3.IntSort())
        i, j = z3.Int(c.fresh('ai')), z3.Int(c.fresh('aj'))
        rng = lambda t: z3.And(0 <= t, t < z(n))
        c.facts.append(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(at(i)), q(at(i)) == i)), patterns=[at(i)]))
        c.facts.append(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), at(q(i)) == i)), patterns=[q(i)]))
        c.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < z(n)), z(e(at(i))) <= z(e(at(j)))), patterns=[z3.MultiPattern(at(i), at(j))]))
        c.run_memo.setdefault('perms', []).append((at, q))
        c.hints.append(z3.simplify(z(n) - 1))
        c.hints.append(at(z3.simplify(z(n) - 1)))
        c.hints += [q(w) for w in c.run_memo.get('witnesses', [])]
        return p

    def quant_arr(self, I, kind, x):
        """any/all of the entries of a boolean array"""
        c = ctx()
        e = elem(x)
        if x.dtype != 'bool':
            raise Unsupported(kind)
        rng = lambda ks: z3.And([z3.And(0 <= k, k < z(n)) for k, n in zip(ks, x.shape_)] + [z3.BoolVal(True)])
        b = z3.Bool(c.fresh(kind))
        w = [z3.Int(c.fresh('wit')) for _ in x.shape_]
        v = [z3.Int(c.fresh('all')) for _ in x.shape_]
        ew, ev = z(e(*w)), z(e(*v))
        if kind == 'any':
            c.assume(z3.Implies(b, z3.And(rng(w), ew)))
            c.facts.append(z3.ForAll(v, z3.Implies(z3.And(z3.Not(b), rng(v)), z3.Not(ev))))
        else:
            c.assume(z3.Implies(z3.Not(b), z3.And(rng(w), z3.Not(ew))))
            c.facts.append(z3.ForAll(v, z3.Implies(z3.And(b, rng(v)), ev)))
        return SBool(b)

    def quant_seq(self, I, kind, x):
        raise Unsupported(kind)

    def minmax(self, I, name, x):
        """max([...]) of a symbolic sequence of numbers"""
        c = ctx()
        n, at = I.seq(x)
        if not c.valid(z(n) > 0):
            if not c.decide(z(n) > 0):
                raise PyRaise(ValueError, ('empty',))
        i, w = z3.Int(c.fresh('mi')), z3.Int(c.fresh('mw'))
        c.assume(z3.And(0 <= w, w < z(n)))
        ev = z(at(SNum(w)))
        v = z3.Const(c.fresh(name), ev.sort())
        c.assume(v == ev)
        ai = z(at(SNum(i)))
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(n)), (v >= ai) if name == 'max' else (v <= ai))))
        return SNum(v)

    def sum_seq(self, I, x):
        import loops
        return loops.sum_seq(self, I, x)

    def stack_seq(self, I, xs, axis):
        import loops
        return loops.stack_seq(self, I, xs, axis)

    def hstack_array(self, I, xs):
        import loops
        return loops.hstack_array(self, I, xs)

    def np_where(self, I, *a):
        raise Unsupported('where')

    def np_round(self, I, x):
        import libx
        return libx.np_round(I, x)

    def num_sqrt(self, I, x):
        c = ctx()
        v = z3.Real(c.fresh('sqrt'))
        if not c.valid(z(x) >= 0):
            raise Unsupported('sqrt of a number not known to be non-negative')
        c.assume(z3.And(v >= 0, v * v == z(x)))
        return SNum(v)

    def empty(self, I, shape, dtype):
        r = NPM.zeros(I, shape, dtype)
        r.poly = None
        f = z3.Function(ctx().fresh('uninit'), *([z3.IntSort()] * r.ndim + [V.Num]))
        r.elem_ = lambda *i: SNum(f(*[z(k) for k in i]))
        r.meta['fill'] = None
        return r

    def lib(self, I, name, a, k):
        import libx
        h = libx.TABLE.get(name)
        if h is None:
            raise Unsupported('%s is not modelled' % name)
        return h(I, *a, **k)

    def deepcopy(self, I, x):
        if isinstance(x, Arr):
            return V.copy_arr(x)
        h = getattr(x, 'sym_deepcopy', None)
        if h is not None:
            return h(I)
        if isinstance(x, (int, float, str, type(None), SNum, SBool)):
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(self.deepcopy(I, y) for y in x)
        if isinstance(x, Obj):
            o = Obj(x.cls)
            for n, v in x.attrs.items():
                o.attrs[n] = self.deepcopy(I, v)
            return o
        if isinstance(x, Opaque):
            return x
        raise Unsupported('deepcopy of %s' % type(x).__name__)

    def make_set(self, I, x):
        raise Unsupported('set of a symbolic sequence')

    def open_(self, I, *a, **k):
        raise Unsupported('open')

    def list_mutation(self, I, o, attr, a):
        import loops
        loops.list_mutation(self, I, o, attr, a)

    def slist_append(self, I, o, x):
        import loops
        return loops.slist_append(self, I, o, x)

    def require_mat(self, c, poly, name):
        if not self.wanted(name):
            return
        t0 = time.time()
        ok, nf, n = c.mat_zero(poly)
        if not ok and c.ideal is not None and c.ideal[1].gave_up:
            ok = None
        self.obligation(c, name, ok, 'algebra', time.time() - t0, None if ok else 'reduces to %s' % core.algebra.show(c.th, nf)[:700], None)

    def side(self, c, f, name):
        if not c.valid(f):
            c.prove(f, name)
            c.assume(f)
