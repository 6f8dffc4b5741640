"""Loops with a symbolic number of iterations.

symbolic_for is the rule for loops whose iterations are independent: the body is executed once, for an
arbitrary iteration, from a state in which everything the body assigns is unknown.  What the body does
to the outside is recorded as one event ('forall', ...) holding the events of that arbitrary iteration.
A body that carries a value from one iteration to the next reads an unknown value: unsupported, unless
a loop contract (run.loop_rules) handles the loop.
"""
import ast
import z3
from core import *
import core
import values as V
import interp as IP
from interp import POISON


def assigned(body):
    out = set()
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


class Heap(object):
    """watches writes to objects that exist already"""
    def __init__(self, c):
        self.c = c
        self.a = len(c.attr_writes)
        self.h = len(c.heap_writes)
        self.buf = V.Buf.n
        self.lists = len(c.lists)
        self.obj = IP.Obj.count

    def check(self, run):
        for o, attr in self.c.attr_writes[self.a:]:
            if isinstance(o, IP.Obj) and o.serial > self.obj:
                continue
            if (o.cls.name if isinstance(o, IP.Obj) else None, attr) in run.havoc_attrs:
                continue
            raise Unsupported('attribute %s is assigned in a loop with a symbolic number of iterations' % attr)
        for kind, x in self.c.heap_writes[self.h:]:
            if kind == 'buf' and x > self.buf:
                continue
            if kind == 'list' and any(x is l for l in self.c.lists[self.lists:]):
                continue
            raise Unsupported('a %s that exists before a loop with a symbolic number of iterations is written in it' % kind)


class Acc(object):
    """a number that is summed up in a loop"""
    def __init__(self, name, v0):
        self.name, self.v0 = name, v0

    def sym_inplace(self, I, op, v):
        note_acc(self, op, v)
        return self


def note_acc(x, op, v):
    if op not in '+-':
        raise Unsupported('in-place operator %s on a value carried over loop iterations' % op)
    c = ctx()
    if c.replaying:
        return
    c.loops[-1]['accs'].append((x, 1 if op == '+' else -1, v))
    if isinstance(x, V.Arr):
        import arrays
        arrays.lock(x)


def inplace_outer(cur, op, v):
    """in-place operator on an array that exists before the innermost open loop: a sum over its iterations"""
    c = ctx()
    if not c.loops or cur.buf.id > c.loops[-1]['buf']:
        return False
    if cur.buf.frozen:
        c.mutated.append(cur.buf.name)
    note_acc(cur, op, v)
    return True


class Sum(object):
    """sum over the iterations i = 0..n-1 of a loop of value (given for the arbitrary iteration i)"""
    def __init__(self, i, n, value, at=None):
        self.i, self.n, self.value, self.at = i, n, value, at


def make_sum(I, i, n, v, like=None, at=None):
    c = ctx()
    v = NPM().to_array(I, v, copy=False) if isinstance(like, V.Arr) and not isinstance(v, V.Arr) else v
    if isinstance(v, V.Arr):
        rec = Sum(i, n, v, at)
        r = V.Arr(v.shape_, dtype=v.dtype)
        if v.ndim in (1, 2):
            r.poly, nm = V.new_atom('Sum', v.shape_[0], v.shape_[1] if v.ndim == 2 else 1)
            if v.dtype in ('real', 'int'):
                c.th.atoms[nm]['real'] = True
            c.run_memo.setdefault('sums', {})[nm] = rec
        f = z3.Function(c.fresh('sum'), *([z3.IntSort()] * v.ndim + [V.Num]))
        r.elem_ = lambda *k: SNum(f(*[z(x) for x in k]))
        r.meta['sum'] = rec
        return r
    t = z(v)
    r = SNum(z3.Const(c.fresh('sum'), t.sort()))
    c.run_memo.setdefault('numsums', {})[r.t.decl().name()] = Sum(i, n, v, at)
    return r


def stores(body, load=False):
    """names (or attribute chains) that are the base of a subscript assignment"""
    out = {}
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Load if load else ast.Store)) and isinstance(n.value, (ast.Name, ast.Attribute)):
                out[ast.dump(n.value)] = n.value
    return out


def open_families(I, st, fr, it, L):
    """arrays that are written in the body at the row of the iteration, and read at other rows"""
    import arrays
    if not isinstance(st.target, ast.Name) or not isinstance(it, IP.SRange) or not (isinstance(it.step, int) and it.step == 1):
        return
    wr, rd = stores(st.body), stores(st.body, True)
    for k, node in wr.items():
        if k not in [x.replace('Store()', 'Load()') for x in rd] and k not in rd:
            continue
        base = node
        while isinstance(base, ast.Attribute):
            base = base.value
        if not isinstance(base, ast.Name) or base.id not in fr.locals or fr.locals[base.id] is POISON:
            continue
        try:
            a = I.ev(node, fr)
        except (Unsupported, PyRaise):
            continue
        if isinstance(a, V.Arr) and a.ndim >= 1 and not a.view and a.meta.get('family') is None:
            L['families'].append(a)


def symbolic_for(run, I, st, fr, it):
    import arrays
    for rule in run.loop_rules:
        r = rule(I, st, fr, it)
        if r is not NotImplemented:
            return r
    c = ctx()
    n, at = I.seq(it)
    if not c.decide(z(n) > 0):
        I.block(st.orelse, fr)
        return
    i = SNum(z3.Int(c.fresh('it')))
    c.assume(z3.And(i.t >= 0, i.t < z(n)))
    if run.iter_at is not None:
        # a loop that ends normally ends the body normally in this iteration
        w = run.iter_at(it, n)
        if w is not None:
            c.assume(i.t == z(w))
    h = Heap(c)
    L = dict(buf=V.Buf.n, lists=len(c.lists), tick=c.tick(), writes={}, accs=[], appends=[], families=[], i=i, n=n, at=at, taken=len(c.taken))
    open_families(I, st, fr, it, L)
    names = assigned(st.body) | assigned([ast.Assign(targets=[st.target], value=ast.Constant(value=None))])
    aug = set()
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                aug.add(x.target.id)
    plain = set()
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                x.target._aug = True
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and not getattr(x, '_aug', False):
                plain.add(x.id)
    carried = {}
    snap = dict(fr.locals)
    for k in sorted(names):
        if k in fr.globals_ or k in fr.nonlocals:
            raise Unsupported('global assigned in a loop')
        v = fr.locals.get(k)
        if k in aug and k not in plain:
            if isinstance(v, V.Arr):
                continue
            if V.is_number(v) and not isinstance(v, (bool, SBool)):
                carried[k] = Acc(k, v)
                fr.locals[k] = carried[k]
                continue
        fr.locals[k] = POISON
        snap[k] = POISON
    for a in L['families']:
        t = z(at(i))
        t0 = z(at(0))
        arrays.family(a, t, (lambda t: lambda r: z3.And(0 <= r, r < t))(t))
        a.meta['family']['saved'] = (a.poly, a.spec, a.elem_, a.blocks, a.diagpoly)
        a.meta['family']['first'] = t0
    ev = len(c.events)
    c.loops.append(L)
    try:
        I.assign(st.target, at(i), fr)
        I.block(st.body, fr)
    except IP.Cont:
        pass
    except IP.Brk:
        raise Unsupported('break out of a loop with a symbolic number of iterations')
    except IP.Ret:
        raise Unsupported('return out of a loop with a symbolic number of iterations')
    finally:
        c.loops.pop()
    h.check(run)
    body = c.events[ev:]
    del c.events[ev:]
    event = ('forall', i, n, body)
    for bid, a in L['writes'].items():
        if a.meta.get('family') is None and c.reads.get(bid, -1) > L['tick']:
            raise Unsupported('array is read and written in a loop with a symbolic number of iterations')
        if c.loops and bid <= c.loops[-1]['buf']:
            continue
        if a.meta.get('family') is not None:
            close_family(a, body, event)
        else:
            arrays.unlock(a, event)
    for a in L['families']:
        if a.buf.id not in L['writes']:
            a.meta.pop('family')
    if body:
        c.events.append(event)
    finish_accs(I, L, fr, carried, i, n)
    finish_appends(run, I, st, fr, L, snap)
    for k in names:
        if k not in carried and not (isinstance(fr.locals.get(k), V.Arr) and k in aug and k not in plain):
            fr.locals[k] = POISON
    if st.orelse:
        I.block(st.orelse, fr)


def close_family(a, body, event):
    import arrays
    c = ctx()
    fam = a.meta['family']
    own = [x for x in body if x[0] == 'write' and x[1].arr is a]
    deep = [w for x in body for w, its in arrays.flat_writes(x, a)]
    if len(own) != 1 or len(deep) != 1:
        raise Unsupported('rows of an array that depend on earlier rows are not written once per iteration')
    w = own[0][1]
    for x, d in list(zip(w.axes, a.shape_))[1:]:
        if x[0] != 'I' or not c.valid(z3.And(z(x[1]) == 0, z(x[2]) == z(d))):
            raise Unsupported('part of a row is written')
    poly, spec, el, blocks, dp = fam['saved']
    hist = a.meta.get('hist')
    if hist is None:
        hist = (('init', el),)
    a.meta['hist'] = hist + (event,)
    fam['cond'] = lambda r: z3.BoolVal(True)
    fam['final'] = w
    f = fam['f']
    a.poly = a.spec = a.absof = a.diagpoly = a.axis1 = a.blocks = None
    a.buf.version += 1
    a.ver = a.buf.version
    a.elem_ = lambda *i: SNum(f(*[z(k) for k in i]))


def finish_accs(I, L, fr, carried, i, n):
    import arrays
    c = ctx()
    if not L['accs'] and not carried:
        return
    if L['accs'] and len(c.taken) > L['taken'] + L.get('ignore', 0):
        raise Unsupported('a branch in the body of a loop that sums up')
    seen = {}
    for x, s, v in L['accs']:
        if id(x) in seen:
            raise Unsupported('several terms per iteration')
        seen[id(x)] = (x, s, v)
    for x, s, v in seen.values():
        if isinstance(x, Acc):
            continue
        if c.reads.get(x.buf.id, -1) > L['tick']:
            raise Unsupported('a sum is read before the loop is over')
        total = make_sum(I, i, n, v, x, L['at'])
        if c.loops and x.buf.id <= c.loops[-1]['buf']:
            note_acc(x, '+' if s > 0 else '-', total)
            continue
        poly, spec, el, blocks, dp = x.meta.pop('locked')
        old = V.Arr(x.shape_, poly=poly, spec=spec, elem=el, dtype=x.dtype)
        r = V.binop('+' if s > 0 else '-', old, total)
        if r.elem_ is None and total.elem_ is not None and el is not None:
            r.elem_ = V.elementwise(lambda p, q: V.binop('+' if s > 0 else '-', p, q), old, total).elem_
        x.poly, x.spec, x.elem_, x.diagpoly = r.poly, r.spec, r.elem_, r.diagpoly
        x.buf.version += 1
        x.ver = x.buf.version
        c.heap_writes.append(('buf', x.buf.id))
    for k, a in carried.items():
        if id(a) in seen:
            _, s, v = seen[id(a)]
            total = make_sum(I, i, n, v, None, L['at'])
            fr.locals[k] = a.v0
            fr.locals[k] = I.inplace('+' if s > 0 else '-', a.v0, lambda: total)
        else:
            fr.locals[k] = a.v0


def append_outer(I, l, x):
    """append to a list that exists before the innermost open loop"""
    c = ctx()
    if c.replaying and c.capture is not None and c.capture[0] is l:
        c.capture[1].append(x)
        return True
    if not c.loops:
        return False
    if any(y is l for y in c.lists[c.loops[-1]['lists']:]):
        return False
    if c.replaying:
        return True
    fz = c.run.frozen_lists.get(id(l))
    if fz is not None:
        c.mutated.append(fz[1])
    c.loops[-1]['appends'].append((l, x))
    return True


def finish_appends(run, I, st, fr, L, snap):
    c = ctx()
    seen = []
    for l, x in L['appends']:
        if any(y is l for y in seen):
            raise Unsupported('several items are appended per iteration')
        seen.append(l)
    for l in seen:
        if c.loops:
            raise Unsupported('items appended in nested loops with symbolic numbers of iterations')
        n0 = len(l) if isinstance(l, list) else l.n
        at0 = (lambda l: lambda k: I.getitem(l, k))(list(l)) if isinstance(l, list) else l.at
        memo = {}
        t0 = L['tick']

        def item(k, l_=[l], memo=memo):
            k = z3.simplify(z(k))
            if k.sexpr() in memo:
                return memo[k.sexpr()]
            fr2 = IP.Frame(fr.mod, fr.parent, fr.fn)
            fr2.locals.update(snap)
            fr2.globals_, fr2.nonlocals = fr.globals_, fr.nonlocals
            old = (c.lazy_limit, c.capture, len(c.events), c.loops)
            c.lazy_limit = t0 if old[0] is None else min(old[0], t0)
            got = []
            c.capture = (l_[0], got)
            c.replaying += 1
            c.loops = [dict(L)]
            c.loops[0]['accs'], c.loops[0]['writes'], c.loops[0]['appends'] = [], {}, []
            try:
                I.assign(st.target, L['at'](SNum(k)), fr2)
                I.block(st.body, fr2)
            except IP.Cont:
                pass
            finally:
                c.lazy_limit, c.capture, c.loops = old[0], old[1], old[3]
                c.replaying -= 1
                del c.events[old[2]:]
            if len(got) != 1:
                raise Unsupported('one item per iteration')
            memo[k.sexpr()] = got[0]
            return got[0]

        def at(k, item=item, at0=at0, n0=n0):
            if c.decide(z(k) < z(n0)):
                return at0(k)
            return item(z3.simplify(z(k) - z(n0)))
        total = mknum(z(n0) + z(L['n']))
        if isinstance(l, list):
            new = IP.SList(total, at)
            import gc
            for r in gc.get_referrers(l):
                if r is fr.locals:
                    continue
                if isinstance(r, dict) and (r is snap or l is r.get('__never__')):
                    continue
                if isinstance(r, tuple) and any(r is q for q in L['appends']) or r is c.lists or r is seen or type(r).__name__ in ('frame', 'cell'):
                    continue
                if isinstance(r, tuple) and len(r) == 2 and r[0] == 'list':
                    continue
                if isinstance(r, list) and len(r) == 1 and r is item.__defaults__[0]:
                    continue
                raise Unsupported('a list that grows in a loop is shared')
            for k, v in list(fr.locals.items()):
                if v is l:
                    fr.locals[k] = new
            c.lists.append(new)
        else:
            I.slist_set(l, total, at)


def symbolic_while(run, I, st, fr):
    for rule in run.while_rules:
        r = rule(I, st, fr)
        if r is not NotImplemented:
            return r
    return counted(run, I, st, fr)


def counted(run, I, st, fr):
    """while i < n: ...; i += k     is     for i in range(i, n, k): ..."""
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return NotImplemented
    a, b, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, (ast.Lt() if isinstance(op, ast.Gt) else ast.LtE())
    if not isinstance(op, (ast.Lt, ast.LtE)):
        return NotImplemented
    off = 0
    if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Add, ast.Sub)) and isinstance(a.right, ast.Constant) and isinstance(a.right.value, int):
        off = a.right.value if isinstance(a.op, ast.Add) else -a.right.value
        a = a.left
    if not isinstance(a, ast.Name):
        return NotImplemented
    v = a.id
    steps, other = [], 0
    for k, s in enumerate(st.body):
        inc = None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == v and isinstance(s.op, ast.Add):
            inc = s.value
        elif (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v and isinstance(s.value, ast.BinOp) and
              isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == v):
            inc = s.value.right
        if inc is not None:
            steps.append((k, inc))
        elif v in assigned([s]):
            return NotImplemented
    if len(steps) != 1:
        return NotImplemented
    k, inc = steps[0]
    names = assigned(st.body)
    if {x.id for e in (b, inc) for x in ast.walk(e) if isinstance(x, ast.Name)} & names:
        return NotImplemented
    if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(inc)):
        return NotImplemented
    for x in ast.walk(b):       # the bound may not depend on what the loop changes
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len' or isinstance(x.func, ast.Attribute) and x.func.attr.startswith('get_')):
            return NotImplemented
    for s in st.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Return)):
                return NotImplemented
    conts = []

    def find(stmts):
        for s in stmts:
            if isinstance(s, ast.Continue):
                conts.append(s)
            elif not isinstance(s, (ast.For, ast.While)):
                for f in ('body', 'orelse', 'handlers'):
                    find(getattr(s, f, []) or [])
    find(st.body[:k])
    if conts:
        return NotImplemented
    v0, n = fr.locals.get(v), I.ev(b, fr)
    if not (isinstance(v0, (int, SNum)) and not isinstance(v0, bool) and isinstance(n, (int, SNum))):
        return NotImplemented
    d = I.ev(inc, fr)
    if not isinstance(d, (int, SNum)) or isinstance(v0, int) and isinstance(n, int) and isinstance(d, int):
        return NotImplemented
    c = ctx()
    if z(v0).sort() != z3.IntSort() or z(n).sort() != z3.IntSort() or z(d).sort() != z3.IntSort() or not c.valid(z(d) > 0):
        return NotImplemented
    shared = [x for x in ast.walk(b) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)]
    for x in shared:        # len(x) of a list that the loop may change
        if not (len(x.args) == 1 and isinstance(x.args[0], ast.Name)):
            return NotImplemented
        nm = x.args[0].id
        for s in st.body:
            for y in ast.walk(s):
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == nm:
                    return NotImplemented
    stop = mknum(z3.simplify(z(n) - off + (1 if isinstance(op, ast.LtE) else 0)))
    after = any(isinstance(x, ast.Name) and x.id == v for s in st.body[k + 1:] for x in ast.walk(s))
    node = counted.memo.get(id(st))
    if node is None:
        body = st.body[:k] + st.body[k + 1:]
        target = v
        if after:
            target = '%' + v
            mk = lambda e: ast.copy_location(ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=e), st)
            body = [mk(ast.Name(id=target, ctx=ast.Load()))] + st.body[:k] + [mk(ast.BinOp(left=ast.Name(id=target, ctx=ast.Load()), op=ast.Add(), right=inc))] + st.body[k + 1:]
        f = ast.copy_location(ast.For(target=ast.Name(id=target, ctx=ast.Store()), iter=ast.Constant(value=None), body=body or [ast.copy_location(ast.Pass(), st)], orelse=st.orelse), st)
        ast.fix_missing_locations(f)
        node = counted.memo[id(st)] = (f, st)
    it = IP.SRange(v0, stop, d)
    fr.locals[v] = POISON
    run.symbolic_for(I, node[0], fr, it)
    fr.locals.pop('%' + v, None)
    if isinstance(d, int) and d == 1:
        fr.locals[v] = mknum(z3.simplify(z3.If(z(v0) < z(stop), z(stop), z(v0))))
    else:
        fr.locals[v] = POISON
    return None


counted.memo = {}


def symbolic_comp(run, I, e, fr, it):
    raise Unsupported('comprehension over a symbolic sequence')


def map_effects(run, I, ev0, i, n):
    c = ctx()
    body = c.events[ev0:]
    del c.events[ev0:]
    c.events.append(('forall', i, n, body))


def setitem(run, I, o, k, v):
    h = getattr(o, 'sym_setitem', None)
    if h is not None:
        return h(I, k, v)
    raise Unsupported('item assignment')


def sum_seq(run, I, x):
    raise Unsupported('sum of a symbolic sequence')


def block_array(nb, size, at, dtype):
    """an array made of nb[0] x nb[1] equal blocks; at(i, j) is the entry function of block (i, j)"""
    r = V.Arr((mknum(z(nb[0]) * z(size[0])), mknum(z(nb[1]) * z(size[1]))), dtype=dtype)
    r.blocks = dict(nb=nb, size=size, at=at)
    return r


def stack_seq(run, I, xs, axis):
    """vstack/hstack of a sequence of symbolic length of 2D arrays of equal shape"""
    c = ctx()
    n, at = I.seq(xs)
    if not c.valid(z(n) > 0):
        if not c.decide(z(n) > 0):
            raise PyRaise(ValueError, ('need at least one array',))
    i = SNum(z3.Int(c.fresh('item')))
    c.assume(z3.And(i.t >= 0, i.t < z(n)))
    x = at(i)
    x = NPM().to_array(I, x, copy=False)
    if x.ndim != 2:
        raise Unsupported('stacking a symbolic sequence of %dD arrays' % x.ndim)
    for d in x.shape_:
        if any(v.eq(i.t) for v in core_vars(z(d))):
            raise Unsupported('stacking arrays of different shapes')
    x0 = NPM().to_array(I, at(0), copy=False)
    if x.blocks is not None and x0.blocks is not None:
        nb, size = x0.blocks['nb'], x0.blocks['size']
        if not (c.valid(z(nb[0]) == z(x.blocks['nb'][0])) and c.valid(z(nb[1]) == z(x.blocks['nb'][1])) and c.valid(z(size[0]) == z(x.blocks['size'][0])) and c.valid(z(size[1]) == z(x.blocks['size'][1]))):
            raise Unsupported('stacking arrays of different block structure')
        if not (isinstance(nb[axis], int) and nb[axis] == 1):
            raise Unsupported('stacking block arrays along their blocks')
        f = lambda k: NPM().to_array(I, at(k), copy=False).blocks['at']
    else:
        nb, size = (1, 1), x0.shape_
        if not (c.valid(z(size[0]) == z(x.shape_[0])) and c.valid(z(size[1]) == z(x.shape_[1]))):
            raise Unsupported('stacking arrays of different shapes')
        f = lambda k: (lambda i, j: V.elem(NPM().to_array(I, at(k), copy=False)))
    if axis == 0:
        return block_array((n, nb[1]), size, lambda i, j: f(i)(0, j), x.dtype)
    return block_array((nb[0], n), size, lambda i, j: f(j)(i, 0), x.dtype)


def core_vars(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def NPM():
    import npmodel
    return npmodel


def hstack_array(run, I, xs):
    """hstack of a 3D array: its items side by side"""
    if xs.ndim == 2:
        n = xs.shape_[0]
        import libx
        return libx.flatten(I, xs)
    if xs.ndim != 3:
        raise Unsupported('hstack of a %dD array' % xs.ndim)
    n, q, p = xs.shape_
    c = ctx()
    if not c.valid(z(n) > 0):
        if not c.decide(z(n) > 0):
            raise PyRaise(ValueError, ('need at least one array',))
    e = V.elem(xs)
    return block_array((1, n), (q, p), lambda i, j: (lambda s, t: e(z(j), s, t)), xs.dtype)


def list_mutation(run, I, o, attr, a):
    ctx().heap_writes.append(('list', o))


def slist_append(run, I, o, x):
    n, at = o.n, o.at

    def f(i):
        if c_decide(z(i) < z(n)):
            return at(i)
        return x
    c_decide = ctx().decide
    I.slist_set(o, mknum(z(n) + 1), f)
