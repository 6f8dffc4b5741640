from common import *
import ast
import loops

LIB = 'numpy.trapz(y, x=grid): the trapezoidal rule over the last axis; a linear functional of that axis, so rules on different axes commute'


class Grid(object):
    """grid number j: a 1D array of any length, or no array at all if `isarr` says so"""
    def __init__(self, G, j):
        self.G, self.j = G, j

    def __repr__(self):
        return 'grid[%s]' % (self.j,)

    def sym_isarray(self):
        return self.G.isarr is None or ctx().decide(self.G.isarr(z(self.j)))

    def sym_type(self):
        return Opaque('type')

    def sym_getattr(self, I, attr):
        n = SNum(self.G.size(z(self.j)))
        if attr == 'size':
            return n
        if attr == 'shape':
            return (n,)
        if attr == 'ndim':
            return 1
        if not self.sym_isarray():
            raise PyRaise(AttributeError, (attr,))
        raise Unsupported('grid attribute %s' % attr)

    def sym_len(self):
        return SNum(self.G.size(z(self.j)))

    def sym_np(self, I, name, args, kw):
        if name in ('array', 'asarray', 'asanyarray') and args[0] is self:
            return self
        if name.split('.')[-1] == 'diff' and args == [self] and not kw and self.sym_isarray():
            return Spacing(self)
        return NotImplemented


class Grids(object):
    def __init__(self, c, n, arrays=True):
        self.n = n
        self.size = z3.Function('grid_size', z3.IntSort(), z3.IntSort())
        self.oks = []
        self.isarr = None if arrays else z3.Function('grid_is_array', z3.IntSort(), z3.BoolSort())
        i = z3.Int('gi')
        c.facts.append(z3.ForAll([i], self.size(i) >= 1))

    def seq(self):
        if isinstance(self.n, int):
            return tuple(Grid(self, j) for j in range(self.n))
        return SList(self.n, lambda j: Grid(self, j), kind='tuple')


class Shape(object):
    """the shape of an argument: equal to the shape of the grids if and only if `ok`"""
    def __init__(self, G, ok):
        self.G, self.ok = G, ok

    def sym_compare(self, I, o, a, b):
        other = b if a is self else a
        if isinstance(other, Shape):
            raise Unsupported('comparison of the shapes of the arguments')
        n, at = I.seq(other)
        c = ctx()
        i = z3.Int(c.fresh('axis'))
        c.prove(z(n) == z(self.G.n), 'the shape asked for has one size per grid')
        c.assume(z3.And(0 <= i, i < z(self.G.n)))
        c.prove(z(at(SNum(i))) == self.G.size(i), 'the shape asked for is the sizes of the grids')
        return SBool(self.ok if o in ('==',) else z3.Not(self.ok))


class Spacing(object):
    """np.diff of a grid, or one of its entries"""
    def __init__(self, grid, at=None):
        self.grid, self.at = grid, at

    def sym_getattr(self, I, attr):
        if attr == 'size' and self.at is None:
            return self.len()
        raise Unsupported('attribute %s of the spacing of a grid' % attr)

    def len(self):
        n = ctx().run_memo.setdefault(('spacings', str(self.grid.j)), z3.Int(ctx().fresh('num_spacings')))
        ctx().assume(n >= 0)
        return SNum(n)

    def sym_len(self):
        return self.len()

    def sym_getitem(self, I, k):
        if self.at is None and isinstance(k, int):
            return Spacing(self.grid, k)
        raise Unsupported('entries of the spacing of a grid')

    def sym_np(self, I, name, args, kw):
        if name.split('.')[-1] in ('allclose', 'isclose'):
            # close to each other, not equal
            return SBool(z3.Bool(ctx().fresh('about_uniform')))
        return NotImplemented


class Tensor(object):
    """a product of the arguments, entrywise, on the grid; the axes before `left` are left, the others have been integrated"""
    def __init__(self, G, prod, left=None, done=None, shape=None):
        self.G, self.prod = G, prod
        self.left = left            # number of axes still there (the first ones), or a list of axes
        self.done = done            # axis -> grid number, or 'own'
        self.shape = shape

    def __repr__(self):
        return 'Tensor%r' % (self.prod,)

    def of(self, prod):
        return Tensor(self.G, prod, self.left, self.done)

    def sym_getattr(self, I, attr):
        if attr == 'shape' and self.shape is not None:
            return self.shape
        if attr in ('conj', 'conjugate'):
            return Native('conj', lambda: self.conj())
        if attr == 'ndim':
            # known once the arguments have been found to have the shape of the grids
            if not ctx().valid(z3.And([z3.BoolVal(True)] + self.G.oks)):
                raise Unsupported('number of dimensions of an argument of any shape')
            return len(self.left) if isinstance(self.left, list) else mknum(self.left[1] - self.left[0])
        raise Unsupported('tensor attribute %s' % attr)

    def conj(self):
        return self.of(tuple(sorted((n, not k) for n, k in self.prod)))

    def sym_binop(self, I, op, a, b):
        if op == '*' and isinstance(a, Tensor) and isinstance(b, Tensor) and self.same_axes(a, b):
            return a.of(tuple(sorted(a.prod + b.prod)))
        return NotImplemented

    def sym_inplace(self, I, op, v):
        raise Unsupported('in-place operator on a product of the arguments')

    def same_axes(self, a, b):
        return a.left is b.left and a.done is b.done or a.done == {} and b.done == {}

    def sym_np(self, I, name, args, kw):
        name = name.split('.')[-1]
        if name in ('conj', 'conjugate') and args == [self] and not kw:
            return self.conj()
        if name == 'multiply' and len(args) == 2 and not kw:
            return I.binop('*', args[0], args[1])
        if name in ('array', 'asarray') and args == [self] and not kw:
            return self
        if name in ('trapz', 'trapezoid'):
            return self.trapz(*args[1:], **kw)
        return NotImplemented

    def trapz(self, x=None, dx=None, axis=-1):
        c = ctx()
        c.run.assumed.add(LIB)
        if isinstance(axis, SNum) and isinstance(self.left, tuple):
            axis = -1 if c.valid(z(axis) == self.left[1] - self.left[0] - 1) else 0 if c.valid(z(axis) == 0) else axis
        if x is None and isinstance(dx, Spacing) and dx.at is not None:
            c.prove(z3.BoolVal(False), 'the grid is integrated with its own spacings, of which only one is used')
        if not isinstance(x, Grid) or dx is not None or not isinstance(axis, int):
            raise Unsupported('trapz of something else')
        if isinstance(self.left, list):
            try:
                ax = self.left[axis]
            except IndexError:
                raise PyRaise(ValueError, ('axis',))
            left = [a for a in self.left if a != ax]
            return Tensor(self.G, self.prod, left, dict(self.done, **{str(ax): z3.simplify(z(x.j))}))
        if axis != -1 and axis != 0:
            raise Unsupported('axis')
        lo, hi = self.left
        ax = z3.simplify(hi - 1 if axis == -1 else lo)
        if not c.valid(hi > lo):
            raise Unsupported('integration of an axis that may not be there')
        if not c.valid(z(x.j) == ax):
            raise Unsupported('an axis is integrated with a grid that is not its own')
        return Tensor(self.G, self.prod, (lo, ax) if axis == -1 else (z3.simplify(ax + 1), hi), 'own')


def rule(run, G):
    """loop over the grids: after i iterations i axes, from one end, have been integrated, each with its own grid"""
    def loop(I, st, fr, it):
        c = ctx()
        if not c.run_memo.get('integrating'):
            return NotImplemented
        names = [k for k in loops.assigned(st.body) if isinstance(fr.locals.get(k), Tensor)]
        if len(names) != 1:
            return NotImplemented
        n, at = I.seq(it)
        if not c.valid(z(n) == z(G.n)):
            return NotImplemented
        k = names[0]
        T0 = fr.locals[k]
        N = z(G.n)
        if not isinstance(T0.left, tuple) or not c.valid(z3.And(T0.left[0] == 0, T0.left[1] == N)):
            return NotImplemented
        ends = {'last': lambda t: (z3.IntVal(0), z3.simplify(N - t)), 'first': lambda t: (z3.simplify(t), N)}
        i = z3.Int(c.fresh('it'))
        c.assume(z3.And(0 <= i, i < N))
        i = SNum(i)
        for end in ('last', 'first'):
            lo, hi = ends[end](i.t)
            ev = len(c.events)
            others = loops.assigned(st.body) - {k}
            for x in others:
                fr.locals[x] = IP.POISON
            fr.locals[k] = Tensor(G, T0.prod, (lo, hi), 'own')
            aw = len(c.attr_writes)
            try:
                I.assign(st.target, at(i), fr)
                I.block(st.body, fr)
            except (Unsupported, IP.Brk, IP.Cont) as e:
                if end == 'first':
                    raise Unsupported('loop over the grids: %s' % e)
                continue
            T1 = fr.locals[k]
            l2, h2 = ends[end](i.t + 1)
            if isinstance(T1, Tensor) and T1.prod == T0.prod and isinstance(T1.left, tuple) and c.valid(z3.And(T1.left[0] == l2, T1.left[1] == h2)) and len(c.attr_writes) == aw and len(c.events) == ev:
                for x in others:
                    fr.locals[x] = IP.POISON
                l3, h3 = ends[end](N)
                fr.locals[k] = Tensor(G, T0.prod, (l3, h3), 'own')
                run.obligation(c, 'loop invariant: as many axes as iterations, from one end, each integrated with its own grid', True, 'z3', 0, None, None)
                if st.orelse:
                    I.block(st.orelse, fr)
                return None
        raise Unsupported('loop over the grids')
    return loop


def setup(I, c, run, arrays=True):
    n = run.cfg['n']
    if n == 'any':
        n = c.int_('num_grids', 1)
    G = Grids(c, n, arrays)
    run.loop_rules.append(rule(run, G))
    return G


def construct(I, G):
    s = G.seq()
    return I.call(I.module('vectors').env['InnerProductTrapz'], list(s) if isinstance(s, tuple) else [IP.Star(s)], {})


def inner(I, c, run):
    G = setup(I, c, run)
    o = construct(I, G)
    n = G.n
    ok1, ok2 = z3.Bool('first_has_the_shape_of_the_grids'), z3.Bool('second_has_the_shape_of_the_grids')
    G.oks = [ok1, ok2]
    left = (z3.IntVal(0), z(n)) if not isinstance(n, int) else list(range(n))
    done = {} if isinstance(n, int) else 'own'
    a = Tensor(G, (('first', False),), left, done, Shape(G, ok1))
    b = Tensor(G, (('second', False),), left, done, Shape(G, ok2))
    c.run_memo['integrating'] = True
    try:
        r = I.call(o if run.cfg['how'] == 'call' else I.getattr(o, 'inner_product'), [a, b], {})
    except PyRaise as e:
        c.prove(z3.Not(z3.And(ok1, ok2)), 'only vectors of another shape are refused', None)
        return
    c.prove(z3.And(ok1, ok2), 'vectors of another shape are refused')
    if not isinstance(r, Tensor):
        raise Unsupported('result %r' % (r,))
    run.obligation(c, 'conjugate of the first argument times the second', r.prod == (('first', True), ('second', False)), 'frame', 0, repr(r.prod), None)
    if isinstance(n, int):
        want = {str(k): k for k in range(n)}
        ok = r.left == [] and sorted(r.done) == sorted(want) and all(c.valid(r.done[k] == want[k]) for k in want)
        run.obligation(c, 'every axis is integrated once with its own grid', ok, 'z3', 0, 'left %r, done %r' % (r.left, r.done), None)
    else:
        lo, hi = r.left
        c.prove(lo == hi, 'every axis is integrated once with its own grid')


def refuse(I, c, run):
    """some grid, anywhere, is not an array"""
    G = setup(I, c, run, False)
    bad = c.int_('bad', 0)
    c.assume(bad.t < z(G.n))
    c.assume(z3.Not(G.isarr(bad.t)))
    run.iter_at = lambda it, n: bad if c.valid(z(n) == z(G.n)) else None
    try:
        construct(I, G)
    except PyRaise as e:
        run.obligation(c, 'grids that are not arrays are refused', True, 'frame', 0, None, None)
        return
    run.obligation(c, 'grids that are not arrays are refused', False, 'frame', 0, 'accepted', None)


def empty(I, c, run):
    try:
        I.call(I.module('vectors').env['InnerProductTrapz'], [], {})
    except PyRaise as e:
        run.obligation(c, 'missing grids are refused', True, 'frame', 0, None, None)
        return
    run.obligation(c, 'missing grids are refused', False, 'frame', 0, 'accepted', None)


units('C20', inner, 'InnerProductTrapz', product(n=[1, 2, 3, 4, 'any'], how=['call', 'inner_product']))
units('C20', refuse, 'grids that are not arrays', product(n=[1, 2, 3, 'any']))
units('C20', empty, 'no grids', [{}])
