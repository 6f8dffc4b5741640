from common import *
from values import binop

FILES = 'numpy.savetxt / loadtxt: numbers written with at least 17 significant digits and a delimiter that is no part of a number, read with that delimiter (or, if it is white space, with none), come back unchanged; loadtxt with ndmin=2 keeps rows and columns'
LAYOUT = 'ndarray.view: of complex as float, pairs of columns (real, imaginary); needs a contiguous last axis; ascontiguousarray, loadtxt and copies of their results have one, the layout of an argument is arbitrary'


class Text(object):
    """a text file of numbers"""
    def __init__(self, shape, at, delim, exact=True):
        self.shape, self.at, self.delim, self.exact = shape, at, delim, exact


class Path(object):
    """path number j of a list of paths"""
    def __init__(self, j, file):
        self.j, self.file = j, file

    def __repr__(self):
        return 'path[%s]' % (self.j,)

    sym_sorted = True

    def sym_compare(self, I, o, a, b):
        raise Unsupported('comparison of paths')


class Delim(object):
    """any delimiter that is no part of a number"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def sym_compare(self, I, o, a, b):
        other = b if a is self else a
        if other is None or isinstance(other, Delim):
            return (o in ('==', 'is')) == (other is self)
        raise Unsupported('comparison of a delimiter')

    def sym_type(self):
        return Native('str', None)

    def sym_truth(self, I):
        return True


def same_delim(written, read):
    if written is read or isinstance(written, str) and written == read:
        return True
    if isinstance(written, str) and written and not written.strip() and read is None:
        return True
    return False


def f_re(v):
    return SNum(z3.Function('RE', V.Num, V.Num)(num(v)))


def f_im(v):
    return SNum(z3.Function('IM', V.Num, V.Num)(num(v)))


def num(v):
    v = z(v)
    if v.sort() == V.Num:
        return v
    return z3.Function('num', z3.RealSort(), V.Num)(z3.ToReal(v) if v.sort() == z3.IntSort() else v)


def pair(a, b):
    return SNum(z3.Function('PAIR', V.Num, V.Num, V.Num)(num(a), num(b)))


def parts(c):
    x = z3.Const('x', V.Num)
    RE, IM = z3.Function('RE', V.Num, V.Num), z3.Function('IM', V.Num, V.Num)
    c.facts.append(z3.ForAll([x], z3.Function('PAIR', V.Num, V.Num, V.Num)(RE(x), IM(x)) == x, patterns=[RE(x)]))


def contiguous(c, a):
    if a.meta.get('contig'):
        return True
    if a.meta.get('c_or_f') is None:
        a.meta['c_or_f'] = z3.Bool(c.fresh('last_axis_contiguous'))
    return c.decide(a.meta['c_or_f'])


def kind_of(dtype):
    nm = getattr(dtype, 'name', dtype)
    if nm in ('float', 'complex', 'int'):
        return {'float': 'real'}.get(nm, nm)
    if dtype is None:
        return 'real'
    raise Unsupported('kind of numbers %r' % (dtype,))


def view(I, a, dtype=None):
    c = ctx()
    c.run.assumed.add(LAYOUT)
    if dtype is None:
        return V.alias(a)
    a.fresh()
    k = kind_of(dtype)
    if k == a.dtype:
        return V.alias(a)
    e = elem(a)
    if a.ndim == 0:
        raise Unsupported('view of a scalar')
    last = a.shape_[-1]
    bits = z3.Function(c.fresh('bits'), *([z3.IntSort()] * a.ndim + [V.Num]))
    other = lambda *i: SNum(bits(*[z(x) for x in i]))
    if a.dtype == 'complex':
        if not contiguous(c, a):
            raise PyRaise(ValueError, ('the last axis must be contiguous',))
        sh = a.shape_[:-1] + (binop('*', 2, last),)
        if k == 'real':
            def el(*i):
                j = z3.simplify(z(i[-1]))
                v = e(*(list(i[:-1]) + [z3.simplify(j / 2)]))
                return f_re(v) if c.decide(j % 2 == 0) else f_im(v)
        else:
            el = other
    elif k == 'complex':
        if not contiguous(c, a):
            raise PyRaise(ValueError, ('the last axis must be contiguous',))
        if c.decide(z(last) % 2 != 0):
            raise PyRaise(ValueError, ('size of the last axis',))
        sh = a.shape_[:-1] + (mknum(z3.simplify(z(last) / 2)),)
        if a.dtype == 'real':
            el = lambda *i: pair(e(*(list(i[:-1]) + [z3.simplify(2 * z(i[-1]))])), e(*(list(i[:-1]) + [z3.simplify(2 * z(i[-1]) + 1)])))
        else:
            el = other
    else:
        sh, el = a.shape_, other
    r = Arr(sh, elem=el, dtype=k, buf=a.buf, view=True)
    r.ver = a.ver
    r.meta['contig'] = a.meta.get('contig')
    return r


def astype(I, a, dtype):
    k = kind_of(dtype)
    r = V.copy_arr(a)
    if k == a.dtype:
        return r
    if k == 'int':
        raise Unsupported('conversion to integers')
    if a.dtype == 'complex':
        e = elem(a)
        r = Arr(a.shape_, elem=lambda *i: f_re(e(*i)), dtype=k)
    r.dtype = k
    return r


def ascontiguous(I, x, dtype=None):
    a = NPM.to_array(I, x)
    if dtype is not None:
        a = astype(I, a, dtype)
    if a.ndim == 0:
        a = NPM.atleast_1d(I, a)
    r = V.copy_arr(a)
    r.meta['contig'] = True
    return r


def savetxt(I, fname, X, fmt='%.18e', delimiter=' ', **kw):
    c = ctx()
    c.run.assumed.add(FILES)
    if {k for k, v in kw.items() if not (k == 'newline' and v == '\n' or k in ('header', 'footer') and v == '' or k == 'comments' or k == 'encoding')}:
        raise Unsupported('options of savetxt')
    X = NPM.to_array(I, X)
    if X.ndim == 1:
        X = V.transpose(NPM.atleast_2d(I, X))
    if X.ndim != 2:
        raise PyRaise(ValueError, ('expected a 1D or 2D array',))
    if X.dtype == 'complex':
        raise Unsupported('complex numbers as text')
    exact = False
    if fmt in ('%r', '%s'):
        exact = True
    elif isinstance(fmt, str) and fmt[:2] == '%.' and fmt[-1] in 'eg' and fmt[2:-1].isdigit():
        exact = int(fmt[2:-1]) + (fmt[-1] == 'e') >= 17
    e = elem(X)
    if not exact:
        rnd = z3.Function(c.fresh('rounded'), V.Num, V.Num)
        at = lambda i, j: SNum(rnd(num(e(i, j))))
    else:
        at = e
    if delimiter is None:
        delimiter = 'None'
    if not (isinstance(delimiter, (str, Delim))):
        raise Unsupported('delimiter')
    fs = c.run_memo.setdefault('texts', {})
    fs[fname] = Text(X.shape_, at, delimiter)
    c.run_memo['written'] = c.run_memo.get('written', 0) + 1


def loadtxt(I, fname, dtype=None, delimiter=None, ndmin=0, **kw):
    c = ctx()
    c.run.assumed.add(FILES)
    if {k for k in kw if k not in ('encoding',)}:
        raise Unsupported('options of loadtxt')
    f = fname.file if isinstance(fname, Path) else c.run_memo.get('texts', {}).get(fname)
    if f is None:
        raise PyRaise(FileNotFoundError, (fname,))
    if not same_delim(f.delim, delimiter):
        raise PyRaise(ValueError, ('could not convert string to float',))
    k = kind_of(dtype)
    r = Arr(f.shape, elem=f.at, dtype=k)
    if k == 'int':
        raise Unsupported('integers from text')
    if ndmin == 0:
        r = NPM.squeeze(I, r)
    elif ndmin == 1:
        r = NPM.atleast_1d(I, NPM.squeeze(I, r))
    elif ndmin != 2:
        raise PyRaise(ValueError, ('Illegal value of ndmin keyword',))
    r.meta['contig'] = True
    return r


def allclose(I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """entrywise predicate; with the default tolerances it is CLOSE"""
    c = ctx()
    std = (rtol, atol) == (1e-5, 1e-8)
    a, b = (NPM.to_array(I, x, copy=False) for x in (a, b))
    if a.ndim != b.ndim:
        raise Unsupported('allclose with different numbers of dimensions')
    for x, y in zip(a.shape_, b.shape_):
        if not c.valid(z(x) == z(y)):
            if c.decide(z3.And(z(x) != z(y), z(x) != 1, z(y) != 1)):
                raise PyRaise(ValueError, ('operands could not be broadcast together',))
            if c.decide(z(x) != z(y)):
                raise Unsupported('allclose with broadcasting')
    CL = z3.Function('CLOSE' if std else c.fresh('close'), V.Num, V.Num, z3.BoolSort())
    x = z3.Const('x', V.Num)
    c.facts.append(z3.ForAll([x], CL(x, x), patterns=[CL(x, x)]))
    return all_entries(c, a, b, lambda u, v: CL(num(u), num(v)))


def all_entries(c, a, b, p):
    ea, eb = elem(a), elem(b)
    if a.ndim != 1:
        raise Unsupported('entrywise predicate of %dD arrays' % a.ndim)
    w = z3.Int(c.fresh('witness'))
    if c.decide(z3.Bool(c.fresh('all_entries'))):
        i = z3.Int('ai')
        try:
            body = p(ea(i), eb(i))
        except Unsupported:
            return True
        c.facts.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z(a.shape_[0])), body)))
        return True
    c.assume(z3.And(0 <= w, w < z(a.shape_[0])))
    c.assume(z3.Not(p(ea(w), eb(w))))
    return False


def array_equal(I, a, b, equal_nan=False):
    c = ctx()
    a, b = (NPM.to_array(I, x, copy=False) for x in (a, b))
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape_, b.shape_):
        if c.decide(z(x) != z(y)):
            return False
    return all_entries(c, a, b, lambda u, v: num(u) == num(v))


def setup(I, c, run):
    N = I.libs['numpy'].members

    def put(name, f):
        N[name] = Native(name, lambda *a, **k: f(I, *a, **k))
    put('savetxt', savetxt)
    put('loadtxt', loadtxt)
    put('allclose', allclose)
    put('array_equal', array_equal)
    put('ascontiguousarray', ascontiguous)
    run.astype = lambda I2, a, dtype: astype(I2, a, dtype)
    lib0 = type(run).lib
    extra = {'arr.view': view, 'arr.astype': lambda I2, a, dtype, **k: astype(I2, a, dtype), 'numpy.isclose': None}

    def lib(I2, name, a, k):
        if extra.get(name):
            return extra[name](I2, *a, **k)
        return lib0(run, I2, name, a, k)
    run.lib = lib
    dtype_of = type(run).dtype_of
    N['iscomplexobj'] = Native('iscomplexobj', lambda x: NPM.to_array(I, x, copy=False).dtype == 'complex')
    N['isrealobj'] = Native('isrealobj', lambda x: NPM.to_array(I, x, copy=False).dtype != 'complex')
    N['iscomplex'] = Native('iscomplex', lambda x: (_ for _ in ()).throw(Unsupported('iscomplex')))
    parts(c)


def data(c, name, shape, kind):
    f = z3.Function(name, *([z3.IntSort()] * len(shape) + [V.Num]))
    a = Arr(shape, elem=lambda *i: SNum(f(*[z(x) for x in i])), dtype=kind, buf=V.Buf(name, True))
    return a, f


def delim(run):
    return Delim('delimiter') if run.cfg['delim'] else None


def roundtrip(I, c, run):
    setup(I, c, run)
    env = I.module('util').env
    kind = run.cfg['kind']
    sh = tuple(c.int_('n%d' % i, 1) for i in range(run.cfg['ndim']))
    a, f = data(c, 'array', sh, kind)
    kw = {}
    if run.cfg['delim']:
        kw['delimiter'] = delim(run)
    I.call(env['save_array_text'], [a, 'file'], dict(kw))
    if kind == 'complex':
        kw['is_complex'] = True
    r = I.call(env['load_array_text'], ['file'], kw)
    prove_shape(c, r, sh if len(sh) == 2 else (sh[0], 1), 'rows and columns of the loaded array')
    run.obligation(c, 'kind of numbers of the loaded array', r.dtype == ('complex' if kind == 'complex' else 'real'), 'frame', 0, r.dtype, None)
    i, j = c.int_('i', 0), c.int_('j', 0)
    c.assume(z3.And(i.t < z(sh[0]), j.t < z(sh[1]) if len(sh) == 2 else j.t == 0))
    v = elem(r)(i.t, j.t)
    c.prove(num(v) == (f(i.t, j.t) if len(sh) == 2 else f(i.t)), 'every entry comes back')
    no_mutation(c, run)


def refused_save(I, c, run):
    setup(I, c, run)
    env = I.module('util').env
    sh = tuple(c.int_('n%d' % i, 1) for i in range(run.cfg['ndim']))
    a, f = data(c, 'array', sh, run.cfg['kind'])
    try:
        I.call(env['save_array_text'], [a, 'file'], {})
    except PyRaise:
        run.obligation(c, 'nothing is saved of an array that is refused', not c.run_memo.get('written'), 'frame', 0, '', None)
        return
    run.obligation(c, 'arrays with more than two dimensions are refused', False, 'frame', 0, 'accepted', None)


def file_load(I, c, run):
    """any file of numbers; complex loading of an odd number of columns is refused"""
    setup(I, c, run)
    env = I.module('util').env
    m, n = c.int_('rows', 1), c.int_('columns', 1)
    f = z3.Function('number', z3.IntSort(), z3.IntSort(), V.Num)
    d = delim(run)
    c.run_memo['texts'] = {'file': Text((m, n), lambda i, j: SNum(f(z(i), z(j))), d if d is not None else ' ')}
    kw = dict(delimiter=d) if d is not None else {}
    if run.cfg['cplx']:
        kw['is_complex'] = True
        odd = c.decide(n.t % 2 != 0)
    try:
        r = I.call(env['load_array_text'], ['file'], kw)
    except PyRaise as e:
        if run.cfg['cplx'] and odd:
            run.obligation(c, 'complex loading of an odd number of columns is refused', True, 'frame', 0, '', None)
            return
        raise
    i, j = c.int_('i', 0), c.int_('j', 0)
    if run.cfg['cplx']:
        if odd:
            run.obligation(c, 'complex loading of an odd number of columns is refused', False, 'frame', 0, 'accepted', None)
            return
        prove_shape(c, r, (m, mknum(n.t / 2)), 'rows and columns of the loaded array')
        c.assume(z3.And(i.t < m.t, 2 * j.t < n.t))
        c.prove(num(elem(r)(i.t, j.t)) == z(pair(SNum(f(i.t, 2 * j.t)), SNum(f(i.t, 2 * j.t + 1)))), 'a complex number from two columns')
    else:
        prove_shape(c, r, (m, n), 'rows and columns of the loaded array')
        c.assume(z3.And(i.t < m.t, j.t < n.t))
        c.prove(num(elem(r)(i.t, j.t)) == f(i.t, j.t), 'every number of the file')


def signal_file(c, f, m, n, d):
    return Text((m, n), f, d if d is not None else ' ')


def signals(I, c, run):
    setup(I, c, run)
    env = I.module('util').env
    m, n = c.int_('rows', 1), c.int_('columns', 1)
    f = z3.Function('number', z3.IntSort(), z3.IntSort(), V.Num)
    d = delim(run)
    p = Path(0, signal_file(c, lambda i, j: SNum(f(z(i), z(j))), m, n, d))
    kw = dict(delimiter=d) if d is not None else {}
    one_col = c.decide(n.t == 1)
    try:
        r = I.call(env['load_signals'], [p], kw)
    except PyRaise:
        if one_col:
            run.obligation(c, 'a file without signals is refused', True, 'frame', 0, '', None)
            return
        raise
    if one_col:
        run.obligation(c, 'a file without signals is refused', False, 'frame', 0, 'accepted', None)
        return
    t, s = r
    prove_shape(c, t, (m,), 'one time per row')
    prove_shape(c, s, (m, mknum(n.t - 1)), 'one row of signals per time')
    i, j = c.int_('i', 0), c.int_('j', 0)
    c.assume(z3.And(i.t < m.t, j.t < n.t - 1))
    c.prove(num(elem(t)(i.t)) == f(i.t, 0), 'the first column is the times')
    c.prove(num(elem(s)(i.t, j.t)) == f(i.t, j.t + 1), 'the other columns are the signals')


def several(I, c, run):
    """files with the same times: one slab per file; a file whose times, or whose number of times or signals, differ: refused"""
    import arrays
    setup(I, c, run)
    env = I.module('util').env
    F = c.int_('num_files', 1)
    f = z3.Function('number', z3.IntSort(), z3.IntSort(), z3.IntSort(), V.Num)
    rows, cols = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('rows', 'columns'))
    j, i = z3.Ints('fj fi')
    inside = z3.And(0 <= j, j < F.t)
    c.facts.append(z3.ForAll([j], z3.And(rows(j) >= 1, cols(j) >= 1), patterns=[rows(j), cols(j)]))
    d = delim(run)

    def path(k):
        k = z3.simplify(z(k))
        c.assume(z3.And(rows(k) >= 1, cols(k) >= 1))
        return Path(k, signal_file(c, lambda a, b: SNum(f(k, z(a), z(b))), SNum(rows(k)), SNum(cols(k)), d))
    seq = SList(F, path, name='signal_paths')
    run.frozen_lists[id(seq)] = (seq, 'signal_paths')
    kw = dict(delimiter=d) if d is not None else {}
    bad = None
    CL = z3.Function('CLOSE', V.Num, V.Num, z3.BoolSort())
    if run.cfg['bad']:
        bad = c.int_('bad', 0)
        c.assume(bad.t < F.t)
        c.assume(z3.And(rows(bad.t) >= 1, cols(bad.t) >= 1, rows(z3.IntVal(0)) >= 1, cols(z3.IntVal(0)) >= 1))
        if run.cfg['bad'] == 'times':
            k = c.int_('k', 0)
            c.assume(z3.And(rows(bad.t) == rows(0), k.t < rows(0)))
            x, y = f(bad.t, k.t, 0), f(0, k.t, 0)
            c.assume(z3.Not(z3.Or(CL(x, y), CL(y, x), x == y)))
            c.facts.append(z3.ForAll([j], cols(j) == cols(0)))
        elif run.cfg['bad'] == 'rows':
            c.assume(rows(bad.t) != rows(0))
        elif run.cfg['bad'] == 'columns':
            c.assume(cols(bad.t) != cols(0))
        else:
            c.assume(cols(bad.t) == 1)
        run.iter_at = lambda it, n: bad
    else:
        c.facts.append(z3.ForAll([j], z3.And(rows(j) == rows(0), cols(j) == cols(0)), patterns=[rows(j), cols(j)]))
        c.assume(cols(0) >= 2)
        c.facts.append(z3.ForAll([j, i], f(j, i, 0) == f(0, i, 0), patterns=[f(j, i, 0)]))
    try:
        r = I.call(env['load_multiple_signals'], [seq], kw)
    except PyRaise:
        if bad is not None:
            run.obligation(c, 'such files are refused', True, 'frame', 0, '', None)
            return
        raise
    if bad is not None:
        if run.reachable(c):
            run.obligation(c, 'such files are refused', False, 'frame', 0, 'accepted', None)
        return
    t, s = r
    n0 = SNum(rows(z3.IntVal(0)))
    prove_shape(c, t, (n0,), 'one time per row')
    prove_shape(c, s, (F, n0, mknum(cols(z3.IntVal(0)) - 1)), 'one slab per file, one row per time, one column per signal')
    jj, a, b = c.int_('j', 0), c.int_('i', 0), c.int_('k', 0)
    c.assume(z3.And(jj.t < F.t, a.t < n0.t, b.t < cols(z3.IntVal(0)) - 1))
    c.assume(z3.And(rows(jj.t) == rows(z3.IntVal(0)), cols(jj.t) == cols(z3.IntVal(0))))
    c.prove(num(elem(t)(a.t)) == f(0, a.t, 0), 'times of the files')
    arrays.final_entry(c, s, (jj.t, a.t, b.t), SNum(f(jj.t, a.t, b.t + 1)), (jj.t,), 'slab j holds the signals of file j')


units('C18', roundtrip, 'save_then_load', [dict(kind=k, ndim=d, delim=x) for k in ('real', 'int', 'complex') for d in (1, 2) for x in (False, True)])
units('C18', refused_save, 'too_many_dimensions', [dict(kind=k, ndim=d) for k in ('real', 'complex') for d in (3, 4)])
units('C18', file_load, 'load_array_text', [dict(cplx=k, delim=x) for k in (False, True) for x in (False, True)])
units('C18', signals, 'load_signals', [dict(delim=x) for x in (False, True)])
units('C18', several, 'load_multiple_signals', [dict(bad=b, delim=x) for b in (None, 'times', 'rows', 'columns', 'none') for x in (False, True)])
