"""Item assignment on arrays.

Outside loops with a symbolic number of iterations the contents change exactly.  Inside one, a write to an
array that exists before the loop becomes an event of the iteration; after the loop the contents are unknown
(a fresh array) and the history of the array - its contents before and the events of an arbitrary iteration -
is what a specification speaks about (`final_entry`):
  every write that reaches an entry writes the wanted value, and a named iteration reaches it (or the wanted
  value was there before).
"""
import z3
from core import *
import core
import values as V
from values import Arr


class Write(object):
    """one write: entries of the region given by `axes` get value(local indices)"""
    def __init__(self, arr, axes, val, whole=None):
        self.arr, self.axes, self.val, self.whole = arr, axes, val, whole

    def hits(self, idx):
        out = []
        for x, i in zip(self.axes, idx):
            i = z(i)
            if x[0] == 'int':
                out.append(i == z(x[1]))
            elif x[0] == 'I':
                out += [i >= z(x[1]), i < z(x[2])]
            elif x[0] == 'G':
                lo, step, cnt = z(x[1]), x[2], z(x[3])
                out += [i >= lo, (i - lo) % step == 0, (i - lo) / step < cnt]
            else:
                raise Unsupported('region of a write')
        return z3.And([z3.BoolVal(True)] + out)

    def value_at(self, idx):
        loc = []
        for x, i in zip(self.axes, idx):
            i = z(i)
            if x[0] == 'I':
                loc.append(z3.simplify(i - z(x[1])))
            elif x[0] == 'G':
                loc.append(z3.simplify((i - z(x[1])) / x[2]))
        return self.val(*loc)


def axes_of(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if any(k is Ellipsis for k in key):
        i = key.index(Ellipsis)
        key = key[:i] + (slice(None),) * (a.ndim - len(key) + 1) + key[i + 1:]
    if len(key) > a.ndim:
        raise PyRaise(IndexError, ('too many indices',))
    key = key + (slice(None),) * (a.ndim - len(key))
    ax = []
    for k, n in zip(key, a.shape_):
        if isinstance(k, slice):
            b = V.slice_bounds(k, n)
            if b is not None:
                ax.append(('I',) + b)
            elif isinstance(k.step, int) and k.step > 1:
                lo = V.norm_bound(k.start, n, True)
                lo = 0 if lo is None else lo
                hi = V.norm_bound(k.stop, n, False)
                hi = n if hi is None else hi
                cnt = mknum(z3.If(z(hi) > z(lo), (z(hi) - z(lo) + (k.step - 1)) / k.step, 0))
                ax.append(('G', lo, k.step, cnt))
            else:
                raise Unsupported('slice step in an item assignment')
        elif isinstance(k, (int, SNum)) and not isinstance(k, bool):
            ax.append(('int', V.norm_index(k, n)))
        else:
            raise Unsupported('item assignment with a %s' % type(k).__name__)
    return ax


def value_fn(I, a, ax, v):
    """value(local indices), with broadcasting to the region"""
    import npmodel
    shape = tuple(V.axis_len(x) for x in ax if x[0] != 'int')
    if V.is_number(v) or isinstance(v, SNum):
        if a.dtype == 'real' and isinstance(v, complex):
            raise Unsupported('complex value into a real array')
        if a.dtype == 'int' and isinstance(v, float):
            v = int(v)
        if a.dtype == 'int' and isinstance(v, SNum) and not v.is_int:
            v = to_int(v)
        if a.dtype == 'real' and isinstance(v, SNum) and v.t.sort() == V.Num and not getattr(v, 'isreal', True):
            raise Unsupported('complex value into a real array')
        return (lambda *i: v), None
    if not isinstance(v, Arr):
        v = npmodel.to_array(I, v)
    v.fresh()
    if v.dtype == 'complex' and a.dtype != 'complex':
        raise Unsupported('possibly complex values into a real array')
    conv = to_int if a.dtype == 'int' and v.dtype not in ('int', 'bool') else None
    vs = list(v.shape_)
    while len(vs) > len(shape):
        if not V.is_dim(vs[0], 1):
            raise PyRaise(ValueError, ('could not broadcast input array',))
        vs.pop(0)
    off = len(shape) - len(vs)
    ones = []
    for d, x in enumerate(vs):
        n = shape[d + off]
        if isinstance(x, int) and x == 1 and not (isinstance(n, int) and n == 1):
            ones.append(True)
        else:
            if not V.same_dim(x, n):
                if isinstance(x, int) or ctx().valid(z(x) != 1):
                    raise PyRaise(ValueError, ('could not broadcast input array',))
                raise Unsupported('broadcast of a size that may be one')
            ones.append(False)
    extra = v.ndim - len(vs)
    if v.elem_ is None and v.poly is None and v.spec is None:
        raise Unsupported('entries of %r' % (v,))
    try:
        e = V.elem(v)
    except Unsupported:
        e = lambda *i: (_ for _ in ()).throw(Unsupported('entries of the value'))

    def f(*loc):
        i = [z3.IntVal(0)] * extra + [z3.IntVal(0) if o else loc[d + off] for d, o in enumerate(ones)]
        r = e(*i)
        return conv(r) if conv else r
    whole = v if not off and not any(ones) and not extra and not conv else None
    return f, whole


def to_int(v):
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, float):
        return int(v)
    t = z(v)
    if t.sort() == z3.IntSort():
        return v
    if t.sort() == z3.RealSort():
        # truncation towards zero
        return mknum(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return SNum(z3.Function('trunc', V.Num, V.Num)(t))


def setitem(run, I, a, key, v):
    c = ctx()
    if a.ver != a.buf.version:
        raise Unsupported('write to an array whose memory was written through another one')
    if a.view:
        raise Unsupported('item assignment through a view')
    if isinstance(key, Arr) and key.dtype == 'bool':
        if a.buf.frozen:
            c.mutated.append(a.buf.name)
        raise Unsupported('item assignment with a mask')
    ax = axes_of(a, key)
    f, whole = value_fn(I, a, ax, v)
    w = Write(a, ax, f, whole)
    if a.buf.frozen:
        c.mutated.append(a.buf.name)
    if c.loops and a.buf.id <= c.loops[-1]['buf']:
        if c.replaying:
            return
        c.events.append(('write', w))
        for l in c.loops:
            if a.buf.id <= l['buf']:
                l['writes'][a.buf.id] = a
        if a.meta.get('family') is None:
            lock(a)
        else:
            family_write(a, ax)
        return
    old = None
    if not (a.meta.get('fill') is None and a.elem_ is None and a.poly is None and a.spec is None):
        try:
            old = V.elem(a)
        except Unsupported:
            old = None
    b = a.buf
    b.version += 1
    b.stamp = c.tick()
    a.ver = b.version
    c.heap_writes.append(('buf', b.id))
    hist = a.meta.get('hist')
    a.meta['hist'] = (hist if hist is not None else (('init', old),)) + (w,)
    content(a, old, w)


def content(a, old, w):
    def el(*i):
        if ctx().decide(w.hits(i)):
            return w.value_at(i)
        if old is None:
            raise Unsupported('entry not written')
        return old(*i)
    forget(a)
    a.elem_ = el


def forget(a):
    a.poly = a.spec = a.elem_ = a.absof = a.diagpoly = a.axis1 = a.blocks = None
    a.meta = {k: v for k, v in a.meta.items() if k in ('hist', 'dtype', 'family')}
    if a.ndim in (1, 2):
        c = ctx()
        a.poly, nm = V.new_atom('array', a.shape_[0], a.shape_[1] if a.ndim == 2 else 1)
        if a.dtype in ('real', 'int'):
            c.th.atoms[nm]['real'] = True


def lock(a):
    """contents unknown until the loop ends"""
    if a.meta.get('locked') is None:
        a.meta['locked'] = (a.poly, a.spec, a.elem_, a.blocks, a.diagpoly)
        a.poly = a.spec = a.elem_ = a.absof = a.diagpoly = a.axis1 = a.blocks = None
        a.buf.version += 1
        a.ver = a.buf.version
        a.buf.stamp = ctx().tick()


def unlock(a, event):
    """the loop that wrote the array is over"""
    c = ctx()
    poly, spec, el, blocks, dp = a.meta.pop('locked')
    hist = a.meta.get('hist')
    if hist is None:
        t = Arr(a.shape_, poly=poly, spec=spec, elem=el, dtype=a.dtype)
        try:
            e0 = V.elem(t)
        except Unsupported:
            e0 = None
        hist = (('init', e0),)
    a.meta['hist'] = hist + (event,)
    forget(a)
    a.buf.version += 1
    a.ver = a.buf.version
    f = z3.Function(c.fresh('filled'), *([z3.IntSort()] * a.ndim + [V.Num]))
    a.elem_ = lambda *i: SNum(f(*[z(k) for k in i]))
    a.meta['filled'] = f
    c.run_memo.setdefault('filled', []).append(a)


def flat_writes(ev, a, its=()):
    """(write, loop variables) of an event, for one array"""
    if isinstance(ev, Write):
        if ev.arr is a or ev.arr.buf.id == a.buf.id:
            yield ev, its
    elif ev[0] == 'write':
        for x in flat_writes(ev[1], a, its):
            yield x
    elif ev[0] == 'forall':
        for e in ev[3]:
            for x in flat_writes(e, a, its + ((ev[1], ev[2]),)):
                yield x


def final_entry(c, hist_arr, idx, want, witness, name, size=None):
    """entry idx of the array is want(): all writes that reach it write that, and the iteration `witness` (values of the loop
    variables, outermost first) reaches it, or it was there before"""
    run = c.run
    a = hist_arr
    hist = a.meta.get('hist')
    if hist is None:
        equal(c, V.elem(a)(*idx), want, name)
        return
    origin = a.meta.get('origin', a)
    cover = []
    if witness is None:
        for ev in hist:
            for w, its in flat_writes(ev, origin) if not (isinstance(ev, tuple) and ev[0] == 'init') else ():
                for (it, n), x in zip(its, size or ()):
                    monotone(c, it, x[0], x[1])
    for ev in hist if witness is not None else ():
        if isinstance(ev, tuple) and ev[0] == 'init':
            init = ev[1]
            continue
        for w, its in flat_writes(ev, origin):
            h = w.hits(idx)
            for (it, n), x in zip(its, size or ()):
                monotone(c, it, x[0], x[1])
            implied(c, h, lambda: w.value_at(idx), want, name + ': every write of it writes this')
            if witness is not None and len(its) <= len(witness):
                cover.append(z3.Implies(z3.And([z(i) == z(x) for (i, n), x in zip(its, witness)] + [z3.BoolVal(True)]), h))
    if witness is None:
        e = None
        for ev in hist:
            if isinstance(ev, tuple) and ev[0] == 'init':
                e = ev[1]
            elif isinstance(ev, Write):
                e = over(ev, e)
            else:
                for w, its in flat_writes(ev, origin):
                    c.prove(z3.Not(w.hits(idx)), name + ': not overwritten')
        if e is None:
            raise Unsupported('initial contents')
        equal(c, e(*[z(i) for i in idx]), want, name)
        return
    # on every path the named iteration does one of the writes
    c.prove(z3.Or(cover + [z3.BoolVal(False)]), name + ': it is written')


def over(w, old):
    def e(*i):
        if ctx().decide(w.hits(i)):
            return w.value_at(i)
        if old is None:
            raise Unsupported('entry not written')
        return old(*i)
    return e


def monotone(c, x, y, w):
    """instances of: x < y and w >= 0 imply (x+1) w <= y w (arithmetic)"""
    x, y, w = z(x), z(y), z(w)
    for a, b in ((x, y), (y, x)):
        c.assume(z3.Implies(z3.And(a < b, w >= 0), a * w + w <= b * w))


def implied(c, h, val, want, name):
    """h implies val() == want(): on a path of its own"""
    if c.valid(z3.Not(h)):
        c.run.obligation(c, name, True, 'z3', 0, None, None)
        return
    if c.decide(z3.Bool(c.fresh('case'))):
        c.assume(h)
        c.check_feasible()
        equal(c, val(), want, name)
        raise PathDone()


def equal(c, v, want, name):
    w = want() if callable(want) else want
    if isinstance(v, (float,)):
        v = Fr_(v)
    r = V.compare('==', v, w)
    c.prove(z(r), name)


def Fr_(v):
    from fractions import Fraction
    return Fraction(v)


# ------------------------------------------------------------------ rows that depend on earlier rows
def family(a, target, cond):
    """contents of an array filled row by row in a loop, where row t may be read once it is final.
    cond(t): row t is final in this iteration"""
    c = ctx()
    nm = c.fresh('rows')
    f = z3.Function(nm, *([z3.IntSort()] * a.ndim + [V.Num]))
    a.meta['family'] = dict(name=nm, f=f, target=target, cond=cond, rows={})
    return a


def family_write(a, ax):
    fam = a.meta['family']
    x = ax[0]
    if x[0] != 'int' or not ctx().valid(z(x[1]) == z(fam['target'])):
        raise Unsupported('row written in a loop is not the row of the iteration')


def family_row(a, t):
    """row t of a family array, as an array"""
    c = ctx()
    fam = a.meta['family']
    t = z3.simplify(z(t))
    if not c.valid(fam['cond'](t)):
        raise Unsupported('row %s is read before it is final' % t)
    return family_any(fam, a, t)


def family_any(fam, a, t):
    c = ctx()
    t = z3.simplify(z(t))
    f = fam['f']
    r = Arr(a.shape_[1:], elem=lambda *i: SNum(f(t, *[z(k) for k in i])), dtype=a.dtype)
    if len(r.shape_) in (1, 2):
        for t0, p in fam['rows'].values():
            if c.valid(t0 == t, quick=True):
                r.poly = p
                break
        else:
            nm = '%s@%d' % (fam['name'], len(fam['rows']))
            c.th.atoms[nm] = dict(rows=V.dkey(r.shape_[0]), cols=V.dkey(r.shape_[1]) if r.ndim == 2 else V.dkey(1))
            if a.dtype == 'real':
                c.th.atoms[nm]['real'] = True
            c.th.new(nm)
            r.poly = V.one((('A', nm, False, False),))
            fam['rows'][len(fam['rows'])] = (t, r.poly)
    return r
