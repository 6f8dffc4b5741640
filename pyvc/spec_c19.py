from common import *
from vecs import Vec

CACHE = ('cached_base_vec_handle', 'cached_base_vec')


class World(object):
    """the values of all handles now; `era` counts the puts, after which any other handle's value may be different"""
    def __init__(self, I, c, run):
        self.I, self.c, self.run = I, c, run
        self.cls = I.module('vectors').env['VecHandle']
        self.n = c.int_('vector_size', 1)
        self.era = 0
        self.files = {}
        self.others = []
        self.has_cache = all(a in self.cls.ns for a in CACHE)

    def vec(self, name, owner=None):
        p, _ = V.new_atom(name, self.n, 1)
        return Vec(p, owner)

    def havoc_cache(self, *handles):
        """any cache that satisfies the invariant: nothing, or a handle with its current vector"""
        if not self.has_cache:
            return
        c = self.c
        k = 0
        while k < len(handles) and not c.decide(z3.Bool(c.fresh('cached'))):
            k += 1
        if k < len(handles):
            h = handles[k]
            self.set_cache(h, h.value())
        elif c.decide(z3.Bool(c.fresh('other_cached'))):
            h = Handle(self, 'other')
            self.set_cache(h, h.value())
        else:
            self.set_cache(None, None)

    def set_cache(self, h, v):
        self.cls.ns[CACHE[0]], self.cls.ns[CACHE[1]] = h, v

    def check_cache(self, when, known):
        """the invariant: nothing is cached, or a handle's current vector"""
        if not self.has_cache:
            return
        h, v = self.cls.ns[CACHE[0]], self.cls.ns[CACHE[1]]
        if h is None:
            ok, why = True, None
        else:
            want = h.value().poly if isinstance(h, Handle) else known.get(id(h))
            ok = want is not None and isinstance(v, Vec) and not self.c.th.canon(padd(want, v.poly, -1))
            why = 'the cached vector is not the current vector of the cached handle'
        self.run.obligation(self.c, 'cache invariant %s' % when, ok, 'algebra', 0, why, None)

    # files
    def open(self, I, path, mode='r', *a, **k):
        if not isinstance(path, Opaque) or a or k:
            raise Unsupported('open')
        return File(self, path, mode)

    def save(self, I, f, args, kw):
        b = I.bind_args(f, args, kw)
        if not isinstance(b['array'], Vec):
            raise Unsupported('text of something else')
        if not isinstance(b['file_name'], Opaque):
            raise PyRaise(TypeError, ('file name',))
        self.files[id(b['file_name'])] = [('text', b['array'].poly, b.get('delimiter'))]

    def load(self, I, f, args, kw):
        b = I.bind_args(f, args, kw)
        got = self.files.get(id(b['file_name']))
        if not got:
            raise PyRaise(IOError, ('no file',))
        kind, p, d = got[0]
        if kind != 'text' or d is not b['delimiter']:
            raise PyRaise(ValueError, ('another format',))
        k = b['is_complex']
        if self.kind is not None:
            self.run.obligation(self.c, 'the file is read as the declared kind of data', k is (False if self.kind == 'default' else self.kind), 'frame', 0, 'is_complex=%r' % (k,), None)
        return Vec(p)


class File(object):
    def __init__(self, W, path, mode):
        self.W, self.path, self.mode = W, path, mode
        if 'w' in mode:
            W.files[id(path)] = []
        elif 'r' in mode and '+' not in mode:
            if not W.files.get(id(path)):
                raise PyRaise(IOError, ('no file',))
        else:
            W.files.setdefault(id(path), [])
        self.pos = 0
        if 'b' not in mode:
            raise PyRaise(TypeError, ('pickle needs a binary file',))

    def sym_enter(self):
        return self

    def sym_getattr(self, I, attr):
        if attr in ('close', 'flush'):
            return Native(attr, lambda: None)
        raise Unsupported('file attribute %s' % attr)

    def sym_np(self, I, name, args, kw):
        return self.pickled(name, args, kw)

    def pickled(self, name, args, kw):
        if name == 'pickle.load' and args[0] is self:
            got = self.W.files[id(self.path)]
            if self.pos >= len(got):
                raise PyRaise(EOFError)
            self.pos += 1
            return Vec(got[self.pos - 1][1])
        if name == 'pickle.dump' and len(args) > 1 and args[1] is self:
            if not ('w' in self.mode or 'a' in self.mode):
                raise PyRaise(IOError, ('not writable',))
            if not isinstance(args[0], Vec):
                raise Unsupported('pickle of something else')
            self.W.files[id(self.path)].append(('pickle', args[0].poly))
            return None
        return NotImplemented


class Handle(object):
    """any handle, with any base handle of its own: the contract of `get`"""
    def __init__(self, W, name):
        self.W, self.name = W, name
        self.vals = {}
        W.others.append(self)

    def __repr__(self):
        return self.name

    def value(self):
        e = self.W.era
        if e not in self.vals:
            self.vals[e] = self.W.vec('%s_at_%d' % (self.name, e), 'handle ' + self.name)
        return self.vals[e]

    def sym_getattr(self, I, attr):
        if attr == 'get':
            def get():
                v = self.value()
                self.W.havoc_cache(self)
                return v
            return Native('get', get)
        raise Unsupported('attribute %s of any handle' % attr)

    def sym_compare(self, I, o, a, b):
        if a is b:
            return o == '=='
        if o not in ('==', '!='):
            return NotImplemented
        other = b if a is self else a
        if other is None:
            return o == '!='
        # handles with equal contents are equal, whatever their scale or base
        return SBool(z3.Bool(self.W.c.fresh('equal_contents')))

    def sym_type(self):
        return Opaque('type of ' + self.name)


CLASSES = {'VecHandleInMemory': [], 'VecHandleArrayText': ['path'], 'VecHandlePickle': ['path']}


def construct(W, name, tag, base, scale, kind=None):
    kw = {}
    if base is not None:
        kw['base_vec_handle'] = base
    if scale is not None:
        kw['scale'] = scale
    args = []
    if name != 'VecHandleInMemory':
        args = [Opaque('path_' + tag)]
        if name == 'VecHandleArrayText' and kind is not None and kind != 'default':
            kw['is_complex'] = kind
    return W.I.call(W.I.module('vectors').env[name], args, kw), args


def times(p, s):
    if s is None:
        return p
    m = V.scalar_mono(s)
    return V.th().add({}, p, m[0], m[1])


def start(I, c, run):
    W = World(I, c, run)
    run.open_ = W.open
    run.contracts['util:save_array_text'] = W.save
    run.contracts['util:load_array_text'] = W.load
    W.kind = run.cfg.get('kind')
    return W


def put(W, h, v):
    W.era += 1
    W.I.call(W.I.getattr(h, 'put'), [v], {})


def got(W, h):
    r = W.I.call(W.I.getattr(h, 'get'), [], {})
    if not isinstance(r, Vec):
        raise Unsupported('vector %r' % (r,))
    return r


def expect(W, r, want, name):
    W.run.obligation(W.c, name, not W.c.th.canon(padd(r.poly, want, -1)), 'algebra', 0, 'got %s' % core.algebra.show(W.c.th, W.c.th.canon(r.poly))[:300], None)


def handle(I, c, run):
    """puts and gets through one handle, from any state of the cache"""
    W = start(I, c, run)
    cfg = run.cfg
    base = Handle(W, 'base') if cfg['base'] else None
    s = c.real_('scale') if cfg['scale'] else None
    h, args = construct(W, cfg['cls'], 'h', base, s, cfg.get('kind'))
    shown = lambda v: times(v.poly if base is None else padd(v.poly, base.value().poly, -1), s)
    if not W.has_cache:
        run.obligation(c, 'no state is shared by the handles', not [w for w in c.attr_writes if isinstance(w[0], (IP.ICls, IP.Module))], 'frame', 0, '', None)
    x = [base] if base is not None else []
    last = None
    for step in cfg['ops'].split('-'):
        if step == 'new':
            last = W.vec('put')
            last.owner = 'the vector that was put'
            put(W, h, last)
            W.check_cache('after put', {id(h): shown(last)})
        elif step == 'any':
            # anything may be done with other handles
            if last is not None and c.decide(z3.Bool(c.fresh('some_put'))):
                W.era += 1
                W.set_cache(None, None) if W.has_cache else None
            cands = list(x)
            W.havoc_cache(*cands)
        elif step == 'self':
            # this handle is the base of others, and is cached
            W.set_cache(h, Vec(shown(last), 'handle h')) if W.has_cache else None
        elif step == 'get':
            r = got(W, h)
            expect(W, r, shown(last), 'get gives the last vector put%s%s' % (', minus the vector of the base handle' if base is not None else '', ', times the scale' if s is not None else ''))
            W.check_cache('after get', {id(h): shown(last)})
    no_mutation(c, run, 'no stored vector is modified')


def given(I, c, run):
    """an in-memory handle made from a vector"""
    W = start(I, c, run)
    base = Handle(W, 'base') if run.cfg['base'] else None
    s = c.real_('scale') if run.cfg['scale'] else None
    v = W.vec('given', 'the vector given to the constructor')
    W.havoc_cache(*([base] if base is not None else []))
    cls = I.module('vectors').env['VecHandleInMemory']
    how = run.cfg['how']
    h = I.call(cls, [v, base, s], {}) if how == 'positional' else I.call(cls, [], dict(vec=v, base_vec_handle=base, scale=s))
    want = times(v.poly if base is None else padd(v.poly, base.value().poly, -1), s)
    expect(W, got(W, h), want, 'get gives the vector of the constructor, shifted and scaled')
    W.check_cache('after get', {id(h): want})
    no_mutation(c, run, 'no stored vector is modified')


def chain(I, c, run):
    """a handle whose base handle is a handle of the library with its own base and scale"""
    W = start(I, c, run)
    cfg = run.cfg
    root = Handle(W, 'root') if cfg['deep'] else None
    s1, s2 = c.real_('scale_of_base'), c.real_('scale')
    b, _ = construct(W, cfg['base'], 'b', root, s1)
    h, _ = construct(W, cfg['cls'], 'h', b, s2)
    g, _ = construct(W, cfg['cls'], 'g', b, None)
    vb, vh, vg = (W.vec(n, 'the vector put to ' + n) for n in ('b', 'h', 'g'))
    for a, v in ((b, vb), (h, vh), (g, vg)):
        put(W, a, v)
    bval = lambda v: times(v.poly if root is None else padd(v.poly, root.value().poly, -1), s1)
    if cfg['before']:
        expect(W, got(W, g), padd(vg.poly, bval(vb), -1), 'another handle with the same base')
    expect(W, got(W, h), times(padd(vh.poly, bval(vb), -1), s2), 'vector minus the shifted and scaled vector of the base, scaled')
    vb2 = W.vec('b2', 'the new vector of b')
    put(W, b, vb2)
    expect(W, got(W, h), times(padd(vh.poly, bval(vb2), -1), s2), 'the base vector has been put anew')
    expect(W, got(W, b), bval(vb2), 'the base handle itself')
    expect(W, got(W, g), padd(vg.poly, bval(vb2), -1), 'the other handle with the same base')
    known = {id(b): bval(vb2), id(g): padd(vg.poly, bval(vb2), -1), id(h): times(padd(vh.poly, bval(vb2), -1), s2)}
    W.check_cache('at the end', known)
    no_mutation(c, run, 'no stored vector is modified')


OPS = ['new-any-get', 'new-any-get-get', 'new-new-any-get', 'new-any-get-new-get', 'new-self-get', 'new-any-get-any-get']
units('C19', handle, 'handle', [dict(cls=k, base=b, scale=s, ops=o, **({'kind': kd} if k == 'VecHandleArrayText' else {})) for k in CLASSES for b in (False, True) for s in (False, True) for o in OPS for kd in ((True, False, 'default') if k == 'VecHandleArrayText' else (None,))])
units('C19', given, 'VecHandleInMemory', product(base=[False, True], scale=[False, True], how=['positional', 'keyword']))
units('C19', chain, 'base handle with its own base', product(cls=sorted(CLASSES), base=sorted(CLASSES), deep=[False, True], before=[False, True]))
