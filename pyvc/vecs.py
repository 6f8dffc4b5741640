"""Vectors obtained from handles, and handles in lists of symbolic length."""
from fractions import Fraction as Fr
import z3
from core import *
import values as V
from values import mul, padd, th, one
from interp import Native, SList


class Vec(object):
    """a vector: linear combination of basis data as an n x 1 polynomial; `owner` names the handle whose vector it is"""
    def __init__(self, poly, owner=None):
        self.poly, self.owner = poly, owner

    def __repr__(self):
        return 'Vec'

    def sym_binop(self, I, op, a, b):
        if op in '+-' and isinstance(a, Vec) and isinstance(b, Vec):
            return Vec(padd(a.poly, b.poly, 1 if op == '+' else -1))
        if op == '*' and isinstance(a, Vec) != isinstance(b, Vec):
            v, s = (a, b) if isinstance(a, Vec) else (b, a)
            m = V.scalar_mono(s)
            if m is None:
                raise Unsupported('scalar of a vector')
            return Vec(th().add({}, v.poly, m[0], m[1]))
        if op == '/' and isinstance(a, Vec):
            m = V.scalar_mono(b)
            if m is None or m[0] == 0:
                raise Unsupported('scalar of a vector')
            if m[1] and not ctx().valid(z(b) != 0):
                raise Unsupported('division by a number not known to be nonzero')
            return Vec(th().add({}, a.poly, 1 / m[0], tuple((n, -e) for n, e in m[1])))
        return NotImplemented

    def sym_inplace(self, I, op, v):
        if self.owner is not None:
            ctx().mutated.append('the vector of ' + self.owner)
        return I.binop(op, self, v)


class HRef(object):
    """handle number i of a list"""
    def __init__(self, hlist, i):
        self.hlist, self.i = hlist, i

    def __repr__(self):
        return '%s[%s]' % (self.hlist.name, self.i)

    def sym_compare(self, I, o, a, b):
        # a handle's own notion of equality: nothing is known of it, except that a handle equals itself
        if o not in ('==', '!=') or not isinstance(a, HRef) or not isinstance(b, HRef):
            if o in ('==', '!=') and (a is None or b is None):
                return o == '!='
            raise Unsupported('comparison of handles')
        c = ctx()
        f = z3.Function('equal_%s_%s' % (a.hlist.name, b.hlist.name), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        e = f(z(a.i), z(b.i))
        if a.hlist is b.hlist:
            e = z3.Or(z(a.i) == z(b.i), e)
        return V.mkbool(e if o == '==' else z3.Not(e))

    def sym_getattr(self, I, attr):
        c = ctx()
        if attr == 'get':
            def get():
                e = V.sel_interval(self.i, mknum(z(self.i) + 1), self.hlist.n)
                c.events.append(('get', self.hlist, self.i))
                return Vec(mul(self.hlist.meta['handles'], one(th().norm_word((('S', e, False),)))), '%s[%s]' % (self.hlist.name, self.i))
            return Native('get', get)
        if attr == 'put':
            def put(v):
                c.events.append(('put', self.hlist, self.i, v, list(c.pc)))
            return Native('put', put)
        raise PyRaise(AttributeError, (attr,))


def make(c, name, n, m, poly):
    s = SList(m, None, name=name)
    s.at = lambda i: HRef(s, i)
    s.meta['handles'] = poly
    s.meta['dim'] = n
    return s
