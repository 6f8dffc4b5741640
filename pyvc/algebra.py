"""Typed noncommutative polynomials over matrix atoms, and ideal membership with certificates.

A word is a tuple of letters; a polynomial maps (scalar monomial, word) to a Fraction.  Letters:
  ('A', name, t, c)      general atom, t/c: transposed / conjugated
  ('D', vec, e, c)       diagonal array of the spectrum vector `vec` to the power e
  ('S', sel, t)          column selection (n x k 0/1 array), t: transposed
`vec` is a tuple (name, sel, sel, ...): a named vector and the selections applied to it.
`sel` is ('I', lo, hi, n): the columns lo..hi-1 of the identity of size n (lo, hi, n linear terms,
kept as keys of the dimension table), or ('X', name): an arbitrary index array.
Multiplication merges diagonal powers and selections (the built-in theory, see `norm_word`);
everything else comes from hypotheses.
"""
from fractions import Fraction as Fr
import itertools, time


class AlgebraError(Exception):
    pass


class Theory(object):
    """What is known of names: real/hermitian atoms, sizes of selections."""
    def __init__(self, dims):
        self.dims = dims          # object with eq(a,b), sub(a,b), add(a,b), le(a, b) on dimension keys
        self.atoms = {}           # name -> dict(rows, cols, real, herm, sym)
        self.vecs = {}            # name -> dict(n, real, pos, nonzero)
        self.idx = {}             # name -> dict(n, k, inj)
        self.order = {}
        self.cache = {}

    def new(self, name):
        self.order[name] = len(self.order)

    # ---- letters
    def dims_of(self, l):
        if l[0] == 'A':
            a = self.atoms[l[1]]
            return (a['cols'], a['rows']) if l[2] else (a['rows'], a['cols'])
        if l[0] == 'D':
            n = self.vec_len(l[1])
            return n, n
        n, k = self.sel_dims(l[1])
        return (k, n) if l[2] else (n, k)

    def sel_dims(self, s):
        if s[0] == 'I':
            return s[3], self.dims.sub(s[2], s[1])
        return self.idx[s[1]]['n'], self.idx[s[1]]['k']

    def vec_len(self, v):
        if len(v) == 1:
            return self.vecs[v[0]]['n']
        return self.sel_dims(v[-1])[1]

    def canon_letter(self, l):
        if l[0] == 'A':
            a = self.atoms[l[1]]
            t, c = l[2], l[3]
            if a.get('real'):
                c = False
            if a.get('herm') and t:
                t, c = False, (not c) and not a.get('real')
            return ('A', l[1], t, c)
        if l[0] == 'D':
            if self.vecs[l[1][0]].get('real'):
                return ('D', l[1], l[2], False)
            return l
        return l

    def canon_sel(self, s):
        if s[0] == 'I':
            d = self.dims
            return ('I', d.canon(s[1]), d.canon(s[2]), d.canon(s[3]))
        return s

    def recanon_letter(self, l):
        if l[0] == 'S':
            return ('S', self.canon_sel(l[1]), l[2])
        if l[0] == 'D':
            return ('D', (l[1][0],) + tuple(self.canon_sel(s) for s in l[1][1:]), l[2], l[3])
        return self.canon_letter(l)

    def is_full(self, s):
        return s[0] == 'I' and self.dims.eq(s[1], self.dims.zero) and self.dims.eq(s[2], s[3])

    def compose(self, s1, s2):
        """columns s2 of the columns s1; None if they stay two letters"""
        if self.is_full(s1):
            return s2
        if self.is_full(s2):
            return s1
        if s1[0] == 'I' and s2[0] == 'I':
            d = self.dims
            return ('I', d.add(s1[1], s2[1]), d.add(s1[1], s2[2]), s1[3])
        return None

    def vec_sel(self, v, s):
        if self.is_full(s):
            return v
        if len(v) > 1:
            m = self.compose(v[-1], s)
            if m is not None:
                v2 = v[:-1] + (m,)
                return v[:-1] if self.is_full(m) else v2
        return v + (s,)

    def pair(self, a, b):
        """rewrite of two adjacent letters: None, or (list of letters) or 0"""
        key = (a, b)
        if key in self.cache:
            return self.cache[key]
        r = self._pair(a, b)
        self.cache[key] = r
        return r

    def _pair(self, a, b):
        if a[0] == 'D' and b[0] == 'D':
            if a[1] == b[1] and a[3] == b[3]:
                e = a[2] + b[2]
                return [] if e == 0 else [('D', a[1], e, a[3])]
            if (repr(b) < repr(a)):
                return [b, a]
            return None
        if a[0] == 'S' and b[0] == 'S':
            if not a[2] and not b[2]:
                m = self.compose(a[1], b[1])
                return None if m is None else [('S', m, False)]
            if a[2] and b[2]:
                m = self.compose(b[1], a[1])
                return None if m is None else [('S', m, True)]
            if a[2] and not b[2]:      # a^T b
                s1, s2 = a[1], b[1]
                if s1 == s2:
                    if s1[0] == 'I' or self.idx[s1[1]].get('inj'):
                        return []
                    return None
                if s1[0] == 'I' and s2[0] == 'I':
                    d = self.dims
                    if d.le(s1[2], s2[1]) or d.le(s2[2], s1[1]):
                        return 0
                    if d.le(s1[1], s2[1]) and d.le(s2[2], s1[2]):      # s2 inside s1
                        return [('S', ('I', d.sub(s2[1], s1[1]), d.sub(s2[2], s1[1]), d.sub(s1[2], s1[1])), False)]
                    if d.le(s2[1], s1[1]) and d.le(s1[2], s2[2]):
                        return [('S', ('I', d.sub(s1[1], s2[1]), d.sub(s1[2], s2[1]), d.sub(s2[2], s2[1])), True)]
                return None
            return None
        if a[0] == 'D' and b[0] == 'S' and not b[2]:
            return [b, ('D', self.vec_sel(a[1], b[1]), a[2], a[3])]
        if a[0] == 'S' and a[2] and b[0] == 'D':
            return [('D', self.vec_sel(b[1], a[1]), b[2], b[3]), a]
        return None

    def norm_word(self, w):
        """normal form of a word (tuple of letters), or 0"""
        out = []
        todo = list(reversed(w))
        while todo:
            l = todo.pop()
            if l[0] == 'S' and self.is_full(l[1]):
                continue
            if l[0] == 'D' and l[2] == 0:
                continue
            if not out:
                out.append(l)
                continue
            r = self.pair(out[-1], l)
            if r is None:
                out.append(l)
            elif r == 0:
                return 0
            else:
                out.pop()
                todo.extend(reversed(r))
        return tuple(out)

    # ---- polynomials: dict (mono, word) -> Fraction
    def add(self, p, q, f=Fr(1), mono=()):
        r = dict(p)
        for (m, w), c in q.items():
            k = (mono_mul(m, mono), w)
            v = r.get(k, 0) + f * c
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
        return r

    def mul(self, p, q):
        r = {}
        for (m1, w1), c1 in p.items():
            for (m2, w2), c2 in q.items():
                w = self.norm_word(w1 + w2)
                if w == 0:
                    continue
                k = (mono_mul(m1, m2), w)
                v = r.get(k, 0) + c1 * c2
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = v
        return r

    def canon(self, p):
        """the same polynomial with letters canonical under what is known now"""
        self.cache.clear()
        r = {}
        for (m, w), c in p.items():
            w = self.norm_word(tuple(self.recanon_letter(l) for l in w))
            if w == 0:
                continue
            v = r.get((m, w), 0) + c
            if v == 0:
                r.pop((m, w), None)
            else:
                r[(m, w)] = v
        return r

    def T(self, p, t=True, c=False):
        r = {}
        for (m, w), x in p.items():
            if t:
                w = tuple(reversed(w))
            w2 = []
            for l in w:
                if l[0] == 'A':
                    w2.append(self.canon_letter(('A', l[1], l[2] != t, l[3] != c)))
                elif l[0] == 'D':
                    w2.append(self.canon_letter(('D', l[1], l[2], l[3] != c)))
                else:
                    w2.append(('S', l[1], l[2] != t))
            k = (mono_conj(m) if c else m, self.norm_word(tuple(w2)))
            r[k] = r.get(k, 0) + x
        return r

    def lkey(self, l):
        if l[0] == 'A':
            return (2, -self.order[l[1]], l[2], l[3])
        if l[0] == 'D':
            return (0, repr(l))
        return (1, repr(l))

    def wkey(self, w):
        # diagonals count last: they are moved to the other side of an equation when invertible
        v = [l for l in w if l[0] != 'D']
        n = sum(1 for l in v if l[0] == 'A')
        return (n, len(v), tuple(self.lkey(l) for l in v), len(w), tuple(self.lkey(l) for l in w))


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted((s, e) for s, e in d.items() if e != 0))


def mono_conj(m):
    return m          # scalar symbols stand for real scalars


def one(w=()):
    return {((), w): Fr(1)}


class Ideal(object):
    """Hypotheses h = 0; reduces polynomials modulo them, with certificates."""

    def __init__(self, th, hyps, max_deg=14, max_rules=400, seconds=60):
        self.th = th
        self.hyps = []
        self.rules = []          # (lead, rest, cert)  lead -> rest ; poly lead - rest = sum of cert
        self.max_deg, self.max_rules = max_deg, max_rules
        self.deadline = time.process_time() + seconds
        self.queue = []
        self.gave_up = False          # a limit was reached: nothing follows from a failed reduction
        self.seen_pairs = set()
        for h in hyps:
            for p in (th.canon(h), th.canon(th.T(th.canon(h), True, True))):
                if p and p not in self.hyps:
                    self.hyps.append(p)
        for i, h in enumerate(self.hyps):
            self._insert(h, [(Fr(1), (), (), i, ())])

    def _lead(self, p):
        return max(p, key=lambda k: (self.th.wkey(k[1]), k[0]))

    def _insert(self, p, cert):
        p, cert = self.reduce(p, cert)
        if not p:
            return None
        th = self.th
        m, w = self._lead(p)
        # several scalar monomials on the leading word cannot be divided by: give up on this one
        if sum(1 for k in p if k[1] == w) > 1:
            return None
        # strip invertible diagonals at both ends of the leading word
        L, R = (), ()
        while len(w) > 1 and w[0][0] == 'D' and th.vecs[w[0][1][0]].get('nonzero'):
            l = w[0]
            inv = ('D', l[1], -l[2], l[3])
            p, cert = self._times((inv,), p, cert, ())
            if not p:
                return None
            m, w = self._lead(p)
            if len(L) > 4:
                break
            L += (1,)
        while len(w) > 1 and w[-1][0] == 'D' and th.vecs[w[-1][1][0]].get('nonzero'):
            l = w[-1]
            inv = ('D', l[1], -l[2], l[3])
            p, cert = self._times((), p, cert, (inv,))
            if not p:
                return None
            m, w = self._lead(p)
            if len(R) > 4:
                break
            R += (1,)
        if sum(1 for k in p if k[1] == w) > 1:
            return None
        if w == ():
            # 1 = (something): inconsistent or about empty dimensions; not used
            return None
        c = p[(m, w)]
        minv = tuple((s, -e) for s, e in m)
        p = th.add({}, p, 1 / c, minv)
        cert = [(x / c, mono_mul(mm, minv), a, i, b) for x, mm, a, i, b in cert]
        rest = dict(p)
        del rest[((), w)]
        rest = {k: -v for k, v in rest.items()}
        rule = (w, rest, cert)
        # existing rules whose leading word contains this one are reinserted
        redo = [r for r in self.rules if contains(r[0], w)]
        self.rules = [r for r in self.rules if not contains(r[0], w)]
        self.rules.append(rule)
        for r in redo:
            q = {((), r[0]): Fr(1)}
            q = th.add(q, r[1], Fr(-1))
            self._insert(q, r[2])
        return rule

    def _times(self, a, p, cert, b):
        th = self.th
        q = th.mul(th.mul(one(a), p), one(b))
        return q, [(x, m, a + l, i, r + b) for x, m, l, i, r in cert]

    def reduce(self, p, cert=None):
        """normal form; p - nf = - (added cert), i.e. nf = p + sum(cert additions)"""
        th = self.th
        done = {}
        p = dict(p)
        cert = list(cert) if cert is not None else None
        steps = 0
        while p:
            k = max(p, key=lambda k: (th.wkey(k[1]), k[0]))
            m, w = k
            hit = None
            for lead, rest, rc in self.rules:
                if len(lead) > len(w):
                    continue
                for pos in range(len(w) - len(lead) + 1):
                    if w[pos:pos + len(lead)] == lead:
                        hit = (lead, rest, rc, pos)
                        break
                if hit:
                    break
            if hit is None:
                done[k] = p.pop(k)
                continue
            steps += 1
            if steps > 20000 or (steps % 50 == 0 and time.process_time() > self.deadline):
                self.gave_up = True
                raise AlgebraError('reduction does not end')
            lead, rest, rc, pos = hit
            c = p[k]
            a, b = w[:pos], w[pos + len(lead):]
            full = th.add({((), lead): Fr(1)}, rest, Fr(-1))
            q = th.mul(th.mul(one(a), full), one(b))
            p = th.add(p, q, -c, m)
            p = th.add(p, done, Fr(1)) if False else p
            if cert is not None:
                cert.extend((-c * x, mono_mul(m, mm), a + l, i, r + b) for x, mm, l, i, r in rc)
            # q's own normal form may not contain w any more (built-in theory); guard against loops
            if k in p and p[k] == c:
                self.gave_up = True
                raise AlgebraError('no progress')
        return done, cert

    def complete_step(self, limit=200, target=None):
        """adds S-polynomials of overlaps of current rules; True if some rule was added"""
        th = self.th
        added = False
        n = 0
        rules = list(self.rules)
        cand = []
        for r1 in rules:
            for r2 in rules:
                u, v = r1[0], r2[0]
                for k in range(1, min(len(u), len(v))):
                    if u[-k:] == v[:k]:
                        deg = len(u) + len(v) - k
                        key = (u, v, k)
                        if deg <= self.max_deg and key not in self.seen_pairs:
                            cand.append((deg, key, r1, r2, k))
        # built-in theory overlaps: a rule whose leading word starts/ends with a selection letter
        letters = self.th_letters(target)
        for r in rules:
            for l in letters:
                for side in (0, 1):
                    w = r[0]
                    end = w[0] if side == 0 else w[-1]
                    pr = (l, end) if side == 0 else (end, l)
                    if end[0] != 'S' or l == end:
                        continue
                    d1, d2 = th.dims_of(pr[0])[1], th.dims_of(pr[1])[0]
                    if not th.dims.eq(d1, d2):
                        continue
                    if th.pair(*pr) is None:
                        continue
                    key = ('b', w, l, side)
                    if key not in self.seen_pairs:
                        cand.append((len(w) + 1, key, r, None, (l, side)))
        cand.sort(key=lambda x: x[0])
        for deg, key, r1, r2, k in cand:
            if n >= limit or len(self.rules) > self.max_rules or time.process_time() > self.deadline:
                if n < limit:
                    self.gave_up = True
                break
            self.seen_pairs.add(key)
            if r2 is None:
                l, side = k
                full = th.add({((), r1[0]): Fr(1)}, r1[1], Fr(-1))
                if side == 0:
                    s, cert = self._times((l,), full, r1[2], ())
                else:
                    s, cert = self._times((), full, r1[2], (l,))
            else:
                u, v = r1[0], r2[0]
                a, b = u[:-k], v[k:]
                f1 = th.add({((), u): Fr(1)}, r1[1], Fr(-1))
                f2 = th.add({((), v): Fr(1)}, r2[1], Fr(-1))
                s1, c1 = self._times((), f1, r1[2], b)
                s2, c2 = self._times(a, f2, r2[2], ())
                s = th.add(s1, s2, Fr(-1))
                cert = c1 + [(-x, m, l, i, r) for x, m, l, i, r in c2]
            n += 1
            if self._insert(s, cert) is not None:
                added = True
        return added

    def th_letters(self, target=None):
        out = []

        def note(w):
            for l in w:
                if l[0] == 'S':
                    for x in (l, ('S', l[1], not l[2])):
                        if x not in out:
                            out.append(x)
        for lead, rest, _ in self.rules:
            for w in [lead] + [k[1] for k in rest]:
                note(w)
        if target:
            n = len(out)
            for m, w in target:
                note(w)
            # selections that take a selection of the rules to one of the target
            for b in out[:n]:
                for m, w in target:
                    for a in w:
                        if a[0] == 'S' and not b[2] and b[1][0] == 'I' and a[1][0] == 'I' and self.th.dims.eq(a[1][3], b[1][3]):
                            r = self.th.pair(('S', b[1], True), ('S', a[1], False))
                            if r and len(r) == 1:
                                note(r)
        return out

    def member(self, p, rounds=6):
        """certificate that p is in the ideal, or None; also the best normal form"""
        th = self.th
        p = th.canon(p)
        nf = p
        for r in range(rounds):
            nf, cert = self.reduce(p, [])
            if not nf:
                # p + sum(cert) = 0
                cert = [(-x, m, l, i, rr) for x, m, l, i, rr in cert]
                if not self.check(p, cert):
                    raise AlgebraError('certificate check failed')
                return cert, nf
            if time.process_time() > self.deadline:
                self.gave_up = True
                break
            if not self.complete_step(target=nf):
                nf2, _ = self.reduce(p, [])
                if nf2 == nf:
                    break
        return None, nf

    def check(self, p, cert):
        """p equals sum c * l * h_i * r, by plain expansion"""
        th = self.th
        acc = dict(p)
        for x, m, l, i, r in cert:
            q = th.mul(th.mul(one(l), self.hyps[i]), one(r))
            acc = th.add(acc, q, -x, m)
        return not acc


def contains(w, sub):
    return any(w[i:i + len(sub)] == sub for i in range(len(w) - len(sub) + 1))


def show(th, p):
    if not p:
        return '0'
    out = []
    for (m, w), c in sorted(p.items(), key=lambda kv: (len(kv[0][1]), repr(kv[0]))):
        s = '' if c == 1 and (w or m) else str(c)
        s += ''.join('%s^%s ' % (a, e) if e != 1 else '%s ' % a for a, e in m)
        out.append((s + ' '.join(lshow(th, l) for l in w)).strip() or '1')
    return ' + '.join(out)


def lshow(th, l):
    if l[0] == 'A':
        return l[1] + {(False, False): '', (True, True): '^H', (True, False): '^T', (False, True): '~'}[(l[2], l[3])]
    if l[0] == 'D':
        return 'diag(%s)%s%s' % (vshow(th, l[1]), '' if l[2] == 1 else '^%s' % l[2], '~' if l[3] else '')
    return 'Sel%s%s' % (sshow(th, l[1]), '^T' if l[2] else '')


def vshow(th, v):
    return v[0] + ''.join(sshow(th, s) for s in v[1:])


def sshow(th, s):
    if s[0] == 'I':
        return '[%s:%s of %s]' % tuple(th.dims.show(x) for x in s[1:])
    return '[%s]' % s[1]
