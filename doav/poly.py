"""Polynomial normal forms over term atoms, used to prove equalities of reals."""
from fractions import Fraction as Fr
from .terms import *


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r


def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > LIMIT: raise TooBig()
    r = {}
    for m, k in p.items():
        for n, l in q.items():
            x = mmul(m, n)
            v = r.get(x, 0) + k * l
            if v == 0: r.pop(x, None)
            else: r[x] = v
    return r


def ppow(p, n):
    r = {(): Fr(1)}
    for _ in range(n): r = pmul(r, p)
    return r


def pconst(c):
    return {(): Fr(c)} if c else {}


class Ring:
    """translates terms to polynomials; atoms are terms identified by id"""

    def __init__(self, nonneg=None, nonzero=None):
        self.atoms = {}      # id -> term
        self.memo = {}
        self.rules = {}      # atom id -> (exponent, poly)  :  atom^exponent -> poly
        self.invs = {}       # atom id -> poly of the denominator
        self.nonneg = nonneg or (lambda t: False)
        self.nonzero = nonzero or (lambda t: False)
        self.mrules = []     # (monomial, poly) : monomial -> poly

    def atom(self, t):
        self.atoms[t.id] = t
        return {((t.id, 1),): Fr(1)}

    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._poly(t)
            r = self.reduce(r)
            self.memo[t] = r
        return r

    def _poly(self, t):
        op = t.op
        if op == 'num': return pconst(t.a[0])
        if op == '+':
            r = {}
            for x in t.a: r = padd(r, self.poly(x))
            return r
        if op == '*':
            r = {(): Fr(1)}
            for x in t.a: r = self.reduce(pmul(r, self.poly(x)))
            return r
        if op == 'toreal': return self.poly(t.a[0])
        if op == 'inv':
            d = self.poly(t.a[0])
            if not d: return self.atom(inv(num(0)))
            # canonical atom per denominator polynomial
            if len(d) == 1:
                (m, c), = d.items()
                if m == (): return pconst(1 / c)
                if len(m) > 1 or m[0][1] > 1:
                    r = pconst(1 / c)
                    for a, e in m:
                        x = self.atoms[a]
                        if x.op == 'app' and x.a[0] == 'sqrt*': x = sqrt(x.a[1])
                        if x.op == 'app' and x.a[0] == 'inv*': x = inv(x.a[2])
                        r = pmul(r, ppow(self.poly(inv(x)), e))
                    return r
            lead = max(d.items(), key=lambda x: x[0])
            dn = {m: c / lead[1] for m, c in d.items()}
            key = app('inv*', (num(0),) + tuple(sorted_terms(self, dn)), 'R')
            self.atoms[key.id] = key
            if key.id not in self.invs and self.nonzero(t.a[0]):
                self.invs[key.id] = dn
            return {((key.id, 1),): 1 / lead[1]}
        if op == 'app' and t.a[0] == 'sqrt':
            x = self.poly(t.a[1])
            if not x: return {}
            c, rest = self.content_square(x)
            key = app('sqrt*', tuple(sorted_terms(self, rest)), 'R')
            self.atoms[key.id] = key
            if key.id not in self.rules and self.nonneg(t.a[1]):
                self.rules[key.id] = (2, rest)
            return {((key.id, 1),): c}
        if op == 'app' and t.a[0] == 'sin':
            c = app('cos', t.a[1:], 'R')
            cp = self.poly(c)
            a = self.atom(t)
            self.rules[t.id] = (2, padd(pconst(1), pmul(cp, cp), -1))
            return a
        if op == 'sum':
            return self.sum_poly(t)
        if op == 'app' and t.s in 'RI':
            # normalise arguments so that equal arguments give equal atoms
            args = [self.canon(x) if isinstance(x, T) and x.s in 'RI' else x for x in t.a[1:]]
            t2 = mk('app', (t.a[0],) + tuple(args), t.s)
            return self.atom(t2)
        if op == 'ite':
            t2 = ite(t.a[0], self.canon(t.a[1]), self.canon(t.a[2]))
            if t2.op == 'ite': return self.atom(t2)
            return self.poly(t2)
        return self.atom(t)

    def content_square(self, x):
        """x = c^2 * rest with rational c>0 when the numeric content is a square"""
        import math
        from math import gcd
        n = 0; d = 1
        for c in x.values():
            n = gcd(n, abs(c.numerator)); d = d * c.denominator // gcd(d, c.denominator)
        k = Fr(n, d)
        rn, rd = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if rn * rn == k.numerator and rd * rd == k.denominator and k != 1:
            return Fr(rn, rd), {m: c / k for m, c in x.items()}
        return Fr(1), x

    def canon(self, t):
        if t.op in ('var', 'num'): return t
        try:
            return self.to_term(self.poly(t), t.s)
        except TooBig:
            return t

    def to_term(self, p, s='R'):
        ts = []
        for m, c in sorted(p.items()):
            f = [num(c, 'I' if s == 'I' and c.denominator == 1 else 'R')]
            for a, e in m:
                x = self.atoms[a]
                if x.op == 'app':
                    if x.a[0] == 'sqrt*': x = sqrt(x.a[1])
                    elif x.a[0] == 'inv*': x = inv(x.a[2])
                f += [x] * e
            ts.append(mul(*f))
        r = add(*ts) if ts else num(0, s)
        return r if s == 'I' else toreal(r)

    def sum_poly(self, t):
        k, lo, hi, body = t.a
        kk = fresh('k', 'I')
        bp = self.poly(subst(body, {k: kk}))
        out = {}
        for m, c in bp.items():
            inside = []; outside = []
            for a, e in m:
                (inside if kk in fv(self.atoms[a]) else outside).append((a, e))
            if not inside:
                cnt = self.poly(sub(hi, lo))
                out = padd(out, pmul({tuple(outside): c}, cnt))
                continue
            bt = mul(*[x for a, e in inside for x in [self.atoms[a]] * e])
            s = sum_(kk, lo, hi, bt)
            at = self.atom(s) if s.op == 'sum' else self.poly(s)
            out = padd(out, pmul({tuple(outside): c}, at))
        return out

    def reduce(self, p):
        if not self.rules and not self.mrules: return p
        for _ in range(200):
            hit = None
            for m in p:
                for a, e in m:
                    r = self.rules.get(a)
                    if r and e >= r[0]:
                        hit = (m, a, r); break
                if hit: break
                for lm, rp in self.mrules:
                    d = dict(m)
                    if all(d.get(a, 0) >= e for a, e in lm):
                        hit = (m, lm, rp); break
                if hit: break
            if not hit: return p
            if len(hit) == 3 and isinstance(hit[1], int):
                # reduce every monomial with this atom at once
                a, (n, rp) = hit[1], hit[2]
                q = {}
                pw = {0: {(): Fr(1)}}
                for m, c in p.items():
                    d = dict(m); e = d.get(a, 0)
                    if e < n:
                        q = padd_in(q, {m: c}); continue
                    u, v = divmod(e, n)
                    if u not in pw: pw[u] = ppow(rp, u)
                    if v: d[a] = v
                    else: d.pop(a)
                    q = padd_in(q, pmul({tuple(sorted(d.items())): c}, pw[u]))
                p = q
            else:
                lm, rp = hit[1], hit[2]
                q = {}
                for m, c in p.items():
                    d = dict(m)
                    if all(d.get(a, 0) >= e for a, e in lm):
                        for a, e in lm:
                            d[a] -= e
                            if d[a] == 0: d.pop(a)
                        q = padd_in(q, pmul({tuple(sorted(d.items())): c}, rp))
                    else:
                        q = padd_in(q, {m: c})
                p = q
            if len(p) > LIMIT: raise TooBig()
        return p

    def add_hyp(self, h):
        """use the equation h = 0 (polynomial) as a rewriting rule on its largest monomial"""
        if not h: return
        # do not rewrite constants; choose the monomial of largest total degree, ties by smallest coefficient length
        ms = [m for m in h if m]
        if not ms: return
        lm = max(ms, key=lambda m: (sum(e for _, e in m), m))
        c = h[lm]
        self.mrules.append((lm, {m: -k / c for m, k in h.items() if m != lm}))
        self.memo.clear()

    def cancel(self, x):
        """x * 1/x = 1 for an atom x known not to be zero"""
        a, = self.poly(x)
        i, = self.poly(inv(x))
        self.mrules.append((tuple(sorted(a + i)), pconst(1)))
        self.memo.clear()

    def clear_invs(self, p):
        """numerator of p after multiplying by all (non-zero) denominators"""
        for _ in range(60):
            best = None
            for m in p:
                for a, e in m:
                    if a in self.invs:
                        t = self.atoms[a]
                        if best is None or t.depth_key() > best[0] if hasattr(t, 'depth_key') else (best is None or t.id > best[0]):
                            best = (t.id, a)
            if best is None: return p
            a = best[1]
            mx = max(dict(m).get(a, 0) for m in p)
            d = self.invs[a]
            pw = {}
            q = {}
            for m, c in p.items():
                dd = dict(m); e = dd.pop(a, 0)
                u = mx - e
                if u not in pw: pw[u] = self.reduce(ppow(d, u))
                q = padd_in(q, pmul({tuple(sorted(dd.items())): c}, pw[u]))
            p = self.reduce(q)
            if len(p) > LIMIT: raise TooBig()
        return p


def padd_in(q, r):
    for m, k in r.items():
        v = q.get(m, 0) + k
        if v == 0: q.pop(m, None)
        else: q[m] = v
    return q


def sorted_terms(ring, p):
    """a canonical flat encoding of a polynomial as a term argument list"""
    return [ring.to_term(p)]
