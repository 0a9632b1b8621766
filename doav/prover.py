"""Discharges obligations hyps |- goal: logical splitting, polynomial normal forms, case splits, SMT portfolio, numeric refutation."""
import time, random, math
from .terms import *
from .poly import Ring, TooBig
from . import smt, lib


class Result:
    def __init__(self, status, by='', seconds=0.0, env=None, note='', parts=1):
        self.status, self.by, self.seconds, self.env, self.note, self.parts = status, by, seconds, env, note, parts

    def __repr__(self): return 'Result(%s,%s,%.2f,%s)' % (self.status, self.by, self.seconds, self.note[:300])


def conj(t): return list(t.a) if t.op == 'and' else [] if t is TRUE else [t]


def eqs_of(t):
    return t.op == '=' and t.a[0].s in 'RI'


# ------------------------------------------------------------------ sign analysis
class Facts:
    """hypotheses of one sequent, with cheap syntactic consequences and a solver fallback"""

    def __init__(self, hyps, timeout=2.0):
        self.hyps = list(hyps)
        self.set = set(self.hyps)
        self.memo = {}
        self.timeout = timeout
        self.seconds = 0.0
        self.busy = 0
        self._ring = None

    def knows(self, t):
        return t is TRUE or t in self.set or (t.op == 'and' and all(self.knows(x) for x in t.a))

    def nonneg(self, t): return self.sign(t, 0)
    def pos(self, t): return self.sign(t, 1)
    def nonzero(self, t): return self.sign(t, 2)

    def sign(self, t, k):
        key = (t, k)
        if key in self.memo: return self.memo[key]
        self.memo[key] = False
        r = self._sign(t, k)
        self.memo[key] = r
        return r

    def _sign(self, t, k):
        if t.op == 'num': return t.a[0] >= 0 if k == 0 else t.a[0] > 0 if k == 1 else t.a[0] != 0
        z = num(0, t.s)
        if k == 0 and (self.knows(le(z, t)) or self.knows(lt(z, t))): return True
        if k == 1 and self.knows(lt(z, t)): return True
        if k == 2 and (self.knows(ne(t, z)) or self.knows(lt(z, t)) or self.knows(lt(t, z))): return True
        if self.syn(t, k): return True
        if k == 2 and self.sign(t, 1): return True
        return self.solve(t, k)

    def syn(self, t, k):
        op = t.op
        if t is PI: return True
        if op == 'toreal': return self.sign(t.a[0], k)
        if op == '*':
            if k == 0:
                cnt = {}
                for x in t.a: cnt[x] = cnt.get(x, 0) + 1
                return all(e % 2 == 0 or self.sign(x, 0) for x, e in cnt.items())
            return all(self.sign(x, k) for x in t.a)
        if op == '+':
            if k == 2: return False
            ok = all(self.sign(x, 0) for x in t.a)
            if k == 0: return ok
            return ok and any(self.sign(x, 1) for x in t.a)
        if op == 'inv': return self.sign(t.a[0], k) if k != 0 else self.sign(t.a[0], 1)
        if op == 'ite': return self.sign(t.a[1], k) and self.sign(t.a[2], k)
        if op == 'app':
            f = t.a[0]
            if f == 'sqrt':
                if k == 0: return self.sign(t.a[1], 0)
                return self.sign(t.a[1], 1) or (k == 2 and False)
            if f == 'exp': return True
            if f == 'pow': return self.sign(t.a[1], 1)
            if f == 'acos' and k == 0: return True
        if op == 'sum' and k in (0, 1):
            kk = fresh('k', 'I')
            f2 = Facts(self.hyps + [le(t.a[1], kk), lt(kk, t.a[2])], self.timeout)
            ok = f2.sign(subst(t.a[3], {t.a[0]: kk}), k)
            return ok and (k == 0 or self.entails(lt(t.a[1], t.a[2])))
        return False

    def entails(self, g):
        if self.knows(g): return True
        r = smt_prove(self.hyps, g, self.timeout, tiers=(0,))
        self.seconds += r.seconds
        return r.status == 'proved'

    def solve(self, t, k):
        if self.busy > 0 or self.timeout <= 0: return False
        self.busy += 1
        try:
            z = num(0, t.s)
            g = le(z, t) if k == 0 else lt(z, t) if k == 1 else ne(t, z)
            r = smt_prove(self.hyps, g, self.timeout, tiers=(0,))
            self.seconds += r.seconds
            return r.status == 'proved'
        finally:
            self.busy -= 1


# ------------------------------------------------------------------ axioms of interpreted functions
def parity(e):
    """0/1 for exponents that are even/odd whole numbers for all values of their integer parts"""
    try: p = Ring().poly(e)
    except TooBig: return None
    ring = Ring(); p = ring.poly(e)
    for m, c in p.items():
        if m == ():
            if c.denominator != 1: return None
        else:
            if c.denominator != 1 or c.numerator % 2 or any(ring.atoms[a].s != 'I' for a, _ in m): return None
    return int(p.get((), 0)) % 2


def axioms(terms, extra=True):
    """instances of the theory of sqrt, inv, sin, cos, acos, exp, pow, atan2, pi for the atoms of the sequent"""
    out = []
    seen = set()
    allt = set()
    work = list(terms)
    sub_seen = set()
    rounds = 0
    groups = {'exp': [], 'pow': [], 'sqrt': [], 'acos': [], 'atan2': []}
    while work and rounds < 3:
        rounds += 1
        new = []
        for t in work:
            for x in subterms(t, sub_seen):
                if fv_bound(x): continue
                if x is PI:
                    new += [lt(num('3.14159265'), PI), lt(PI, num('3.14159266'))]
                elif x.op == 'inv':
                    new.append(or_(eq(x.a[0], ZERO), eq(mul(x, x.a[0]), ONE)))
                elif x.op == 'app':
                    f = x.a[0]
                    if f == 'sqrt':
                        y = x.a[1]
                        new.append(implies(le(ZERO, y), and_(le(ZERO, x), eq(mul(x, x), y))))
                        groups['sqrt'].append(x)
                    elif f in ('sin', 'cos'):
                        s = app('sin', x.a[1:], 'R'); c = app('cos', x.a[1:], 'R')
                        new.append(eq(add(mul(s, s), mul(c, c)), ONE))
                    elif f == 'acos':
                        y = x.a[1]
                        c = app('cos', (x,), 'R'); s = app('sin', (x,), 'R')
                        new.append(implies(and_(le(num(-1), y), le(y, ONE)), and_(le(ZERO, x), le(x, PI), iff(eq(y, ONE), eq(x, ZERO)), iff(eq(y, num(-1)), eq(x, PI)))))
                        groups['acos'].append(x)
                    elif f == 'exp':
                        y = x.a[1]
                        new += [lt(ZERO, x), iff(lt(ZERO, y), lt(ONE, x)), iff(eq(y, ZERO), eq(x, ONE))]
                        groups['exp'].append(x)
                    elif f == 'pow':
                        groups['pow'].append(x)
                        y, e = x.a[1], x.a[2]
                        new.append(implies(lt(ZERO, y), lt(ZERO, x)))
                        new.append(implies(eq(y, ONE), eq(x, ONE)))
                        new.append(implies(eq(e, ZERO), eq(x, ONE)))
                        new.append(implies(and_(lt(ONE, y), lt(e, ZERO)), lt(x, ONE)))
                        new.append(implies(and_(lt(ONE, y), lt(ZERO, e)), lt(ONE, x)))
                        new.append(implies(and_(lt(ZERO, y), lt(y, ONE), lt(e, ZERO)), lt(ONE, x)))
                        new.append(implies(and_(lt(ZERO, y), lt(y, ONE), lt(ZERO, e)), lt(x, ONE)))
                        new.append(implies(and_(eq(y, ZERO), lt(ZERO, e)), eq(x, ZERO)))
                    elif f == 'atan2':
                        groups['atan2'].append(x)
                        new += [le(x, PI), lt(neg(PI), x)]
                    elif f == 'imod':
                        y, m = x.a[1], x.a[2]; z = num(0, 'I')
                        new += [implies(and_(le(z, y), lt(z, m)), and_(le(z, x), lt(x, m))), implies(and_(le(z, y), lt(y, m)), eq(x, y)), implies(and_(le(m, y), lt(y, add(m, m)), lt(z, m)), eq(x, sub(y, m)))]
                    elif f == 'floor':
                        new += [le(toreal(x), x.a[1]), lt(x.a[1], add(toreal(x), ONE))]
                    elif f == 'trunc':
                        y = x.a[1]
                        new += [implies(le(ZERO, y), and_(le(toreal(x), y), lt(y, add(toreal(x), ONE)))), implies(lt(y, ZERO), and_(le(y, toreal(x)), lt(add(y, num(-1)), toreal(x))))]
        for x in groups['pow']:
            y, e = x.a[1], x.a[2]
            p = parity(e)
            if p == 0:
                new += [le(ZERO, x), implies(ne(y, ZERO), lt(ZERO, x))]
            elif p == 1:
                new += [implies(lt(y, ZERO), lt(x, ZERO))]
            if p is None: continue
            for z in groups['pow']:
                if z is x: break
                if z.a[2] is not e: continue
                if p == 0:
                    new += [implies(and_(lt(ZERO, e), lt(mul(y, y), mul(z.a[1], z.a[1]))), lt(x, z)), implies(and_(lt(ZERO, e), lt(mul(z.a[1], z.a[1]), mul(y, y))), lt(z, x)), implies(eq(mul(y, y), mul(z.a[1], z.a[1])), eq(x, z))]
                else:
                    new += [implies(lt(ZERO, e), iff(lt(y, z.a[1]), lt(x, z)))]
        for i, x in enumerate(groups['exp']):
            for y in groups['exp'][:i]:
                new += [iff(lt(x.a[1], y.a[1]), lt(x, y)), implies(eq(x.a[1], y.a[1]), eq(x, y))]
        for i, x in enumerate(groups['acos']):
            for y in groups['acos'][:i]:
                r = and_(*[c for z in (x.a[1], y.a[1]) for c in (le(num(-1), z), le(z, ONE))])
                new += [implies(r, iff(lt(x.a[1], y.a[1]), lt(y, x)))]
        for i, x in enumerate(groups['sqrt']):
            for y in groups['sqrt'][:i]:
                new += [implies(eq(x.a[1], y.a[1]), eq(x, y))]
        for x in groups['pow']:
            a, p = x.a[1], x.a[2]
            if a.op == 'app' and a.a[0] == 'pow' and p.op == 'num' and a.a[2].op == 'num' and p.a[0] * a.a[2].a[0] == 1:
                new.append(implies(le(ZERO, a.a[1]), eq(x, a.a[1])))
        for i, x in enumerate(groups['pow']):
            for y in groups['pow'][:i]:
                a, p, c, q = x.a[1], x.a[2], y.a[1], y.a[2]
                if p is q:
                    z = and_(lt(ZERO, a), lt(ZERO, c))
                    new.append(implies(and_(z, lt(ZERO, p)), iff(lt(a, c), lt(x, y))))
                    new.append(implies(and_(z, lt(p, ZERO)), iff(lt(a, c), lt(y, x))))
                    new.append(implies(eq(a, c), eq(x, y)))
                    z0 = and_(le(ZERO, a), le(ZERO, c), lt(ZERO, p))
                    new.append(implies(z0, iff(lt(a, c), lt(x, y))))
                if a is c and neg(p) is q:
                    new.append(implies(lt(ZERO, a), eq(mul(x, y), ONE)))
                if mul(a, c) is ONE or (a.op == 'inv' and a.a[0] is c) or (c.op == 'inv' and c.a[0] is a):
                    if p is q: new.append(implies(lt(ZERO, a), eq(mul(x, y), ONE)))
                    if p is neg(q): new.append(implies(lt(ZERO, a), eq(x, y)))
        work = []
        for n in new:
            for c in conj(n):
                if c is TRUE or c in seen: continue
                seen.add(c); out.append(c); work.append(c)
    return out


def fv_bound(t):
    return any(x.a[0].startswith('#') for x in fv(t))


# ------------------------------------------------------------------ purification for SMT
def purify(ts):
    """replace applications and inverses without bound variables by fresh variables (weakens the hypotheses: sound for proving)"""
    m = {}
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is not None: return r
        if x.op == 'num': r = num(x.a[0], 'R')
        elif x.op == 'var' and x.s == 'I': r = var(x.a[0] + '~', 'R')
        elif x.op in ('var', 'str', 'true', 'false'): r = x
        elif x.op in BINDERS:
            r = None
        elif x.op == 'app' or x.op == 'inv':
            if x not in m: m[x] = var('@%d' % len(m), 'R' if x.s == 'I' else x.s)
            r = m[x]
        elif x.op == 'toreal':
            r = go(x.a[0])
        elif x.op == 'not' and x.a[0].op == '<' and x.a[0].a[0].s == 'I':
            p, q = go(x.a[0].a[1]), go(x.a[0].a[0])
            r = le(p, q) if p is not None and q is not None else None
        elif x.op == '<' and x.a[0].s == 'I':
            r = le(add(go(x.a[0]), ONE), go(x.a[1])) if go(x.a[0]) is not None and go(x.a[1]) is not None else None
        else:
            args = []
            bad = False
            for y in x.a:
                if isinstance(y, T):
                    z = go(y)
                    if z is None: bad = True; break
                    args.append(z)
                else: args.append(y)
            r = None if bad else rebuild(x, tuple(args))
            if r is None and x.s != 'B':
                if x not in m: m[x] = var('@%d' % len(m), 'R' if x.s == 'I' else x.s)
                r = m[x]
        cache[x] = r
        return r
    return [go(t) for t in ts], m


def relevant(hyps, goal, depth):
    """hypotheses connected to the goal through shared atoms"""
    def keys(t):
        return {x for x in subterms(t) if (x.op == 'var' and not x.a[0].startswith('#') and x is not PI) or (x.op == 'app' and len(x.a) > 1)}
    ks = keys(goal)
    hk = [(h, keys(h)) for h in hyps]
    chosen = set()
    for _ in range(depth):
        nk = set(ks)
        for h, k in hk:
            if h in chosen: continue
            if (k & ks) or not k:
                chosen.add(h); nk |= k
        if nk == ks: break
        ks = nk
    return [h for h in hyps if h in chosen]


def has_quant(t): return any(x.op in ('all', 'ex', 'qall', 'qex') for x in subterms(t))


def pair(m):
    return m.op == '*' and len(m.a) == 2 and all(x.op in ('var', 'app') for x in m.a)


def unit_hyps(hyps):
    """equations  sum of squares of variables = 1, and those of orthonormal families: sum of products of two variables = 0 or 1"""
    out = []
    if any(p.op == '+' and q.op == 'num' and q.a[0] == 0 and all(pair(m) and m.a[0].op == 'var' and m.a[1].op == 'var' for m in p.a) for h in hyps if h.op == '=' for p, q in (h.a, h.a[::-1])):
        out = [h for h in hyps if h.op == '=' for p, q in (h.a, h.a[::-1]) if p.op == '+' and q.op == 'num' and q.a[0] in (0, 1) and all(pair(m) for m in p.a)]
        return out
    for h in hyps:
        if h.op == '=':
            for p, q in (h.a, h.a[::-1]):
                if q.op == 'num' and q.a[0] == 1 and p.op == '+' and all(m.op == '*' and len(m.a) == 2 and m.a[0] is m.a[1] and m.a[0].op in ('var', 'app') for m in p.a):
                    out.append(h); break
    return out


def size(t):
    if t._sz is None:
        t._sz = 1 + sum(size(y) for y in t.a if isinstance(y, T))
    return t._sz


def poly_norm(ts, units=()):
    """normalise arithmetic modulo the unit-norm hypotheses, in arguments of functions and in comparisons"""
    ring = Ring()
    for t in ts:
        if t.op == '<' and t.a[0].op == 'num' and t.a[0].a[0] >= 0 and t.a[1].op == 'var':
            ring.cancel(t.a[1])
    for h in units:
        ring.add_hyp(ring.poly(sub(h.a[0], h.a[1])))
    cache = {h: h for h in units}
    signs = {h.a[1] for t in ts for h in conj(t) if h.op == '<' and h.a[0] is ZERO} | {h.a[0].a[0] for t in ts for h in conj(t) if h.op == 'not' and h.a[0].op == '<' and h.a[0].a[1] is ZERO}

    def root(x):
        """sqrt of a product of squares of factors that are not negative"""
        if x.op != '*' or x.s != 'R': return None
        cnt = {}
        for y in x.a: cnt[y] = cnt.get(y, 0) + 1
        if not all(e % 2 == 0 and (y in signs or (y.op == 'app' and y.a[0] == 'acos')) for y, e in cnt.items()): return None
        return mul(*[y for y, e in cnt.items() for _ in range(e // 2)])

    def canon(x):
        try:
            c = ring.canon(x)
        except (TooBig, RecursionError):
            return x
        return c if size(c) <= size(x) else x

    def go(x):
        r = cache.get(x)
        if r is not None: return r
        if not any(isinstance(y, T) for y in x.a): r = x
        elif x.op in BINDERS: r = x
        else:
            args = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = rebuild(x, args)
            if r.op == 'app' and not fv_bound(r):
                na = tuple(canon(y) if isinstance(y, T) and y.s == 'R' else y for y in r.a)
                if na != r.a: r = rebuild(r, na)
                if r.op == 'app' and r.a[0] == 'sqrt':
                    y = root(r.a[1])
                    if y is not None: r = y
                if r.op == 'app' and r.a[0] != x.a[0] and r is not x: r = go(r)
            elif r.op == 'inv':
                c = canon(r.a[0])
                if c is not r.a[0]: r = inv(c)
            elif r.op in '<=' and r.a[0].s == 'R':
                d = canon(sub(r.a[1], r.a[0]))
                if size(d) < size(r.a[0]) + size(r.a[1]): r = lt(ZERO, d) if r.op == '<' else eq(ZERO, d)
            elif r.op in '+*' and r.s == 'R' and units:
                r = canon(r)
        cache[x] = r
        return r
    return [go(t) for t in ts]


def smt_prove(hyps, goal, timeout=10.0, tiers=(0, 1, 2), want=('pure', 'full'), normal=False):
    t0 = time.time()
    if goal is TRUE: return Result('proved', 'simplifier')
    if FALSE in hyps or goal in hyps: return Result('proved', 'simplifier')
    if not normal:
        ts = poly_norm(list(hyps) + [goal], unit_hyps(hyps))
        hyps, goal = ts[:-1], ts[-1]
    if goal is TRUE or goal in hyps or FALSE in hyps: return Result('proved', 'simplifier')
    best = Result('unknown')
    texts = []
    for tier in tiers:
        hs = relevant(hyps, goal, (1, 3, 50)[tier]) if tier < 2 else list(hyps)
        ax = axioms(hs + [goal])
        allh = hs + ax
        if 'pure' in want:
            pt, m = purify(allh + [not_(goal)])
            if pt[-1] is not None:
                pt[-1] = not_(pt[-1])
                ph = [h for h in pt[:-1] if h is not None]
                pr = smt.Printer()
                q = pr.query(ph, pt[-1])
                if not any(a for _, a, r in pr.decls.values()) and all(r in 'RB' for _, a, r in pr.decls.values()):
                    q = q.replace('(set-logic ALL)', '(set-logic QF_NRA)')
                if q not in texts:
                    texts.append(q)
        if 'full' in want and (tier == tiers[-1]) and any(has_quant(x) or any(y.op == 'app' and len(y.a) > 1 for y in subterms(x)) for x in allh + [goal]):
            pr = smt.Printer()
            q = pr.query(allh, goal)
            if q not in texts: texts.append(q)
    for i, q in enumerate(texts):
        left = timeout if len(texts) == 1 else timeout * (0.3 if i < len(texts) - 1 else 1.0)
        a, by, dt = smt.run(q, left)
        if a == 'unsat':
            return Result('proved', by, time.time() - t0)
    best.seconds = time.time() - t0
    best.note = 'no solver accepted the obligation'
    best.by = 'sat' if texts and a == 'sat' else 'unknown'
    return best


# ------------------------------------------------------------------ simplification with hypotheses
def solved_form(hyps, goal):
    """use hypotheses  variable = term  as substitutions"""
    for _ in range(60):
        sub_ = None
        for h in hyps:
            if h.op == '=':
                x, y = h.a
                for p, q in ((x, y), (y, x)):
                    if p.op == 'var' and p is not PI and p not in fv(q) and p.s == q.s and not (q.op == 'var' and q.id > p.id and False):
                        sub_ = (h, p, q); break
                if sub_: break
            elif h.op == 'var' and h.s == 'B':
                sub_ = (h, h, TRUE); break
            elif h.op == 'not' and h.a[0].op == 'var':
                sub_ = (h, h.a[0], FALSE); break
        if not sub_: break
        h0, p, q = sub_
        memo = {}
        nh = []
        for h in hyps:
            if h is h0: continue
            h2 = subst(h, {p: q}, memo)
            for c in conj(h2):
                if c is not TRUE: nh.append(c)
        hyps = list(dict.fromkeys(nh))
        goal = subst(goal, {p: q}, memo)
    return hyps, goal


def assume_cond(t, c, val_):
    """t with the boolean atom c replaced by its truth value"""
    return subst_term(t, {c: TRUE if val_ else FALSE, not_(c): FALSE if val_ else TRUE})


def subst_term(t, m):
    cache = {}

    def go(x):
        if x in m: return m[x]
        r = cache.get(x)
        if r is not None: return r
        if x.op in BINDERS:
            args = tuple(go(y) if isinstance(y, T) and i > 0 else y for i, y in enumerate(x.a))
            r = x if args == x.a else rebuild_binder(x, args)
        elif any(isinstance(y, T) for y in x.a):
            args = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if args == x.a else rebuild(x, args)
        else: r = x
        cache[x] = r
        return r
    return go(t)


def rebuild_binder(x, args):
    k = fresh('k', x.a[0].s)
    if x.op in ('all', 'ex', 'sum'):
        return rebuild(x, (k, args[1], args[2], subst(args[3], {x.a[0]: k})))
    return rebuild(x, (k, subst(args[1], {x.a[0]: k})))


def find_ite(t):
    """condition of an innermost if-then-else with a closed condition"""
    best = None
    for x in subterms(t):
        if x.op == 'ite' and not fv_bound(x.a[0]) and not any(y.op == 'ite' for y in subterms(x.a[0])):
            if best is None or x.a[0].id < best.id: best = x.a[0]
    return best


def is_zero(t):
    if t.op == 'ite': return ite(t.a[0], is_zero(t.a[1]), is_zero(t.a[2]))
    return eq(t, num(0, t.s))


class Prover:
    def __init__(self, timeout=15.0, deadline=None):
        self.timeout = timeout
        self.deadline = deadline
        self.log = []
        self.parts = 0
        self.by = {}

    def left(self):
        if self.deadline is None: return self.timeout
        return max(0.2, min(self.timeout, self.deadline - time.time()))

    def count(self, by):
        self.parts += 1
        self.by[by] = self.by.get(by, 0) + 1

    def prove(self, hyps, goal, depth=0):
        """Result; recursion over the shape of the goal"""
        t0 = time.time()
        r = self._prove(hyps, goal, depth)
        r.seconds = time.time() - t0
        return r

    def _prove(self, hyps, goal, depth):
        hs = []
        for h in hyps: hs += conj(h)
        hs = list(dict.fromkeys(x for x in hs if x is not TRUE))
        if FALSE in hs: self.count('simplifier'); return Result('proved', 'simplifier')
        if goal is TRUE or goal in hs: self.count('simplifier'); return Result('proved', 'simplifier')
        if depth > 60: return Result('unknown', note='too deep')
        if self.deadline and time.time() > self.deadline: return Result('unknown', note='out of time')
        # skolemise existential hypotheses
        nh = []; ch = False
        for h in hs:
            if h.op == 'ex':
                k = fresh('e', 'I'); ch = True
                nh += [le(h.a[1], k), lt(k, h.a[2])] + conj(subst(h.a[3], {h.a[0]: k}))
            elif h.op == 'qex':
                k = fresh('e', h.a[0].s); ch = True
                nh += conj(subst(h.a[1], {h.a[0]: k}))
            else: nh.append(h)
        if ch: return self._prove(nh, goal, depth + 1)
        hs, goal = solved_form(hs, goal)
        if depth == 0 or not getattr(self, 'normed', False):
            u = unit_hyps(hs)
            if u:
                ts = poly_norm(hs + [goal], u)
                hs = list(dict.fromkeys(c for t in ts[:-1] for c in conj(t))); goal = ts[-1]
            self.normed = True
        if FALSE in hs or goal is TRUE or goal in hs: self.count('simplifier'); return Result('proved', 'simplifier')
        negs = set()
        for h in hs:
            n = not_(h)
            negs.add(n)
        if any(h in negs for h in hs if h.op != 'and'): self.count('simplifier'); return Result('proved', 'simplifier')
        op = goal.op
        if op == 'and':
            for g in goal.a:
                r = self._prove(hs, g, depth + 1)
                if r.status != 'proved': return r
                hs = hs + [g]
            return Result('proved')
        if op == 'or':
            ds = list(goal.a)
            tgt = max(ds, key=lambda d: (d.op in ('all', 'qall', 'and', 'or'), d.op == 'ex' or d.op == 'qex', d.op == '=', d.id))
            rest = [d for d in ds if d is not tgt]
            if tgt.op in ('ex', 'qex') and any(d.op in ('ex', 'qex') for d in rest):
                return self.solve(hs, goal)
            return self._prove(hs + [not_(d) for d in rest], tgt, depth + 1)
        if op == 'all':
            k = fresh('k', 'I')
            inst = [subst(h.a[3], {h.a[0]: k}) for h in hs if h.op == 'all' and h.a[1] is goal.a[1] and h.a[2] is goal.a[2]]
            return self._prove(hs + [le(goal.a[1], k), lt(k, goal.a[2])] + inst, subst(goal.a[3], {goal.a[0]: k}), depth + 1)
        if op == 'qall':
            k = fresh('q', goal.a[0].s)
            return self._prove(hs, subst(goal.a[1], {goal.a[0]: k}), depth + 1)
        if op == '=' and goal.a[0].s == 'B':
            x, y = goal.a
            r = self._prove(hs + [x], y, depth + 1)
            if r.status != 'proved': return r
            return self._prove(hs + [not_(x)], not_(y), depth + 1)
        if op == 'ite':
            r = self._prove(hs + conj(goal.a[0]), goal.a[1], depth + 1)
            if r.status != 'proved': return r
            return self._prove(hs + conj(not_(goal.a[0])), goal.a[2], depth + 1)
        if op == 'ex':
            cands = self.witnesses(hs, goal)
            save, dl = self.timeout, self.deadline
            for tmo, budget in ((0.3, 2.0), (4.0, 1e9)):
                for w in cands:
                    g = and_(le(goal.a[1], w), lt(w, goal.a[2]), subst(goal.a[3], {goal.a[0]: w}))
                    self.timeout = min(save, tmo)
                    self.deadline = min(dl or 1e18, time.time() + budget)
                    try: r = self._prove(hs, g, depth + 1)
                    finally: self.timeout, self.deadline = save, dl
                    if r.status == 'proved': return r
            return self.solve(hs, goal)
        # known conditions
        sub_ = {}
        for h in hs:
            if h.op in ('<', '=', 'not', 'var', 'app', 'all', 'ex', 'or') and h.s == 'B':
                sub_[h] = TRUE; sub_[not_(h)] = FALSE
        g2 = subst_term(goal, sub_)
        if g2 is not goal: return self._prove(hs, g2, depth + 1)
        m = self.quotients(hs, goal)
        if m: return self._prove([subst_term(h, m) for h in hs], subst_term(goal, m), depth + 1)
        r = self.sum_cases(hs, goal, depth)
        if r: return r
        if eqs_of(goal):
            r = self.poly_eq(hs, goal)
            if r: return r
        c = find_ite(goal)
        if c is not None:
            # orderings implied by the context are decided first
            for cc in (c, not_(c)):
                if self.cheap(hs, cc):
                    return self._prove(hs + [cc], assume_cond(goal, c, cc is c), depth + 1)
            r = self._prove(hs + conj(c), assume_cond(goal, c, True), depth + 1)
            if r.status != 'proved': return r
            return self._prove(hs + conj(not_(c)), assume_cond(goal, c, False), depth + 1)
        r = self.solve(hs, goal)
        if r.status == 'proved': return r
        # case split on disjunctive or conditional hypotheses
        for h in hs:
            c = find_ite(h)
            if c is not None:
                others = [x for x in hs]
                for v in (True, False):
                    cs = conj(c if v else not_(c))
                    r2 = self._prove([assume_cond(x, c, v) for x in others] + cs, goal, depth + 1)
                    if r2.status != 'proved': return r2
                return r2
        return r

    def sum_cases(self, hs, goal, depth):
        """a sum of terms that are not negative is positive, or all its terms are zero"""
        hset = set(hs)
        seen = set()
        for t in hs + [goal]:
            for S in subterms(t, seen):
                if S.op != 'sum' or fv_bound(S): continue
                z = num(0, S.s)
                if eq(S, z) in hset or eq(z, S) in hset: continue
                if lt(z, S) in hset:
                    # some term of a sum that is not zero is not zero
                    w = var('w!%d' % S.id, 'I')
                    nz = not_(is_zero(subst(S.a[3], {S.a[0]: w})))
                    if nz in hset or lt(w, S.a[2]) in hset: continue
                    return self._prove(hs + [le(S.a[1], w), lt(w, S.a[2]), nz] + self.at_index(hs, w), goal, depth + 1)
                key = (S, frozenset(hset))
                memo = self.__dict__.setdefault('summemo', {})
                if key not in memo:
                    k = fresh('k', 'I')
                    body = subst(S.a[3], {S.a[0]: k})
                    f = Facts(hs + [le(S.a[1], k), lt(k, S.a[2])] + self.at_index(hs, k), 1.0)
                    memo[key] = 0 if not f.nonneg(body) else 2 if f.pos(body) and Facts(hs, 1.0).entails(lt(S.a[1], S.a[2])) else 1
                m = memo[key]
                if m == 0: continue
                if m == 2: return self._prove(hs + [lt(z, S)], goal, depth + 1)
                k = fresh('k', 'I')
                zero = all_(k, S.a[1], S.a[2], is_zero(subst(S.a[3], {S.a[0]: k})))
                r = self._prove(hs + [lt(z, S)], goal, depth + 1)
                if r.status != 'proved': return r
                ks = [x for x in set().union(frozenset(), *[fv(h) for h in hs], fv(goal)) if x.s == 'I' and not x.a[0].startswith('#') and lt(x, S.a[2]) in hset]
                return self._prove(hs + [eq(S, z), zero] + [is_zero(subst(S.a[3], {S.a[0]: x})) for x in ks], goal, depth + 1)
        return None

    def quotients(self, hs, goal):
        """(m*q + r) / m = q and (m*q + r) % m = r for 0 <= q, 0 <= r < m"""
        out = {}
        for x in subterms(goal):
            if x.op != 'app' or x.a[0] not in ('idiv', 'imod') or fv_bound(x): continue
            a, m = x.a[1:]
            q, r = [], []
            for t in (a.a if a.op == '+' else (a,)):
                f = list(t.a) if t.op == '*' else [t]
                if m in f: f.remove(m); q.append(mul(*f) if f else num(1, 'I'))
                else: r.append(t)
            q = add(*q) if q else num(0, 'I'); r = add(*r) if r else num(0, 'I')
            z = num(0, 'I')
            if all(c in hs or self.cheap(hs, c) for c in (le(z, r), lt(r, m), le(z, q))): out[x] = q if x.a[0] == 'idiv' else r
        return out

    def at_index(self, hs, k):
        """universally quantified hypotheses at an index"""
        return [c for h in hs if h.op == 'all' for c in conj(implies(and_(le(h.a[1], k), lt(k, h.a[2])), subst(h.a[3], {h.a[0]: k})))]

    def witnesses(self, hs, goal):
        """index terms of the hypotheses, those constrained to the range of the goal first"""
        vs = {}
        lo, hi = goal.a[1], goal.a[2]
        for h in hs:
            for x in fv(h):
                if x.s == 'I' and not x.a[0].startswith('#'): vs.setdefault(x, 0)
        hset = set(hs)
        for x in vs:
            if le(lo, x) in hset or le(lo, x) is TRUE: vs[x] += 1
            if lt(x, hi) in hset: vs[x] += 2
        out = sorted((x for x in vs if vs[x]), key=lambda x: (-vs[x], x.id))
        out = out[:4]
        pre = [add(x, num(-1, 'I')) for x in out[:3]]
        seen = set()
        for h in hs: 
            for _ in subterms(h, seen): pass
        return [w for w in pre if w in seen] + out + [w for w in pre if w not in seen] + [add(x, num(1, 'I')) for x in out[:1]]

    def cheap(self, hs, g):
        return smt_prove(hs, g, min(0.7, self.left()), tiers=(0,), want=('pure',)).status == 'proved' if not has_quant(g) else False

    def poly_eq(self, hs, goal):
        x, y = goal.a
        t0 = time.time()
        facts = Facts(hs, min(2.0, self.left()))
        try:
            ring = Ring(facts.nonneg, facts.nonzero)
            for t in hs:
                if t.op == '<' and t.a[0].op == 'num' and t.a[0].a[0] >= 0 and t.a[1].op == 'var': ring.cancel(t.a[1])
            d = ring.poly(sub(x, y))
            if not d: self.count('polynomial normal form'); return Result('proved', 'polynomial normal form')
            d = ring.clear_invs(d)
            if not d: self.count('polynomial normal form'); return Result('proved', 'polynomial normal form')
            eqh = [h for h in hs if eqs_of(h)]
            if eqh:
                for h in eqh:
                    hp = ring.clear_invs(ring.poly(sub(h.a[0], h.a[1])))
                    ring.add_hyp(hp)
                d = ring.clear_invs(ring.poly(sub(x, y)))
                if not d: self.count('polynomial normal form'); return Result('proved', 'polynomial normal form')
            return self.sums_eq(hs, ring, d)
        except (TooBig, RecursionError):
            return None

    def sums_eq(self, hs, ring, d):
        """a linear combination of sums over the same range vanishes when it vanishes term by term"""
        groups = {}
        for m, c in d.items():
            ss = [(a, e) for a, e in m if ring.atoms[a].op == 'sum']
            if len(ss) != 1 or ss[0][1] != 1: return None
            t = ring.atoms[ss[0][0]]
            out = [x for a, e in m if a != ss[0][0] for x in [ring.atoms[a]] * e]
            groups.setdefault((t.a[1], t.a[2]), []).append((c, [sqrt(x.a[1]) if x.op == 'app' and x.a[0] == 'sqrt*' else inv(x.a[2]) if x.op == 'app' and x.a[0] == 'inv*' else x for x in out], t))
        if not groups: return None
        for (lo, hi), ms in groups.items():
            k = fresh('k', 'I')
            body = add(*[mul(num(c, 'R'), *(out + [subst(t.a[3], {t.a[0]: k})])) for c, out, t in ms])
            r = self._prove(hs, all_(k, lo, hi, eq(body, num(0, 'R'))), 20)
            if r.status != 'proved': return None
        return Result('proved')

    def solve(self, hs, goal):
        r = smt_prove(hs, goal, self.left())
        if r.status == 'proved': self.count(r.by)
        else: r.note = 'not discharged: ' + show(goal)[:300]
        r.hyps, r.goal = hs, goal
        return r


# ------------------------------------------------------------------ numeric refutation
SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 0.25]


def unit_groups(hyps):
    """variables constrained by  sum of squares = 1"""
    out = []
    for h in hyps:
        if h.op == '=':
            for p, q in (h.a, h.a[::-1]):
                if q.op == 'num' and q.a[0] == 1 and p.op == '+':
                    vs = []
                    for m in p.a:
                        if m.op == '*' and len(m.a) == 2 and m.a[0] is m.a[1] and m.a[0].op == 'var': vs.append(m.a[0])
                    if len(vs) == len(p.a): out.append(vs)
    return out


def refute(hyps, goal, n=300, seed=1, prefer=None):
    """a numeric assignment that satisfies hyps and clearly falsifies goal"""
    rnd = random.Random(seed)
    hs = []
    for h in hyps: hs += conj(h)
    vs = sorted(set().union(frozenset(), *[fv(h) for h in hs], fv(goal)), key=lambda x: x.id)
    vs = [v for v in vs if v is not PI]
    ug = unit_groups(hs)
    low = {}
    for h in hs:
        if h.op in ('<', '<=') and h.a[0].op == 'num' and h.a[1].op == 'var' and h.a[1].s in 'RI':
            low[h.a[1]] = (float(h.a[0].a[0]) if h.a[1].s == 'R' else int(h.a[0].a[0]), h.op == '<')
        elif h.op == 'not' and h.a[0].op in ('<', '<=') and h.a[0].a[1].op == 'num' and h.a[0].a[0].op == 'var' and h.a[0].a[0].s in 'RI':
            low[h.a[0].a[0]] = (float(h.a[0].a[1].a[0]) if h.a[0].a[0].s == 'R' else int(h.a[0].a[1].a[0]), h.a[0].op == '<=')
    for _ in range(n):
        env = {}
        for v in vs:
            if v.s == 'R': env[v] = rnd.choice(SPECIAL) if rnd.random() < 0.35 else rnd.uniform(-3, 3) if rnd.random() < 0.5 else rnd.uniform(0, 2)
            elif v.s == 'I': env[v] = rnd.randint(0, 4)
            elif v.s == 'B': env[v] = rnd.random() < 0.5
            else: env[v] = '%s%d' % (v.s, rnd.randint(0, 3))
        for v, (lo, strict) in low.items():
            if not (env[v] > lo if strict else env[v] >= lo): env[v] = lo + (abs(env[v]) + (0.01 if v.s == 'R' else 1)) if strict or rnd.random() < 0.8 else lo
        for g in ug:
            s = math.sqrt(sum(env[v] ** 2 for v in g))
            if s < 1e-6: env[g[0]] = 1.0; s = math.sqrt(sum(env[v] ** 2 for v in g))
            for v in g: env[v] = env[v] / s
        try:
            memo = {}
            if not all(evaluate(h, env, memo, 0.0) for h in hs): continue
            memo = {}
            if not evaluate(goal, env, memo, 1e-7):
                return env
        except (EvalError, OverflowError, ValueError, ZeroDivisionError, TypeError, RecursionError):
            continue
    return None
