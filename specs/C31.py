"""C31 At every bearing the hull follows its primitives."""
from .common import *
from doav.values import Seq
from doav import loops
from .C11 import CLS, points, kept, hull, primitives, is_points, counter, now



class Follow:
    """loop contracts of compute_from_primitives that follow one bearing (column c of the hull) and one crossing on it:
    the ghost w is the place at which that crossing enters the list of its bearing"""

    def __init__(self, v, known, base, sign, witness=None):
        """known: formula about the polar coordinates of every crossing on bearing c; base: bound of the radius before it is
        smoothed; sign: +1 when the bound is from below; witness: the coordinates of one crossing on it"""
        self.v, self.known, self.base, self.sign, self.witness = v, known, base, sign, witness
        self.h, self.L, self.ref = hull(v), primitives(v), v.vec('ref')
        h = self.h
        self.n, self.least = kept(v, h, 'resolution'), kept(v, h, 'min_radius')
        self.c, self.m, self.w = v.int('c'), v.int('m'), v.int('w')
        self.U = v.real('U')
        v.assume(le(ti(0), self.c), lt(self.c, self.n), le(ti(0), self.m), lt(self.m, self.L.n), le(self.least, self.U))
        mg = v.ex.load(h).f[NS + 'Obstacle::safety_margin'](0)
        self.shift = ite(kept(v, h, 'is_inside'), neg(mg), mg)
        v.assume(le(add(self.least, self.shift), self.U))
        self.outer = self.inner = self.list = None
        v.ex.vcontracts = dict(getattr(v.ex, 'vcontracts', {}), compute_interesection_points=self.contract)
        v.ex.invariants = [self.plan]

    def contract(self, ex, f, ref, args, fn):
        v = self.v
        u = fresh('crossing').a[0]
        r = ex.symval(fn['ret'], lambda p, s, idx=(): app(u + p, tuple(idx), s) if idx else var(u + p, s))
        if self.outer is None or self.list is None: return r
        hit, ps = r.e[0], r.e[1].e
        po = pose_of(v, self.h)
        polar = [v.function('MathTools::cartesian_to_polar', v.get(v.get(po, 'inverse'), 'operator*', p)) for p in ps]
        here = eq(now(ex, self.outer), self.c)
        for p in polar: v.assume(implies(hit, le(add(p(0), self.shift), self.U)))
        if self.known:
            for p in polar: v.assume(implies(and_(here, hit), self.known(p(0), p(2))))
        if self.witness:
            X = now(ex, self.list)
            which, rho, beta = self.witness
            p = polar[which]
            v.assume(implies(and_(here, eq(now(ex, self.inner), self.m)), and_(hit, eq(p(0), rho), eq(p(2), beta), eq(self.w, add(X.n, ti(which))))))
        return r

    def bound(self, r, weight=None):
        """r respects the bound, before or after smoothing"""
        b = self.base
        if weight: b = add(mul(num('9/10'), b), mul(num('1/10'), self.least if self.sign > 0 else self.U))
        return le(b, r) if self.sign > 0 else le(r, b)

    def plan(self, ex, accs):
        v, c, n = self.v, self.c, self.n
        P = next((a for a in accs.values() if isinstance(a.v0, DMat) and is_points(v, self.h, a)), None)
        i = counter(ex, accs)
        k = fresh('k', 'I')
        if P is not None and i is not None:
            self.outer = i
            def inv(stage):
                M, j = now(ex, P), now(ex, i)
                x = M.get(ti(0), c)
                if stage == 'preserved': self.hints(ex)
                return [('the counter stays in range', and_(le(ti(0), j), le(j, n))),
                        ('the radii so far are within the bounds', all_(k, 0, j, and_(le(self.least, M.get(ti(0), k)), le(M.get(ti(0), k), self.U)))),
                        ('the radius of the bearing follows the crossing', implies(lt(c, j), ite(and_(le(ti(1), c), lt(c, sub(j, ti(1)))), self.bound(x, True), self.bound(x))))]
            return inv
        Q = [a for a in accs.values() if isinstance(a.v0, Seq) and a.v0.items == [] and a.v0.tag and ex.prog.types[ex.strip(a.v0.tag)].get('rec')]
        if len(Q) == 1 and i is not None:
            self.list, self.inner = Q[0], i
            def inv(stage):
                X, l = now(ex, Q[0]), now(ex, i)
                here = eq(now(ex, self.outer), c) if self.outer else FALSE
                if X.items == []:
                    return [('the list is empty at first', eq(l, ti(0)))]
                out = [('the counter stays in range', and_(le(ti(0), l), le(l, self.L.n), le(ti(0), X.n))),
                       ('the crossings so far are within the bound', all_(k, 0, X.n, le(add(X.get(k)(0), self.shift), self.U)))]
                if self.known: out.append(('the crossings so far are the known ones', implies(here, all_(k, 0, X.n, self.known(X.get(k)(0), X.get(k)(2))))))
                if self.witness:
                    _, rho, beta = self.witness
                    out.append(('the crossing stays in the list', implies(and_(here, lt(self.m, l)), and_(le(ti(0), self.w), lt(self.w, X.n), eq(X.get(self.w)(0), rho), eq(X.get(self.w)(2), beta)))))
                return out
            return inv
        return None

    def hints(self, ex):
        """where the crossing is once the list is sorted"""
        v = self.v
        try: S = now(ex, self.list)
        except Exception: return
        if not self.witness or not isinstance(S, Seq) or not S.node or S.node[0] != 'perm': return
        _, rho, beta = self.witness
        done = eq(now(ex, self.outer), add(self.c, ti(1)))
        t = app(S.node[2].replace('perm!', 'perminv!'), (self.w,), 'I')
        v.step('the crossing is in the list', implies(done, and_(le(ti(0), self.w), lt(self.w, S.n))))
        v.step('the crossing is in the sorted list', implies(done, and_(le(ti(0), t), lt(t, S.n), eq(S.get(t)(0), rho), eq(S.get(t)(2), beta))))


def angle(v, n, c):
    """the bearing of column c: evenly spaced from -pi to pi - 0.0001"""
    return add(neg(PI), div(mul(toreal(c), sub(mul(num(2), PI), num('1/10000'))), toreal(sub(n, ti(1)))))


def near(v, fo, b):
    """a bearing at most 0.001 rad from that of the column, whole turns aside"""
    d, e = sub(b, angle(v, fo.n, fo.c)), num('1/1000')
    within = lambda x: and_(le(neg(e), x), le(x, e))
    return or_(within(d), within(sub(d, mul(num(2), PI))))


def follow(inside, which, sign):
    """the radius of a bearing against a crossing on it (the first or the second its primitive reports); for the bound on the
    far side every crossing near the bearing is assumed to respect it"""
    rho, B, turn = var('rho', 'R'), var('B', 'R'), var('turned', 'B')

    def task(v):
        fo = Follow(v, None, None, sign)
        h = fo.h
        v.assume(kept(v, h, 'is_inside') if inside else not_(kept(v, h, 'is_inside')))
        beta = add(angle(v, fo.n, fo.c), ite(turn, mul(num(2), PI), ZERO))
        fo.witness = (which, rho, beta)
        if (sign > 0) == inside: fo.known = lambda r, b: implies(near(v, fo, b), le(B, r) if inside else le(r, B))
        x = add(B if fo.known else rho, fo.shift)
        fo.base = ite(le(x, fo.least), fo.least, x)
        v.assume(le(fo.base, fo.U), le(add(rho, fo.shift), fo.U))
        v.call(h, 'compute_from_primitives', fo.L, fo.ref)
        x = points(v, h).get(ti(0), fo.c)
        v.ensure(('at least' if sign > 0 else 'at most') + ' the %s crossing, up to smoothing' % ('nearest' if inside else 'farthest'), fo.bound(x, True))
    return task


def outer_reaches(v):
    """an outer hull reaches every crossing on a bearing (the first a primitive reports)"""
    follow(False, 0, 1)(v)


def outer_reaches_second(v):
    """an outer hull reaches every crossing on a bearing (the second a primitive reports)"""
    follow(False, 1, 1)(v)


def outer_tight(v):
    """an outer hull goes no further than the farthest crossing on a bearing"""
    follow(False, 0, -1)(v)


def outer_tight_second(v):
    """an outer hull goes no further than the farthest crossing on a bearing (which is the second a primitive reports)"""
    follow(False, 1, -1)(v)


def inner_stops(v):
    """an inner hull stops at every crossing on a bearing (the first a primitive reports)"""
    follow(True, 0, -1)(v)


def inner_stops_second(v):
    """an inner hull stops at every crossing on a bearing (the second a primitive reports)"""
    follow(True, 1, -1)(v)


def inner_tight(v):
    """an inner hull goes on until the nearest crossing on a bearing"""
    follow(True, 0, 1)(v)


def inner_tight_second(v):
    """an inner hull goes on until the nearest crossing on a bearing (which is the second a primitive reports)"""
    follow(True, 1, 1)(v)


def open_bearing(v):
    """a bearing without a crossing has the minimum radius (moved by the margin of an outer hull, if it has one)"""
    fo = Follow(v, None, None, -1)
    fo.known = lambda r, b: not_(near(v, fo, b))
    x = add(fo.least, fo.shift)
    fo.base = ite(le(x, fo.least), fo.least, x)
    v.call(fo.h, 'compute_from_primitives', fo.L, fo.ref)
    v.ensure('the minimum radius, up to smoothing', fo.bound(points(v, fo.h).get(ti(0), fo.c), True))


def bearings(v):
    """the bearings of a hull are evenly spaced and increasing, which is what its queries (C12) rely on"""
    fo = Follow(v, None, None, 1)
    h, L, ref = fo.h, fo.L, fo.ref
    n, k = kept(v, h, 'resolution'), fresh('k', 'I')

    def plan(ex, accs):
        P = next((a for a in accs.values() if isinstance(a.v0, DMat) and is_points(v, h, a)), None)
        i = counter(ex, accs)
        if P is None or i is None: return fo.plan(ex, accs)
        fo.outer = i

        def inv(stage):
            M, j = now(ex, P), now(ex, i)
            return [('the counter stays in range', and_(le(ti(0), j), le(j, n))),
                    ('the bearings so far are evenly spaced', all_(k, 0, j, eq(M.get(ti(2), k), angle(v, n, k))))]
        return inv
    v.ex.invariants = [plan]
    v.call(h, 'compute_from_primitives', L, ref)
    P = points(v, h)
    v.step('the bearings are evenly spaced', all_(k, 0, n, eq(P.get(ti(2), k), angle(v, n, k))))
    l = fresh('l', 'I')
    v.ensure('the bearings increase', all_(k, 0, n, all_(l, 0, k, lt(P.get(ti(2), l), P.get(ti(2), k)))))


TASKS = [outer_reaches, outer_reaches_second, outer_tight, outer_tight_second, inner_stops, inner_stops_second, inner_tight, inner_tight_second, open_bearing, bearings]
