"""C11 Star-shaped hull depends only on its primitives and respects its radius bounds."""
from .common import *
from doav.values import Seq, Tup
from doav import loops

CLS = 'StarShapeHull'
KEPT = ('is_inside', 'resolution', 'min_radius')


def points(v, h): return v.ex.load(h).f[NS + CLS + '::polar_surface_points']
def space(v, h): return v.ex.load(h).f[NS + CLS + '::cartesian_surface_points']
def kept(v, h, n): return v.ex.load(h).f[NS + CLS + '::' + n]


def hull(v, n='h'):
    """a hull in any state, of any resolution of at least 3"""
    h = v.obj(CLS, n)
    v.assume(v.unit(v.get(pose_of(v, h), 'get_orientation')))
    P, C = points(v, h), space(v, h)
    r = kept(v, h, 'resolution')
    v.assume(le(ti(3), r), eq(P.r, ti(3)), eq(C.r, ti(3)), eq(P.c, r), eq(C.c, r), lt(ZERO, kept(v, h, 'min_radius')))
    return h


def primitives(v):
    f = v.prog.byq[NS + CLS + '::compute_from_primitives'][0]
    return v.ex.sym(f['params'][0]['t'], 'L')


def crossings(v, fact=None):
    """contract of the virtual compute_interesection_points: some answer that depends on the obstacle and the two points (C07 for ellipsoids)"""
    def c(ex, f, ref, args, fn):
        if fact:        # for a bound any answer will do
            u = fresh('crossing').a[0]
            r = ex.symval(fn['ret'], lambda p, s, idx=(): app(u + p, tuple(idx), s) if idx else var(u + p, s))
            fact(r.e[0], r.e[1].e)
            return r
        a = [t for x in args for _, t in ex.flat(ex.rv(x))]
        r = ex.symval(fn['ret'], lambda p, s, idx=(): app('crossing' + p, (ref,) + tuple(a) + tuple(idx), s))
        return r
    v.ex.vcontracts = dict(getattr(v.ex, 'vcontracts', {}), compute_interesection_points=c)


def is_points(v, h, acc): return acc.key[1] and acc.key[1][-1] == ('f', NS + CLS + '::polar_surface_points')


def counter(ex, accs):
    """the counter of a loop"""
    c = [a for a in accs.values() if isinstance(a.v0, T) and a.v0.s == 'I']
    return c[0] if len(c) == 1 else None


def now(ex, acc): return loops.pick(ex.S[acc.key[0]], acc.key[1])


def bounds(v):
    """every radius between the minimum and the farthest crossing; the minimum without crossings"""
    h, L = hull(v), primitives(v)
    ref = v.vec('ref')
    n, least, U = kept(v, h, 'resolution'), kept(v, h, 'min_radius'), v.real('U')
    m = margins(v, h)(0)
    s = ite(kept(v, h, 'is_inside'), neg(m), m)
    v.assume(le(least, U), le(add(least, s), U))
    q, o, y = v.quat('turn', unit=False), v.vec('at'), v.vec('y')
    po = v.obj('Pose', 'any', orientation=q, position=o)
    r = v.ex.pure_value(lambda: v.function('MathTools::cartesian_to_polar', v.get(v.get(po, 'inverse'), 'operator*', y))(0))
    same = implies(v.unit(q), eq(r, sqrt(lib.sqnorm(sub3(y, o)))))
    here = v.get(pose_of(v, h), 'get_orientation')

    def fact(b_, ps):
        for p in ps:
            v.assume(implies(b_, le(add(sqrt(lib.sqnorm(sub3(p, ref))), s), U)))
            v.lemma('the radius of a point is its distance from the centre', [t for x in (q, o, y) for _, t in leaves(x)], same, [t for x in (here, ref, p) for _, t in leaves(x)])
    crossings(v, fact)
    k = fresh('k', 'I')

    def plan(ex, accs):
        P = next((a for a in accs.values() if isinstance(a.v0, DMat) and is_points(v, h, a)), None)
        i = counter(ex, accs)
        if P is not None and i is not None:
            def inv(stage):
                M, j = now(ex, P), now(ex, i)
                return [('the counter stays in range', and_(le(ti(0), j), le(j, n))),
                        ('the radii so far are within the bounds', all_(k, 0, j, and_(le(least, M.get(ti(0), k)), le(M.get(ti(0), k), U))))]
            return inv
        Q = [a for a in accs.values() if isinstance(a.v0, Seq) and a.v0.items == [] and a.v0.tag and ex.prog.types[ex.strip(a.v0.tag)].get('rec')]
        if len(Q) == 1:
            def inv(stage):
                X = now(ex, Q[0])
                if X.items == []: return [('the crossings so far are within the bound', TRUE)]
                return [('the crossings so far are within the bound', and_(le(ti(0), X.n), all_(k, 0, X.n, le(add(X.get(k)(0), s), U))))] + \
                    ([('the counter stays in range', and_(le(ti(0), now(ex, i)), le(now(ex, i), L.n)))] if i is not None else [])
            return inv
    v.ex.invariants = [plan]
    v.call(h, 'compute_from_primitives', L, ref)
    P, C, po = points(v, h), space(v, h), pose_of(v, h)
    v.ensure('the resolution is kept', and_(eq(P.c, n), eq(C.c, n), eq(P.r, ti(3)), eq(C.r, ti(3))))
    v.ensure('every radius is at least the minimum', all_(k, 0, n, le(least, P.get(ti(0), k))))
    v.ensure('every radius is at most the larger of the minimum and the farthest crossing', all_(k, 0, n, le(P.get(ti(0), k), U)))
    v.ensure('the hull is placed at the reference point', and_(eqv(v.get(h, 'get_position'), ref), eqv(v.get(h, 'get_reference_position'), ref)))
    p = lambda k: v.function('MathTools::polar_to_cartesian', V3(*[P.get(ti(r), k) for r in range(3)]))
    w = v.ex.pure_value(lambda: to_world(v, po, p(k)))
    v.ensure('the points in space are those of the radii and bearings', all_(k, 0, n, and_(*[eq(C.get(ti(r), k), w(r)) for r in range(3)])))


class Twin:
    """the same computation from a second state that agrees in the settings and in nothing else: every term of the first run
    has a counterpart obtained by renaming (product program in lock step)"""
    SAME = tuple('h.' + n for n in ('is_inside', 'resolution', 'min_radius', 'safety_margin', 'state.pose.orientation'))

    def __init__(self, v): self.v, self.names, self.facts = v, set(), set()

    def differs(self, n): return n in self.names or n.startswith(('h.', 'before.')) and not n.startswith(self.SAME)

    def of(self, t):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                a = tuple(go(y) if isinstance(y, T) else y for y in x.a)
                if x.op == 'var': r = var(x.a[0] + "'", x.s) if self.differs(x.a[0]) else x
                elif x.op == 'app' and self.differs(x.a[0]): r = app(x.a[0] + "'", a[1:], x.s)
                else: r = x if a == x.a else mk(x.op, a, x.s)
                memo[x] = r
            return r
        return go(t)

    def lockstep(self):
        """no decision so far depends on what differs"""
        for h in self.v.ex.pc:
            if h not in self.facts and self.of(h) is not h: raise Unsupported('a decision depends on the previous state: ' + show(h)[:200])

    def agree(self, x):
        k = fresh('k', 'I')
        if isinstance(x, T): return eq(x, self.of(x))
        if isinstance(x, Seq):
            if x.items == []: return TRUE
            return and_(eq(x.n, self.of(x.n)), all_(k, 0, x.n, and_(*[eq(t, self.of(t)) for _, t in leaves(x.get(k))])))
        return and_(*[eq(t, self.of(t)) for _, t in leaves(x)])

    def columns(self, X, n):
        k = fresh('k', 'I')
        return all_(k, 0, n, and_(*[eq(X.get(ti(r), k), self.of(X.get(ti(r), k))) for r in range(3)]))

    def plan(self, ex, accs):
        i = counter(ex, accs)
        M = [a for a in accs.values() if isinstance(a.v0, DMat)]
        if M and (i is None or i.v0 is not ti(0)): return None        # other loops are summarised in closed form
        if any(a.key[0] == 'heap' for a in accs.values()): return None
        for a in M: self.names.add(a.sym.node[1])
        rest = [a for a in accs.values() if a not in M]

        def inv(stage):
            if stage == 'preserved' and not ex.quiet: self.lockstep()
            out = []
            if stage != 'assume': out = [('what the loop computes is the same', and_(*[self.agree(now(ex, a)) for a in rest]))]
            if i is not None: out.append(('the counter is not negative', le(ti(0), now(ex, i))))
            for a in M:
                out.append(('the columns so far are the same', self.columns(now(ex, a), now(ex, i))))
                n = a.v0.c
                out.append(('the counter stays in range', le(now(ex, i), n)))
            if stage == 'assume': self.facts.update(f for _, f in out)
            return out
        return inv


def same(v):
    """two computations in hulls of the same settings for the same primitives and reference point give the same hull"""
    n = v.int('h.resolution')
    D = lambda nm: DMat(ti(3), n, lambda i, j: app('before.' + nm, (i, j), 'R'))
    h = v.obj(CLS, 'h', polar_surface_points=D('polar'), cartesian_surface_points=D('cartesian'))
    v.assume(le(ti(3), n))
    L, ref = primitives(v), v.vec('ref')
    crossings(v)
    tw = Twin(v)
    v.ex.invariants = [tw.plan]
    settings = [v.ex.copyval(kept(v, h, k)) for k in KEPT] + [v.ex.copyval(v.get(pose_of(v, h), 'get_orientation'))]
    v.call(h, 'compute_from_primitives', L, ref)
    tw.lockstep()
    P, C = points(v, h), space(v, h)
    for what, g in (('position', 'get_position'), ('reference point', 'get_reference_position')): v.ensure('the same ' + what, tw.agree(v.get(h, g)))
    v.ensure('as many points', and_(eq(P.c, n), eq(C.c, n)))
    v.ensure('the same radii and bearings', tw.columns(P, n))
    v.ensure('the same points in space', tw.columns(C, n))
    v.ensure('the settings are kept', and_(*[eqv(x, y) for x, y in zip(settings, [kept(v, h, k) for k in KEPT] + [v.get(pose_of(v, h), 'get_orientation')])]))


def closed(v):
    """closed exactly when every radius exceeds 1.2 times the minimum"""
    h = hull(v)
    P, k = points(v, h), fresh('k', 'I')
    least = kept(v, h, 'min_radius')
    v.ensure('closed exactly when every radius exceeds 1.2 times the minimum', iff(v.get(h, 'is_closed'), all_(k, 0, P.c, lt(mul(num('6/5'), least), P.get(ti(0), k)))))


def mean(v):
    """without a reference point the hull is computed around the mean of the positions, when built and when recomputed"""
    L = primitives(v)
    v.assume(lt(ti(0), L.n))
    calls = []
    real = {f['usr']: f for f in v.prog.byq[NS + CLS + '::compute_from_primitives']}
    for u, f in real.items():
        if len(f['params']) == 2: v.ex.contracts[u] = lambda ex, fn, this, args: calls.append((ex.copyval(ex.rv(args[0])), ex.rv(args[1])))
    i = fresh('i', 'I')
    for what, run in (('recomputed', lambda: v.call(hull(v), 'compute_from_primitives', L)), ('built', lambda: v.new(CLS, L, v.bool('inner')))):
        del calls[:]
        run()
        if not calls: v.fail(what + ': the hull is computed'); continue
        Q, r = calls[-1]
        v.ensure(what + ': from the primitives', and_(eq(Q.n, L.n), all_(i, 0, Q.n, eq(Q.get(i).t, L.get(i).t))))
        ps = v.get(L.get(i), 'get_position')
        v.ensure(what + ': around their mean', and_(*[eq(r(c), div(sum_(i, 0, L.n, ps(c)), toreal(L.n))) for c in range(3)]))


TASKS = [bounds, same, closed, mean]
