"""C06 Reported intersections are real, and lists and aggregates are exhaustive."""
from .common import *


def frame2(v, e, x):
    y = in_frame(v, pose_of(v, e), x); a, s = axes(v, e), margins(v, e)
    return add(*[sq(div(y(i), add(a(i), s(i)))) for i in range(2)])


def centres(v):
    """the centre of one inside the other is reported, in both directions"""
    a, b_ = ellipsoid(v, 'a', planar=True), ellipsoid(v, 'b', planar=True)
    r = v.get(a, 'is_intersecting', b_)
    v.ensure('centre of the other inside this one is reported', implies(v.get(a, 'point_is_inside', v.get(b_, 'get_position')), r))
    v.ensure('centre of this one inside the other is reported', implies(v.get(b_, 'point_is_inside', v.get(a, 'get_position')), r))


def real(v):
    """a reported intersection has a witness inside both"""
    a, b_ = ellipsoid(v, 'a', planar=True), ellipsoid(v, 'b', planar=True)
    t = v.real('t')
    ca, cb = v.get(a, 'get_position'), v.get(b_, 'get_position')
    pts = v.get(b_, 'sample_from_parameterization', 100, True)
    k = fresh('k', 'I')
    x = lib.block(pts, ti(0), k, ti(3), ti(1))
    ia = lambda p: v.get(a, 'point_is_inside', p)
    ib = lambda p: v.get(b_, 'point_is_inside', p)
    # every boundary sample of b is inside b, so one that is inside a is inside both
    v.ensure('every boundary sample is inside its own ellipsoid', all_(k, 0, 100, ib(x)))
    r = v.get(a, 'is_intersecting', b_)
    v.ensure('a reported intersection has a common point', implies(r, or_(and_(ia(cb), ib(cb)), and_(ib(ca), ia(ca)), ex_(k, 0, 100, ia(x)))))


def samples(v):
    """every sample lies on the boundary of the inflated ellipsoid in its true orientation"""
    e = ellipsoid(v, 'e', planar=True)
    n = v.int('n'); v.assume(le(num(2, 'I'), n))
    for margin in (True, False):
        pts = v.get(e, 'sample_from_parameterization', n, margin)
        v.ensure('as many samples as asked for', and_(eq(pts.r if isinstance(pts, DMat) else ti(pts.r), ti(3)), eq(pts.c if isinstance(pts, DMat) else ti(pts.c), n)))
        k = fresh('k', 'I')
        x = lib.block(pts, ti(0), k, ti(3), ti(1))
        y = in_frame(v, pose_of(v, e), x); a, s = axes(v, e), margins(v, e)
        ln = [add(a(i), s(i)) if margin else a(i) for i in range(2)]
        if not margin: v.assume(*[lt(ZERO, l) for l in ln])
        v.ensure('samples lie on the %s boundary' % ('inflated' if margin else 'bare'), all_(k, 0, n, eq(add(*[sq(div(y(i), ln[i])) for i in range(2)]), ONE)))


def I(this, o): return app('intersects', (this, o), 'B')


def with_contract(v):
    """pairwise intersection by contract: an arbitrary relation between obstacles"""
    f = [f for f in v.prog.byq[NS + 'Obstacle::is_intersecting'] if 'deque' not in v.prog.tstr(f['params'][0]['t'])][0]

    def c(ex, fn, this, args):
        o = ex.tmp(args[0])
        if not (isinstance(this.root, tuple) and isinstance(o.root, tuple)): raise Unsupported('intersection of local objects')
        return I(this.root[1], o.root[1])
    v.ex.contracts[f['usr']] = c
    return f


def lists(v):
    """for a list of any length and any relation"""
    with_contract(v)
    o = v.sptr('o')
    t = next(p['t'] for f in v.prog.byq[NS + 'Obstacle::is_intersecting'] for p in f['params'] if 'deque' in v.prog.tstr(p['t']))
    l = v.ex.sym(t, 'l')
    r = v.get(o, 'is_intersecting', l)
    k = fresh('k', 'I')
    v.ensure('intersects a list exactly when it intersects a member', iff(r, ex_(k, 0, l.n, I(o.t, l.get(k).t))))


def aggregates(v):
    """for an aggregate of any number of primitives and any relation"""
    f = with_contract(v)
    o, g = v.sptr('o'), v.sptr('g', 'Aggregate')
    prim = v.get(g, 'get_primitives')
    r = v.get(o, 'is_intersecting_aggregate', g)
    k = fresh('k', 'I')
    meets = ex_(k, 0, prim.n, I(o.t, prim.get(k).t))
    v.ensure('intersects an aggregate exactly when it intersects a primitive', iff(r, meets))


def dispatch(v):
    """the pairwise test by the type of the other obstacle"""
    f = with_contract(v)
    o, g = v.sptr('o'), v.sptr('g', 'Aggregate')
    ty = v.get(g, 'get_type')
    h = [f for f in v.prog.byq[NS + 'Obstacle::is_intersecting_ellipsoid']][0]
    v.ex.vcontracts = {'is_intersecting_ellipsoid': lambda ex, f, ref, args, fn: app('meets-ellipsoid', (ref, ex.tmp(args[0]).root[1]), 'B')}
    r = v.run_body(f, v.lvof(o), [v.lvof(g)])
    prim = v.get(g, 'get_primitives')
    k = fresh('k', 'I')
    v.ensure('an obstacle of type Aggregate is tested through its primitives', implies(eq(ty, string('Aggregate')), iff(r, ex_(k, 0, prim.n, I(o.t, prim.get(k).t)))))
    v.ensure('an obstacle of type Ellipsoid is tested by the ellipsoid test', implies(eq(ty, string('Ellipsoid')), iff(r, app('meets-ellipsoid', (o.t, g.t), 'B'))))


def plain(v):
    """an obstacle of a kind without geometry of its own: what it inherits reports no intersection, no point inside and no crossing"""
    o, e = v.sptr('o'), ellipsoid(v, 'e', planar=True)
    base = lambda n: v.prog.byq[NS + 'Obstacle::' + n][0]
    v.ensure('its test against an ellipsoid reports nothing', not_(v.run_body(base('is_intersecting_ellipsoid'), v.lvof(o), [v.lvof(e)])))
    v.ensure('no point is inside', not_(v.run_body(base('point_is_inside'), v.lvof(o), [v.vec('p')])))
    v.ensure('no line crosses it', not_(v.run_body(base('compute_interesection_points'), v.lvof(o), [v.vec('p'), v.vec('q')]).e[0]))
    with_contract(v)
    g = v.sptr('g')
    ty = v.get(g, 'get_type')
    v.assume(ne(ty, string('Ellipsoid')), ne(ty, string('Aggregate')))
    f = [f for f in v.prog.byq[NS + 'Obstacle::is_intersecting'] if 'deque' not in v.prog.tstr(f['params'][0]['t'])][0]
    v.ensure('no obstacle intersects it', not_(v.run_body(f, v.lvof(o), [v.lvof(g)])))


def types(v):
    """the type names the dispatch relies on"""
    v.ensure('ellipsoids have type Ellipsoid', eq(v.get(v.new('Ellipsoid', v.str('n')), 'get_type'), string('Ellipsoid')))
    v.ensure('ellipsoids with a state have type Ellipsoid', eq(v.get(ellipsoid(v, 'e'), 'get_type'), string('Ellipsoid')))
    v.ensure('copies keep the type', eq(v.get(v.copy(ellipsoid(v, 'e')), 'get_type'), string('Ellipsoid')))
    v.ensure('aggregates have type Aggregate', eq(v.get(v.new('Aggregate'), 'get_type'), string('Aggregate')))


TASKS = [centres, real, samples, lists, aggregates, dispatch, plain, types]
