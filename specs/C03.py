"""C03 Ellipsoid distance is the exact level function of the inflated ellipsoid."""
from .common import *


def dist(v, e, x, m): return v.get(e, 'compute_distance_to_point', x, m)


def marg(v):
    m = Mat(3, 1, [v.real('m[%d]' % i) for i in range(3)], 'A')
    for i in range(3): v.assume(le(ZERO, m(i)))
    return m


def level(v, e, x, m):
    y = in_frame(v, pose_of(v, e), x); a, s = axes(v, e), margins(v, e)
    return add(*[sq(div(y(i), add(a(i), s(i), m(i)))) for i in range(3)])


def formula(v):
    """default curvature: the distance is the sum of the squared ratios"""
    e, x, m = ellipsoid(v, 'e'), v.vec('x'), marg(v)
    v.ensure('distance formula', eq(dist(v, e, x, m), level(v, e, x, m)))


def axis_formula(v):
    """any whole curvature: the sum of the ratios to the power 2c"""
    e, x, m = ellipsoid(v, 'e', curvature=True), v.vec('x'), marg(v)
    y = in_frame(v, pose_of(v, e), x); a, s, c = axes(v, e), margins(v, e), v.get(e, 'get_curvature_factor')
    v.ensure('distance formula for any curvature', eq(dist(v, e, x, m), add(*[pow_(div(y(i), add(a(i), s(i), m(i))), mul(num(2, 'I'), c(i))) for i in range(3)])))


def nonneg(v):
    """the distance is never negative"""
    e, m = ellipsoid(v, 'e', curvature=True), marg(v)
    x = to_world(v, pose_of(v, e), v.vec('y'))
    v.ensure('never negative', le(ZERO, dist(v, e, x, m)))


def surface(v):
    """points t*u on a ray from the centre, u on the surface of the inflated ellipsoid"""
    e, u, m, t = ellipsoid(v, 'e'), v.vec('u'), marg(v), v.real('t')
    a, s = axes(v, e), margins(v, e)
    v.assume(eq(add(*[sq(div(u(i), add(a(i), s(i), m(i)))) for i in range(3)]), ONE), le(ZERO, t))
    d = dist(v, e, to_world(v, pose_of(v, e), scale(t, u)), m)
    v.ensure('the distance at t times a surface point is t squared', eq(d, sq(t)))
    v.ensure('1 exactly on the surface', iff(eq(d, ONE), eq(t, ONE)))
    v.ensure('below 1 strictly inside', iff(lt(d, ONE), lt(t, ONE)))
    v.ensure('above 1 strictly outside', iff(lt(ONE, d), lt(ONE, t)))


def ray(v):
    """any curvature: grows strictly along every ray leaving the centre"""
    e, u, m, t, s = ellipsoid(v, 'e', curvature=True), v.vec('u'), marg(v), v.real('t'), v.real('s')
    v.assume(le(ZERO, s), lt(s, t), lt(ZERO, lib.sqnorm(u)))
    po = pose_of(v, e)
    v.ensure('grows strictly along rays', lt(dist(v, e, to_world(v, po, scale(s, u)), m), dist(v, e, to_world(v, po, scale(t, u)), m)))


def scalar_margin(v):
    """the overload with one margin is the general one"""
    e, x, m = ellipsoid(v, 'e', curvature=True), v.vec('x'), v.real('m')
    v.assume(le(ZERO, m))
    v.ensure('a scalar margin is that margin on all axes', eq(dist(v, e, x, m), dist(v, e, x, Mat(3, 1, [m] * 3, 'A'))))


def default_margin(v):
    """the overload without margin is the general one with zero margin"""
    e, x = ellipsoid(v, 'e'), v.vec('x')
    v.ensure('no margin means zero margin', eq(v.get(e, 'compute_distance_to_point', x), dist(v, e, x, Mat(3, 1, [ZERO] * 3, 'A'))))


def to_agent(v):
    """the distance to an agent is taken at its position with its margin"""
    e, a = ellipsoid(v, 'e'), agent(v, 'a')
    m = v.get(a, 'get_safety_margin')
    d = v.get(e, 'compute_distance_to_agent', a)
    v.ensure('distance to an agent', eq(d, level(v, e, v.get(a, 'get_position'), Mat(3, 1, [m] * 3, 'A'))))


TASKS = [formula, axis_formula, nonneg, surface, ray, scalar_margin, default_margin, to_agent]
