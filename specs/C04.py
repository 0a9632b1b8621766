"""C04 Ellipsoid normal is unit length, outward and parallel to the distance gradient."""
from .common import *


def setup(v, curvature=False):
    e, y = ellipsoid(v, 'e', curvature=curvature), v.vec('y')
    a = agent(v, 'a', at=to_world(v, pose_of(v, e), y))      # every position, in the coordinates of the obstacle
    v.assume(lt(ZERO, lib.sqnorm(y)))
    return e, a, y


def unit_outward(v):
    """default curvature: unit length and positive component along the offset from the centre"""
    e, a, y = setup(v)
    n = v.get(e, 'compute_normal_to_agent', a)
    v.ensure('unit length', eq(lib.sqnorm(n), ONE))
    v.ensure('points outward', lt(ZERO, dotv(n, y)))


def unit_outward_curvature(v):
    """whole curvature: unit length, no component inward"""
    e, a, y = setup(v, True)
    n = v.get(e, 'compute_normal_to_agent', a)
    v.ensure('unit length for any whole curvature', eq(lib.sqnorm(n), ONE))
    for i in range(3): v.ensure('no component points inward (any whole curvature)', le(ZERO, mul(n(i), y(i))))


def gradient(v):
    """the normal is a positive multiple of the gradient of the distance"""
    e, a, y = setup(v)
    n = v.get(e, 'compute_normal_to_agent', a)
    ax, s, m = axes(v, e), margins(v, e), v.get(a, 'get_safety_margin')
    g = V3(*[div(mul(num(2), y(i)), sq(add(ax(i), s(i), m))) for i in range(3)])
    v.ensure('parallel to the gradient of the distance', parallel(g, n))
    v.ensure('positive multiple of the gradient', lt(ZERO, dotv(g, n)))


TASKS = [unit_outward, unit_outward_curvature, gradient]
