"""C05 Inside test and distance agree in the plane."""
from .common import *


def agree(v):
    """inside exactly when the distance is at most 1, in the mid-plane"""
    e = ellipsoid(v, 'e')
    x = to_world(v, pose_of(v, e), V3(v.real('u'), v.real('w'), ZERO))
    d = v.get(e, 'compute_distance_to_point', x, Mat(3, 1, [ZERO] * 3, 'A'))
    v.ensure('inside exactly when the distance is at most 1', iff(v.get(e, 'point_is_inside', x), le(d, ONE)))


def definition(v):
    """the inside test as a function of the frame coordinates, half-lengths and margin only"""
    e, y = ellipsoid(v, 'e', curvature=True), v.vec('y')
    x = to_world(v, pose_of(v, e), y); a, s = axes(v, e), margins(v, e)
    v.ensure('inside test depends on pose, half-lengths and margin only', iff(v.get(e, 'point_is_inside', x), le(add(*[sq(div(y(i), add(a(i), s(i)))) for i in range(2)]), ONE)))


def invariance(v):
    """moving ellipsoid and point by one rigid motion changes no answer"""
    e, x, r = ellipsoid(v, 'e'), v.vec('x'), pose(v, 'r')
    before = v.get(e, 'point_is_inside', x)
    f = v.copy(e)
    v.call(f, 'set_pose', v.ex.alloc(v.get(r, 'operator*', pose_of(v, e))))
    v.ensure('invariant under moving obstacle and point together', iff(v.get(f, 'point_is_inside', v.get(r, 'operator*', x)), before))


TASKS = [agree, definition, invariance]
