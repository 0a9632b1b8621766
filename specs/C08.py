"""C08 Shifting the reference point keeps it inside the obstacle and on the heading."""
from .common import *


def run(v):
    e = ellipsoid(v, 'e', planar=True)
    po = pose_of(v, e)
    y, w = v.vec('y'), v.vec('w')
    x = to_world(v, po, y)
    vel = lib.qrot(v.get(po, 'get_orientation'), w)
    a = agent(v, 'a', at=x, vel=vel)
    v.assume(lt(ZERO, add(sq(w(0)), sq(w(1)))))
    ax, s = axes(v, e), margins(v, e)
    l = [add(ax(i), s(i)) for i in range(2)]
    before = v.ex.load(e)
    v.call(e, 'shift_reference_point', a)
    return e, po, y, w, l, before


def chord(l, y, w):
    """coefficients of the quadratic in t of the crossing of y+t*w with the ellipse"""
    A = add(*[sq(div(w(i), l[i])) for i in range(2)])
    B = mul(num(2), add(*[div(mul(y(i), w(i)), sq(l[i])) for i in range(2)]))
    C = sub(add(*[sq(div(y(i), l[i])) for i in range(2)]), ONE)
    return A, B, C


def middle(v):
    """the new reference point is the middle of the chord on the heading line"""
    e, po, y, w, l, before = run(v)
    A, B, C = chord(l, y, w)
    ref = in_frame(v, po, v.get(e, 'get_reference_position'))
    crosses = le(ZERO, sub(sq(B), mul(num(4), mul(A, C))))
    t = neg(div(B, mul(num(2), A)))
    v.ensure('the reference point is the middle of the chord', implies(crosses, and_(*[eq(ref(i), add(y(i), mul(t, w(i)))) for i in range(2)])))
    v.ensure('the reference point is in the mid-plane', implies(crosses, eq(ref(2), ZERO)))
    v.ensure('the reference point is on the heading line', implies(crosses, eq(mul(sub(ref(0), y(0)), w(1)), mul(sub(ref(1), y(1)), w(0)))))


def inside(v):
    """it is inside the ellipsoid"""
    e, po, y, w, l, before = run(v)
    A, B, C = chord(l, y, w)
    crosses = le(ZERO, sub(sq(B), mul(num(4), mul(A, C))))
    v.ensure('the reference point is inside', implies(crosses, v.get(e, 'point_is_inside', v.get(e, 'get_reference_position'))))


def unchanged(v):
    """without crossing nothing changes; with one nothing but the reference point"""
    e, po, y, w, l, before = run(v)
    A, B, C = chord(l, y, w)
    crosses = le(ZERO, sub(sq(B), mul(num(4), mul(A, C))))
    b_ = v.ex.alloc(before)
    v.ensure('no crossing leaves the reference point alone', or_(crosses, eqv(v.get(e, 'get_reference_position'), v.get(b_, 'get_reference_position'))))
    for g in ('get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_safety_margin', 'get_axis_lengths', 'get_curvature_factor', 'get_name', 'get_type'):
        v.ensure('%s is unchanged' % g, eqv(v.get(e, g), v.get(b_, g)))


TASKS = [middle, inside, unchanged]
