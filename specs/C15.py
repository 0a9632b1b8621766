"""C15 The agent's envelope follows its state."""
from .common import *


def judge(v, a, how, inside=True):
    """the agent has just been changed"""
    e = v.call(a, 'get_envelope')
    p, w, m = v.get(a, 'get_position'), v.get(a, 'get_linear_velocity'), v.get(a, 'get_safety_margin')
    m = ite(lt(num('1/10'), m), m, num('1/10'))
    n2 = lib.sqnorm(w)
    moving = lt(ZERO, n2)
    n = app('sqrt', (n2,), 'R')
    c = V3(*[add(p(i), ite(moving, mul(half(), w(i), inv(n)), ZERO)) for i in range(3)])
    v.ensure(how + ': centred half a unit ahead', eqv(v.get(e, 'get_position'), c))
    v.ensure(how + ': reference point half a unit ahead', eqv(v.get(e, 'get_reference_position'), c))
    L = v.get(e, 'get_axis_lengths')
    v.ensure(how + ': first half-length is offset plus margin', eq(L(0), add(ite(moving, half(), ZERO), m)))
    v.ensure(how + ': other half-lengths are the margin', and_(eq(L(1), m), eq(L(2), m)))
    q = v.get(e, 'get_orientation')
    v.ensure(how + ': turned about the vertical axis', and_(eq(q.x, ZERO), eq(q.y, ZERO), v.unit(q)))
    h2 = add(mul(w(0), w(0)), mul(w(1), w(1)))
    h = app('sqrt', (h2,), 'R')
    r = lib.qrot(q, V3(ONE, ZERO, ZERO))
    v.ensure(how + ': turned to the heading', implies(lt(ZERO, h2), and_(eq(mul(h, r(0)), w(0)), eq(mul(h, r(1)), w(1)))))
    v.ensure(how + ': not turned without heading', implies(eq(h2, ZERO), and_(eq(r(0), ONE), eq(r(1), ZERO))))
    if inside:
        v.assume(eq(w(2), ZERO))
        d = ite(moving, half(), ZERO)
        y = in_frame(v, pose_of(v, e), p)
        g = v.get(e, 'get_safety_margin')
        v.ensure(how + ': the agent is that offset behind the centre', and_(eq(y(0), neg(d)), eq(y(1), ZERO), *[le(ZERO, g(i)) for i in range(2)]))


def inside(v):
    """with what the setters establish, the inside test accepts the agent's position: any pose, offset and margins"""
    po = planar_pose(v, 'pose')
    st = v.new('State', po)
    g = Mat(3, 1, [v.real('g%d' % i) for i in range(3)], 'A')
    v.assume(*[le(ZERO, g(i)) for i in range(3)])
    e = v.new('Ellipsoid', v.str('name'), st, g)
    d, m = v.real('d'), v.real('m')
    v.assume(le(ZERO, d), le(num('1/10'), m))
    v.call(e, 'set_axis_lengths', Mat(3, 1, [add(d, m), m, m], 'A'))
    p = to_world(v, po, V3(neg(d), ZERO, v.real('z')))
    v.ensure('the agent lies inside its envelope', v.get(e, 'point_is_inside', p))


def changed(name):
    def task(v):
        a = agent(v, 'a', nonneg=False)
        x = {'set_pose': lambda: pose(v, 'x'), 'set_orientation': lambda: v.quat('x'), 'transform': lambda: pose(v, 'x')}.get(name, lambda: v.vec('x'))()
        v.call(a, name, x)
        judge(v, a, 'after ' + name)
    task.__name__ = name
    task.__doc__ = 'the envelope after %s, from any state before' % name
    return task


def transformed(v):
    """the envelope of a transformed agent"""
    a = agent(v, 'a', nonneg=False)
    t = v.ex.alloc(v.get(a, 'transformed', pose(v, 'x')))
    judge(v, t, 'transformed agent')


def after_margin(v):
    """the margin is the current one, whatever happened before"""
    a = agent(v, 'a', nonneg=False)
    v.call(a, 'set_linear_velocity', v.vec('w0'))
    v.call(a, 'set_safety_margin', v.real('m1'))
    v.call(a, 'set_position', v.vec('x'))
    judge(v, a, 'after changing the margin and the position', inside=False)


TASKS = [changed(n) for n in ('set_pose', 'set_position', 'set_orientation', 'set_linear_velocity', 'set_angular_velocity', 'transform')] + [transformed, after_margin, inside]
