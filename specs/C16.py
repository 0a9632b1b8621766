"""C16 Copying or transforming an agent leaves the original untouched."""
from .common import *

ST = ['get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_safety_margin']
ENV = ['get_name', 'get_type', 'get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_reference_position', 'get_safety_margin']


def seen(v, a):
    r = {}
    for g in ST: r[g] = v.ex.copyval(v.get(a, g))
    e = v.call(a, 'get_envelope')
    for g in ENV + ['get_axis_lengths', 'get_curvature_factor']: r['envelope ' + g] = v.ex.copyval(v.get(e, g))
    return r


def same(v, what, x, y):
    for k in x: v.ensure('%s (%s)' % (what, k.replace('get_', '')), eqv(x[k], y[k]))


def original(v):
    """any agent: built, then moved"""
    a = agent(v, 'a', nonneg=False)
    v.call(a, 'set_linear_velocity', v.vec('w0'))
    v.call(a, 'set_safety_margin', v.real('m1'))
    return a


def fresh_agent(v):
    """an agent that was only built"""
    return agent(v, 'a', nonneg=False)


def changes(v, c):
    """every way of changing an agent"""
    return (('set_pose', (pose(v, 'x1'),)), ('set_position', (v.vec('x2'),)), ('set_orientation', (v.quat('x3'),)), ('set_linear_velocity', (v.vec('x4'),)),
            ('set_angular_velocity', (v.vec('x5'),)), ('set_safety_margin', (v.real('x6'),)), ('transform', (pose(v, 'x7'),)))


def change(v, c, k):
    n, x = changes(v, c)[k]
    v.call(c, n, *x)
    return n


def copied(make):
    def task(v):
        a = make(v)
        before = seen(v, a)
        c = v.new('Agent', a)
        mine = seen(v, c)
        same(v, 'a copy equals the original', mine, before)
        same(v, 'copying leaves the original', seen(v, a), before)
    task.__name__ = 'copied_' + make.__name__
    task.__doc__ = 'a copy shows what the original shows'
    return task


def isolated(k):
    def task(v):
        a = original(v)
        c = v.new('Agent', a)
        d = v.new('Agent', a)
        before, other = seen(v, a), seen(v, d)
        n = change(v, c, k)
        same(v, '%s of the copy does not show in the original' % n, seen(v, a), before)
        mine = seen(v, c)
        n = change(v, a, k)
        same(v, '%s of the original does not show in the copy' % n, seen(v, c), mine)
        same(v, '%s does not show in another copy' % n, seen(v, d), other)
    task.__name__ = 'isolated_%d' % k
    task.__doc__ = 'a change of original or copy shows only there (change %d)' % k
    return task


def transformed(v):
    """the transformed agent, and the original afterwards and after changes of the other"""
    a = original(v)
    before = seen(v, a)
    p = pose(v, 'p')
    x, q = to_world(v, p, v.get(a, 'get_position')), lib.qmul(v.get(p, 'get_orientation'), v.get(a, 'get_orientation'))
    t = v.ex.alloc(v.get(a, 'transformed', p))
    same(v, 'transforming leaves the original', seen(v, a), before)
    got = seen(v, t)
    v.ensure('position is transformed', eqv(got['get_position'], x))
    g = got['get_orientation']
    v.ensure('orientation is transformed', or_(eqv(g, q), eqv(g, Quat(*[neg(y) for y in (q.w, q.x, q.y, q.z)]))))
    for g in ST[2:]: v.ensure('transforming keeps the ' + g[4:], eqv(got[g], before[g]))
    for k in range(len(changes(v, a))): change(v, t, k)
    same(v, 'changes of the transformed agent leave the original', seen(v, a), before)


def transformed_own(v):
    """changes of the original leave the transformed agent"""
    a = original(v)
    t = v.ex.alloc(v.get(a, 'transformed', pose(v, 'p')))
    got = seen(v, t)
    for k in range(len(changes(v, a))): change(v, a, k)
    same(v, 'changes of the original leave the transformed agent', seen(v, t), got)


TASKS = [copied(original), copied(fresh_agent)] + [isolated(k) for k in range(7)] + [transformed, transformed_own]
