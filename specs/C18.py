"""C18 Path existence and collision answers match their definition."""
from .common import *


def path(v):
    """for every list: the answer is that of the inside tests and of is_closed (any other test of an obstacle may answer anything)"""
    for f in v.prog.byq[NS + 'Obstacle::is_intersecting']: v.ex.contracts[f['usr']] = lambda ex, fn, this, args: fresh('meets', 'B')
    a = agent(v, 'agent')
    f = v.prog.byq[NS + 'Agent::exist_path'][0]
    obs = v.ex.sym(f['params'][1]['t'], 'obstacles')
    v.assume(le(ti(0), obs.n))
    t = v.vec('target')
    r = v.get(a, 'exist_path', t, obs)
    x = v.get(a, 'get_position')
    k = fresh('k', 'I')
    o = obs.get(k)
    inside_t, inside_a, closed = v.get(o, 'point_is_inside', t), v.get(o, 'point_is_inside', x), v.get(o, 'is_closed')
    v.ensure('a path exists exactly when no closed obstacle separates agent and target', iff(r, all_(k, 0, obs.n, implies(closed, iff(inside_t, inside_a)))))


def contact(v):
    """in_obstacle is the intersection test of the ball around the agent"""
    a = agent(v, 'agent', nonneg=False); o = v.sptr('obstacle')
    x, m = v.get(a, 'get_position'), v.get(a, 'get_safety_margin')
    asked = []

    def meets(ex, fn, this, args):
        asked.append(1)
        ball = this
        r = ite(lt(num('1/10'), m), m, num('1/10'))
        v.ensure('the ball is at the agent', eqv(v.get(ball, 'get_position'), x))
        L = add_margin(v, ball)
        v.ensure('its radius is the margin, at least 0.1', and_(*[eq(L(i), r) for i in range(3)]))
        k = v.get(ball, 'get_curvature_factor')
        v.ensure('it is a ball', and_(*[eq(k(i), ONE) for i in range(3)]))
        v.ensure('it is tested against the obstacle', TRUE if ex.tmp(args[0]).root == v.lvof(o).root else FALSE)
        return var('meets', 'B')
    for f in v.prog.byq[NS + 'Obstacle::is_intersecting']:
        if 'deque' not in v.prog.tstr(f['params'][0]['t']): v.ex.contracts[f['usr']] = meets
    r = v.get(a, 'in_obstacle', o)
    v.ensure('the answer is that of the intersection test', iff(r, var('meets', 'B')))


def add_margin(v, e):
    a, m = axes(v, e), margins(v, e)
    return V3(*[add(a(i), m(i)) for i in range(3)])


def kinds(v):
    """ellipsoids are closed, and every obstacle whose kind does not say otherwise"""
    v.ensure('an ellipsoid is closed', v.get(ellipsoid(v, 'e'), 'is_closed'))
    v.ensure('closed unless the kind says otherwise', v.run_body(v.prog.byq[NS + 'Obstacle::is_closed'][0], v.lvof(v.sptr('o')), []))


TASKS = [path, contact, kinds]
