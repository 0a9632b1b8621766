"""C02 Every pose keeps a unit orientation."""
from .common import *


def ori(v, o): return v.get(o, 'get_orientation')


def good(v, label, o, q):
    r = ori(v, o)
    v.ensure(label + ': unit norm', eq(lib.qn2(r), ONE))
    v.ensure(label + ': multiple of the supplied quaternion', parallel(q, r))


def nz(v, n):
    q = v.quat(n, unit=False)
    v.assume(lt(ZERO, lib.qn2(q)))
    return q


def pose_from_quaternion(v):
    """constructors with a quaternion: unit norm, parallel to the one supplied"""
    q = nz(v, 'q')
    good(v, 'Pose(position, quaternion)', v.new('Pose', v.vec('x'), q), q)


def pose_from_numbers(v):
    """constructor with seven numbers"""
    q = nz(v, 'q')
    good(v, 'Pose(7 numbers)', v.new('Pose', v.real('x'), v.real('y'), v.real('z'), q.w, q.x, q.y, q.z), q)


def pose_default(v):
    """no rotation by default"""
    for lv, n in ((v.new('Pose'), 'Pose()'), (v.new('Pose', v.vec('x')), 'Pose(position)'), (v.new('Pose', v.real('a'), v.real('b'), v.real('c')), 'Pose(x,y,z)'), (v.new('State'), 'State()'),
                  (v.new('State', v.vec('x')), 'State(position)'), (v.new('State', v.real('a'), v.real('b'), v.real('c')), 'State(x,y,z)'), (v.new('Ellipsoid', v.str('n')), 'Ellipsoid(name)'), (v.new('Agent'), 'Agent()')):
        v.ensure(n + ' has a unit orientation', eq(lib.qn2(ori(v, lv)), ONE))


def set_on_pose(v):
    """Pose::set_orientation, both overloads"""
    q = nz(v, 'q'); o = pose(v, 'p')
    v.call(o, 'set_orientation', q)
    good(v, 'Pose::set_orientation', o, q)


def set_on_state(v):
    """State::set_orientation"""
    q = nz(v, 'q'); o = state(v, 's')
    v.call(o, 'set_orientation', q)
    good(v, 'State::set_orientation', o, q)


def set_on_agent(v):
    """Agent::set_orientation"""
    q = nz(v, 'q'); o = agent(v, 'a')
    v.call(o, 'set_orientation', q)
    good(v, 'Agent::set_orientation', o, q)


def set_on_obstacle(v):
    """Obstacle::set_orientation"""
    q = nz(v, 'q'); o = ellipsoid(v, 'e')
    v.call(o, 'set_orientation', q)
    good(v, 'Obstacle::set_orientation', o, q)


def state_from_quaternion(v):
    """State built from position and quaternion"""
    q = nz(v, 'q')
    good(v, 'State(position, quaternion)', v.new('State', v.vec('x'), q), q)


def state_full(v):
    """State built with velocities"""
    q = nz(v, 'q')
    good(v, 'State(position, quaternion, velocities)', v.new('State', v.vec('x'), q, v.vec('lv'), v.vec('av')), q)


def carried(v):
    """State, Agent and Obstacle built from a pose or state keep its orientation"""
    p = pose(v, 'p'); q = ori(v, p)
    s = v.new('State', p)
    v.ensure('State(pose) keeps the orientation', eqv(ori(v, s), q))
    v.ensure('Agent(state) keeps the orientation', eqv(ori(v, v.new('Agent', s)), q))
    v.ensure('Ellipsoid(name, state) keeps the orientation', eqv(ori(v, v.new('Ellipsoid', v.str('n'), s)), q))
    v.ensure('Ellipsoid(name, state, reference) keeps the orientation', eqv(ori(v, v.new('Ellipsoid', v.str('n'), s, v.vec('r'), v.real('m'))), q))
    for mk in (lambda: pose(v, 'p2'), lambda: state(v, 's2'), lambda: ellipsoid(v, 'e2'), lambda: agent(v, 'a2')):
        o = mk()
        if v.dyncls(o).endswith('::Pose'): v.call(o, 'set_position', v.vec('y'))
        else: v.call(o, 'set_pose', p); v.ensure(v.dyncls(o) + '::set_pose keeps the orientation', eqv(ori(v, o), q))
        v.ensure(v.dyncls(o) + ' has a unit orientation', eq(lib.qn2(ori(v, o)), ONE))


def composition(v):
    """composition and inverse of unit orientations are unit"""
    p, q = pose(v, 'p'), pose(v, 'q')
    r = v.get(p, 'operator*', q)
    v.ensure('p*q has a unit orientation', eq(lib.qn2(ori(v, r)), ONE))
    v.ensure('inverse has a unit orientation', eq(lib.qn2(ori(v, v.get(p, 'inverse'))), ONE))
    v.call(p, 'operator*=', q)
    v.ensure('p*=q has a unit orientation', eq(lib.qn2(ori(v, p)), ONE))


TASKS = [pose_from_quaternion, pose_from_numbers, pose_default, set_on_pose, set_on_state, set_on_agent, set_on_obstacle, state_from_quaternion, state_full, carried, composition]
