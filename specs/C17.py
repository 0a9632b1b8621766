"""C17 Objects start fully defined and setters change only what they name."""
from .common import *

OBST = ['get_name', 'get_type', 'get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_reference_position', 'get_safety_margin']
GET = dict(Pose=['get_position', 'get_orientation'],
           State=['get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity'],
           Obstacle=OBST, Ellipsoid=OBST + ['get_axis_lengths', 'get_curvature_factor'],
           Agent=['get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_safety_margin'])
Z3 = V3(ZERO, ZERO, ZERO)
O3 = Mat(3, 1, [ONE] * 3, 'A')
NOROT = Quat(ONE, ZERO, ZERO, ZERO)


def seen(v, cls, o):
    r = {}
    for g in GET[cls]: r[g] = v.ex.copyval(v.get(o, g))
    return r


def same_rotation(a, b_):
    """the same rotation: unit quaternions are equal or opposite"""
    return or_(eqv(a, b_), eqv(a, Quat(*[neg(x) for x in (b_.w, b_.x, b_.y, b_.z)])))


def nested(v, cls, o):
    """the aggregated getters agree with the single ones"""
    if cls in ('State', 'Obstacle', 'Ellipsoid', 'Agent'):
        p = pose_of(v, o)
        v.ensure('the pose returned is that of the object', and_(eqv(v.get(p, 'get_position'), v.get(o, 'get_position')), eqv(v.get(p, 'get_orientation'), v.get(o, 'get_orientation'))))
    if cls in ('Obstacle', 'Ellipsoid', 'Agent'):
        s = v.ex.alloc(v.get(o, 'get_state'))
        v.ensure('the state returned is that of the object', and_(*[eqv(v.get(s, g), v.get(o, g)) for g in GET['State']]))


def starts(v, cls, what, o, **want):
    got = seen(v, cls, o)
    exp = dict(get_position=Z3, get_orientation=NOROT, get_linear_velocity=Z3, get_angular_velocity=Z3)
    if cls in ('Obstacle', 'Ellipsoid'):
        exp.update(get_axis_lengths=O3, get_curvature_factor=O3, get_safety_margin=Mat(3, 1, [ZERO] * 3, 'A'))
    if cls == 'Agent': exp['get_safety_margin'] = ZERO
    exp.update({'get_' + k: x for k, x in want.items()})
    exp.setdefault('get_reference_position', exp['get_position'])
    for g in GET[cls]:
        if g not in exp: continue
        e = exp[g]
        if g == 'get_orientation': v.ensure('%s: %s' % (what, g[4:]), same_rotation(got[g], e))
        else: v.ensure('%s: %s' % (what, g[4:]), eqv(got[g], e))
    nested(v, cls, o)


def poses(v):
    """constructors of Pose"""
    p, q = v.vec('p'), v.quat('q')
    x = [v.real(c) for c in 'xyz']
    starts(v, 'Pose', 'Pose()', v.new('Pose'))
    starts(v, 'Pose', 'Pose(position)', v.new('Pose', p), position=p)
    starts(v, 'Pose', 'Pose(position, orientation)', v.new('Pose', p, q), position=p, orientation=q)
    starts(v, 'Pose', 'Pose(x, y, z)', v.new('Pose', *x), position=V3(*x))
    starts(v, 'Pose', 'Pose(x, y, z, qw, qx, qy, qz)', v.new('Pose', *(x + [q.w, q.x, q.y, q.z])), position=V3(*x), orientation=q)
    o = pose(v, 'o', unit=False)
    c = v.new('Pose', o)
    v.ensure('copy of a pose', and_(*[eqv(v.get(c, g), v.get(o, g)) for g in GET['Pose']]))


def states(v):
    """constructors of State"""
    p, q = v.vec('p'), v.quat('q')
    lv, av = v.vec('lv'), v.vec('av')
    x = [v.real(c) for c in 'xyz']
    po = pose(v, 'pose')
    pp, pq = v.get(po, 'get_position'), v.get(po, 'get_orientation')
    starts(v, 'State', 'State()', v.new('State'))
    starts(v, 'State', 'State(pose)', v.new('State', po), position=pp, orientation=pq)
    starts(v, 'State', 'State(x, y, z)', v.new('State', *x), position=V3(*x))
    starts(v, 'State', 'State(position)', v.new('State', p), position=p)
    starts(v, 'State', 'State(position, orientation)', v.new('State', p, q), position=p, orientation=q)
    starts(v, 'State', 'State(position, orientation, velocities)', v.new('State', p, q, lv, av), position=p, orientation=q, linear_velocity=lv, angular_velocity=av)


def obstacles(v):
    """constructors of Ellipsoid"""
    made(v, 'Ellipsoid')


def plain_obstacles(v):
    """constructors of Obstacle"""
    made(v, 'Obstacle')


def made(v, cls):
    n, m = v.str('name'), v.real('margin')
    M = Mat(3, 1, [v.real('M[%d]' % i) for i in range(3)], 'A')
    mm = Mat(3, 1, [m] * 3, 'A')
    x = [v.real(c) for c in 'xyz']
    st = state(v, 'st')
    r = v.vec('ref')
    s = {g[4:]: v.get(st, g) for g in GET['State']}
    X = V3(*x)
    for what, args, want in (
            ('(name)', (n,), {}), ('(name, margin)', (n, m), dict(safety_margin=mm)), ('(name, margins)', (n, M), dict(safety_margin=M)),
            ('(name, x, y, z)', (n, *x), dict(position=X)), ('(name, x, y, z, margin)', (n, *x, m), dict(position=X, safety_margin=mm)),
            ('(name, x, y, z, margins)', (n, *x, M), dict(position=X, safety_margin=M)),
            ('(name, state)', (n, st), s), ('(name, state, margin)', (n, st, m), dict(s, safety_margin=mm)), ('(name, state, margins)', (n, st, M), dict(s, safety_margin=M)),
            ('(name, state, reference)', (n, st, r), dict(s, reference_position=r)),
            ('(name, state, reference, margin)', (n, st, r, m), dict(s, reference_position=r, safety_margin=mm)),
            ('(name, state, reference, margins)', (n, st, r, M), dict(s, reference_position=r, safety_margin=M))):
        starts(v, cls, cls + what, v.new(cls, *args), **dict(want, name=n))


def agents(v):
    """constructors of Agent"""
    st, m = state(v, 'st'), v.real('margin')
    s = {g[4:]: v.get(st, g) for g in GET['State']}
    starts(v, 'Agent', 'Agent()', v.new('Agent'))
    starts(v, 'Agent', 'Agent(margin)', v.new('Agent', m), safety_margin=m)
    starts(v, 'Agent', 'Agent(state)', v.new('Agent', st), **s)
    starts(v, 'Agent', 'Agent(state, margin)', v.new('Agent', st, m), **dict(s, safety_margin=m))


def setter(v, cls, o, name, args, changes):
    c = v.copy(o)
    before = seen(v, cls, c)
    v.call(c, name, *args)
    after = seen(v, cls, c)
    for g in GET[cls]:
        w = changes.get(g[4:])
        if w is None: v.ensure('%s of %s leaves the %s' % (name, cls, g[4:]), eqv(after[g], before[g]))
        elif g == 'get_orientation': v.ensure('%s of %s is read back' % (name, cls), same_rotation(after[g], w))
        else: v.ensure('%s of %s is read back (%s)' % (name, cls, g[4:]), eqv(after[g], w))
    nested(v, cls, c)


def common_setters(v, cls, o):
    p, q = v.vec('np'), v.quat('nq')
    x = [v.real(c) for c in ('nx', 'ny', 'nz')]
    setter(v, cls, o, 'set_position', (p,), dict(position=p))
    if cls != 'Agent': setter(v, cls, o, 'set_position', x, dict(position=V3(*x)))
    setter(v, cls, o, 'set_orientation', (q,), dict(orientation=q))
    if cls == 'Pose': return
    po = pose(v, 'npose')
    setter(v, cls, o, 'set_pose', (po,), dict(position=v.get(po, 'get_position'), orientation=v.get(po, 'get_orientation')))
    lv, av = v.vec('nlv'), v.vec('nav')
    setter(v, cls, o, 'set_linear_velocity', (lv,), dict(linear_velocity=lv))
    setter(v, cls, o, 'set_angular_velocity', (av,), dict(angular_velocity=av))


def set_pose_members(v):
    """setters of Pose"""
    common_setters(v, 'Pose', pose(v, 'o'))


def set_state_members(v):
    """setters of State"""
    common_setters(v, 'State', state(v, 'o'))


def set_ellipsoid_members(v):
    """setters of Ellipsoid"""
    o = ellipsoid(v, 'o', lengths=False)
    common_setters(v, 'Ellipsoid', o)
    r, n = v.vec('nr'), v.str('nn')
    L, k = Mat(3, 1, [v.real('nL%d' % i) for i in range(3)], 'A'), Mat(3, 1, [v.real('nk%d' % i) for i in range(3)], 'A')
    setter(v, 'Ellipsoid', o, 'set_reference_position', (r,), dict(reference_position=r))
    setter(v, 'Ellipsoid', o, 'set_name', (n,), dict(name=n))
    setter(v, 'Ellipsoid', o, 'set_axis_lengths', (L,), dict(axis_lengths=L))
    setter(v, 'Ellipsoid', o, 'set_curvature_factor', (k,), dict(curvature_factor=k))
    for i in range(3):
        v.ensure('single half-lengths and curvatures agree with the arrays', and_(eq(v.get(o, 'get_axis_lengths', num(i, 'I')), v.get(o, 'get_axis_lengths')(i)), eq(v.get(o, 'get_curvature_factor', num(i, 'I')), v.get(o, 'get_curvature_factor')(i))))


def set_agent_members(v):
    """setters of Agent"""
    o = agent(v, 'o', nonneg=False)
    common_setters(v, 'Agent', o)
    m = v.real('nm')
    setter(v, 'Agent', o, 'set_safety_margin', (m,), dict(safety_margin=m))


def ellipsoid_copy(v):
    """copies of ellipsoids"""
    o = v.obj('Ellipsoid', 'o')
    c = v.new('Ellipsoid', o)
    for g in GET['Ellipsoid']:
        if g == 'get_type': continue
        v.ensure('a copy has the same ' + g[4:], eqv(v.get(c, g), v.get(o, g)))


TASKS = [poses, states, obstacles, plain_obstacles, agents, set_pose_members, set_state_members, set_ellipsoid_members, set_agent_members, ellipsoid_copy]
