"""C24 Modulation: pass-through when nothing is near, no NaN, no side effects."""
from .common import *
from doav.values import Seq

OBS = ['get_name', 'get_type', 'get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_safety_margin']


def number(x): return not_(lib.isnan(x))


def setup(v, **fixed):
    """any agent, any environment"""
    reference_setter(v)
    a = agent(v, 'a', nonneg=False)
    e = v.obj('Environment', 'env')
    v.assume(*[number(v.get(a, 'get_linear_velocity')(i)) for i in range(3)])
    v.assume(le(ti(0), v.get(e, 'get_obstacle_list').n))
    flags = [fixed.get(n, v.bool(n)) for n in ('is_local', 'repulsion', 'planar')]
    return a, e, flags, [v.real('critical'), v.real('power')]


def same(v, what, before, o):
    for g, x in zip(OBS + ['get_reference_position'], before): v.ensure('%s (%s)' % (what, g[4:]), eqv(v.get(o, g), x))


def nothing_published(v):
    """pass-through of an empty environment"""
    a, e, flags, ps = setup(v)
    v.assume(eq(v.get(e, 'get_obstacle_list').n, ti(0)))
    w = v.get(a, 'get_linear_velocity')
    r = v.function('Modulation::modulate_velocity', a, e, *flags, *ps)
    v.ensure('velocity unchanged when nothing is published', eqv(r, w))


def nothing_near(v):
    """pass-through in local mode without contact"""
    a, e, flags, ps = setup(v, is_local=TRUE)
    asked = []

    def meets(ex, fn, this, args):
        env = v.lvof(v.call(a, 'get_envelope'))
        L, M = ex.rv(args[0]), v.get(e, 'get_obstacle_list')
        i = fresh('i', 'I')
        v.ensure('the published obstacles are looked at', and_(eq(L.n, M.n), all_(i, 0, M.n, eq(L.get(i).t, M.get(i).t))))
        v.ensure('the envelope is what is tested', TRUE if this.root == env.root and this.path == env.path else FALSE)
        return FALSE
    for f in v.prog.byq[NS + 'Obstacle::is_intersecting']:
        if 'deque' in v.prog.tstr(f['params'][0]['t']): v.ex.contracts[f['usr']] = meets
    w = v.get(a, 'get_linear_velocity')
    r = v.function('Modulation::modulate_velocity', a, e, *flags, *ps)
    v.ensure('velocity unchanged when nothing is near', eqv(r, w))


def contracts(v):
    """the parts of the modulation, by contract: pure functions, except that a shift sets one reference point (see the frame tasks)"""
    for n in ('compute_modulation_matrix', 'weight_obstacles', 'compute_relative_velocities', 'compute_dynamical_system_frame'): functional(v, 'Modulation::' + n)
    functional(v, 'Obstacle::generate_repulsion')

    def shifted(ex, this, args, r):
        ex.call_fn(v.method(v.cls('Obstacle'), 'set_reference_position', [v.vec('x')]), this, [Mat(3, 1, [app('shifted[%d]%s' % (i, ex.epoch()), (this.root[1],), 'R') for i in range(3)])])
    functional(v, 'Obstacle::shift_reference_point', effect=shifted)


def general(v, planar):
    a, e, flags, ps = setup(v, planar=TRUE if planar else FALSE)
    contracts(v)
    for f in v.prog.byq[NS + 'Obstacle::is_intersecting']:
        if 'deque' in v.prog.tstr(f['params'][0]['t']): v.ex.contracts[f['usr']] = lambda ex, fn, this, args: var('near', 'B')
    o = v.sptr('any')
    before = [v.ex.copyval(v.get(o, g)) for g in OBS + ['get_reference_position']]
    L = v.ex.copyval(v.get(e, 'get_obstacle_list'))
    r = v.function('Modulation::modulate_velocity', a, e, *flags, *ps)
    for i in range(3): v.ensure('the result is a number', number(r(i)))
    if planar: before = before[:-1]
    same(v, 'no obstacle changes' if not planar else 'only reference points change', before, o)
    i = fresh('i', 'I')
    M = v.get(e, 'get_obstacle_list')
    v.ensure('the published list is unchanged', and_(eq(M.n, L.n), all_(i, 0, L.n, eq(M.get(i).t, L.get(i).t))))


def untouched(v, a, o, others, run):
    """running a part of the modulation changes no obstacle and not the agent"""
    before = [v.ex.copyval(v.get(o, g)) for g in OBS + ['get_reference_position']]
    mine = [v.ex.copyval(v.get(a, g)) for g in AG]
    run()
    same(v, 'no obstacle changes', before if others else before[:-1], o)
    for g, x in zip(AG, mine): v.ensure('the agent does not change', eqv(v.get(a, g), x))


AG = ['get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_safety_margin']


def matrix_frame(v):
    """computing a modulation matrix changes nothing"""
    a, o = agent(v, 'a', nonneg=False), v.sptr('o')
    untouched(v, a, v.sptr('any'), True, lambda: v.function('Modulation::compute_modulation_matrix', a, o))


def velocities_frame(v):
    """computing relative velocities changes nothing"""
    f = v.prog.byq[NS + 'Modulation::compute_relative_velocities'][0]
    a = agent(v, 'a', nonneg=False)
    xs = [v.ex.sym(p['t'], n) for p, n in zip(f['params'][1:], ('obs', 'dist', 'w', 'base'))]
    untouched(v, a, v.sptr('any'), True, lambda: v.function('Modulation::compute_relative_velocities', a, *xs))


def repulsion_frame(v):
    """generating repulsion changes nothing"""
    a, o = agent(v, 'a', nonneg=False), v.sptr('o')
    untouched(v, a, v.sptr('any'), True, lambda: v.get(o, 'generate_repulsion', a, num('11/10')))


def shift_frame(v):
    """shifting sets the reference point of that obstacle and nothing else"""
    reference_setter(v)
    a, o, x = agent(v, 'a', nonneg=False), v.sptr('o'), v.sptr('any')
    r = v.ex.copyval(v.get(x, 'get_reference_position'))
    untouched(v, a, x, False, lambda: v.call(o, 'shift_reference_point', a))
    v.ensure('other obstacles keep their reference point', implies(ne(x.t, o.t), eqv(v.get(x, 'get_reference_position'), r)))


def plain(v):
    """without planar modulation: the result is a number, nothing changes"""
    general(v, False)


def planar(v):
    """with it: the result is a number, nothing but reference points changes"""
    general(v, True)


TASKS = [nothing_published, nothing_near, matrix_frame, velocities_frame, repulsion_frame, shift_frame, plain, planar]
