"""Shared pre-states: arbitrary poses, states, ellipsoids and agents."""
from doav.spec import *
from doav.lib import ti
from doav.values import Seq, DMat


def V3(*xs): return Mat(3, 1, list(xs))
def half(n=1, d=2): return num('%d/%d' % (n, d))


def pose(v, n, unit=True):
    o = v.obj('Pose', n)
    if unit: v.assume(v.unit(v.get(o, 'get_orientation')))
    return o


def planar_pose(v, n):
    """pose rotated about the vertical axis only"""
    o = v.obj('Pose', n)
    q = v.get(o, 'get_orientation')
    v.assume(v.unit(q), eq(q.x, ZERO), eq(q.y, ZERO))
    return o


def state(v, n, unit=True, planar=False):
    o = v.obj('State', n)
    q = v.get(o, 'get_orientation')
    if unit: v.assume(v.unit(q))
    if planar: v.assume(eq(q.x, ZERO), eq(q.y, ZERO))
    return o


def ellipsoid(v, n, unit=True, planar=False, curvature=False, lengths=True, ref=True):
    """arbitrary ellipsoid, made by its public constructor and setters; half-lengths and margins not negative and together above 1e-4"""
    st = state(v, n + '.state', unit, planar)
    m = Mat(3, 1, [v.real('%s.margin[%d]' % (n, i)) for i in range(3)], 'A')
    if ref: e = v.new('Ellipsoid', v.str(n + '.name'), st, v.vec(n + '.ref'), m)
    else: e = v.new('Ellipsoid', v.str(n + '.name'), st, m)
    # inflated half-lengths L and margins m are arbitrary, the half-lengths are L-m
    L = [v.real('%s.L[%d]' % (n, i)) for i in range(3)]
    a = Mat(3, 1, [sub(L[i], m(i)) for i in range(3)], 'A')
    if lengths:
        for i in range(3): v.assume(le(ZERO, a(i)), le(ZERO, m(i)), lt(num('1/10000'), L[i]))
        v.call(e, 'set_axis_lengths', a)
    if curvature:
        ks = [v.int('%s.curv%d' % (n, i)) for i in range(3)]
        for k in ks: v.assume(le(num(1, 'I'), k))
        v.call(e, 'set_curvature_factor', Mat(3, 1, [toreal(k) for k in ks], 'A'))
    return e


def margins(v, e): return v.get(e, 'get_safety_margin')
def axes(v, e): return v.get(e, 'get_axis_lengths')


def agent(v, n, st=None, margin=None, nonneg=True, at=None, vel=None):
    """arbitrary agent, made by its public constructor (at a given position, with a given linear velocity)"""
    st = st if st is not None else state(v, n + '.state')
    if at is not None: v.call(st, 'set_position', at)
    if vel is not None: v.call(st, 'set_linear_velocity', vel)
    m = margin if margin is not None else v.real(n + '.margin')
    if nonneg and not isnum(m): v.assume(le(ZERO, m))
    return v.new('Agent', st, m)


def in_frame(v, po, x):
    """coordinates of x in the frame of a pose, by the rotation formula (independent of Pose::inverse)"""
    q = v.get(po, 'get_orientation'); p = v.get(po, 'get_position')
    return lib.qrot(lib.qconj(q), V3(*[sub(x(i), p(i)) for i in range(3)]))


def to_world(v, po, x):
    q = v.get(po, 'get_orientation'); p = v.get(po, 'get_position')
    r = lib.qrot(q, x)
    return V3(*[add(r(i), p(i)) for i in range(3)])


def pose_of(v, o): return v.ex.alloc(v.get(o, 'get_pose'))


def dotv(a, b_): return add(*[mul(a(i), b_(i)) for i in range(3)])
def sub3(a, b_): return V3(*[sub(a(i), b_(i)) for i in range(3)])
def add3(a, b_): return V3(*[add(a(i), b_(i)) for i in range(3)])
def scale(c, a): return V3(*[mul(c, a(i)) for i in range(3)])
def cross(a, b_): return lib.cross(a, b_)
def sq(x): return mul(x, x)


def opaque(v, name, accepts=None):
    """stand for a (pure) member function by its contract: a function of the object's state and the arguments, whose body is verified elsewhere"""
    fs = [f for f in v.prog.byq.get(NS + name, []) if accepts is None or accepts(f)]
    if not fs: raise Unsupported('function ' + name)
    states = v.__dict__.setdefault('opaque_states', [])

    def version(x):
        for n, y in enumerate(states):
            if y is x: return n
        states.append(x)
        return len(states) - 1
    for f in fs:
        def c(ex, fn, this, args, f=f):
            st = version(ex.load(this)) if this is not None else 0
            flat = []
            for a in args: flat += [t for _, t in ex.flat(ex.rv(a))]
            return ex.symval(fn['ret'], lambda p, s, idx=(): app('c:%s/%d.%d%s' % (name, len(fn['params']), st, p), tuple(flat) + tuple(idx), s))
        v.ex.contracts[f['usr']] = c


def reference_setter(v):
    """contract of the virtual set_reference_position on an arbitrary obstacle: that of the base class (its own reference
    point is set, nothing else of any obstacle changes); an aggregate among the obstacles would pass it on to its primitives"""
    v.ex.vcontracts = dict(getattr(v.ex, 'vcontracts', {}), set_reference_position=lambda ex, f, ref, args, fn: ex.call_fn(fn, LV(('sym', ref, v.cls('Obstacle'))), args))


def functional(v, name, accepts=None, effect=None):
    """stand for a function by the weakest contract of a pure one: some result that depends on its arguments only (and, for an
    arbitrary obstacle, on the obstacle and the state of the obstacles); it changes nothing but what `effect` says"""
    fs = [f for f in v.prog.byq.get(NS + name, []) if accepts is None or accepts(f)]
    if not fs: raise Unsupported('function ' + name)
    for f in fs:
        def c(ex, fn, this, args):
            flat = []; tag = ex.epoch()
            for a in ([this] if this is not None else []) + list(args):
                if isinstance(a, LV) and isinstance(a.root, tuple): flat.append(a.root[1]); continue
                x = ex.rv(a)
                if isinstance(x, (Seq, DMat)):
                    if getattr(ex, 'generic_depth', 0): raise Unsupported('contract of %s inside a loop' % name)
                    tag += '!%d' % fresh('u').id
                else: flat += [t for _, t in ex.flat(x)]
            r = ex.symval(fn['ret'], lambda p, s, idx=(): app('c:%s%s%s' % (name, tag, p), tuple(flat) + tuple(idx), s))
            if effect: effect(ex, this, args, r)
            return r
        v.ex.contracts[f['usr']] = c
