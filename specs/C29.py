"""C29 An aggregate answers through the right hull."""
from .common import *
from . import C10


def role_fields(v):
    """the fields in which a new inner and a new outer hull differ"""
    a, b_ = v.ex.load(v.new('StarShapeHull', TRUE)), v.ex.load(v.new('StarShapeHull', FALSE))
    r = [k for k in a.f if isinstance(a.f[k], T) and isinstance(b_.f[k], T) and a.f[k] is not b_.f[k]]
    if not r: raise Unsupported('inner and outer hulls do not differ')
    return r


def hulls(v):
    """contracts of the hulls: what they answer is a function of which of the two they are, of the point and of nothing else of the aggregate (C12)"""
    keys = role_fields(v)
    calls = []

    def role(ex, this):
        r = ex.load(this)
        return tuple(r.f[k] for k in keys)

    def answer(name):
        def c(ex, fn, this, args):
            a = ex.tmp(args[0]) if args else None
            flat = []
            if args:
                x = ex.rv(args[0])
                if isinstance(x, Rec): x = v.get(a, 'get_position')
                flat = [t for _, t in ex.flat(x)]
            return ex.symval(fn['ret'], lambda p, s, idx=(): app('hull:%s%s' % (name, p), role(ex, this) + tuple(flat) + tuple(idx), s))
        return c
    for n in ('point_is_inside', 'compute_distance_to_point', 'compute_normal_to_agent', 'is_closed'):
        for f in v.prog.byq[NS + 'StarShapeHull::' + n]: v.ex.contracts[f['usr']] = answer(n)

    def compute(ex, fn, this, args):
        if len(args) != 2: raise Unsupported('hull computed around its own centre')
        calls.append((role(ex, this), ex.copyval(ex.rv(args[0])), ex.rv(args[1])))
    for f in v.prog.byq[NS + 'StarShapeHull::compute_from_primitives']: v.ex.contracts[f['usr']] = compute
    return calls


def aggregate(v):
    """an aggregate of any primitives, moved anywhere"""
    reference_setter(v)
    g = v.new('Aggregate', C10.obstacles(v, 'P', 1))
    v.call(g, 'set_pose', pose(v, 'pose'))
    v.call(g, 'set_reference_position', v.vec('ref'))
    return g


def of(v, inner, name, *args):
    """the answer of a hull"""
    h = v.new('StarShapeHull', inner)
    return v.get(h, name, *args)


def is_inside(v, g, x):
    i = fresh('i', 'I')
    Q = v.get(g, 'get_primitives')
    return or_(of(v, FALSE, 'point_is_inside', x), ex_(i, 0, Q.n, v.get(Q.get(i), 'point_is_inside', x)))


def inside(v):
    """inside the outer hull or a primitive"""
    hulls(v)
    g, x = aggregate(v), v.vec('x')
    v.ensure('inside exactly when inside the outer hull or a primitive', iff(v.get(g, 'point_is_inside', x), is_inside(v, g, x)))


def answers(v):
    """distance and normal come from the hull the statement names"""
    hulls(v)
    g = aggregate(v)
    a = agent(v, 'a', nonneg=False)
    x = v.get(a, 'get_position')
    M = Mat(3, 1, [v.real('M[%d]' % i) for i in range(3)], 'A')
    inner = v.ex.branch(is_inside(v, g, x))
    which = 'inner' if inner else 'outer'
    B = TRUE if inner else FALSE
    v.ensure('the distance is that of the %s hull' % which, eq(v.get(g, 'compute_distance_to_point', x, M), of(v, B, 'compute_distance_to_point', x, M)))
    v.ensure('the distance to an agent is that of the %s hull' % which, eq(v.get(g, 'compute_distance_to_agent', a), of(v, B, 'compute_distance_to_point', x, M)))
    v.ensure('the normal is that of the %s hull' % which, eqv(v.get(g, 'compute_normal_to_agent', a), of(v, B, 'compute_normal_to_agent', a)))


def closed(v):
    """closed as its outer hull"""
    hulls(v)
    g = aggregate(v)
    v.ensure('closed exactly when the outer hull is', iff(v.get(g, 'is_closed'), of(v, FALSE, 'is_closed')))


def recomputing(v):
    """recomputing the hulls changes no primitive"""
    calls = hulls(v)
    g = aggregate(v)
    del calls[:]
    v.call(g, 'update_hull')
    recomputed(v, g, calls)


def recomputed(v, g, calls):
    keys = role_fields(v)
    Q, r = v.get(g, 'get_primitives'), v.get(g, 'get_reference_position')
    i = fresh('i', 'I')
    for inner in (True, False):
        h = v.ex.load(v.new('StarShapeHull', TRUE if inner else FALSE))
        mine = [c for c in calls if c[0] == tuple(h.f[k] for k in keys)]
        what = 'the %s hull' % ('inner' if inner else 'outer')
        v.ensure(what + ' is recomputed', TRUE if mine else FALSE)
        if mine: v.ensure(what + ' is recomputed from the primitives around the reference point', and_(eq(mine[-1][1].n, Q.n), all_(i, 0, Q.n, eq(mine[-1][1].get(i).t, Q.get(i).t)), eqv(mine[-1][2], r)))


def built(v):
    """a new aggregate has its hulls computed; so has one to which a primitive is added, if asked"""
    calls = hulls(v)
    reference_setter(v)
    g = v.new('Aggregate', C10.obstacles(v, 'P', 1))
    recomputed(v, g, calls)
    del calls[:]
    v.call(g, 'add_primitive', v.sptr('o'))
    recomputed(v, g, calls)


TASKS = [inside, answers, closed, recomputing, built]
