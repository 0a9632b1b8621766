"""C22 The modulation matrix scales the normal component by 1-1/distance."""
from .common import *
from . import C04


def setup(v):
    """any obstacle whose normal is of unit length (C04 for ellipsoids) and whose distance is d"""
    o, n = v.sptr('o'), v.vec('n')
    d = v.real('d')
    v.assume(eq(lib.sqnorm(n), ONE))
    po = pose_of(v, o)
    v.assume(v.unit(v.get(po, 'get_orientation')))
    y = v.vec('y')
    v.assume(lt(ZERO, lib.sqnorm(y)))
    q = v.get(po, 'get_orientation')
    a = agent(v, 'a', at=add3(v.get(o, 'get_reference_position'), lib.qrot(q, y)))
    pos, m = v.get(a, 'get_position'), v.get(a, 'get_safety_margin')

    def normal(ex, f, ref, args, fn):
        if ref is not o.t: raise Unsupported('normal of another obstacle')
        ag = args[0]
        v.ensure('the normal is taken for this agent', eqv(v.get(ag, 'get_position'), pos))
        return n

    def dist(ex, f, ref, args, fn):
        if ref is not o.t: raise Unsupported('distance of another obstacle')
        v.ensure('the distance is taken at the agent with its margin', and_(eqv(ex.rv(args[0]), pos), eqv(ex.rv(args[1]), Mat(3, 1, [m] * 3, 'A'))))
        return d
    v.ex.vcontracts = {'compute_normal_to_agent': normal, 'compute_distance_to_point': dist}
    return o, a, n, d, y, q


def scaled(v):
    """for any obstacle whose normal is of unit length"""
    o, a, n, d, y, q = setup(v)
    v.assume(le(ONE, d), ne(dotv(n, y), ZERO))
    r = v.function('Modulation::compute_modulation_matrix', a, o)
    M = r.e[0]
    w = v.vec('w')
    u = lib.qrot(q, w)                      # every velocity
    mu = V3(*[add(*[mul(M(i, j), u(j)) for j in range(3)]) for i in range(3)])
    nw = lib.qrot(q, n)
    x, z = dotv(nw, u), dotv(nw, mu)
    v.ensure('normal component is scaled by 1-1/distance', eq(z, mul(sub(ONE, inv(d)), x)))
    v.ensure('the distance is returned', eq(r.e[2], d))


def ellipsoid_normal(v):
    """the contract of the normal used above holds for ellipsoids: unit length, outward"""
    C04.unit_outward(v)


def ellipsoid_normal_curvature(v):
    """and with any whole curvature"""
    C04.unit_outward_curvature(v)


TASKS = [scaled, ellipsoid_normal, ellipsoid_normal_curvature]
