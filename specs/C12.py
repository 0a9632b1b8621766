"""C12 Hull queries are defined for every bearing and are mutually consistent."""
from .common import *
from doav.values import Tup

LOOK = 'MathTools::find_closest_points'


def lookup(v):
    """any matrix of at least one column whose searched row does not decrease, any searched value"""
    f = v.prog.byq[NS + LOOK][0]
    A = v.ex.sym(f['params'][0]['t'], 'A')
    n, x = A.c, v.vec('x')
    k = fresh('k', 'I')
    at = lambda k: A.get(ti(2), k)
    v.assume(lt(ti(0), n), le(ti(3), A.r), all_(k, 0, n, implies(lt(add(k, ti(1)), n), le(at(k), at(add(k, ti(1)))))))
    j = fresh('j', 'I')
    v.assume(all_(j, 0, n, all_(k, 0, j, le(at(k), at(j)))))
    r = v.function(LOOK, A, x, ti(2))
    i, s = r.e
    v.ensure('the first position is valid', and_(le(ti(0), i), lt(i, n)))
    v.ensure('the second position is valid and the cyclic successor of the first', eq(s, ite(eq(add(i, ti(1)), n), ti(0), add(i, ti(1)))))
    found = and_(le(x(2), at(i)), all_(k, 0, i, lt(at(k), x(2))))
    v.ensure('the first one whose bearing is not smaller, or the first of all', or_(found, and_(eq(i, ti(0)), all_(k, 0, n, lt(at(k), x(2))))))


def hull(v, inner):
    """any hull as compute_from_primitives leaves it (C11): points with positive radii in the horizontal plane of its pose"""
    h = v.obj('StarShapeHull', 'h', is_inside=inner)
    po = pose_of(v, h)
    v.assume(v.unit(v.get(po, 'get_orientation')))
    f = v.ex.load(h).f
    P = f[NS + 'StarShapeHull::polar_surface_points']
    C = f[NS + 'StarShapeHull::cartesian_surface_points']
    n = P.c
    k = fresh('k', 'I')
    v.assume(eq(P.r, ti(3)), eq(C.r, ti(3)), eq(C.c, n), lt(ti(0), n), all_(k, 0, n, lt(ZERO, P.get(ti(0), k))))
    i = v.int('first')
    j = ite(eq(add(i, ti(1)), n), ti(0), add(i, ti(1)))
    v.assume(le(ti(0), i), lt(i, n))
    return h, po, P, C, n, i, j


def by_contract(v, P, n, i, j, y):
    def c(ex, fn, this, args):
        A, p, row = [ex.rv(a) for a in args]
        k = fresh('k', 'I')
        v.ensure('the hull points are searched', and_(eq(A.c, n), all_(k, 0, n, eq(A.get(row, k), P.get(ti(2), k)))))
        v.ensure('by the bearing of the point', eq(p(int(val(row))), app('atan2', (y(1), y(0)), 'R')))
        return Tup([i, j])
    for f in v.prog.byq[NS + LOOK]: v.ex.contracts[f['usr']] = c


def queries(inner):
    def task(v):
        h, po, P, C, n, i, j = hull(v, TRUE if inner else FALSE)
        x = v.vec('x')
        y = in_frame(v, po, x)
        by_contract(v, P, n, i, j, y)
        v.assume(lt(ZERO, lib.sqnorm(y)), lt(ZERO, P.get(ti(0), i)))
        rho, R = sqrt(lib.sqnorm(y)), P.get(ti(0), i)
        m = Mat(3, 1, [v.real('m[%d]' % k) for k in range(3)], 'A')
        v.ensure('the distance is the ratio of the radii', eq(v.get(h, 'compute_distance_to_point', x, m), div(R, rho) if inner else div(rho, R)))
        v.ensure('inside exactly when the radius is smaller', iff(v.get(h, 'point_is_inside', x), lt(rho, R)))
    task.__name__ = 'inner' if inner else 'outer'
    task.__doc__ = 'distance and inside test of an %s hull, with the lookup by contract' % task.__name__
    return task


def normal(v):
    """the normal is horizontal, unit and orthogonal to its hull segment"""
    h, po, P, C, n, i, j = hull(v, v.bool('inner'))
    col = lambda k: V3(*[C.get(ti(l), k) for l in range(3)])        # the hull points in space (C11: those of the radii and bearings)
    seg = sub3(col(i), col(j))
    v.assume(lt(ZERO, add(sq(seg(0)), sq(seg(1)))))
    a = agent(v, 'a', nonneg=False)
    by_contract(v, P, n, i, j, in_frame(v, po, v.get(a, 'get_position')))
    r = v.get(h, 'compute_normal_to_agent', a)
    v.ensure('the normal is horizontal', eq(r(2), ZERO))
    v.ensure('the normal is of unit length', eq(lib.sqnorm(r), ONE))
    v.ensure('the normal is orthogonal to the hull segment', eq(dotv(r, seg), ZERO))


TASKS = [lookup, queries(False), queries(True), normal]
