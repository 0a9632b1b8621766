"""C21 Modulation bases are orthonormal, respectively built on the reference direction."""
from .common import *


def run(v):
    e, n = ellipsoid(v, 'e'), v.vec('n')
    v.assume(eq(lib.sqnorm(n), ONE))
    # arbitrary reference point r and agent position r + R y, in the obstacle's frame
    y, r = v.vec('y'), v.vec('r')
    v.assume(lt(ZERO, lib.sqnorm(y)))
    po = pose_of(v, e)
    v.call(e, 'set_reference_position', to_world(v, po, r))
    a = agent(v, 'a', at=to_world(v, po, add3(r, y)))
    res = v.function('Modulation::compute_basis_matrices', n, a, e)
    return n, y, res.e[0], res.e[1]


def col(m, j): return V3(*[m(i, j) for i in range(3)])


def orthonormal(v):
    """normal first, orthonormal, for every unit normal"""
    n, y, ref, orth = run(v)
    v.ensure('the normal is the first column', eqv(col(orth, 0), n))
    for i in range(3):
        for j in range(i + 1): v.ensure('columns %d and %d of the orthogonal basis are orthonormal' % (j, i), eq(dotv(col(orth, i), col(orth, j)), ONE if i == j else ZERO))


def reference(v):
    """reference direction first, the others orthogonal to the normal"""
    n, y, ref, orth = run(v)
    v.ensure('the first column is a unit vector', eq(lib.sqnorm(col(ref, 0)), ONE))
    v.ensure('the first column points from the reference point to the agent', and_(parallel(y, col(ref, 0)), lt(ZERO, dotv(y, col(ref, 0)))))
    for j in (1, 2):
        v.ensure('column %d is tangent' % j, eq(dotv(col(ref, j), n), ZERO))
        v.ensure('column %d is a unit vector' % j, eq(lib.sqnorm(col(ref, j)), ONE))
    v.ensure('the two tangents are orthogonal', eq(dotv(col(ref, 1), col(ref, 2)), ZERO))


def invertible(v):
    """invertible when the reference direction is not tangent"""
    n, y, ref, orth = run(v)
    r = col(ref, 0)
    v.assume(ne(dotv(y, n), ZERO))
    d = dotv(r, cross(col(ref, 1), col(ref, 2)))
    # the tangents span the plane of the surface, so the triple product is +-(n.r)
    v.ensure('the determinant is the normal part of the reference direction', eq(sq(d), sq(dotv(r, n))))
    v.ensure('the normal part is not zero', ne(dotv(r, n), ZERO))


TASKS = [orthonormal, reference, invertible]
