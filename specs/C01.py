"""C01 Poses act as rigid transformations."""
from doav.spec import *


def pose(v, n, unit=True):
    o = v.obj('Pose', n)
    if unit: v.assume(v.unit(v.get(o, 'get_orientation')))
    return o


def compose(v):
    """(p*q)*x = p*(q*x)"""
    p, q, x = pose(v, 'p'), pose(v, 'q'), v.vec('x')
    pq = v.get(p, 'operator*', q)
    v.ensure('composition acts as q then p', eqv(v.get(pq, 'operator*', x), v.get(p, 'operator*', v.get(q, 'operator*', x))))


def inplace(v):
    """p*=q leaves in p what p*q returns and q as it was"""
    p, q, x = pose(v, 'p'), pose(v, 'q'), v.vec('x')
    before = [v.ex.copyval(v.get(q, g)) for g in ('get_position', 'get_orientation')]
    pq = v.get(p, 'operator*', q)
    r = v.copy(p)
    v.call(r, 'operator*=', q)
    v.ensure('in-place composition gives the position of the composed pose', eqv(v.get(r, 'get_position'), v.get(pq, 'get_position')))
    v.ensure('in-place composition gives the orientation of the composed pose', eqv(v.get(r, 'get_orientation'), v.get(pq, 'get_orientation')))
    v.ensure('composition leaves its operand unchanged', and_(eqv(v.get(q, 'get_position'), before[0]), eqv(v.get(q, 'get_orientation'), before[1])))


def inplace_self(v):
    """the same when both operands are one object"""
    p = pose(v, 'p')
    pq = v.get(p, 'operator*', p)
    r = v.copy(p)
    v.call(r, 'operator*=', r)
    v.ensure('in-place composition with itself', and_(eqv(v.get(r, 'get_position'), v.get(pq, 'get_position')), eqv(v.get(r, 'get_orientation'), v.get(pq, 'get_orientation'))))


def inverse(v):
    """the inverse undoes the pose on either side"""
    p, x = pose(v, 'p'), v.vec('x')
    i = v.get(p, 'inverse')
    v.ensure('inverse after pose', eqv(v.get(i, 'operator*', v.get(p, 'operator*', x)), x))
    v.ensure('pose after inverse', eqv(v.get(p, 'operator*', v.get(i, 'operator*', x)), x))


def isometry(v):
    """distances between points are preserved"""
    p, x, y = pose(v, 'p'), v.vec('x'), v.vec('y')
    a, b_ = v.get(p, 'operator*', x), v.get(p, 'operator*', y)
    d = lambda s, t: add(*[powi(sub(s(i), t(i)), 2) for i in range(3)])
    v.ensure('distances are preserved', eq(d(a, b_), d(x, y)))


def rigid(v):
    """the action is p + R x with R the rotation of the orientation (orientation preserving)"""
    p, x = pose(v, 'p'), v.vec('x')
    a = v.get(p, 'operator*', x)
    r = lib.qrot(v.get(p, 'get_orientation'), x)
    v.ensure('action is rotation then translation', eqv(a, Mat(3, 1, [add(r(i), v.get(p, 'get_position')(i)) for i in range(3)])))


TASKS = [compose, inplace, inplace_self, inverse, isometry, rigid]
