"""C07 Line/ellipsoid intersection points are exact and never missed."""
from .common import *


def run(v):
    e = ellipsoid(v, 'e')
    po = pose_of(v, e)
    L = [v.real('e.L[%d]' % i) for i in range(2)] + [ONE]
    y1, y2 = [V3(*[mul(L[i], v.real('%s[%d]' % (n, i))) for i in range(3)]) for n in ('u1', 'u2')]   # every point, in units of the half-lengths
    dx, dy = sub(y2(0), y1(0)), sub(y2(1), y1(1))
    v.assume(lt(ZERO, add(sq(dx), sq(dy))))
    a, s = axes(v, e), margins(v, e)
    l0, l1 = add(a(0), s(0)), add(a(1), s(1))
    f = lambda x, y: add(sq(div(x, l0)), sq(div(y, l1)))
    r = v.get(e, 'compute_interesection_points', to_world(v, po, y1), to_world(v, po, y2))
    return y1, dx, dy, f, r, po


A, B, C, TT, SS = [var(n) for n in ('A', 'B', 'C', 'T', 'S')]
QUAD = eq(add(mul(A, sq(TT)), mul(B, TT), C), ZERO)
DISC = sub(sq(B), mul(num(4), mul(A, C)))


def coefs(y1, dx, dy, f):
    """coefficients of f(y1 + t d) - 1 in t"""
    a = f(dx, dy); c = sub(f(y1(0), y1(1)), ONE)
    return a, sub(sub(f(add(y1(0), dx), add(y1(1), dy)), ONE), add(a, c)), c


def complete(v):
    """a crossing is reported exactly when the line meets the inflated ellipse"""
    y1, dx, dy, f, r, po = run(v)
    t = v.real('t')
    a, b_, c = coefs(y1, dx, dy, f)
    v.lemma('a real root needs a non-negative discriminant', (A, B, C, TT), implies(QUAD, le(ZERO, DISC)), (a, b_, c, t))
    v.ensure('no crossing is missed', implies(eq(f(add(y1(0), mul(t, dx)), add(y1(1), mul(t, dy))), ONE), r.e[0]))


def exact(v):
    """both reported points lie on the line, in the mid-plane and on the boundary"""
    y1, dx, dy, f, r, po = run(v)
    for i in range(2):
        p = in_frame(v, po, r.e[1].e[i])
        v.ensure('reported point %d is on the boundary' % (i + 1), implies(r.e[0], eq(f(p(0), p(1)), ONE)))
        v.ensure('reported point %d is on the line' % (i + 1), implies(r.e[0], eq(mul(sub(p(0), y1(0)), dy), mul(sub(p(1), y1(1)), dx))))
        v.ensure('reported point %d is in the mid-plane' % (i + 1), implies(r.e[0], eq(p(2), ZERO)))


def both(v):
    """the two points are the two crossings: they coincide only when the line is tangent"""
    y1, dx, dy, f, r, po = run(v)
    p, q = in_frame(v, po, r.e[1].e[0]), in_frame(v, po, r.e[1].e[1])
    a, b_, c = coefs(y1, dx, dy, f)
    s = sqrt(sub(sq(b_), mul(num(4), mul(a, c))))
    t = v.real('t')
    v.lemma('roots of a quadratic', (A, B, C, TT, SS), implies(and_(lt(ZERO, A), QUAD, le(ZERO, SS), eq(sq(SS), DISC)), or_(eq(TT, div(sub(neg(B), SS), mul(num(2), A))), eq(TT, div(sub(SS, B), mul(num(2), A))))), (a, b_, c, t, s))
    for i, (w, t0) in enumerate(((p, div(sub(neg(b_), s), mul(num(2), a))), (q, div(sub(s, b_), mul(num(2), a))))):
        v.ensure('root %d is reported point %d' % (i + 1, i + 1), implies(r.e[0], and_(eq(w(0), add(y1(0), mul(t0, dx))), eq(w(1), add(y1(1), mul(t0, dy))))))


TASKS = [complete, exact, both]
