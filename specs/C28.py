"""C28 Polar and cartesian coordinates are inverse, and sorting columns permutes them."""
from .common import *


def polar(v):
    """polar and back is the identity, the radius is the norm"""
    x = v.vec('x')
    p = v.function('MathTools::cartesian_to_polar', x)
    r = v.function('MathTools::polar_to_cartesian', p)
    n2 = lib.sqnorm(x)
    v.ensure('radius is not negative and is the distance from the origin', and_(le(ZERO, p(0)), eq(sq(p(0)), n2)))
    h = sqrt(add(sq(x(0)), sq(x(1))))
    s = sqrt(sub(ONE, sq(div(x(2), p(0)))))
    v.step('the horizontal distance is the radius times the sine of the polar angle', or_(eq(p(0), ZERO), eq(mul(p(0), s), h)))
    for i in range(3): v.ensure('there and back, coordinate %d' % i, eq(r(i), x(i)))


def sorting(v):
    """sorting permutes the columns into increasing angle"""
    f = v.prog.byq[NS + 'MathTools::sorted_cols_by_theta'][0]
    A = v.ex.sym(f['params'][0]['t'], 'A')
    n = A.c
    v.assume(le(ti(2), A.r), le(ti(0), n))
    B = v.function('MathTools::sorted_cols_by_theta', A)
    i, j, l = fresh('i', 'I'), fresh('j', 'I'), fresh('l', 'I')
    v.ensure('same size', and_(eq(B.r, A.r), eq(B.c, n)))
    v.ensure('columns in order of the angle', all_(j, 0, n, all_(i, 0, j, le(B.get(ti(1), i), B.get(ti(1), j)))))
    # the permutation introduced by std::sort maps every column of the result to the column of the input it equals
    p, q = v.perm()
    v.ensure('every column is a column of the matrix, each once', all_(j, 0, n, and_(le(ti(0), p(j)), lt(p(j), n), eq(q(p(j)), j), all_(l, 0, A.r, eq(B.get(l, j), A.get(l, p(j)))))))
    v.ensure('every column of the matrix occurs', all_(j, 0, n, and_(le(ti(0), q(j)), lt(q(j), n), eq(p(q(j)), j))))


def sign(v):
    """the sign function"""
    x = v.real('x')
    s = v.function('MathTools::sign', x)
    v.ensure('sign', eq(s, ite(lt(ZERO, x), num(1, 'I'), ite(lt(x, ZERO), num(-1, 'I'), num(0, 'I')))))


TASKS = [polar, sorting, sign]
