"""C27 Sampling grids cover their range exactly."""
from .common import *
from doav.values import Tup

LS = NS + 'MathTools::linspace'


def linspace(v):
    """n points, both ends, even steps"""
    a, b_, n = v.real('start'), v.real('end'), v.int('n')
    v.assume(le(num(2, 'I'), n))
    r = v.function('MathTools::linspace', a, b_, n)
    k = fresh('k', 'I')
    v.ensure('exactly n points', eq(r.n, n))
    v.ensure('starts at the first bound', eq(r.get(ti(0)), a))
    v.ensure('ends at the second bound', eq(r.get(sub(n, ti(1))), b_))
    step = div(sub(b_, a), sub(toreal(n), ONE))
    v.ensure('evenly spaced', all_(k, 0, n, eq(r.get(k), add(a, mul(toreal(k), step)))))


def rejected(v):
    """fewer than two points raise a standard exception"""
    a, b_, n = v.real('start'), v.real('end'), v.int('n')
    v.assume(lt(n, ti(2)))
    e = v.raises(lambda: v.function('MathTools::linspace', a, b_, n))
    v.ensure('fewer than two points are rejected with a standard exception', TRUE if e and v.derives(e, 'std::exception') else FALSE)


def accepted(v):
    """two or more do not"""
    a, b_, n = v.real('start'), v.real('end'), v.int('n')
    v.assume(le(ti(2), n))
    v.ensure('two points or more are accepted', FALSE if v.raises(lambda: v.function('MathTools::linspace', a, b_, n)) else TRUE)


def grid(v):
    """the full product, row by row"""
    x0, y0, x1, y1 = [v.real(n) for n in ('x0', 'y0', 'x1', 'y1')]
    n, m = v.int('n'), v.int('m')
    v.assume(le(ti(2), n), le(ti(2), m))
    r = v.function("MathTools::gridspace", Tup((x0, y0)), Tup((x1, y1)), Tup((n, m)))
    i, j = fresh('i', 'I'), fresh('j', 'I')
    v.ensure('as many points as pairs', eq(r.n, mul(n, m)))
    sx = div(sub(x1, x0), sub(toreal(n), ONE)); sy = div(sub(y1, y0), sub(toreal(m), ONE))
    at = lambda i, j: r.get(add(mul(i, m), j))
    v.ensure('row by row, each pair exactly once', all_(i, 0, n, all_(j, 0, m, and_(eq(at(i, j)(0), add(x0, mul(toreal(i), sx))), eq(at(i, j)(1), add(y0, mul(toreal(j), sy)))))))


def random(v):
    """random numbers lie in the interval"""
    a, b_ = v.real('a'), v.real('b')
    r = v.function('MathTools::rand_float', a, b_)
    v.ensure('between the bounds', or_(and_(le(a, r), le(r, b_)), and_(le(b_, r), le(r, a))))


TASKS = [linspace, rejected, accepted, grid, random]
