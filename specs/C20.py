"""C20 Modulation eigenvalues stay in their range and depend monotonically on the distance."""
from .common import *


def diag(m): return [m.e[i] if m.k == 'D' else m(i, i) for i in range(3)]


def run(v, d, rho=None): return diag(v.function('Modulation::compute_diagonal_eigenvalues', *([d] if rho is None else [d, rho])))


def params(v):
    d, rho = v.real('d'), v.real('rho')
    v.assume(lt(ZERO, rho))
    return d, rho


def definition(v):
    """the eigenvalues by their formula"""
    d, rho = params(v)
    a, b_, c = run(v, d, rho)
    de = ite(le(d, ONE), ONE, pow_(d, neg(div(ONE, rho))))
    v.ensure('eigenvalue of the reference direction is 1-d', eq(a, sub(ONE, de)))
    v.ensure('tangential eigenvalues are 1+d', and_(eq(b_, add(ONE, de)), eq(c, add(ONE, de))))


def default_reactivity(v):
    """the overload without reactivity is that with 1"""
    d = v.real('d')
    x, y = run(v, d), run(v, d, ONE)
    v.ensure('default reactivity is 1', and_(*[eq(p, q) for p, q in zip(x, y)]))
    v.ensure('with reactivity 1, d is the inverse distance', eq(x[0], ite(le(d, ONE), ZERO, sub(ONE, inv(d)))))


def ranges(v):
    """the ranges of the eigenvalues"""
    d, rho = params(v)
    a, b_, c = run(v, d, rho)
    v.ensure('reference eigenvalue in [0,1)', and_(le(ZERO, a), lt(a, ONE)))
    v.ensure('tangential eigenvalues in (1,2]', and_(*[and_(lt(ONE, x), le(x, num(2))) for x in (b_, c)]))
    v.ensure('zero exactly at or inside the surface', iff(eq(a, ZERO), le(d, ONE)))


def monotone(v):
    """monotonicity in the distance"""
    d, rho = params(v); e = v.real('e')
    v.assume(le(d, e))
    a, b_ = run(v, d, rho), run(v, e, rho)
    v.ensure('reference eigenvalue never decreases with the distance', le(a[0], b_[0]))
    v.ensure('tangential eigenvalues never increase with the distance', and_(le(b_[1], a[1]), le(b_[2], a[2])))


TASKS = [definition, default_reactivity, ranges, monotone]
