"""C32 The area of an ellipsoid is that of its surface."""
from .common import *


def the_area(v, e, margin): return v.get(e, 'area', margin)


def lengths(v, e, margin):
    a, m = axes(v, e), margins(v, e)
    return [add(a(i), m(i)) if margin else a(i) for i in range(3)]


P = lambda x: pow_(x, num('8/5'))
ROOT = lambda x: pow_(x, num('5/8'))
PAIRS = ((0, 1), (0, 2), (1, 2))


def roots(v, x):
    """the exponents 8/5 and 5/8 undo each other"""
    v.step('exponents cancel', eq(ROOT(P(x)), x))


def sphere(v, margin=True):
    """exact for spheres (with their margin)"""
    e = ellipsoid(v, 'e')
    r = v.real('r')
    l = lengths(v, e, margin)
    v.assume(le(ZERO, r), *[eq(x, r) for x in l])
    roots(v, mul(r, r))
    for i, j in PAIRS: v.step('products', eq(P(mul(l[i], l[j])), P(mul(r, r))))
    v.ensure('a sphere has the area 4 pi r^2', eq(the_area(v, e, margin), mul(num(4), PI, r, r)))


def bare_sphere(v):
    """exact for spheres (without their margin)"""
    sphere(v, False)


def ordered(v):
    """larger half-lengths have a larger area"""
    a, b_ = ellipsoid(v, 'a'), ellipsoid(v, 'b')
    for margin in (True, False):
        l, k = lengths(v, a, margin), lengths(v, b_, margin)
        v.assume(*[le(ZERO, x) for x in l], *[le(x, y) for x, y in zip(l, k)])
        for i, j in PAIRS: v.step('products', le(mul(l[i], l[j]), mul(k[i], k[j])))
        v.ensure('the area grows with the half-lengths', le(the_area(v, a, margin), the_area(v, b_, margin)))


def between(v, margin=True):
    """between the areas of the inscribed and of the circumscribed sphere (with the margin)"""
    e = ellipsoid(v, 'e')
    lo, hi = v.real('lo'), v.real('hi')
    l = lengths(v, e, margin)
    v.assume(le(ZERO, lo), *[and_(le(lo, x), le(x, hi)) for x in l])
    A = the_area(v, e, margin)
    mean = lambda f: mul(num('1/3'), add(*[f(mul(l[i], l[j])) for i, j in PAIRS]))
    for x, less, what in ((mul(lo, lo), lambda a, b_: le(a, b_), 'at least that of the inscribed sphere'), (mul(hi, hi), lambda a, b_: le(b_, a), 'at most that of the circumscribed sphere')):
        roots(v, x)
        for i, j in PAIRS:
            v.step('products', and_(less(x, mul(l[i], l[j])), le(ZERO, mul(l[i], l[j]))))
            v.step('powers of the products', and_(less(P(x), P(mul(l[i], l[j]))), le(ZERO, P(mul(l[i], l[j])))))
        v.step('their mean', and_(less(P(x), mean(P)), le(ZERO, P(x))))
        v.step('its root', less(ROOT(P(x)), ROOT(mean(P))))
        v.ensure(what, less(mul(num(4), PI, x), A))


def bare_between(v):
    """between the areas of the inscribed and of the circumscribed sphere (without the margin)"""
    between(v, False)


TASKS = [sphere, bare_sphere, ordered, between, bare_between]
