"""C23 The obstacle velocity seen by the modulation is the weighted mean of the obstacles' surface velocities."""
from .common import *

FN = NS + 'Modulation::compute_relative_velocities'


def inputs(v):
    f = v.prog.byq[FN][0]
    ts = [p['t'] for p in f['params']]
    obs, dist, w, bases = [v.ex.sym(t, n) for t, n in zip(ts[1:], ('obs', 'dist', 'w', 'base'))]
    n = obs.n
    v.assume(eq(dist.r, n), eq(w.r, n), eq(bases.n, n), le(ti(0), n))
    k = fresh('k', 'I')
    B = bases.get(k)
    # square orthonormal matrices: rows (equivalently columns) orthonormal
    v.assume(all_(k, 0, n, and_(*[eq(add(*[mul(B(i, l), B(j, l)) for l in range(3)]), ONE if i == j else ZERO) for i in range(3) for j in range(i + 1)])))
    return agent(v, 'a'), obs, dist, w, bases, n


def term(v, a, obs, dist, w, k):
    o = obs.get(k)
    off = sub3(v.get(a, 'get_position'), v.get(o, 'get_position'))
    sv = add3(v.get(o, 'get_linear_velocity'), cross(v.get(o, 'get_angular_velocity'), off))
    d = dist.get(k, ti(0))
    ex = app('exp', (neg(sub(ite(lt(ONE, d), d, ONE), ONE)),), 'R')
    return scale(mul(w.get(k, ti(0)), ex), sv)


def formula(v):
    """the sum over any number of obstacles"""
    a, obs, dist, w, bases, n = inputs(v)
    r = v.function('Modulation::compute_relative_velocities', a, obs, dist, w, bases)
    k = fresh('k', 'I')
    t = term(v, a, obs, dist, w, k)
    va = v.get(a, 'get_linear_velocity')
    for i in range(3):
        s = sum_(k, 0, n, t(i))
        v.ensure('obstacle velocity is the weighted sum', eq(r.e[1](i), s))
        v.ensure('relative velocity is the difference', eq(r.e[0](i), sub(va(i), s)))


def at_rest(v):
    """by the formula above, for obstacles at rest"""
    a, obs, dist, w, bases, n = inputs(v)
    k = fresh('k', 'I')
    o = obs.get(k)
    v.assume(all_(k, 0, n, and_(*[eq(v.get(o, g)(i), ZERO) for g in ('get_linear_velocity', 'get_angular_velocity') for i in range(3)])))
    t = term(v, a, obs, dist, w, k)
    va = v.get(a, 'get_linear_velocity')
    for i in range(3): v.ensure('obstacles at rest leave the velocity alone', eq(sub(va(i), sum_(k, 0, n, t(i))), va(i)))


TASKS = [formula, at_rest]
