"""C19 Obstacle weights form a distribution that favours the nearest."""
from .common import *

FN = NS + 'Modulation::weight_obstacles'


def run(v):
    f = v.prog.byq[FN][0]
    d = v.ex.sym(f['params'][0]['t'], 'dist')
    n = d.r
    v.assume(lt(ti(0), n))
    cd, wp = v.real('critical'), v.real('power')
    v.assume(lt(ZERO, wp))
    w = v.function('Modulation::weight_obstacles', d, cd, wp)
    D = lambda k: d.get(k, ti(0))
    W = lambda k: w.get(k, ti(0))
    k = fresh('k', 'I')
    crit = ex_(k, 0, n, le(D(k), cd))
    return n, D, W, w, cd, wp, crit


def shape(v):
    """as many weights as distances"""
    n, D, W, w, cd, wp, crit = run(v)
    v.ensure('one weight per obstacle', eq(w.r, n))


def distribution(v):
    """weights are not negative and sum to one"""
    n, D, W, w, cd, wp, crit = run(v)
    k = fresh('k', 'I')
    v.ensure('weights are not negative', all_(k, 0, n, le(ZERO, W(k))))
    v.ensure('weights sum to 1', eq(sum_(k, 0, n, W(k)), ONE))


def critical(v):
    """obstacles at or below the critical distance share the weight equally"""
    n, D, W, w, cd, wp, crit = run(v)
    k = fresh('k', 'I'); j = fresh('j', 'I')
    num_ = sum_(j, 0, n, ite(le(D(j), cd), ONE, ZERO))
    v.ensure('critical obstacles share the weight equally, the others get none', implies(crit, all_(k, 0, n, eq(W(k), ite(le(D(k), cd), inv(num_), ZERO)))))


def ordinary(v):
    """otherwise weights are positive and proportional to the power of the excess"""
    n, D, W, w, cd, wp, crit = run(v)
    k = fresh('k', 'I'); j = fresh('j', 'I')
    p = lambda k: pow_(sub(D(k), cd), neg(wp))
    v.ensure('otherwise proportional to the excess to minus the power', implies(not_(crit), all_(k, 0, n, eq(W(k), div(p(k), sum_(j, 0, n, p(j)))))))
    v.ensure('otherwise every weight is positive', implies(not_(crit), all_(k, 0, n, lt(ZERO, W(k)))))
    v.ensure('a nearer obstacle never weighs less', implies(not_(crit), all_(k, 0, n, all_(j, 0, n, implies(lt(D(j), D(k)), le(W(k), W(j)))))))


TASKS = [shape, distribution, critical, ordinary]
