"""C14 An environment update publishes exactly the registered obstacles."""
from .common import *
from doav.values import MapV
from . import C13


def registry(v, e):
    """the name -> obstacle map of the environment; that look-ups answer from it is an obligation"""
    r = v.ex.load(e)
    ms = [x for x in r.f.values() if isinstance(x, MapV)]
    if len(ms) != 1: raise Unsupported('registry of the environment')
    return ms[0]


def setup(v, aggregated):
    e = v.obj('Environment', 'env')
    v.call(e, 'set_aggregated', TRUE if aggregated else FALSE)
    m = registry(v, e)
    s, t = fresh('s', 'Str'), fresh('t', 'Str')
    # each obstacle is registered under one name
    v.assume(qall(s, qall(t, implies(and_(m.has(s), m.has(t), ne(s, t)), ne(m.get(s).t, m.get(t).t)))))
    k = v.str('k')
    c, o = C13.reg(v, e, k)
    if c is None: v.ensure('look-ups answer from the registry', and_(m.has(k), eq(o.t, m.get(k).t)))
    else: v.ensure('look-ups answer from the registry', not_(m.has(k)))
    return e, m, k


def listed(v, m, L, k, what):
    """L holds every registered obstacle exactly once and nothing else"""
    i, j, s = fresh('i', 'I'), fresh('j', 'I'), fresh('s', 'Str')
    v.ensure(what + ': every registered obstacle is in it', implies(m.has(k), ex_(i, 0, L.n, eq(L.get(i).t, m.get(k).t))))
    v.ensure(what + ': none twice', all_(i, 0, L.n, all_(j, 0, i, ne(L.get(i).t, L.get(j).t))))
    r = var('stranger', 'Ref')
    v.ensure(what + ': nothing else', all_(i, 0, L.n, ne(L.get(i).t, r)), extra=(qall(s, implies(m.has(s), ne(m.get(s).t, r))),))


def snapshot(v, e): return v.ex.copyval(v.get(e, 'get_obstacle_list'))


def same_list(v, what, M, L):
    i = fresh('i', 'I')
    v.ensure(what, and_(eq(M.n, L.n), all_(i, 0, L.n, eq(M.get(i).t, L.get(i).t))))


def plain(v):
    """without aggregation: the published list is the registered obstacles, each once"""
    e, m, k = setup(v, False)
    v.call(e, 'update')
    listed(v, m, snapshot(v, e), k, 'the published list')
    c, o = C13.reg(v, e, k)
    v.ensure('the registered obstacles stay registered', not_(m.has(k)) if c is not None else and_(m.has(k), eq(o.t, m.get(k).t)))


def aggregating(v):
    """with aggregation: the published list is the aggregation of that list"""
    e, m, k = setup(v, True)
    given = []

    def agg(ex, fn, this, args):
        given.append(ex.copyval(ex.rv(args[0])))
        return ex.sym(fn['ret'], 'aggregation')
    for f in v.prog.byq[NS + 'Aggregation::aggregate_obstacles']: v.ex.contracts[f['usr']] = agg
    f = v.prog.byq[NS + 'Aggregation::aggregate_obstacles'][0]
    v.call(e, 'update')
    if len(given) != 1: raise Unsupported('aggregated %d times' % len(given))
    listed(v, m, given[0], k, 'the list that is aggregated')
    same_list(v, 'the aggregation is published', snapshot(v, e), v.ex.sym(f['ret'], 'aggregation'))
    c, o = C13.reg(v, e, k)
    v.ensure('the registered obstacles stay registered', not_(m.has(k)) if c is not None else and_(m.has(k), eq(o.t, m.get(k).t)))


def stable(op):
    def task(v):
        e = C13.environment(v)
        L = snapshot(v, e)
        v.assume(le(ti(0), L.n))
        v.raises(lambda: op(v, e))
        same_list(v, 'the published list changes at updates only', snapshot(v, e), L)
    task.__name__ = op.__name__
    task.__doc__ = 'the published list is the same after ' + op.__name__
    return task


def adding(v, e): v.call(e, 'add_obstacle', v.sptr('o'))
def removing(v, e): v.call(e, 'remove_obstacle', v.str('k'))
def looking(v, e): v.call(e, 'operator[]', v.str('k'))
def switching(v, e): v.call(e, 'set_aggregated', v.bool('b'))


TASKS = [plain, aggregating] + [stable(f) for f in (adding, removing, looking, switching)]
