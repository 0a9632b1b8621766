"""C13 The environment is a faithful registry of obstacles by name."""
from .common import *

TAKEN, UNKNOWN = NS + 'Exceptions::ObstacleAlreadyExistsException', NS + 'Exceptions::ObstacleNotInEnvironmentException'


def environment(v):
    """an environment in an arbitrary state; aggregation itself is another property (C09): here it yields any list"""
    for f in v.prog.byq.get(NS + 'Aggregation::aggregate_obstacles', []):
        v.ex.contracts[f['usr']] = lambda ex, fn, this, args: ex.sym(fn['ret'], 'aggregation')
    return v.obj('Environment', 'env')


def look(v, e, k):
    """(exception, obstacle) of a look-up"""
    r = []
    c = v.raises(lambda: r.append(v.get(e, 'operator[]', k)))
    return c, (r[0] if r else None)


def reg(v, e, k):
    """what is registered under k, seen without aggregation, on a copy"""
    c = v.copy(e)
    v.call(c, 'set_aggregated', FALSE)
    return look(v, c, k)


def ref(o): return o.t if isinstance(o, SPtr) else None


def expect(v, what, got, want):
    (c, o), (d, p) = got, want
    if c is not None or d is not None:
        v.ensure(what, TRUE if c == d else FALSE)
        return
    v.ensure(what, eq(o.t, p.t) if isinstance(o, SPtr) and isinstance(p, SPtr) else FALSE)


def the_exception(v, what, c, base): v.ensure(what, TRUE if c is not None and v.derives(c, base) else FALSE)


def start(v):
    """a new environment knows no name"""
    for args in ((), (v.bool('aggregated'),)):
        e = v.new('Environment', *args)
        c, o = look(v, e, v.str('k'))
        the_exception(v, 'a new environment knows no name', c, UNKNOWN)
        v.ensure('a new environment publishes nothing', eq(v.get(e, 'get_obstacle_list').n, ti(0)))


def add_(v):
    """adding: the name is then found, other names as before; a taken name raises and changes nothing"""
    e, o, s = environment(v), v.sptr('o'), v.str('s')
    nm = v.get(o, 'get_name')
    mine, other = reg(v, e, nm), reg(v, e, s)
    c = v.raises(lambda: v.call(e, 'add_obstacle', o))
    if mine[0] is None:
        the_exception(v, 'adding a taken name raises the exception', c, TAKEN)
        expect(v, 'a refused addition changes nothing', reg(v, e, s), other)
        return
    v.ensure('adding a free name succeeds', TRUE if c is None else FALSE)
    expect(v, 'the obstacle is registered under its name', reg(v, e, nm), (None, o))
    if not v.ex.branch(eq(s, nm)): expect(v, 'adding affects no other name', reg(v, e, s), other)


def remove_(v):
    """removing: the name is then unknown, other names as before; an unknown name raises and changes nothing"""
    e, nm, s = environment(v), v.str('nm'), v.str('s')
    mine, other = reg(v, e, nm), reg(v, e, s)
    c = v.raises(lambda: v.call(e, 'remove_obstacle', nm))
    if mine[0] is not None:
        the_exception(v, 'removing an unknown name raises the exception', c, UNKNOWN)
        expect(v, 'a refused removal changes nothing', reg(v, e, s), other)
        return
    v.ensure('removing a known name succeeds', TRUE if c is None else FALSE)
    the_exception(v, 'a removed name is unknown', reg(v, e, nm)[0], UNKNOWN)
    if not v.ex.branch(eq(s, nm)): expect(v, 'removing affects no other name', reg(v, e, s), other)


def lookup(v):
    """without aggregation only registered names are found; with it, names of the published list too; nothing is registered by it"""
    e, k, s = environment(v), v.str('k'), v.str('s')
    L = v.get(e, 'get_obstacle_list')
    v.assume(le(ti(0), L.n))
    mine, other = reg(v, e, k), reg(v, e, s)
    agg = v.ex.branch(v.get(e, 'is_aggregated'))
    i = fresh('i', 'I')
    named = ex_(i, 0, L.n, eq(v.get(L.get(i), 'get_name'), k))
    c, o = look(v, e, k)
    if mine[0] is None: expect(v, 'a registered name is found', (c, o), mine)
    elif c is not None:
        the_exception(v, 'an unknown name raises the exception', c, UNKNOWN)
        if agg: v.ensure('names of the published list are found', not_(named))
    else:
        v.ensure('an unknown name raises the exception', TRUE if agg else FALSE)
        v.ensure('an aggregate is found in the published list', and_(eq(v.get(o, 'get_name'), k), ex_(i, 0, L.n, eq(L.get(i).t, o.t))))
    expect(v, 'a look-up changes no registration', reg(v, e, s), other)
    M = v.get(e, 'get_obstacle_list')
    v.ensure('a look-up does not change the published list', and_(eq(M.n, L.n), all_(i, 0, L.n, eq(M.get(i).t, L.get(i).t))))


def others(v):
    """updating and switching aggregation on or off do not touch the registrations"""
    e, s = environment(v), v.str('s')
    other = reg(v, e, s)
    v.call(e, 'update')
    expect(v, 'an update changes no registration', reg(v, e, s), other)
    v.call(e, 'set_aggregated', v.bool('agg'))
    expect(v, 'switching aggregation changes no registration', reg(v, e, s), other)
    v.ensure('the aggregation mode is read back', iff(v.get(e, 'is_aggregated'), v.bool('agg')))


TASKS = [start, add_, remove_, lookup, others]
