"""C33 Every access stays inside its container."""
import importlib
from .common import *
from doav import loops
from doav.values import Seq, Tup
from . import C11, C12

LABELS = ('access',)


def checked(v, *more):
    """only the obligations 'the element accessed exists' (and the named ones) are recorded"""
    v.ex.checked = True
    v.only = LABELS + more


class Sized(dict):
    """contracts in which weight_obstacles returns one weight per distance (C19 proves that)"""

    def __init__(self, v):
        self.usr = {f['usr'] for f in v.prog.byq[NS + 'Modulation::weight_obstacles']}
        dict.__init__(self, v.ex.contracts)

    def __setitem__(self, u, c):
        def sized(ex, fn, this, args):
            w = c(ex, fn, this, args)
            ex.assume(eq(lib.dims(w)[0], lib.dims(ex.rv(args[0]))[0]))
            return w
        dict.__setitem__(self, u, sized if u in self.usr else c)


def of(c, n, *more):
    """the accesses of the functions that the named task executes, for the same inputs; facts that task proves on the way (its
    steps and loop invariants) are used here"""
    m = importlib.import_module('specs.' + c)
    f = next(f for f in m.TASKS if f.__name__ == n)

    def task(v):
        checked(v, *more)
        v.ex.contracts = Sized(v)
        f(v)
    task.__name__ = '%s_%s' % (c, n)
    task.__doc__ = 'accesses: ' + (f.__doc__ or '')
    return task


def any_hull(v, resolution):
    """a hull in any state whose point matrices have the size its constructor gives them (task room)"""
    h = v.obj('StarShapeHull', 'h')
    P, C, r = C11.points(v, h), C11.space(v, h), C11.kept(v, h, 'resolution')
    v.assume(le(ti(resolution), r), eq(P.r, ti(3)), eq(C.r, ti(3)), eq(P.c, r), eq(C.c, r))
    return h


def room(v):
    """a new hull has a column for each of its bearings"""
    checked(v)
    r = v.int('resolution')
    v.assume(le(ti(0), r))
    h = v.new('StarShapeHull', v.bool('inner'), r, v.real('least'))
    for what in (C11.points, C11.space):
        M = what(v, h)
        v.ensure('access: the hull has a column for each bearing', and_(eq(M.r, ti(3)), eq(M.c, r)) if not isinstance(M, Mat) else FALSE)


def made(v):
    """computing a hull of any resolution of at least 2, from any primitives, around any point"""
    h, L = any_hull(v, 2), C11.primitives(v)
    checked(v)
    C11.crossings(v, lambda b_, ps: None)

    def plan(ex, accs):
        P = next((a for a in accs.values() if isinstance(a.v0, DMat) and C11.is_points(v, h, a)), None)
        i = C11.counter(ex, accs)
        n = C11.kept(v, h, 'resolution')
        if P is not None and i is not None:
            return lambda stage: [('access: the counter stays in range', and_(le(ti(0), C11.now(ex, i)), le(C11.now(ex, i), n)))]
        Q = [a for a in accs.values() if isinstance(a.v0, Seq) and a.v0.items == [] and a.v0.tag and ex.prog.types[ex.strip(a.v0.tag)].get('rec')]
        if len(Q) == 1 and i is not None:
            return lambda stage: [('access: the counter stays in range', and_(le(ti(0), C11.now(ex, i)), le(C11.now(ex, i), L.n), le(ti(0), C11.now(ex, Q[0]).n)))]
        return None
    v.ex.invariants = [plan]
    v.call(h, 'compute_from_primitives', L, v.vec('ref'))


def asked(v):
    """queries of a hull with at least one column"""
    h = any_hull(v, 1)
    checked(v)
    i, j = v.int('first'), v.int('second')
    n = C11.kept(v, h, 'resolution')

    def lookup(ex, fn, this, args):
        A = ex.rv(args[0])
        row = ex.rv(args[2])
        ex.within('the row searched exists and is not empty', le(ti(0), row), lt(row, A.r), lt(ti(0), A.c))
        v.assume(le(ti(0), i), lt(i, A.c), le(ti(0), j), lt(j, A.c))
        return Tup([i, j])
    for f in v.prog.byq[NS + C12.LOOK]: v.ex.contracts[f['usr']] = lookup
    x = v.vec('x')
    v.get(h, 'point_is_inside', x)
    v.get(h, 'compute_distance_to_point', x, Mat(3, 1, [v.real('m%d' % k) for k in range(3)], 'A'))
    a = agent(v, 'a', nonneg=False)
    v.get(h, 'compute_normal_to_agent', a)
    v.get(h, 'is_closed')


def found(v):
    """the lookup of the closest points in a matrix of at least one column and any row of it"""
    f = v.prog.byq[NS + C12.LOOK][0]
    A = v.ex.sym(f['params'][0]['t'], 'A')
    row = v.int('row')
    v.assume(lt(ti(0), A.c), le(ti(0), row), lt(row, A.r), lt(row, ti(3)))
    checked(v)
    i, j = v.function(C12.LOOK, A, v.vec('x'), row).e
    v.ensure('access: the positions found exist', and_(le(ti(0), i), lt(i, A.c), le(ti(0), j), lt(j, A.c)))


RANGES = ('the counter stays in range', 'as many groups as obstacles', 'there are aggregates or none', 'every group is that of an aggregate', 'nothing is lost')
TASKS = [room, made, asked, found, of('C06', 'samples'), of('C06', 'real'), of('C07', 'complete'), of('C07', 'both'), of('C09', 'groups', *RANGES), of('C11', 'closed'),
         of('C13', 'add_'), of('C13', 'remove_'), of('C13', 'lookup'), of('C13', 'others'), of('C14', 'plain'), of('C14', 'aggregating'), of('C14', 'looking'),
         of('C19', 'shape'), of('C23', 'formula'), of('C24', 'plain'), of('C25', 'several'), of('C30', 'repelled'), of('C30', 'local'), of('C30', 'shifted'),
         of('C27', 'grid'), of('C28', 'sorting')]
