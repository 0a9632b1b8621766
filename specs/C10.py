"""C10 Aggregates: mean centre, shared reference point, canonical name."""
from .common import *
from doav.values import Seq

KEPT = ['get_name', 'get_position', 'get_orientation', 'get_linear_velocity', 'get_angular_velocity', 'get_safety_margin']


def no_hulls(v):
    """the hulls are another property (C11, C29): computing one changes nothing but that hull"""
    reference_setter(v)
    for n in ('compute_from_primitives',):
        for f in v.prog.byq.get(NS + 'StarShapeHull::' + n, []): v.ex.contracts[f['usr']] = lambda ex, fn, this, args: None


def obstacles(v, n, least=0):
    f = next(f for f in v.prog.byq[NS + 'Aggregate::Aggregate'] if f['params'] and 'deque' in v.prog.tstr(f['params'][0]['t']))
    L = v.ex.sym(f['params'][0]['t'], n)
    v.assume(le(ti(least), L.n))
    return L


def aggregate(v):
    """an aggregate in any state"""
    g = v.obj('Aggregate', 'g')
    v.assume(eq(v.get(g, 'get_type'), string('Aggregate')), le(ti(1), v.get(g, 'get_primitives').n))
    return g


def sorted_permutation(v, what, Q, L):
    i, j = fresh('i', 'I'), fresh('j', 'I')
    v.ensure(what + ': as many primitives as supplied', eq(Q.n, L.n))
    if isnum(L.n) and val(L.n) == 1:
        v.ensure(what + ': the only primitive is the one supplied', eq(Q.get(ti(0)).t, L.get(ti(0)).t))
        return
    pi, inv_ = v.perm()
    v.ensure(what + ': each primitive is one supplied', all_(i, 0, Q.n, and_(le(ti(0), pi(i)), lt(pi(i), L.n), eq(Q.get(i).t, L.get(pi(i)).t))))
    v.ensure(what + ': each one supplied is a primitive', all_(i, 0, L.n, and_(le(ti(0), inv_(i)), lt(inv_(i), Q.n), eq(Q.get(inv_(i)).t, L.get(i).t))))
    v.ensure(what + ': none twice', all_(i, 0, Q.n, eq(inv_(pi(i)), i)))
    v.ensure(what + ': in increasing order of name', all_(i, 0, Q.n, all_(j, 0, i, not_(app('strlt', (v.get(Q.get(i), 'get_name'), v.get(Q.get(j), 'get_name')), 'B')))))


def judge(v, what, g, L):
    Q = v.get(g, 'get_primitives')
    sorted_permutation(v, what, Q, L)
    i = fresh('i', 'I')
    ps = v.get(Q.get(i), 'get_position')
    mean = V3(*[div(sum_(i, 0, Q.n, ps(c)), toreal(Q.n)) for c in range(3)])
    v.ensure(what + ': positioned at the mean', eqv(v.get(g, 'get_position'), mean))
    v.ensure(what + ': reference point at the mean', eqv(v.get(g, 'get_reference_position'), mean))
    v.ensure(what + ': primitives share the reference point', all_(i, 0, Q.n, eqv(v.get(Q.get(i), 'get_reference_position'), mean)))
    name = lib.strcat(string('aggregate'), sum_(i, 0, Q.n, lib.strcat(string('_'), v.get(Q.get(i), 'get_name'))))
    v.ensure(what + ': canonical name', eq(v.get(g, 'get_name'), name))
    v.ensure(what + ': it is an aggregate', eq(v.get(g, 'get_type'), string('Aggregate')))


def observe(v, o): return [v.ex.copyval(v.get(o, g)) for g in KEPT]


def frame(v, what, before, o):
    for g, x in zip(KEPT, before): v.ensure('%s: primitives keep their %s' % (what, g[4:]), eqv(v.get(o, g), x))


def at_once(v):
    """constructor from a list: mean position, shared reference point, order, name"""
    no_hulls(v)
    L = obstacles(v, 'L', 1)
    o = v.sptr('any')
    before = observe(v, o)
    g = v.new('Aggregate', L)
    judge(v, 'constructor', g, L)
    frame(v, 'constructor', before, o)


def one_more(v):
    """adding one primitive to any well-formed aggregate keeps it well-formed"""
    no_hulls(v)
    g = aggregate(v) if v.ex.branch(v.bool('built')) else v.new('Aggregate')
    P = v.ex.copyval(v.get(g, 'get_primitives'))
    o, a = v.sptr('o'), v.sptr('any')
    before = observe(v, a)
    v.call(g, 'add_primitive', o, v.bool('hull'))
    n = P.n
    L = Seq(add(n, ti(1)), lambda i: SPtr(o.t if n is ti(0) else ite(lt(i, n), P.get(i).t, o.t), o.cls), ('spec',))
    judge(v, 'add_primitive', g, L)
    frame(v, 'add_primitive', before, a)


def reference(v):
    """setting the reference point sets it on every primitive"""
    no_hulls(v)
    g = aggregate(v)
    Q, n, p = v.ex.copyval(v.get(g, 'get_primitives')), v.get(g, 'get_name'), v.ex.copyval(v.get(g, 'get_position'))
    a = v.sptr('any')
    before, r0 = observe(v, a), v.ex.copyval(v.get(a, 'get_reference_position'))
    r = v.vec('r')
    v.call(g, 'set_reference_position', r)
    i = fresh('i', 'I')
    v.ensure('reference point of the aggregate', eqv(v.get(g, 'get_reference_position'), r))
    v.ensure('reference point of the primitives', all_(i, 0, Q.n, eqv(v.get(Q.get(i), 'get_reference_position'), r)))
    v.ensure('other obstacles keep their reference point', implies(all_(i, 0, Q.n, ne(Q.get(i).t, a.t)), eqv(v.get(a, 'get_reference_position'), r0)))
    R = v.get(g, 'get_primitives')
    v.ensure('the aggregate is otherwise unchanged', and_(eq(v.get(g, 'get_name'), n), eqv(v.get(g, 'get_position'), p), eq(R.n, Q.n), all_(i, 0, Q.n, eq(R.get(i).t, Q.get(i).t))))
    frame(v, 'set_reference_position', before, a)


TASKS = [at_once, one_more, reference]
