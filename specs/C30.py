"""C30 A moving obstacle is avoided relative to its motion; repulsion and planar modulation act on top."""
from .common import *
from .C25 import published, matrices, ds_frame, contract, ortho, MOD
from doav.values import Tup, Seq
from doav.terms import T as T_


def relative(v, a, u, w, n=1):
    """contract of compute_relative_velocities (C23): the relative velocity w and the velocity u of the obstacles, with w + u the velocity of the agent"""
    vel = v.ex.copyval(v.get(a, 'get_linear_velocity'))

    def c(ex, fn, this, args):
        v.ensure('the agent is the one asked for', eqv(v.get(args[0], 'get_linear_velocity'), vel))
        L, d, ws, bs = [ex.rv(x) for x in args[1:]]
        v.ensure('as many distances, weights and bases as obstacles', and_(eq(L.n, ti(n)), *[eq(x, ti(n)) for x in (d.r, ws.r, bs.n)]))
        return Tup([w, u])
    contract(v, 'compute_relative_velocities', c)


def one(kind):
    """relative velocity s*f, s > 0, f the first column of the frame; the matrix gives mu*N with N a unit vector; in the frame
    N = (n, T*e0, T*e1) with n^2 + T^2 = 1 and (e0, e1) a unit vector"""
    def task(v):
        lib.REALS[0] = True
        v.general = {}
        o = v.sptr('o')
        M, d = v.mat('M', 3, 3), v.real('d')
        e = published(v, [o])
        matrices(v, [o], [M], [d])
        u = v.vec('u')
        if kind == 'with_it':
            cols = [V3(ZERO, ZERO, ZERO)] * 3
            w = cols[0]
        else:
            cols = [v.vec(x) for x in 'fcg']
            s, mu, T, n = [v.real(x) for x in ('s', 'mu', 'T', 'n')]
            v.assume(*ortho(cols))
            v.assume(lt(ZERO, s))
            w = scale(s, cols[0])
            e0, e1 = v.real('e0'), v.real('e1')
            if kind == 'vanishing': mu = ZERO
            else: v.assume(lt(ZERO, mu))
            if kind == 'along': n, T = ONE, ZERO
            else: v.assume(eq(add(sq(n), sq(T)), ONE), lt(ZERO, T), eq(add(sq(e0), sq(e1)), ONE))
        a = agent(v, 'a', vel=add3(w, u))
        Mw = V3(*[add(*[mul(M(i, j), w(j)) for j in range(3)]) for i in range(3)])
        if kind != 'with_it':
            N = add3(scale(n, cols[0]), scale(T, add3(scale(e0, cols[1]), scale(e1, cols[2]))))
            v.general = {Mw(i): mul(mu, N(i)) for i in range(3)}
        relative(v, a, u, w)
        ds_frame(v, cols)
        contract(v, 'weight_obstacles', lambda ex, fn, this, args: DMat(ti(1), ti(1), lambda i, j: ONE, 'A'))

        def acos(ex, fn, this, args):
            v.ensure('the cosine is in the range of the inverse cosine', and_(le(num(-1), args[0]), le(args[0], ONE)))
            return app('acos', (args[0],), 'R')
        if kind != 'with_it': contract(v, 'safe_acos', acos)
        r = v.function(MOD + 'modulate_velocity', a, e, FALSE, FALSE, FALSE, v.real('critical'), v.real('power'))
        what = 'the obstacle velocity plus the matrix applied to the relative velocity'
        if kind == 'with_it': v.ensure(what, eqv(r, u)); return
        ang = app('acos', (n,), 'R') if isinstance(n, T_) else n
        for i in range(3):
            if kind == 'slightly_turned': break
            if kind == 'turned': v.ensure(what, implies(le(num("1/10000"), ang), eq(sub(r(i), u(i)), Mw(i))))
            else: v.ensure(what, eq(sub(r(i), u(i)), Mw(i)))
        if kind == 'slightly_turned':
            c6 = mul(num('1/6'), ang, ang, ang)
            v.ex.trusted.add('1-x^2/2 <= cos x and x-x^3/6 <= sin x <= x for x >= 0')
            v.assume(lt(ang, num('1/10000')), le(ZERO, ang), le(sub(ONE, mul(half(), ang, ang)), n), le(T, ang), le(sub(ang, c6), T))
            off = lib.sqnorm(sub3(sub3(r, u), scale(mu, N)))
            v.step('the deviation', eq(off, mul(mu, mu, add(sq(sub(ONE, n)), sq(sub(ang, T))))))
            e = num('1/100000000')
            v.step('part of the deviation', and_(le(ZERO, sub(ONE, n)), le(sub(ONE, n), mul(half(), e)), le(ZERO, sub(ang, T)), le(sub(ang, T), mul(half(), e))))
            v.step('deviation of the direction', le(add(sq(sub(ONE, n)), sq(sub(ang, T))), sq(e)))
            v.ensure('within 1e-8 of it', le(off, mul(mu, mu, sq(e))))
    task.__name__ = kind
    task.__doc__ = 'one obstacle in any motion, the matrix turns the relative velocity: ' + kind.replace('_', ' ')
    return task


def any_environment(v):
    """any environment and agent, the parts of the modulation by contract: the same results for the same arguments"""
    lib.REALS[0] = True
    e = v.obj('Environment', 'env')
    L = v.get(e, 'get_obstacle_list')
    v.assume(lt(ti(0), L.n))
    a = agent(v, 'a')
    v.general = {}
    functional(v, MOD + 'compute_modulation_matrix')
    args = {}

    def pure(name, result):
        """the arguments of the second run are compared with those of the first"""
        def c(ex, fn, this, xs):
            xs = [v.get(x, 'get_linear_velocity') if isinstance(x, LV) and isinstance(v.ex.rv(x), Rec) else ex.copyval(ex.rv(x)) for x in xs]
            if name not in args: args[name] = xs
            for x, y in zip(xs, args[name]):
                k, l = fresh('k', 'I'), fresh('l', 'I')
                if isinstance(x, DMat): g = and_(eq(x.r, y.r), all_(k, 0, x.r, eq(x.get(k, ti(0)), y.get(k, ti(0)))))
                elif isinstance(x, Seq) and isinstance(x.get(k), SPtr): g = and_(eq(x.n, y.n), all_(k, 0, x.n, eq(x.get(k).t, y.get(k).t)))
                elif isinstance(x, Seq): g = and_(eq(x.n, y.n), all_(k, 0, x.n, eqv(x.get(k), y.get(k))))
                else: g = eqv(x, y)
                v.ensure('both runs ask %s the same' % name, g)
            return result
        contract(v, name, c)
    pure('weight_obstacles', DMat(L.n, ti(1), lambda i, j: app('w', (i,), 'R'), 'A'))
    pure('compute_relative_velocities', Tup([v.vec('rel'), v.vec('u')]))
    pure('compute_dynamical_system_frame', v.mat('F', 3, 3))
    return e, L, a


def twice(v, a, e, x, y):
    """the results with options x and with options y"""
    ps = [v.real('critical'), v.real('power')]
    r0 = v.function(MOD + 'modulate_velocity', a, e, *x, *ps)
    r1 = v.function(MOD + 'modulate_velocity', a, e, *y, *ps)
    # the sums may be any numbers in what follows
    v.general = {x: var('sum%d' % x.id, 'R') for t in list(r0.e) + list(r1.e) + list(v.ex.pc) for x in subterms(t) if x.op == 'sum' and not any(y.a[0].startswith('#') for y in fv(x))}
    return r0, r1


def repelled(v):
    """any environment: with repulsion requested the sum of the repulsions is added to what is returned without"""
    e, L, a = any_environment(v)

    def rep(ex, fn, this, args):
        x = ex.rv(args[1]) if len(args) > 1 else None
        v.ensure('the threshold is 1.1', eq(x, num('11/10')) if x is not None else FALSE)
        return V3(*[app('repulsion[%d]' % i, (this.root[1],), 'R') for i in range(3)])
    for f in v.prog.byq[NS + 'Obstacle::generate_repulsion']: v.ex.contracts[f['usr']] = rep
    r0, r1 = twice(v, a, e, (FALSE, FALSE, FALSE), (FALSE, TRUE, FALSE))
    k = fresh('k', 'I')
    s = V3(*[sum_(k, 0, L.n, app('repulsion[%d]' % i, (L.get(k).t,), 'R')) for i in range(3)])
    far = lt(num('1/100000000'), lib.sqnorm(s))
    for i in range(3): v.ensure('the repulsions are added', eq(r1(i), ite(far, add(r0(i), s(i)), r0(i))))


def local(v):
    """any environment: with an obstacle in reach the local mode returns what the other mode returns"""
    e, L, a = any_environment(v)
    for f in v.prog.byq[NS + 'Obstacle::is_intersecting']:
        if 'deque' in v.prog.tstr(f['params'][0]['t']): v.ex.contracts[f['usr']] = lambda ex, fn, this, args: TRUE
    r0, r1 = twice(v, a, e, (FALSE, FALSE, FALSE), (TRUE, FALSE, FALSE))
    for i in range(3): v.ensure('the same velocity', eq(r1(i), r0(i)))


def shifted(v):
    """planar modulation: the reference point is shifted for this agent before the matrix is computed"""
    lib.REALS[0] = True
    reference_setter(v)
    o = v.sptr('o')
    e = published(v, [o])
    a = agent(v, 'a')
    x = v.get(a, 'get_position')
    R = v.vec('shifted')
    seen = []

    def shift(ex, fn, this, args):
        v.ensure('shifted for this agent', eqv(v.get(args[0], 'get_position'), x))
        if this.root[1] is not o.t: raise Unsupported('shift of another obstacle')
        v.call(o, 'set_reference_position', R)
    for f in v.prog.byq[NS + 'Obstacle::shift_reference_point']: v.ex.contracts[f['usr']] = shift
    v.ex.vcontracts = dict(v.ex.vcontracts, shift_reference_point=lambda ex, f, ref, args, fn: shift(ex, fn, LV(('sym', ref, v.cls('Obstacle'))), args))

    def matrix(ex, fn, this, args):
        seen.append(1)
        v.ensure('the matrix is that of the shifted obstacle', eqv(v.get(args[1], 'get_reference_position'), R))
        v.ensure('and of this agent', eqv(v.get(args[0], 'get_position'), x))
        return Tup([v.mat('M', 3, 3), v.mat('basis', 3, 3), v.real('d')], 'tuple')
    contract(v, 'compute_modulation_matrix', matrix)
    for n in ('compute_dynamical_system_frame', 'weight_obstacles', 'compute_relative_velocities'): functional(v, MOD + n)
    v.function(MOD + 'modulate_velocity', a, e, FALSE, FALSE, TRUE, v.real('critical'), v.real('power'))
    v.ensure('the matrix is computed', TRUE if seen else FALSE)


TASKS = [one(k) for k in ('vanishing', 'along', 'turned', 'slightly_turned', 'with_it')] + [repelled, local, shifted]
