"""C25 A single static obstacle is avoided by exactly its modulation matrix."""
from .common import *
from doav.values import seq_items, Tup
from doav.terms import T as T_

REST = ('get_linear_velocity', 'get_angular_velocity')
MOD = 'Modulation::'


def published(v, obs):
    """an environment whose published list is obs"""
    e = v.new('Environment', FALSE)
    for f in v.prog.byq[NS + 'Environment::get_obstacle_list']: v.ex.contracts[f['usr']] = lambda ex, fn, this, args: seq_items(list(obs))
    return e


def contract(v, name, c):
    fs = v.prog.byq.get(NS + MOD + name, [])
    if not fs: raise Unsupported('function ' + name)
    for f in fs: v.ex.contracts[f['usr']] = c


def matrices(v, obs, Ms, ds):
    """contract of compute_modulation_matrix (C22): some matrix, basis and distance for each obstacle"""
    def c(ex, fn, this, args):
        o = args[1]
        for k, x in enumerate(obs):
            if isinstance(o, LV) and isinstance(o.root, tuple) and o.root[1] is x.t: return Tup([Ms[k], v.mat('basis%d' % k, 3, 3), ds[k]], 'tuple')
        raise Unsupported('modulation matrix of another obstacle')
    contract(v, 'compute_modulation_matrix', c)


def at_rest(v, a, n):
    """contract of compute_relative_velocities for obstacles at rest (task rest)"""
    w = v.ex.copyval(v.get(a, 'get_linear_velocity'))

    def c(ex, fn, this, args):
        v.ensure('the agent is the one asked for', eqv(v.get(args[0], 'get_linear_velocity'), w))
        L, d, ws, bs = [ex.rv(x) for x in args[1:]]
        v.ensure('as many distances, weights and bases as obstacles', and_(eq(L.n, ti(n)), *[eq(x, ti(n)) for x in (d.r, ws.r, bs.n)]))
        return Tup([w, V3(ZERO, ZERO, ZERO)])
    contract(v, 'compute_relative_velocities', c)


def ortho(cols):
    """orthonormal by columns and by rows"""
    ij = [(i, j) for i in range(3) for j in range(i + 1)]
    return [eq(dotv(cols[i], cols[j]), ONE if i == j else ZERO) for i, j in ij] + [eq(add(*[mul(x(i), x(j)) for x in cols]), ONE if i == j else ZERO) for i, j in ij]


def ds_frame(v, cols):
    """contract of compute_dynamical_system_frame (tasks frame, frame_at_rest): an orthonormal matrix starting with the direction"""
    def h(ex, fn, this, args):
        v.ensure('the frame is that of the direction of motion', eqv(ex.rv(args[0]), cols[0]))
        return Mat(3, 3, [x(i) for i in range(3) for x in cols])
    contract(v, 'compute_dynamical_system_frame', h)


def frame(v):
    """the frame of a direction has it as its first column and is orthonormal"""
    u = v.vec('u')
    v.assume(eq(lib.sqnorm(u), ONE))
    F = v.function(MOD + 'compute_dynamical_system_frame', u)
    cols = [F.col(j) for j in range(3)]
    v.ensure('the direction is the first column', eqv(cols[0], u))
    v.ensure('the third column is the second times the first', eqv(cols[2], cross(cols[1], u)))
    v.ensure('the second column is a unit vector', eq(lib.sqnorm(cols[1]), ONE))
    v.ensure('the second column is orthogonal to the direction', eq(dotv(cols[1], u), ZERO))


def frame_at_rest(v):
    """the frame without motion is zero"""
    F = v.function(MOD + 'compute_dynamical_system_frame', V3(ZERO, ZERO, ZERO))
    v.ensure('no frame without motion', and_(*[eq(x, ZERO) for x in F.e]))


def frame_lemma(v):
    """a unit vector, an orthogonal unit vector and their product form an orthonormal matrix, by columns and by rows"""
    u, c = v.vec('u'), v.vec('c')
    v.assume(eq(lib.sqnorm(u), ONE), eq(lib.sqnorm(c), ONE), eq(dotv(u, c), ZERO))
    for g in ortho([u, c, cross(c, u)]): v.ensure('orthonormal', g)


def clamp(v):
    """safe_acos is acos on its range"""
    x = v.real('x')
    v.assume(le(num(-1), x), le(x, ONE))
    v.ensure('inverse cosine on its range', eq(v.function(MOD + 'safe_acos', x), app('acos', (x,), 'R')))


def rest(v):
    """obstacles at rest, with any bases, leave the velocity alone"""
    f = v.prog.byq[NS + MOD + 'compute_relative_velocities'][0]
    obs, dist, w, bases = [v.ex.sym(p['t'], n) for p, n in zip(f['params'][1:], ('obs', 'dist', 'w', 'base'))]
    n = obs.n
    v.assume(eq(dist.r, n), eq(w.r, n), eq(bases.n, n), le(ti(0), n))
    k = fresh('k', 'I')
    v.assume(all_(k, 0, n, and_(*[eq(v.get(obs.get(k), g)(i), ZERO) for g in REST for i in range(3)])))
    a = agent(v, 'a')
    r = v.function(MOD + 'compute_relative_velocities', a, obs, dist, w, bases)
    v.ensure('the relative velocity is that of the agent', eqv(r.e[0], v.get(a, 'get_linear_velocity')))
    v.ensure('no obstacle velocity', eqv(r.e[1], V3(ZERO, ZERO, ZERO)))


def one_weight(v):
    """one obstacle has all the weight"""
    d = DMat(ti(1), ti(1), lambda i, j: var('d', 'R'), 'A')
    w = v.function(MOD + 'weight_obstacles', d, v.real('critical'), v.real('power'))
    v.ensure('one weight', eq(w.r, ti(1)))
    v.ensure('a single obstacle has all the weight', eq(w.get(ti(0), ti(0)), ONE))


def one(kind):
    """velocity s*u, s > 0, u the first column of the frame; the matrix gives mu*N with N a unit vector; in the frame
    N = (n, T*e0, T*e1) with n^2 + T^2 = 1 and (e0, e1) a unit vector"""
    def task(v):
        lib.REALS[0] = True
        v.general = {}
        o = v.sptr('o')
        M, d = v.mat('M', 3, 3), v.real('d')
        e = published(v, [o])
        matrices(v, [o], [M], [d])
        cols = [v.vec(x) for x in 'ucw']
        s, mu, T, n = [v.real(x) for x in ('s', 'mu', 'T', 'n')]
        v.assume(*ortho(cols))
        v.assume(lt(ZERO, s))
        e0, e1 = v.real('e0'), v.real('e1')
        if kind == 'vanishing': mu = ZERO
        else: v.assume(lt(ZERO, mu))
        if kind == 'along': n, T = ONE, ZERO
        else: v.assume(eq(add(sq(n), sq(T)), ONE), lt(ZERO, T), eq(add(sq(e0), sq(e1)), ONE))
        vel = scale(s, cols[0])
        a = agent(v, 'a', vel=vel)
        Mv = V3(*[add(*[mul(M(i, j), vel(j)) for j in range(3)]) for i in range(3)])
        N = add3(scale(n, cols[0]), scale(T, add3(scale(e0, cols[1]), scale(e1, cols[2]))))
        v.general = {Mv(i): mul(mu, N(i)) for i in range(3)}
        at_rest(v, a, 1)
        ds_frame(v, cols)
        contract(v, 'weight_obstacles', lambda ex, fn, this, args: DMat(ti(1), ti(1), lambda i, j: ONE, 'A'))

        def acos(ex, fn, this, args):
            v.ensure('the cosine is in the range of the inverse cosine', and_(le(num(-1), args[0]), le(args[0], ONE)))
            return app('acos', (args[0],), 'R')
        contract(v, 'safe_acos', acos)
        r = v.function(MOD + 'modulate_velocity', a, e, FALSE, FALSE, FALSE, v.real('critical'), v.real('power'))
        ang = app('acos', (n,), 'R') if isinstance(n, T_) else n
        for i in range(3):
            if kind == 'slightly_turned': break
            if kind == 'turned': v.ensure('the velocity is the matrix applied to the agent velocity', implies(le(num('1/10000'), ang), eq(r(i), Mv(i))))
            else: v.ensure('the velocity is the matrix applied to the agent velocity', eq(r(i), Mv(i)))
        if kind == 'slightly_turned':
            # 1-x^2/2 <= cos x and x-x^3/6 <= sin x <= x
            c6 = mul(num('1/6'), ang, ang, ang)
            v.ex.trusted.add('1-x^2/2 <= cos x and x-x^3/6 <= sin x <= x for x >= 0')
            v.assume(lt(ang, num('1/10000')), le(ZERO, ang), le(sub(ONE, mul(half(), ang, ang)), n), le(T, ang), le(sub(ang, c6), T))
            off = lib.sqnorm(sub3(r, scale(mu, N)))
            v.step('the deviation', eq(off, mul(mu, mu, add(sq(sub(ONE, n)), sq(sub(ang, T))))))
            e = num('1/100000000')
            v.step('part of the deviation', and_(le(ZERO, sub(ONE, n)), le(sub(ONE, n), mul(half(), e)), le(ZERO, sub(ang, T)), le(sub(ang, T), mul(half(), e))))
            v.step('deviation of the direction', le(add(sq(sub(ONE, n)), sq(sub(ang, T))), sq(e)))
            v.ensure('within 1e-8 of the matrix applied to the agent velocity', le(off, mul(mu, mu, sq(e))))
    task.__name__ = kind
    task.__doc__ = 'one obstacle, the matrix turns the velocity: ' + kind.replace('_', ' ')
    return task


def still(v):
    """no velocity, no motion: one obstacle"""
    lib.REALS[0] = True
    o = v.sptr('o')
    e = published(v, [o])
    matrices(v, [o], [v.mat('M', 3, 3)], [v.real('d')])
    Z = V3(ZERO, ZERO, ZERO)
    a = agent(v, 'a', vel=Z)
    at_rest(v, a, 1)
    ds_frame(v, [Z, Z, Z])
    contract(v, 'weight_obstacles', lambda ex, fn, this, args: DMat(ti(1), ti(1), lambda i, j: ONE, 'A'))
    r = v.function(MOD + 'modulate_velocity', a, e, FALSE, FALSE, FALSE, v.real('critical'), v.real('power'))
    v.ensure('the velocity is the matrix applied to the agent velocity', eqv(r, Z))


def several(moving):
    """any number of obstacles at rest, any matrices, any weights"""
    def task(v):
        lib.REALS[0] = True
        v.general = {}
        e = v.obj('Environment', 'env')
        L = v.get(e, 'get_obstacle_list')
        n = L.n
        v.assume(lt(ti(0), n))
        functional(v, MOD + 'compute_modulation_matrix')
        cols = [v.vec(x) for x in 'ucw'] if moving else [V3(ZERO, ZERO, ZERO)] * 3
        s = v.real('s')
        if moving: v.assume(*ortho(cols))
        v.assume(lt(ZERO, s))
        vel = scale(s, cols[0])
        a = agent(v, 'a', vel=vel)
        mats = []

        def rel(ex, fn, this, args):
            v.ensure('the agent is the one asked for', eqv(v.get(args[0], 'get_linear_velocity'), vel))
            X = ex.rv(args[1])
            v.ensure('as many distances, weights and bases as obstacles', and_(eq(X.n, n), *[eq(x, n) for x in (ex.rv(args[2]).r, ex.rv(args[3]).r, ex.rv(args[4]).n)]))
            return Tup([vel, V3(ZERO, ZERO, ZERO)])
        contract(v, 'compute_relative_velocities', rel)
        ds_frame(v, cols)
        w = lambda k: app('w', (k,), 'R')
        contract(v, 'weight_obstacles', lambda ex, fn, this, args: DMat(n, ti(1), lambda i, j: w(i), 'A'))
        k = fresh('k', 'I')
        M = v.function(MOD + 'compute_modulation_matrix', a, L.get(k)).e[0]
        mag = sum_(k, 0, n, mul(w(k), sqrt(lib.sqnorm(V3(*[add(*[mul(M(i, j), vel(j)) for j in range(3)]) for i in range(3)])))))
        r = v.function(MOD + 'modulate_velocity', a, e, FALSE, FALSE, FALSE, v.real('critical'), v.real('power'))
        # the sums may be any numbers in what follows
        sums = [x for t in [mag] + list(r.e) + list(v.ex.pc) for x in subterms(t) if x.op == 'sum' and not any(y.a[0].startswith('#') for y in fv(x))]
        v.general = {x: var('sum%d' % x.id, 'R') for x in sums}
        e = [x for x in sums if x is not mag]
        if not moving: v.ensure('no motion', eqv(r, V3(ZERO, ZERO, ZERO)))
        elif len(set(e)) != 2: v.ensure('the speed is the weighted mean of the single speeds', eq(lib.sqnorm(r), sq(mag)))
        else:
            x, y = sorted(set(e), key=lambda t: t.id)
            ang2 = add(sq(x), sq(y))
            small = lt(app('sqrt', (ang2,), 'R'), num('1/10000'))
            if v.ex.branch(small):
                v.ensure('speed within 1e-8 of the weighted mean', and_(le(sq(mag), lib.sqnorm(r)), le(lib.sqnorm(r), mul(sq(mag), add(ONE, num('1/100000000'))))))
            else: v.ensure('the speed is the weighted mean of the single speeds', eq(lib.sqnorm(r), sq(mag)))
    task.__name__ = 'several' if moving else 'several_still'
    task.__doc__ = 'the speed for any number of obstacles at rest'
    return task


TASKS = [frame, frame_at_rest, frame_lemma, clamp, rest, one_weight, still] + [one(k) for k in ('vanishing', 'along', 'turned', 'slightly_turned')] + [several(True), several(False)]
