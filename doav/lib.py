"""Trusted contracts of the external functions the library calls (Eigen 3.4, libstdc++, libm), over mathematical reals."""
import itertools
from .terms import *
from .values import *

I0, I1 = num(0, 'I'), num(1, 'I')
from . import terms as _tm
_n = _tm._fresh


def ti(n): return num(n, 'I')
def ci(t): return int(val(t)) if isinstance(t, T) and isnum(t) else (t if isinstance(t, int) else None)


# ---------------------------------------------------------------- folding of elementary functions
def _acos(x):
    if isnum(x):
        if val(x) == 0: return PI / 2
        if val(x) == 1: return ZERO
        if val(x) == -1: return PI
    return mk('app', ('acos', x), 'R')


def pi_multiple(x):
    if isnum(x) and val(x) == 0: return Fr(0)
    if x is PI: return Fr(1)
    if x.op == '*' and len(x.a) == 2 and isnum(x.a[0]) and x.a[1] is PI: return val(x.a[0])
    return None


def _split_angle(x):
    """x = rest + q*pi with q rational"""
    if x.op != '+': return None
    for y in x.a:
        q = pi_multiple(y)
        if q is not None and (2 * q).denominator == 1:
            return sub(x, y), q
    return None


SINQ = {0: 0, 1: 1, 2: 0, 3: -1}


def _negated(x):
    if x.op == '*' and isnum(x.a[0]) and val(x.a[0]) < 0: return neg(x)
    return None


def _sin(x):
    x = toreal(x)
    q = pi_multiple(x)
    if q is not None:
        h = 2 * q
        if h.denominator == 1: return num(SINQ[h.numerator % 4])
        if (6 * q).denominator == 1 and (6 * q).numerator % 12 in (1, 5): return num(Fr(1, 2))
        if (6 * q).denominator == 1 and (6 * q).numerator % 12 in (7, 11): return num(Fr(-1, 2))
    s = _split_angle(x)
    if s:
        r, q = s
        k = (2 * q).numerator % 4
        return [lambda: _sin(r), lambda: _cos(r), lambda: neg(_sin(r)), lambda: neg(_cos(r))][k]()
    m = _negated(x)
    if m is not None: return neg(_sin(m))
    if x.op == 'ite': return ite(x.a[0], _sin(x.a[1]), _sin(x.a[2]))
    if x.op == '*' and len(x.a) == 2 and isnum(x.a[0]) and val(x.a[0]) == 2 and x.a[1].op == 'app' and x.a[1].a[0] in ('atan2', 'acos'):
        return mul(num(2), _sin(x.a[1]), _cos(x.a[1]))
    if x.op == 'app' and x.a[0] == 'acos': return sqrt(sub(ONE, mul(x.a[1], x.a[1])))
    if x.op == 'app' and x.a[0] == 'atan2':
        # hypot 0: atan2(0,0)=0
        y, c = x.a[1], x.a[2]
        h = sqrt(add(mul(c, c), mul(y, y)))
        return ite(eq(h, ZERO), ZERO, div(y, h))
    return mk('app', ('sin', x), 'R')


def _cos(x):
    x = toreal(x)
    q = pi_multiple(x)
    if q is not None and (2 * q).denominator == 1: return num(SINQ[((2 * q).numerator + 1) % 4])
    s = _split_angle(x)
    if s:
        r, q = s
        k = (2 * q).numerator % 4
        return [lambda: _cos(r), lambda: neg(_sin(r)), lambda: neg(_cos(r)), lambda: _sin(r)][k]()
    m = _negated(x)
    if m is not None: return _cos(m)
    if x.op == 'ite': return ite(x.a[0], _cos(x.a[1]), _cos(x.a[2]))
    if x.op == '*' and len(x.a) == 2 and isnum(x.a[0]) and val(x.a[0]) == 2 and x.a[1].op == 'app' and x.a[1].a[0] in ('atan2', 'acos'):
        c = _cos(x.a[1])
        return sub(mul(num(2), c, c), ONE)
    if x.op == 'app' and x.a[0] == 'acos': return x.a[1]
    if x.op == 'app' and x.a[0] == 'atan2':
        y, c = x.a[1], x.a[2]
        h = sqrt(add(mul(c, c), mul(y, y)))
        return ite(eq(h, ZERO), ONE, div(c, h))
    return mk('app', ('cos', x), 'R')


def _exp(x):
    if isnum(x) and val(x) == 0: return ONE
    return mk('app', ('exp', x), 'R')


def _strcat(*xs):
    out = []
    for x in xs:
        if x.op == 'app' and x.a[0] == 'strcat': out += list(x.a[1:])
        else: out.append(x)
    r = []
    for x in out:
        if x.op == 'str' and x.a[0] == '': continue
        if r and x.op == 'str' and r[-1].op == 'str': r[-1] = string(r[-1].a[0] + x.a[0])
        else: r.append(x)
    if not r: return string('')
    if len(r) == 1: return r[0]
    return mk('app', ('strcat',) + tuple(r), 'Str')


FOLD.update({'acos': _acos, 'sin': _sin, 'cos': _cos, 'exp': _exp, 'strcat': _strcat})


def strcat(*xs): return _strcat(*xs)


REALS = [False]     # set by a task whose statement is about numbers only: no value is a NaN


def isnan(x):
    if REALS[0]: return FALSE
    if isnum(x): return FALSE
    return app('nan', (x,), 'B')


def idiv(x, y):
    if isnum(x) and isnum(y) and val(y) != 0:
        q = abs(int(val(x))) // abs(int(val(y)))
        return ti(q if (val(x) >= 0) == (val(y) > 0) else -q)
    if isnum(y) and val(y) == 1: return x
    return app('idiv', (x, y), 'I')


def imod(x, y):
    if isnum(x) and isnum(y) and val(y) != 0:
        return sub(x, mul(idiv(x, y), y))
    return app('imod', (x, y), 'I')


# ---------------------------------------------------------------- matrices
def dims(v):
    if isinstance(v, Mat): return ti(v.r), ti(v.c)
    return v.r, v.c


def coeff(v, i, j):
    if isinstance(v, Quat): raise Unsupported('coefficient of a quaternion')
    if isinstance(v, Mat):
        if j is None:
            if v.k != 'D' and v.r != 1 and v.c != 1:      # linear index, column major
                k = ci(i)
                if k is None: raise Unsupported('linear index into a matrix')
                return v(k % v.r, k // v.r)
            k = ci(i)
            if k is not None:
                if not 0 <= k < len(v.e): raise Unsupported('coefficient %d out of range' % k)
                return v.e[k]
            r = v.e[-1]
            for n in range(len(v.e) - 2, -1, -1): r = ite(eq(i, ti(n)), v.e[n], r)
            return r
        a, c = ci(i), ci(j)
        if a is not None and c is not None:
            if not (0 <= a < v.r and 0 <= c < v.c): raise Unsupported('coefficient (%d,%d) out of range' % (a, c))
            return v(a, c)
        return as_dmat(v).get(i, j)
    if isinstance(v, DMat):
        if j is None:
            if ci(v.c) == 1: return v.get(i, I0)
            if ci(v.r) == 1: return v.get(I0, i)
            raise Unsupported('linear index into a dynamic matrix')
        return v.get(lift(i), lift(j))
    raise Unsupported('coefficient of ' + type(v).__name__)


def set_coeff(v, i, j, x):
    x = toreal(x)
    if isinstance(v, Mat):
        if j is None and v.r != 1 and v.c != 1:
            k = ci(i)
            if k is None: raise Unsupported('linear index into a matrix')
            i, j = ti(k % v.r), ti(k // v.r)
        e = list(v.e)
        if v.k == 'D': raise Unsupported('store into a diagonal matrix')
        if j is None:
            k = ci(i)
            if k is not None:
                if not 0 <= k < len(e): raise Unsupported('coefficient out of range')
                e[k] = x
            else: e = [ite(eq(i, ti(n)), x, y) for n, y in enumerate(e)]
        else:
            a, c = ci(i), ci(j)
            if a is not None and c is not None: e[a * v.c + c] = x
            else: e = [ite(and_(eq(i, ti(n // v.c)), eq(j, ti(n % v.c))), x, y) for n, y in enumerate(e)]
        return Mat(v.r, v.c, e, v.k)
    if isinstance(v, DMat):
        if j is None:
            if ci(v.c) == 1: i, j = i, I0
            elif ci(v.r) == 1: i, j = I0, i
            else: raise Unsupported('linear store')
        return v.set(i, j, x)
    raise Unsupported('store into ' + type(v).__name__)


def block(v, r0, c0, nr, nc):
    r0, c0, nr, nc = map(lift, (r0, c0, nr, nc))
    a, c = ci(nr), ci(nc)
    if a is not None and c is not None and a * c <= 64:
        return Mat(a, c, [coeff(v, add(r0, ti(p)), add(c0, ti(q))) for p in range(a) for q in range(c)], v.k)
    d = as_dmat(v)
    g = d.get
    return DMat(nr, nc, lambda i, j: g(add(r0, i), add(c0, j)), v.k)


def set_block(v, r0, c0, nr, nc, x):
    r0, c0, nr, nc = map(lift, (r0, c0, nr, nc))
    a, c = ci(nr), ci(nc)
    if a is not None and c is not None and a * c <= 64:
        for p in range(a):
            for q in range(c):
                nv = coeff(x, ti(p), ti(q))
                if coeff(v, add(r0, ti(p)), add(c0, ti(q))) is not nv:
                    v = set_coeff(v, add(r0, ti(p)), add(c0, ti(q)), nv)
        return v
    d = as_dmat(v); xg = as_dmat(x).get; g = d.get

    def get(i, j):
        inside = and_(le(r0, i), lt(i, add(r0, nr)), le(c0, j), lt(j, add(c0, nc)))
        return ite(inside, xg(sub(i, r0), sub(j, c0)), g(i, j))
    return DMat(d.r, d.c, get, v.k, ('blk', v, r0, c0, nr, nc, xg))


def transpose(v):
    if isinstance(v, Mat):
        if v.k == 'D': return v
        return Mat(v.c, v.r, [v(i, j) for j in range(v.c) for i in range(v.r)], v.k)
    g = v.get
    return DMat(v.c, v.r, lambda i, j: g(j, i), v.k)


def convert(v, o):
    """conversion to the Eigen type o"""
    q = o['rec']
    k = 'M' if q == 'Eigen::Matrix' else 'A'
    r, c = o['targs'][1], o['targs'][2]
    if isinstance(v, Mat):
        if v.k == 'D':
            n = len(v.e)
            v = Mat(n, n, [v(i, j) for i in range(n) for j in range(n)])
        if r > 0 and c > 0 and (v.r, v.c) != (r, c):
            if (v.c, v.r) == (r, c) and (r == 1 or c == 1): v = Mat(r, c, v.e, k)
            else: raise Unsupported('size mismatch')
        if c == 1 and v.c != 1 and v.r == 1: v = Mat(v.c, 1, v.e, k)
        return v.kind(k)
    if isinstance(v, DMat):
        if r > 0 and c > 0:
            return Mat(r, c, [v.get(ti(i), ti(j)) for i in range(r) for j in range(c)], k)
        return v.kind(k)
    return v


def ew(f, *vs):
    """elementwise"""
    ms = [v for v in vs if isinstance(v, (Mat, DMat))]
    m = ms[0]
    if all(not isinstance(v, DMat) for v in ms):
        for v in ms:
            if (v.r, v.c) != (m.r, m.c): raise Unsupported('size mismatch in an elementwise operation')
        if m.k == 'D' and not all(v.k == 'D' for v in ms): raise Unsupported('elementwise on a diagonal matrix')
        return Mat(m.r, m.c, [f(*[v.e[i] if isinstance(v, Mat) else v for v in vs]) for i in range(len(m.e))], m.k)
    ds = [as_dmat(v) if isinstance(v, (Mat, DMat)) else v for v in vs]
    d = [x for x in ds if isinstance(x, DMat)]
    return DMat(d[0].r, d[0].c, lambda i, j: f(*[x.get(i, j) if isinstance(x, DMat) else x for x in ds]), m.k)


def ismat(v): return isinstance(v, (Mat, DMat))


def sc(v):
    """scalar operand"""
    if isinstance(v, T): return toreal(v) if v.s != 'B' else v
    if isinstance(v, Mat) and v.r == 1 and v.c == 1: return v.e[0]
    raise Unsupported('scalar expected')


def matmul(a, b_):
    if isinstance(a, Mat) and isinstance(b_, Mat):
        if a.k == 'D' and b_.k == 'D': return Mat(a.r, a.c, [mul(x, y) for x, y in zip(a.e, b_.e)], 'D')
        if a.c != b_.r: raise Unsupported('product of incompatible sizes')
        if b_.k == 'D': return Mat(a.r, b_.c, [mul(a(i, j), b_.e[j]) for i in range(a.r) for j in range(b_.c)])
        if a.k == 'D': return Mat(a.r, b_.c, [mul(a.e[i], b_(i, j)) for i in range(a.r) for j in range(b_.c)])
        return Mat(a.r, b_.c, [add(*[mul(a(i, k), b_(k, j)) for k in range(a.c)]) for i in range(a.r) for j in range(b_.c)])
    a, b_ = as_dmat(a), as_dmat(b_)
    n = ci(a.c) if ci(a.c) is not None else ci(b_.r)
    if n is not None:
        return DMat(a.r, b_.c, lambda i, j: add(*[mul(a.get(i, ti(k)), b_.get(ti(k), j)) for k in range(n)]), 'M')

    def get(i, j):
        k = fresh('k', 'I')
        return sum_(k, I0, a.c, mul(a.get(i, k), b_.get(k, j)))
    return DMat(a.r, b_.c, get, 'M')


def all_elems(v):
    if isinstance(v, Mat): return list(v.e)
    r, c = ci(v.r), ci(v.c)
    if r is not None and c is not None and r * c <= 64: return [v.get(ti(i), ti(j)) for i in range(r) for j in range(c)]
    return None


def one_dim(v):
    """(length, element getter) of a dynamic vector"""
    if ci(v.c) == 1: return v.r, lambda i: v.get(i, I0)
    if ci(v.r) == 1: return v.c, lambda i: v.get(I0, i)
    return None, None


def msum(v):
    e = all_elems(v)
    if e is not None: return add(*e) if e else ZERO
    n, g = one_dim(v)
    if n is not None:
        k = fresh('k', 'I')
        return sum_(k, I0, n, g(k))
    k, l = fresh('k', 'I'), fresh('l', 'I')
    return sum_(k, I0, v.r, sum_(l, I0, v.c, v.get(k, l)))


def sqnorm(v): return msum(ew(lambda x: mul(x, x), v))


def norm(v): return sqrt(sqnorm(v))


def dot(a, b_):
    if isinstance(a, Mat) and isinstance(b_, Mat): return add(*[mul(x, y) for x, y in zip(a.e, b_.e)])
    return msum(ew(mul, a, b_))


def cross(a, b_):
    x, y = a.e, b_.e
    return Mat(a.r, a.c, [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))])


def normalized(ex, v):
    n2 = sqnorm(v)
    if ex.branch(lt(ZERO, n2)):
        s = inv(sqrt(n2))
        return ew(lambda x: mul(x, s), v)
    return v


def det(m):
    if m.r == 1: return m.e[0]
    if m.r == 2: return sub(mul(m(0, 0), m(1, 1)), mul(m(0, 1), m(1, 0)))
    if m.r == 3:
        return dot(m.col(0), cross(m.col(1), m.col(2)))
    raise Unsupported('determinant')


def inverse(m):
    if not isinstance(m, Mat) or m.r != m.c or m.r > 3: raise Unsupported('inverse of this size')
    if m.k == 'D': return Mat(m.r, m.c, [inv(x) for x in m.e], 'D')
    d = inv(det(m))
    if m.r == 1: return Mat(1, 1, [d])
    if m.r == 2: return Mat(2, 2, [mul(m(1, 1), d), neg(mul(m(0, 1), d)), neg(mul(m(1, 0), d)), mul(m(0, 0), d)])
    c0, c1, c2 = m.col(0), m.col(1), m.col(2)
    rows = [cross(c1, c2), cross(c2, c0), cross(c0, c1)]
    return Mat(3, 3, [mul(x, d) for r in rows for x in r.e])


# ---------------------------------------------------------------- quaternions
def qmul(a, b_):
    return Quat(sub(sub(sub(mul(a.w, b_.w), mul(a.x, b_.x)), mul(a.y, b_.y)), mul(a.z, b_.z)),
                add(mul(a.w, b_.x), mul(a.x, b_.w), mul(a.y, b_.z), neg(mul(a.z, b_.y))),
                add(mul(a.w, b_.y), mul(a.y, b_.w), mul(a.z, b_.x), neg(mul(a.x, b_.z))),
                add(mul(a.w, b_.z), mul(a.z, b_.w), mul(a.x, b_.y), neg(mul(a.y, b_.x))))


def qconj(q): return Quat(q.w, neg(q.x), neg(q.y), neg(q.z))
def qn2(q): return add(*[mul(x, x) for x in q.tup()])


def qrot(q, v):
    """_transformVector: uv = 2 q.vec x v;  v + w uv + q.vec x uv"""
    u = Mat(3, 1, [q.x, q.y, q.z])
    uv = cross(u, v)
    uv = ew(lambda x: mul(num(2), x), uv)
    c = cross(u, uv)
    return Mat(3, 1, [add(v.e[i], mul(q.w, uv.e[i]), c.e[i]) for i in range(3)])


def qmat(q):
    w, x, y, z = q.tup()
    two = num(2)
    def m(*a): return mul(two, *a)
    return Mat(3, 3, [sub(ONE, add(m(y, y), m(z, z))), sub(m(x, y), m(w, z)), add(m(x, z), m(w, y)),
                      add(m(x, y), m(w, z)), sub(ONE, add(m(x, x), m(z, z))), sub(m(y, z), m(w, x)),
                      sub(m(x, z), m(w, y)), add(m(y, z), m(w, x)), sub(ONE, add(m(x, x), m(y, y)))])


def aa_quat(ex, a):
    h = mul(num(Fr(1, 2)), a.angle)
    s, c = _sin(h), _cos(h)
    # half-angle formulas
    ex.assume(eq(add(mul(c, c), mul(s, s)), ONE))
    ex.assume(eq(sub(mul(num(2), c, c), ONE), _cos(a.angle)))
    ex.assume(eq(mul(num(2), s, c), _sin(a.angle)))
    return Quat(c, mul(s, a.axis.e[0]), mul(s, a.axis.e[1]), mul(s, a.axis.e[2]))


def quat_aa(ex, q):
    n2 = add(mul(q.x, q.x), mul(q.y, q.y), mul(q.z, q.z))
    if ex.branch(eq(n2, ZERO)):
        return AngleAxis(ZERO, Mat(3, 1, [ONE, ZERO, ZERO]))
    n = sqrt(n2)
    neg_ = ex.branch(lt(q.w, ZERO))
    ang = mul(num(2), app('atan2', (n, neg(q.w) if neg_ else q.w), 'R'))
    d = inv(neg(n) if neg_ else n)
    return AngleAxis(ang, Mat(3, 1, [mul(x, d) for x in (q.x, q.y, q.z)]))


def rot(ex, q, x):
    """RotationBase::operator* """
    if isinstance(q, AngleAxis): q = aa_quat(ex, q)
    if isinstance(x, AngleAxis): x = aa_quat(ex, x)
    if isinstance(x, Quat): return qmul(q, x)
    if isinstance(x, Mat):
        if x.r == 3 and x.c == 1: return qrot(q, x)
        return matmul(qmat(q), x)
    raise Unsupported('rotation of ' + type(x).__name__)


def fit3(x):
    if isinstance(x, DMat) and ci(x.r) == 3 and ci(x.c) == 1: return Mat(3, 1, [x.get(ti(i), I0) for i in range(3)], x.k)
    return x


# ---------------------------------------------------------------- containers
def sym_map(ex, o, nm):
    """arbitrary std::map<string, pointer>"""
    kt, vt = o['targs'][0], o['targs'][1]
    tag = nm('.map', 'Ref')
    has = lambda k: nm('.has', 'B', (k,))
    get = lambda k: ex.symval(vt, lambda p, s, idx=(): nm('.val' + p, s, (k,) + tuple(idx)))
    n = nm('.size', 'I')
    ex.assume(le(I0, n))
    return MapV(has, get, n, None, tag)


def empty_map(ex):
    return MapV(lambda k: FALSE, lambda k: SPtr(app('absent', (k,), 'Ref'), '?'), I0, None, None)


class MapEntry:
    """lvalue of a map element"""
    def __init__(self, it): self.it = it


def map_member(ex, x, f):
    it = keyed(ex, x[1] if isinstance(x, tuple) else x)
    if isinstance(it, MapIt):
        if f == 'first': return it.key
        return it.m / ('mapval', it.key)
    raise Unsupported('map entry')


def keyed(ex, it):
    """the entry an iterator at a position of the traversal refers to"""
    if it.key is None and it.idx is not None and it.end is not TRUE: return MapIt(it.m, map_keys(ex, ex.rv(it.m))(it.idx), FALSE, it.idx)
    return it


def map_keys(ex, m):
    """key at each position of the traversal: a bijection between [0,n) and the present keys, in increasing order"""
    c = ex.mapkeys.get(id(m))
    if c is None:
        c = next(_n), fresh('i', 'I'), fresh('j', 'I'), fresh('s', 'Str'), m
        ex.mapkeys[id(m)] = c          # every traversal of this value goes through the keys in the same order
    u, i, j, s, _ = c
    key = lambda i: app('mapkey!%d' % u, (i,), 'Str')
    pos = lambda k: app('mappos!%d' % u, (k,), 'I')
    ex.assume(all_(i, I0, m.n, and_(m.has(key(i)), eq(pos(key(i)), i))))
    ex.assume(qall(s, implies(m.has(s), and_(le(I0, pos(s)), lt(pos(s), m.n), eq(key(pos(s)), s)))))
    ex.assume(all_(i, I0, m.n, all_(j, I0, i, app('strlt', (key(j), key(i)), 'B'))))
    return key


def map_as_seq(ex, lv):
    m = ex.rv(lv)
    key = map_keys(ex, m)
    return Seq(m.n, lambda i: Tup([key(i), m.get(key(i))]), ('map', m))


def pos_seq(ex, v):
    if isinstance(v, Seq): return v
    raise Unsupported('sequence expected, got ' + type(v).__name__)


def iter_add(ex, it, k):
    k = lift(k)
    if isinstance(it, It): return It(it.lv, add(it.i, k))
    if isinstance(it, MapIt):
        if it.idx is None or it.end is TRUE: raise Unsupported('stepping through a map')
        return MapIt(it.m, None, None, add(it.idx, k))
    raise Unsupported('iterator arithmetic')


def seq_perm(ex, s, less):
    """result of std::sort: an increasing permutation"""
    n = s.n
    if s.items is not None and len(s.items) <= 1: return s
    u = next(_n)
    p = lambda i: app('perm!%d' % u, (i,), 'I')
    q = lambda i: app('perminv!%d' % u, (i,), 'I')
    i, j = fresh('i', 'I'), fresh('j', 'I')
    ex.assume(all_(i, I0, n, and_(le(I0, p(i)), lt(p(i), n), eq(q(p(i)), i))))
    ex.assume(all_(i, I0, n, and_(le(I0, q(i)), lt(q(i), n), eq(p(q(i)), i))))
    out = Seq(n, lambda k: s.get(p(k)), ('perm', s, 'perm!%d' % u, n))
    PERMS['perm!%d' % u] = n
    ex.lastperm = u
    if less is not None:
        c = less(out.get(j), out.get(i))      # evaluated for i<j: must not hold
        ex.assume(all_(j, I0, n, all_(i, I0, j, not_(c))))
    return out


PERMS = {}


def insertion(ex, it, v):
    raise Unsupported('insert')


def iter_range(ex, b_, e):
    """(sequence value, start, end, lvalue)"""
    if isinstance(b_, It) and isinstance(e, It):
        return ex.rv(b_.lv), b_.i, e.i, b_.lv
    if isinstance(b_, MapIt) and isinstance(e, MapIt) and b_.idx is I0 and e.end is TRUE:
        s = map_as_seq(ex, b_.m)
        return s, I0, s.n, None
    if isinstance(b_, Ptr) or isinstance(e, Ptr): raise Unsupported('pointer range')
    raise Unsupported('iterator range')


def less_fn(ex, f):
    """comparator as a term; must be pure"""
    def g(a, b_):
        if f is None:
            if isinstance(a, T):
                return app('strlt', (a, b_), 'B') if a.s == 'Str' else lt(a, b_)
            raise Unsupported('default comparison')
        return ex.pure_term(lambda: ex.truth(ex.rv(ex.apply(f, [ex.tmp(a), ex.tmp(b_)]))))
    return g


# ---------------------------------------------------------------- constructors
STRINGS = ('std::basic_string', 'std::__cxx11::basic_string')
SEQS = ('std::vector', 'std::deque', 'std::list')


def drop_tags(ex, args):
    return [a for a in args if not (isinstance(a, tuple) and a and a[0] == 'tag')]


def construct(ex, o, args, e):
    q = o.get('rec') or o['s']
    if q.split('::')[-1] in ('PrivateType', 'allocator', 'less', 'default_delete'): return ('tag',)
    args = drop_tags(ex, args)
    vals = [ex.rv(a) for a in args]
    if e.get('copy') and len(vals) == 1: return ex.copyval(vals[0]) if not isinstance(vals[0], (Mat, DMat)) else vals[0]
    if q in ('Eigen::Matrix', 'Eigen::Array'):
        k = 'M' if q == 'Eigen::Matrix' else 'A'
        r, c = o['targs'][1], o['targs'][2]
        if not vals: return ex.default(e['t'])
        if all(isinstance(v, T) for v in vals):
            fixed = r > 0 and c > 0
            if fixed and len(vals) == r * c and (len(vals) > 1 or r * c == 1):
                return Mat(r, c, [toreal(v) for v in vals], k)
            if not fixed and all(v.s == 'I' for v in vals):
                u = 'uninit!%d' % next(_n)
                if len(vals) == 1:
                    rr, cc = (vals[0], ti(c)) if c > 0 else (ti(r), vals[0])
                else: rr, cc = vals[0], vals[1]
                return DMat(rr, cc, lambda i, j: app(u, (i, j), 'R'), k, ('alloc', u))
            if fixed and len(vals) == 1 and r * c > 1: return ex.fresh_of(e['t'], 'uninit')
            raise Unsupported('matrix constructor')
        if len(vals) == 1 and ismat(vals[0]): return convert(vals[0], o)
        if len(vals) == 1 and isinstance(vals[0], (Quat, AngleAxis)):
            return qmat(vals[0] if isinstance(vals[0], Quat) else aa_quat(ex, vals[0]))
        if len(vals) == 1 and isinstance(vals[0], Seq) and vals[0].items is not None:
            return Mat(r, c, vals[0].items, k)
        raise Unsupported('matrix constructor')
    if q == 'Eigen::DiagonalMatrix':
        n = o['targs'][1]
        if len(vals) == n and all(isinstance(v, T) for v in vals): return Mat(n, n, [toreal(v) for v in vals], 'D')
        if len(vals) == 1 and isinstance(vals[0], Mat):
            return vals[0] if vals[0].k == 'D' else Mat(n, n, vals[0].e, 'D')
        if not vals: return ex.default(e['t'])
        raise Unsupported('diagonal matrix constructor')
    if q == 'Eigen::Quaternion':
        if len(vals) == 4: return Quat(*[toreal(v) for v in vals])
        if len(vals) == 1:
            if isinstance(vals[0], Quat): return vals[0]
            if isinstance(vals[0], AngleAxis): return aa_quat(ex, vals[0])
        if not vals: return ex.default(e['t'])
        raise Unsupported('quaternion constructor')
    if q == 'Eigen::AngleAxis':
        if len(vals) == 2: return AngleAxis(toreal(vals[0]), Mat(3, 1, fit3(vals[1]).e))
        if len(vals) == 1:
            if isinstance(vals[0], AngleAxis): return vals[0]
            if isinstance(vals[0], Quat): return quat_aa(ex, vals[0])
        raise Unsupported('angle-axis constructor')
    if q in STRINGS:
        if not vals: return string('')
        if isinstance(vals[0], T) and vals[0].s == 'Str': return vals[0]
        raise Unsupported('string constructor')
    if q in SEQS:
        if not vals: return seq_items([], o['targs'][0])
        if len(vals) == 1 and isinstance(vals[0], Seq): return vals[0]
        if len(vals) == 2 and isinstance(vals[0], (It, MapIt)):
            s, i, j, _ = iter_range(ex, vals[0], vals[1])
            return subseq(s, i, j)
        if isinstance(vals[0], T) and vals[0].s == 'I':
            v = vals[1] if len(vals) > 1 else ex.zero(o['targs'][0])
            n = ci(vals[0])
            if n is not None and n <= 64: return seq_items([v] * n)
            return Seq(vals[0], lambda i: v, ('const', v))
        raise Unsupported('container constructor')
    if q in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
        if not vals: return Ptr(None)
        return vals[0]
    if q == 'std::pair':
        if not vals: return ex.default(e['t'])
        if len(vals) == 2: return Tup([ex.coerce(v, t) for v, t in zip(vals, o['targs'])])
        if len(vals) == 1 and isinstance(vals[0], Tup): return Tup([ex.coerce(v, t) for v, t in zip(vals[0].e, o['targs'])])
    if q == 'std::tuple':
        if len(vals) == 1 and isinstance(vals[0], Tup): return Tup([ex.coerce(v, t) for v, t in zip(vals[0].e, o['targs'])], 'tuple')
        if len(vals) == len(o['targs']): return Tup([ex.coerce(v, t) for v, t in zip(vals, o['targs'])], 'tuple')
    if q == 'std::map':
        if not vals: return empty_map(ex)
        return vals[0]
    if q in ('std::exception', 'std::runtime_error', 'std::logic_error', 'std::invalid_argument', 'std::out_of_range', 'std::domain_error'):
        return Rec(q, {})
    if 'iterator' in q and len(vals) == 1: return vals[0]
    if q == 'std::function' and len(vals) == 1: return vals[0]
    if q == 'std::reference_wrapper' and len(args) == 1: return args[0]
    raise Unsupported('constructor of ' + q)


def subseq(s, i, j):
    if i is I0 and j is s.n: return s
    if s.items is not None and ci(i) is not None and ci(j) is not None: return seq_items(s.items[ci(i):ci(j)])
    return Seq(sub(j, i), lambda k: s.get(add(i, k)), ('sub', s, i, j))


# ---------------------------------------------------------------- free functions
def fn_math(name, *vals):
    x = [toreal(v) for v in vals]
    if name == 'sqrt': return sqrt(x[0])
    if name == 'pow': return pow_(*x)
    if name in ('abs', 'fabs'): return abs_(x[0] if vals[0].s == 'R' else vals[0])
    if name == 'sin': return _sin(x[0])
    if name == 'cos': return _cos(x[0])
    if name == 'acos': return _acos(x[0])
    if name == 'exp': return _exp(x[0])
    if name == 'hypot': return sqrt(add(*[mul(y, y) for y in x]))
    if name == 'floor': return toreal(app('floor', (x[0],), 'I'))
    if name == 'fmod': return app('fmod', tuple(x), 'R')
    if name == 'asin': return app('asin', tuple(x), 'R')
    if name == 'atan2': return app('atan2', tuple(x), 'R')
    if name in ('tan', 'atan', 'log', 'sinh', 'cosh', 'tanh', 'cbrt', 'log10', 'exp2'): return app(name, tuple(x), 'R')
    if name == 'fmax': return fmax(*x)
    if name == 'fmin': return fmin(*x)
    raise Unsupported(name)


MATH = {'sqrt', 'pow', 'abs', 'fabs', 'sin', 'cos', 'acos', 'exp', 'hypot', 'floor', 'fmod', 'asin', 'atan2', 'tan', 'atan', 'log', 'fmax', 'fmin', 'sinh', 'cosh', 'tanh', 'cbrt'}


def call(ex, f, args, e):
    q = f['q']; n = q.split('::')[-1]
    if n.startswith('__builtin_'): n = n[len('__builtin_'):]
    if n in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof'): return args[0]
    if q.startswith('Eigen::') and n in ('Zero', 'Ones', 'Identity', 'UnitX', 'UnitY', 'UnitZ', 'Constant', 'Unit', 'Random'): return eigen_static(ex, f, n, args, e)
    vals = [ex.rv(a) for a in args]
    if n in ('isnan',) and isinstance(vals[0], T): return isnan(vals[0])
    if n in ('isfinite',) and isinstance(vals[0], T): return not_(isnan(vals[0]))
    if n in MATH and all(isinstance(v, T) for v in vals): return fn_math(n, *vals)
    if n in MATH and ismat(vals[0]):
        return array_fn(n, vals)
    if n in ('max', 'min') and len(vals) >= 2 and all(isinstance(v, T) for v in vals[:2]):
        if len(vals) == 3: raise Unsupported('max with a comparator')
        return (fmax if n == 'max' else fmin)(*vals)
    if n in ('max', 'min') and len(vals) == 1 and isinstance(vals[0], Seq) and vals[0].items:
        r = vals[0].items[0]
        for x in vals[0].items[1:]: r = (fmax if n == 'max' else fmin)(r, x)
        return r
    if n == 'clamp' and all(isinstance(v, T) for v in vals): return ite(lt(vals[0], vals[1]), vals[1], ite(lt(vals[2], vals[0]), vals[2], vals[0]))
    if n == 'swap' and len(args) == 2:
        ex.store(args[0], vals[1]); ex.store(args[1], vals[0]); return None
    if n == 'rand':
        r = fresh('rand', 'I')
        ex.assume(le(I0, r)); ex.assume(le(r, ti(2147483647)))
        return r
    if n in ('begin', 'cbegin'): return seq_begin(ex, args[0])
    if n in ('end', 'cend'): return seq_end(ex, args[0])
    if n == 'size' and isinstance(vals[0], Seq): return vals[0].n
    if n == 'empty' and isinstance(vals[0], Seq): return eq(vals[0].n, I0)
    if n == 'minmax' and len(vals) == 2 and all(isinstance(v, T) for v in vals): return Tup([fmin(*vals), fmax(*vals)])
    if n == 'tie':
        if not all(isinstance(a, LV) for a in args): raise Unsupported('std::tie of something else than variables')
        return Tie(vals, list(args))
    if n in ('make_pair', 'make_tuple'):
        return Tup([ex.copyval(v) for v in vals], 'pair' if n == 'make_pair' else 'tuple')
    if n == 'get' and isinstance(vals[0], Tup):
        i = [x for x in f.get('targs', []) if isinstance(x, int)][0]
        return args[0] / ('el', i) if isinstance(args[0], LV) else vals[0].e[i]
    if n in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast'): return vals[0]
    if n in ('make_shared', 'make_unique'): return make_shared(ex, f, args, e)
    if n == 'back_inserter': return BackIns(args[0])
    if n == 'sort' or n == 'stable_sort':
        s, i, j, lv = iter_range(ex, vals[0], vals[1])
        if i is not I0 or j is not s.n: raise Unsupported('sorting part of a container')
        ex.store(lv, seq_perm(ex, s, less_fn(ex, args[2] if len(args) > 2 else None)))
        return None
    if n in ('lower_bound', 'upper_bound'):
        s, i, j, lv = iter_range(ex, vals[0], vals[1])
        less = less_fn(ex, args[3] if len(args) > 3 else None)
        r = fresh(n, 'I')
        ex.assume(le(i, r)); ex.assume(le(r, j))
        k, l = fresh('k', 'I'), fresh('l', 'I')
        v = vals[2]
        before = less(s.get(k), v) if n == 'lower_bound' else not_(less(v, s.get(k)))
        srt = all_(k, i, j, all_(l, i, k, not_(less(s.get(k), s.get(l)))))
        fact = and_(all_(k, i, r, before), all_(k, r, j, not_(before)))
        ex.assume(implies(srt, fact))
        if ex.implied(srt): ex.assume(fact)
        return It(lv, r)
    if n in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find'):
        s, i, j, lv = iter_range(ex, vals[0], vals[1])
        if n == 'find': pred = lambda k: ex.binop('==', s.get(k), vals[2])
        else: pred = ex.lam(lambda k: ex.truth(ex.rv(ex.apply(args[2], [ex.tmp(s.get(k))])))) if s.items is None else (lambda k: ex.pure_term(lambda: ex.truth(ex.rv(ex.apply(args[2], [ex.tmp(s.get(k))])))))
        k = fresh('k', 'I')
        if s.items is not None and ci(i) is not None and ci(j) is not None:
            ps = [pred(ti(x)) for x in range(ci(i), ci(j))]
        else: ps = None
        if n == 'any_of': return or_(*ps) if ps is not None else ex_(k, i, j, pred(k))
        if n == 'all_of': return and_(*ps) if ps is not None else all_(k, i, j, pred(k))
        if n == 'none_of': return not_(or_(*ps)) if ps is not None else not_(ex_(k, i, j, pred(k)))
        if n == 'count_if': return sum_(k, i, j, ite(pred(k), I1, I0))
        r = fresh('found', 'I')
        ex.assume(le(i, r)); ex.assume(le(r, j))
        if ps is not None:
            lo = ci(i)
            for x, p in enumerate(ps): ex.assume(and_(implies(lt(ti(lo + x), r), not_(p)), implies(eq(r, ti(lo + x)), p)))
            return It(lv, r if ps else i)
        ex.assume(all_(k, i, r, not_(pred(k))))
        ex.assume(or_(eq(r, j), pred(r)))
        return It(lv, r)
    if n == 'accumulate':
        s, i, j, lv = iter_range(ex, vals[0], vals[1])
        return ex.fold(vals[2], s, i, j, args[3] if len(args) > 3 else None)
    if n in ('transform', 'copy', 'for_each', 'fill', 'copy_if'):
        return algo(ex, n, args, vals, e)
    if n == 'distance':
        return sub(vals[1].i, vals[0].i)
    if n in ('next', 'prev') and isinstance(vals[0], It):
        k = vals[1] if len(vals) > 1 else I1
        return It(vals[0].lv, add(vals[0].i, k if n == 'next' else neg(k)))
    if n == 'advance': ex.store(args[0], iter_add(ex, vals[0], vals[1])); return None
    if n in ('min_element', 'max_element'):
        s, i, j, lv = iter_range(ex, vals[0], vals[1])
        less = less_fn(ex, args[2] if len(args) > 2 else None)
        r = fresh(n, 'I'); k = fresh('k', 'I')
        ex.assume(le(i, r)); ex.assume(le(r, j)); ex.assume(implies(lt(i, j), lt(r, j)))
        c = less(s.get(k), s.get(r)) if n == 'min_element' else less(s.get(r), s.get(k))
        ex.assume(all_(k, i, j, not_(c)))
        return It(lv, r)
    if n == 'to_string': return app('to_string', tuple(vals), 'Str')
    if n in ('printf', 'puts'): return None
    raise Unsupported('call of ' + q)


def array_fn(n, vals):
    if n == 'pow': return ew(lambda x, y: pow_(x, y), *[v if ismat(v) else toreal(v) for v in vals])
    if n in ('abs', 'sqrt', 'sin', 'cos', 'exp', 'acos'): return ew(lambda x: fn_math(n, x), vals[0])
    raise Unsupported('array function ' + n)


def eigen_static(ex, f, n, args, e):
    vals = [ex.rv(a) for a in args]
    o = ex.prog.types[ex.strip(e['t'])]
    m = mat_type(ex, o)
    if m is None: raise Unsupported('shape of ' + f['q'])
    r, c, k = m
    if n in ('UnitX', 'UnitY', 'UnitZ', 'Unit'):
        i = 'XYZ'.index(n[-1]) if n != 'Unit' else ci(vals[0])
        return Mat(r, c, [ONE if x == i else ZERO for x in range(r * c)], k)
    x = toreal(vals[-1]) if n == 'Constant' else ZERO if n == 'Zero' else ONE
    if n == 'Random': raise Unsupported('random matrix')
    sz = vals[:-1] if n == 'Constant' else vals
    if r > 0 and c > 0:
        if n == 'Identity': return Mat(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)], k)
        return Mat(r, c, [x] * (r * c), k)
    if len(sz) == 2: rr, cc = sz
    elif len(sz) == 1: rr, cc = (sz[0], ti(c)) if c > 0 else (ti(r), sz[0])
    else: raise Unsupported('dynamic constant')
    if n == 'Identity': return DMat(rr, cc, lambda i, j: ite(eq(i, j), ONE, ZERO), k)
    return DMat(rr, cc, lambda i, j: x, k)


def mat_type(ex, o):
    """(rows, cols, kind) of an Eigen expression type"""
    q = o.get('rec')
    if q in ('Eigen::Matrix', 'Eigen::Array'): return o['targs'][1], o['targs'][2], 'M' if q == 'Eigen::Matrix' else 'A'
    if q and q.startswith('Eigen::'):
        ints = [x for x in o.get('targs') or [] if not isinstance(x, (str, bool))]
        for t in o.get('targs') or []:
            if isinstance(t, str):
                m = mat_type(ex, ex.prog.types[ex.strip(t)])
                if m and q in ('Eigen::Block', 'Eigen::VectorBlock') and ints:
                    return (ints[0], ints[1] if len(ints) > 1 and q == 'Eigen::Block' else 1, m[2])
                if m and q == 'Eigen::Transpose': return (m[1], m[0], m[2])
                m = mat_type(ex, ex.prog.types[ex.strip(t)])
                if m: return m
    return None


def make_shared(ex, f, args, e):
    o = ex.prog.types[ex.strip(e['t'])]
    t = o['targs'][0]
    cls = ex.rec_of(t)
    vals = [ex.rv(a) for a in args]
    if cls in ex.makers: return ex.makers[cls](ex, args)
    if cls not in ex.prog.recq: raise Unsupported('make_shared of ' + cls)
    if len(vals) == 1 and isinstance(vals[0], Rec) and (vals[0].cls == cls or cls in ex.bases(vals[0].cls)):
        v = vals[0]
        keys = {k for k, _ in ex.fields(cls)}
        return Ptr(ex.alloc(ex.copyval(Rec(cls, {k: x for k, x in v.f.items() if k in keys}))), cls)
    fn = ex.pick_ctor(cls, vals)
    if fn is None and not vals: return Ptr(ex.alloc(ex.default_full(t)), cls)
    if fn is None: raise Unsupported('constructor of %s not resolved' % cls)
    return Ptr(ex.alloc(ex.construct(cls, fn, list(args) + ex.default_args(fn, len(args)))), cls)


def algo(ex, n, args, vals, e):
    s, i, j, lv = iter_range(ex, vals[0], vals[1])
    if n == 'for_each':
        ex.loop_range(s, i, j, lambda el: ex.apply(args[2], [el]), lv)
        return args[2]
    if n == 'fill':
        ex.loop_index(i, j, lambda k: ex.store(lv / ('el', k), vals[2])); return None
    out = vals[2]
    if n == 'transform' or n == 'copy':
        if n == 'copy': val_at = s.get
        elif s.items is not None: val_at = lambda k: ex.rv(ex.apply(args[3], [ex.tmp(s.get(k))]))
        else: val_at = ex.lam(lambda k: ex.rv(ex.apply(args[3], [ex.tmp(s.get(k))])), i, j)
        if isinstance(out, BackIns):
            old = ex.rv(out.lv)
            cnt = sub(j, i)
            new = Seq(cnt, lambda k: val_at(add(i, k)), ('transform', s)) if s.items is None else seq_items([val_at(ti(k)) for k in range(ci(i), ci(j))])
            ex.store(out.lv, concat(old, new))
            return out
        if isinstance(out, It) and s.items is None:
            base = ex.rv(out.lv); o0 = out.i
            res = Seq(base.n, lambda k: merge(and_(le(o0, k), lt(k, add(o0, sub(j, i)))), lambda: val_at(add(i, sub(k, o0))), lambda: base.get(k)), ('transform', s))
            ex.store(out.lv, res)
            return It(out.lv, add(o0, sub(j, i)))
    raise Unsupported('algorithm ' + n)


def concat(a, b_):
    if a.items is not None and not a.items: return b_
    if b_.items is not None and not b_.items: return a
    if a.items is not None and b_.items is not None: return seq_items(a.items + b_.items)
    na = a.n
    return Seq(add(na, b_.n), lambda k: merge(lt(k, na), lambda: a.get(k), lambda: b_.get(sub(k, na))), ('concat', a, b_))


def seq_begin(ex, lv):
    lv = ex.tmp(lv)
    v = ex.rv(lv)
    if isinstance(v, Seq): return It(lv, I0)
    if isinstance(v, MapV): map_keys(ex, v); return MapIt(lv, None, None, I0)
    raise Unsupported('begin of ' + type(v).__name__)


def seq_end(ex, lv):
    lv = ex.tmp(lv)
    v = ex.rv(lv)
    if isinstance(v, Seq): return It(lv, v.n)
    if isinstance(v, MapV): return MapIt(lv, None, TRUE, None)
    raise Unsupported('end of ' + type(v).__name__)


# ---------------------------------------------------------------- operators
def opcall(ex, op, f, args, e):
    q = f['q']
    x = args[0]
    v0 = ex.rv(x)
    if v0 is STREAM: return STREAM
    if op == '()':
        idx = [ex.rv(a) for a in args[1:]]
        ex.index_ok(v0, *idx)
        return access(x, v0, ('co', idx[0], idx[1] if len(idx) > 1 else None))
    if op == '[]':
        i = ex.rv(args[1])
        ex.index_ok(v0, i) if not isinstance(v0, MapV) else None
        if ismat(v0): return access(x, v0, ('co', i, None))
        if isinstance(v0, Seq): return access(x, v0, ('el', i))
        if isinstance(v0, MapV): return map_index(ex, x, v0, i)
        raise Unsupported('[] on ' + type(v0).__name__)
    if op == '<<':
        if ismat(v0):
            c = Comma(x)
            comma_put(ex, c, ex.rv(args[1]))
            return c
        return STREAM
    if op == ',' and isinstance(v0, Comma):
        comma_put(ex, v0, ex.rv(args[1]))
        return v0
    if op == '=':
        v = ex.rv(args[1])
        if isinstance(v0, Tie):
            if not isinstance(v, Tup) or len(v.e) != len(v0.refs): raise Unsupported('assignment to a tie')
            for ref, y in zip(v0.refs, v.e): ex.store(ref, ex.copyval(y))
            return x
        o = ex.prog.types[ex.strip(e['t'])]
        if ismat(v0) and ismat(v):
            if isinstance(x, LV) and o.get('rec') in ('Eigen::Matrix', 'Eigen::Array'): v = convert(v, o)
            else: v = v.kind(v0.k)
            v = reshape_to(v, v0)
            if isinstance(x, LV) and x.path and x.path[-1][0] == 'T': pass
        elif isinstance(v0, Quat) and isinstance(v, AngleAxis): v = aa_quat(ex, v)
        elif isinstance(v0, AngleAxis) and isinstance(v, Quat): v = quat_aa(ex, v)
        elif isinstance(v0, Tup) and isinstance(v, Tup) and 'targs' in o: v = Tup([ex.coerce(y, t) if isinstance(t, str) else y for y, t in zip(v.e, o['targs'])], v.k)
        ex.store(x, v)
        return x
    if op == '->':
        if ex.checked and isinstance(v0, (It, MapIt)): ex.deref(v0)
        if isinstance(v0, MapIt): return keyed(ex, v0)
        if isinstance(v0, It): return Ptr(v0.lv / ('el', v0.i))
        return v0
    if op == '*' and len(args) == 1:
        if isinstance(v0, MapIt): return ('mapentry', keyed(ex, v0))
        return ex.deref(v0)
    if op in ('++', '--'):
        nv = iter_add(ex, v0, 1 if op == '++' else -1)
        ex.store(x, nv)
        return v0 if len(args) == 2 else x
    if len(args) == 1:
        if op == '-': return ew(neg, v0) if ismat(v0) else neg(v0)
        if op == '+': return v0
        if op == '!': return not_(ex.truth(v0))
        if op == 'bool': return ex.truth(v0)
    v1 = ex.rv(args[1])
    if op in ('+=', '-=', '*=', '/='):
        b_ = op[0]
        if isinstance(v0, (Quat,)):
            nv = rot(ex, v0, v1)
        elif isinstance(v0, T) and v0.s == 'Str': nv = strcat(v0, v1)
        elif isinstance(v0, It): nv = iter_add(ex, v0, v1 if b_ == '+' else neg(v1))
        else: nv = arith(ex, b_, v0, v1)
        if ismat(nv): nv = nv.kind(v0.k)
        ex.store(x, nv)
        return x
    if op in ('==', '!=', '<', '>', '<=', '>='):
        r = compare(ex, op, v0, v1)
        return r
    if op in '+-*/': return arith(ex, op, v0, v1)
    if op in ('&&', '||') and ismat(v0): return ew(and_ if op == '&&' else or_, v0, v1)
    raise Unsupported('operator%s on %s' % (op, type(v0).__name__))


def reshape_to(v, v0):
    if isinstance(v, Mat) and isinstance(v0, Mat) and (v.r, v.c) != (v0.r, v0.c) and (v.c, v.r) == (v0.r, v0.c) and 1 in (v.r, v.c):
        return Mat(v0.r, v0.c, v.e, v.k)
    return v


def access(x, v, el):
    if isinstance(x, LV): return x / el
    if el[0] == 'co': return coeff(v, el[1], el[2])
    return v.get(el[1])


def map_index(ex, x, m, k):
    """std::map::operator[]: inserts a default value when the key is absent"""
    if not ex.branch(m.has(k)):
        ex.store(x, map_set(m, k, Ptr(None)))
    return x / ('mapval', k)


def map_set(m, k, v):
    if isinstance(m.tag, tuple) and m.tag[0] == 'set' and m.tag[2] is k: return map_set(m.tag[1], k, v)
    h, g = m.has, m.get
    return MapV(lambda s: or_(eq(s, k), h(s)), lambda s: merge(eq(s, k), lambda: v, lambda: g(s)), add(m.n, ite(h(k), I0, I1)), None, ('set', m, k, v))


def map_del(m, k):
    h, g = m.has, m.get
    return MapV(lambda s: and_(ne(s, k), h(s)), g, sub(m.n, ite(h(k), I1, I0)), None, ('del', m, k))


def arith(ex, op, a, b_):
    if isinstance(a, It):
        if isinstance(b_, It): return sub(a.i, b_.i)
        return It(a.lv, add(a.i, b_ if op == '+' else neg(b_)))
    if isinstance(a, T) and isinstance(b_, T):
        if a.s == 'Str' or b_.s == 'Str': return strcat(a, b_)
        return ex.binop(op, a, b_)
    if isinstance(a, (Quat, AngleAxis)) or isinstance(b_, (Quat, AngleAxis)):
        if op != '*': raise Unsupported('rotation arithmetic')
        if isinstance(a, (Quat, AngleAxis)): return rot(ex, a, fit3(b_) if ismat(b_) else b_)
        return matmul(a, qmat(b_ if isinstance(b_, Quat) else aa_quat(ex, b_)))
    if ismat(a) and ismat(b_):
        if op == '*':
            if a.k == 'A' and b_.k == 'A': return ew(mul, a, b_)
            return matmul(a, b_)
        if op == '/': return ew(div, a, b_)
        return ew(add if op == '+' else sub, a, b_)
    if ismat(a) or ismat(b_):
        s, m = (b_, a) if ismat(a) else (a, b_)
        s = sc(s)
        if op == '*': return ew(lambda x: mul(x, s), m)
        if op == '/':
            if m is a: return ew(lambda x: div(x, s), m)
            return ew(lambda x: div(s, x), m)
        if m.k != 'A': raise Unsupported('scalar added to a matrix')
        if op == '+': return ew(lambda x: add(x, s), m)
        return ew(lambda x: sub(x, s), m) if m is a else ew(lambda x: sub(s, x), m)
    raise Unsupported('operator %s on %s and %s' % (op, type(a).__name__, type(b_).__name__))


def compare(ex, op, a, b_):
    if isinstance(a, It) and isinstance(b_, It): return ex.binop(op, a.i, b_.i)
    if isinstance(a, MapIt) or isinstance(b_, MapIt):
        r = map_eq(ex, a, b_)
        return r if op == '==' else not_(r)
    if isinstance(a, T) and isinstance(b_, T):
        if a.s == 'Str':
            if op == '==': return eq(a, b_)
            if op == '!=': return ne(a, b_)
            if op == '<': return app('strlt', (a, b_), 'B')
            if op == '>': return app('strlt', (b_, a), 'B')
            if op == '<=': return not_(app('strlt', (b_, a), 'B'))
            return not_(app('strlt', (a, b_), 'B'))
        return ex.binop(op, a, b_)
    if isinstance(a, (Ptr, SPtr)) or isinstance(b_, (Ptr, SPtr)):
        r = ex.ptr_eq(a, b_)
        return r if op == '==' else not_(r)
    if ismat(a) and ismat(b_) and a.k != 'A':
        c = ew(eq, a, b_)
        el = all_elems(c)
        if el is None: raise Unsupported('comparison of dynamic matrices')
        r = and_(*el)
        return r if op == '==' else not_(r)
    if ismat(a):
        f = {'<': lt, '<=': le, '>': lambda x, y: lt(y, x), '>=': lambda x, y: le(y, x), '==': eq, '!=': ne}[op]
        return ew(lambda x, y: f(x, y), a, b_ if ismat(b_) else sc(b_))
    raise Unsupported('comparison of %s' % type(a).__name__)


def map_eq(ex, a, b_):
    if b_.end is TRUE: a, b_ = b_, a
    if a.end is TRUE:
        if b_.end is not None: return b(True) if b_.end is TRUE else b_.end
        if b_.idx is not None and b_.key is None: return eq(b_.idx, ex.rv(a.m).n)
        if b_.key is not None: return FALSE
    if a.key is not None and b_.key is not None: return eq(a.key, b_.key)
    raise Unsupported('comparison of map iterators')


def comma_put(ex, c, v):
    m = ex.rv(c.lv)
    R, C = dims(m)
    R, C = ci(R), ci(C)
    if R is None or C is None: raise Unsupported('comma initialisation of a dynamic matrix')
    if isinstance(v, T): h, w = 1, 1
    else:
        h, w = ci(dims(v)[0]), ci(dims(v)[1])
        if h is None or w is None: raise Unsupported('comma initialisation with a dynamic block')
        if h == 1 and False: pass
    if isinstance(v, Mat) and (v.r, v.c) != (1, 1) and v.k == 'D': raise Unsupported('diagonal block')
    if c.h is None: c.h = h
    elif c.col >= C:
        c.row += c.h; c.col = 0; c.h = h
    if c.row + h > R or c.col + w > C: raise Unsupported('comma initialiser overflows')
    if isinstance(v, T): ex.store(c.lv / ('co', ti(c.row), ti(c.col)), toreal(v))
    else: ex.store(c.lv / ('blk', c.row, c.col, h, w), v)
    c.col += w
    if c.col >= C and False: pass
    c.h = h


# ---------------------------------------------------------------- member functions
def mcall(ex, f, x, args, e):
    n = f['q'].split('::')[-1]
    v = ex.rv(x)
    cls = f['q']
    if v is STREAM: return STREAM
    if isinstance(v, (Ptr, SPtr)) and n in ('get', 'operator->', 'operator*', 'operator bool', 'use_count', 'reset'):
        if n == 'get' or n == 'operator->': return v
        if n == 'operator*': return ex.deref(v)
        if n == 'operator bool': return ex.truth(v)
        raise Unsupported('shared_ptr::' + n)
    if isinstance(v, T) and v.s == 'Str': return str_method(ex, n, x, v, args)
    if isinstance(v, Seq): return seq_method(ex, n, x, v, args, e, f)
    if isinstance(v, MapV): return map_method(ex, n, x, v, args)
    if isinstance(v, Quat): return quat_method(ex, n, x, v, args)
    if isinstance(v, AngleAxis):
        if n in ('angle', 'axis'): return getattr(v, n)
        if n == 'toRotationMatrix': return qmat(aa_quat(ex, v))
        raise Unsupported('AngleAxis::' + n)
    if ismat(v): return mat_method(ex, n, x, v, args, f, e)
    if isinstance(v, Rec) and n == 'what': return string('what')
    if isinstance(v, Tup) and n == 'swap': raise Unsupported('swap')
    raise Unsupported('%s on %s' % (f['q'], type(v).__name__))


def str_method(ex, n, x, v, args):
    vals = [ex.rv(a) for a in args]
    if n == 'empty': return eq(v, string(''))
    if n in ('c_str', 'data'): return v
    if n == 'compare': return ite(eq(v, vals[0]), I0, ite(app('strlt', (v, vals[0]), 'B'), ti(-1), I1))
    if n == 'append' and len(vals) == 1:
        ex.store(x, strcat(v, vals[0])); return x
    if n in ('size', 'length'): return app('strlen', (v,), 'I')
    if n in ('operator+=',):
        ex.store(x, strcat(v, vals[0])); return x
    if n == 'operator=': ex.store(x, vals[0]); return x
    if n == 'clear': ex.store(x, string('')); return None
    raise Unsupported('string::' + n)


def seq_method(ex, n, x, v, args, e, f):
    vals = [ex.rv(a) for a in args]
    if n == 'size': return v.n
    if n == 'empty': return eq(v.n, I0)
    if n in ('begin', 'cbegin'): return It(ex.tmp(x), I0)
    if n in ('end', 'cend'): return It(ex.tmp(x), v.n)
    if n in ('push_back', 'emplace_back'):
        o = ex.prog.types[ex.strip(f['clst'])] if f.get('clst') else None
        if n == 'emplace_back' and (len(vals) != 1 or isinstance(vals[0], T)):
            et = ex.prog.types[ex.strip(e['b']['t'])]['targs'][0]
            eo = ex.prog.types[ex.strip(et)]
            if not ismat(ex.default(et)) and len(vals) == 1: pass
            elif eo['kind'] == 'record' and eo['rec'] not in ex.prog.recq: vals = [construct(ex, eo, args, {'t': et})]
            else: raise Unsupported('emplace_back')
        ex.store(x, v.push(ex.copyval(vals[0])))
        return x / ('el', v.n) if isinstance(x, LV) else None
    if n == 'push_front':
        ex.store(x, concat(seq_items([ex.copyval(vals[0])]), v)); return None
    if n in ('at', 'operator[]', 'front', 'back', 'pop_back', 'pop_front'): ex.index_ok(v, vals[0] if vals else I0)
    if n in ('at', 'operator[]'): return access(x, v, ('el', vals[0]))
    if n == 'front': return access(x, v, ('el', I0))
    if n == 'back': return access(x, v, ('el', sub(v.n, I1)))
    if n == 'clear': ex.store(x, seq_items([])); return None
    if n == 'reserve' or n == 'shrink_to_fit': return None
    if n == 'pop_back':
        if v.items is not None: ex.store(x, seq_items(v.items[:-1]))
        else: ex.store(x, Seq(sub(v.n, I1), v.get, ('pop', v)))
        return None
    if n == 'resize':
        m = vals[0]
        if v.items is not None and not v.items or v.n is I0:
            o = e['b']['t']
            et = ex.prog.types[ex.strip(o)]['targs'][0]
            z = vals[1] if len(vals) > 1 else ex.default(et)
            k = ci(m)
            ex.store(x, seq_items([z] * k) if k is not None and k <= 64 else Seq(m, lambda i: z, ('const', z)))
            return None
        if ci(m) is not None and v.items is not None and ci(m) <= len(v.items):
            ex.store(x, seq_items(v.items[:ci(m)])); return None
        raise Unsupported('resize')
    if n == 'assign' and len(vals) == 2 and isinstance(vals[0], T):
        z = vals[1]; k = ci(vals[0])
        ex.store(x, seq_items([z] * k) if k is not None and k <= 64 else Seq(vals[0], lambda i: z, ('const', z)))
        return None
    if n == 'erase' and len(vals) == 1 and isinstance(vals[0], It):
        i = vals[0].i
        ex.index_ok(v, i)
        if v.items is not None and ci(i) is not None:
            it = list(v.items); del it[ci(i)]
            ex.store(x, seq_items(it))
        else:
            ex.store(x, Seq(sub(v.n, I1), lambda k: merge(lt(k, i), lambda: v.get(k), lambda: v.get(add(k, I1))), ('erase', v, i)))
        return It(x, i)
    if n == 'insert' and len(vals) == 3 and isinstance(vals[0], It) and isinstance(vals[1], It):
        s, i, j, _ = iter_range(ex, vals[1], vals[2])
        if vals[0].i is v.n:
            ex.store(x, concat(v, subseq(s, i, j))); return vals[0]
    if n == 'insert' and len(vals) == 2 and isinstance(vals[0], It) and not isinstance(vals[1], (It, Seq)):
        i = vals[0].i
        ex.store(x, concat(concat(subseq(v, I0, i), seq_items([ex.copyval(vals[1])])), subseq(v, i, v.n)))
        return It(x, i)
    if n == 'erase' and len(vals) == 2 and all(isinstance(y, It) for y in vals):
        i, j = vals[0].i, vals[1].i
        ex.store(x, concat(subseq(v, I0, i), subseq(v, j, v.n)))
        return It(x, i)
    if n == 'assign' and len(vals) == 2 and all(isinstance(y, It) for y in vals):
        s, i, j, _ = iter_range(ex, vals[0], vals[1])
        ex.store(x, subseq(s, i, j)); return None
    if n == 'pop_front': ex.store(x, subseq(v, I1, v.n)); return None
    if n == 'swap' and isinstance(args[0], LV) and isinstance(x, LV) and isinstance(vals[0], Seq):
        ex.store(x, vals[0]); ex.store(args[0], v); return None
    raise Unsupported('container::' + n)


def map_method(ex, n, x, m, args):
    vals = [ex.rv(a) for a in args]
    if n in ('find',):
        k = vals[0]
        return MapIt(x, k, not_(m.has(k)))
    if n == 'count': return ite(m.has(vals[0]), I1, I0)
    if n == 'contains': return m.has(vals[0])
    if n == 'size': return m.n
    if n == 'empty': return eq(m.n, I0)
    if n in ('begin', 'cbegin'): map_keys(ex, m); return MapIt(x, None, None, I0)
    if n in ('end', 'cend'): return MapIt(x, None, TRUE)
    if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        if len(vals) == 1 and isinstance(vals[0], Tup): k, v = vals[0].e
        elif len(vals) == 2: k, v = vals
        else: raise Unsupported('map::' + n)
        had = m.has(k)
        if n == 'insert_or_assign': new = map_set(m, k, v)
        else:
            g, h = m.get, m.has
            new = MapV(lambda s: or_(eq(s, k), h(s)), lambda s: merge(and_(eq(s, k), not_(had)), lambda: v, lambda: g(s)), add(m.n, ite(had, I0, I1)), None, ('ins', m, k, v))
        ex.store(x, new)
        return Tup([MapIt(x, k, FALSE), not_(had)])
    if n == 'erase':
        if isinstance(vals[0], MapIt):
            if vals[0].key is None: raise Unsupported('erase of this iterator')
            ex.store(x, map_del(m, vals[0].key))
            return None
        k = vals[0]
        had = m.has(k)
        ex.store(x, map_del(m, k))
        return ite(had, I1, I0)
    if n == 'clear': ex.store(x, empty_map(ex)); return None
    if n == 'swap' and isinstance(args[0], LV) and isinstance(vals[0], MapV):
        ex.store(x, vals[0]); ex.store(args[0], m); return None
    if n == 'at':
        if not ex.branch(m.has(vals[0])):
            from .engine import CppThrow
            raise CppThrow('std::out_of_range')
        return x / ('mapval', vals[0])
    if n == 'operator[]': return map_index(ex, x, m, vals[0])
    raise Unsupported('map::' + n)


def quat_method(ex, n, x, q, args):
    vals = [ex.rv(a) for a in args]
    if n in 'wxyz' and len(n) == 1: return x / ('q', n) if isinstance(x, LV) else getattr(q, n)
    if n == 'vec': return Mat(3, 1, [q.x, q.y, q.z])
    if n == 'coeffs': return Mat(4, 1, [q.x, q.y, q.z, q.w])
    if n == 'conjugate': return qconj(q)
    if n == 'squaredNorm': return qn2(q)
    if n == 'norm': return sqrt(qn2(q))
    if n == 'dot': return add(*[mul(a, c) for a, c in zip(q.tup(), vals[0].tup())])
    if n in ('normalize', 'normalized'):
        n2 = qn2(q)
        r = q
        if ex.branch(lt(ZERO, n2)):
            s = inv(sqrt(n2))
            r = Quat(*[mul(t, s) for t in q.tup()])
        if n == 'normalize':
            ex.store(x, r); return None
        return r
    if n == 'inverse':
        n2 = qn2(q)
        if ex.branch(lt(ZERO, n2)):
            s = inv(n2)
            return Quat(mul(q.w, s), neg(mul(q.x, s)), neg(mul(q.y, s)), neg(mul(q.z, s)))
        return Quat(ZERO, ZERO, ZERO, ZERO)
    if n in ('toRotationMatrix', 'matrix'): return qmat(q)
    if n == '_transformVector': return qrot(q, vals[0])
    if n == 'setIdentity': ex.store(x, Quat(ONE, ZERO, ZERO, ZERO)); return x
    raise Unsupported('quaternion::' + n)


def mat_method(ex, n, x, v, args, f, e):
    vals = [ex.rv(a) for a in args]
    R, C = dims(v)
    lv = isinstance(x, LV)

    def view(r0, c0, nr, nc):
        ex.within('the block lies in the matrix', le(I0, r0), le(I0, c0), le(add(r0, nr), R), le(add(c0, nc), C))
        return x / ('blk', r0, c0, nr, nc) if lv else block(v, r0, c0, nr, nc)
    if n == 'size': return mul(R, C)
    if n == 'rows': return R
    if n == 'cols': return C
    if n in ('coeff', 'operator()', 'coeffRef'): ex.index_ok(v, *vals)
    if n in ('coeff', 'operator()', 'coeffRef'): return access(x, v, ('co', vals[0], vals[1] if len(vals) > 1 else None))
    if n in 'xyzw' and len(n) == 1: ex.index_ok(v, ti('xyzw'.index(n)))
    if n in 'xyzw' and len(n) == 1: return access(x, v, ('co', ti('xyzw'.index(n)), None))
    if n == 'col': return view(I0, vals[0], R, I1)
    if n == 'row': return view(vals[0], I0, I1, C)
    if n in ('head', 'tail', 'segment', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'block', 'middleCols'):
        k = [ti(y) for y in f.get('targs', []) if isinstance(y, int)] or vals
        if n == 'block':
            if len(vals) == 4: return view(*vals)
            return view(vals[0], vals[1], k[0], k[1])
        cnt = k[0] if n not in ('segment', 'middleCols') else (k[-1] if k is not vals else vals[1])
        if n in ('head', 'tail', 'segment'):
            st = I0 if n == 'head' else (vals[0] if n == 'segment' else None)
            if ci(C) == 1: return view(st if st is not None else sub(R, cnt), I0, cnt, I1)
            return view(I0, st if st is not None else sub(C, cnt), I1, cnt)
        if n == 'topRows': return view(I0, I0, cnt, C)
        if n == 'bottomRows': return view(sub(R, cnt), I0, cnt, C)
        if n == 'leftCols': return view(I0, I0, R, cnt)
        if n == 'rightCols': return view(I0, sub(C, cnt), R, cnt)
        if n == 'middleCols': return view(I0, vals[0], R, cnt)
    if n == 'array': return x / ('kind', 'A') if lv else v.kind('A')
    if n in ('matrix', 'eval', 'derived', 'noalias', 'finished', 'lazyProduct', 'asDiagonal'):
        if n == 'matrix': return x / ('kind', 'M') if lv else v.kind('M')
        if n == 'asDiagonal':
            return Mat(len(v.e), len(v.e), v.e, 'D')
        if n == 'lazyProduct': return matmul(v, vals[0])
        return x
    if n == 'diagonal': return Mat(v.r, 1, [v(i, i) for i in range(v.r)] if v.k != 'D' else v.e)
    if n == 'toDenseMatrix': return Mat(v.r, v.c, [v(i, j) for i in range(v.r) for j in range(v.c)])
    if n in ('transpose', 'adjoint'): return x / ('T',) if lv else transpose(v)
    if n == 'inverse':
        if v.k == 'A': return ew(inv, v)
        return inverse(v)
    if n == 'determinant': return det(v)
    if n == 'trace': return add(*[v(i, i) for i in range(v.r)])
    if n == 'sum': return msum(v)
    if n == 'prod': return mul(*all_elems(v))
    if n == 'mean': return div(msum(v), mul(R, C))
    if n in ('norm', 'stableNorm'): return norm(v)
    if n == 'squaredNorm': return sqnorm(v)
    if n in ('normalize', 'normalized', 'stableNormalize', 'stableNormalized'):
        r = normalized(ex, v)
        if n in ('normalize', 'stableNormalize'):
            ex.store(x, r); return None
        return r
    if n == 'dot': return dot(v, vals[0])
    if n == 'cross': return cross(fit3(v), fit3(vals[0]))
    if n == 'cwiseProduct': return ew(mul, v, vals[0])
    if n == 'cwiseQuotient': return ew(div, v, vals[0])
    if n == 'cwiseAbs' or (n == 'abs' and v.k == 'A'): return ew(abs_, v)
    if n == 'cwiseInverse': return ew(inv, v)
    if n == 'square' or n == 'cwiseAbs2' or n == 'abs2': return ew(lambda t: mul(t, t), v)
    if n == 'sqrt' or n == 'cwiseSqrt': return ew(sqrt, v)
    if n in ('exp', 'sin', 'cos', 'acos'): return ew(lambda t: fn_math(n, t), v)
    if n == 'pow': return ew(pow_, v, vals[0] if ismat(vals[0]) else toreal(vals[0]))
    if n in ('cwiseMax', 'max') and vals: return ew(lambda a, c: fmax(a, c), v, vals[0] if ismat(vals[0]) else sc(vals[0]))
    if n in ('cwiseMin', 'min') and vals: return ew(lambda a, c: fmin(a, c), v, vals[0] if ismat(vals[0]) else sc(vals[0]))
    if n in ('minCoeff', 'maxCoeff') and not vals:
        el = all_elems(v)
        if el is not None:
            r = el[0]
            for y in el[1:]: r = (fmin if n == 'minCoeff' else fmax)(r, y)
            return r
        cnt, g = one_dim(v)
        if cnt is None: raise Unsupported('minCoeff of a matrix')
        r = fresh(n); i = fresh('arg', 'I'); k = fresh('k', 'I')
        ex.assume(le(I0, i)); ex.assume(lt(i, cnt)); ex.assume(eq(r, g(i)))
        ex.assume(all_(k, I0, cnt, le(r, g(k)) if n == 'minCoeff' else le(g(k), r)))
        return r
    if n in ('hasNaN',): return or_(*[isnan(y) for y in all_elems(v)])
    if n == 'allFinite': return and_(*[not_(isnan(y)) for y in all_elems(v)])
    if n == 'any': return any_all(v, True)
    if n == 'all': return any_all(v, False)
    if n == 'count':
        return msum(ew(lambda c: ite(c, I1, I0), v))
    if n == 'select': return ew(lambda c, a, d: ite(c, a, d), v, *[y if ismat(y) else sc(y) for y in vals])
    if n == 'cast':
        ts = [ex.prog.types.get(y) if isinstance(ex.prog.types, dict) else None for y in (f.get('targs') or []) if isinstance(y, str)]
        to = 'I' if any(y and y.get('kind') == 'int' for y in ts) else 'R'
        def conv(y):
            if y.s == 'B': return ite(y, num(1, to), num(0, to))
            return y
        return ew(conv, v)
    if n in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity') and (not vals or n in ('setConstant', 'fill')):
        c = ZERO if n == 'setZero' else ONE if n == 'setOnes' else sc(vals[0]) if vals else None
        if n == 'setIdentity': r = Mat(v.r, v.c, [ONE if i == j else ZERO for i in range(v.r) for j in range(v.c)], v.k)
        else: r = ew(lambda t: c, v)
        ex.store(x, r); return x
    if n in ('resize', 'conservativeResize') and n == 'resize':
        o = ex.prog.types[ex.strip(e['b']['t'])]
        if len(vals) == 2: rr, cc = vals
        else: rr, cc = (vals[0], ti(o['targs'][2])) if o['targs'][2] > 0 else (ti(o['targs'][1]), vals[0])
        u = 'uninit!%d' % next(_n)
        ex.store(x, DMat(rr, cc, lambda i, j: app(u, (i, j), 'R'), v.k)); return None
    if n == 'isZero' or n == 'isApprox': raise Unsupported('approximate comparison')
    if n.startswith('operator') and len(args) == 1: return opcall(ex, n[8:], f, [x] + list(args), e)
    raise Unsupported('matrix::' + n)


def any_all(v, anyq):
    el = all_elems(v)
    if el is not None: return or_(*el) if anyq else and_(*el)
    n, g = one_dim(v)
    k = fresh('k', 'I')
    return ex_(k, I0, n, g(k)) if anyq else all_(k, I0, n, g(k))
