"""Immutable values of the symbolic executor."""
from .terms import *


class Unsupported(Exception):
    """a construct outside the verifier's reach (the obligation becomes inconclusive, never a violation)"""


class Mat:
    """fixed-size Eigen matrix ('M'), array ('A') or diagonal matrix ('D', elements of the diagonal only)"""
    __slots__ = ('r', 'c', 'e', 'k')

    def __init__(self, r, c, e, k='M'):
        self.r, self.c, self.e, self.k = r, c, tuple(e), k
        assert k == 'D' or len(self.e) == r * c, (r, c, len(self.e))

    def __call__(self, i, j=None):
        if j is None:
            return self.e[i]
        if self.k == 'D': return self.e[i] if i == j else ZERO
        return self.e[i * self.c + j]

    def map(self, f): return Mat(self.r, self.c, [f(x) for x in self.e], self.k)
    def kind(self, k): return Mat(self.r, self.c, self.e, k)
    def col(self, j): return Mat(self.r, 1, [self(i, j) for i in range(self.r)], self.k)
    def __repr__(self): return 'Mat%dx%d%s%s' % (self.r, self.c, self.k, list(self.e))


def vec(*xs): return Mat(len(xs), 1, [lift(x) for x in xs])


class DMat:
    """matrix/array with a symbolic extent, as a chain of nodes; get(i,j)"""
    __slots__ = ('r', 'c', 'get', 'k', 'node')

    def __init__(self, r, c, get, k='M', node=None):
        self.r, self.c, self.get, self.k, self.node = r, c, get, k, node

    def map(self, f): return DMat(self.r, self.c, lambda i, j: f(self.get(i, j)), self.k)
    def kind(self, k): return DMat(self.r, self.c, self.get, k, self.node)

    def set(self, i, j, v):
        g = self.get
        return DMat(self.r, self.c, lambda a, b_: ite(and_(eq(a, i), eq(b_, j)), v, g(a, b_)), self.k, ('set', self, i, j, v))
    def __repr__(self): return 'DMat(%s,%s)' % (self.r, self.c)


class Quat:
    __slots__ = ('w', 'x', 'y', 'z')

    def __init__(self, w, x, y, z): self.w, self.x, self.y, self.z = w, x, y, z
    def tup(self): return (self.w, self.x, self.y, self.z)
    def __repr__(self): return 'Quat%s' % (self.tup(),)


class AngleAxis:
    __slots__ = ('angle', 'axis')

    def __init__(self, angle, axis): self.angle, self.axis = angle, axis


class Rec:
    """object of a class: fields keyed by Owner::name"""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f): self.cls, self.f = cls, f

    def set(self, k, v):
        g = dict(self.f); g[k] = v
        return Rec(self.cls, g)
    def __repr__(self): return 'Rec<%s>%s' % (self.cls.split('::')[-1], self.f)


class Tup:
    __slots__ = ('e', 'k')

    def __init__(self, e, k='pair'): self.e, self.k = tuple(e), k
    def __repr__(self): return 'Tup%s' % (self.e,)


class Tie(Tup):
    """std::tie: a tuple of references"""
    __slots__ = ('refs',)

    def __init__(self, e, refs): Tup.__init__(self, e, 'tuple'); self.refs = refs


class Seq:
    """vector/deque: length term and getter; node records how it was built (for loop summaries)"""
    __slots__ = ('n', 'get', 'node', 'items', 'tag')

    def __init__(self, n, get, node=None, items=None, tag=None):
        self.n, self.get, self.node, self.items, self.tag = n, get, node, items, tag

    def push(self, v):
        if self.items is not None: return seq_items(self.items + [v])
        n0, g = self.n, self.get
        return Seq(add(n0, num(1, 'I')), lambda i: merge(eq(i, n0), lambda: v, lambda: g(i)), ('push', self, v))

    def set(self, i, v):
        if self.items is not None and isnum(i):
            k = int(val(i))
            if not 0 <= k < len(self.items): raise Unsupported('index %d out of range' % k)
            it = list(self.items); it[k] = v
            return seq_items(it)
        g = self.get
        return Seq(self.n, lambda j: merge(eq(i, j), lambda: v, lambda: g(j)), ('set', self, i, v))
    def __repr__(self): return 'Seq(n=%s,%s)' % (self.n, self.items if self.items is not None else self.node and self.node[0])


def seq_items(items, tag=None):
    items = list(items)

    def get(i):
        if isnum(i):
            k = int(val(i))
            if 0 <= k < len(items): return items[k]
            raise Unsupported('index %d out of range' % k)
        if not items: raise Unsupported('element of an empty sequence')
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = merge(eq(i, num(k, 'I')), lambda k=k: items[k], lambda r=r: r)
        return r
    return Seq(num(len(items), 'I'), get, ('items',), items, tag)


class MapV:
    """std::map<string, pointer>: has(key), get(key); traversal order is a bijection of indices and present keys"""
    __slots__ = ('has', 'get', 'n', 'key', 'tag')

    def __init__(self, has, get, n, key, tag): self.has, self.get, self.n, self.key, self.tag = has, get, n, key, tag


class MapIt:
    __slots__ = ('m', 'key', 'end', 'idx')

    def __init__(self, m, key, end, idx=None): self.m, self.key, self.end, self.idx = m, key, end, idx


class It:
    """random-access iterator into the sequence stored at lvalue lv"""
    __slots__ = ('lv', 'i')

    def __init__(self, lv, i): self.lv, self.i = lv, i


class BackIns:
    def __init__(self, lv): self.lv = lv


class LV:
    """lvalue: root location (int) or symbolic object, and an access path"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root, self.path = root, path
    def __truediv__(self, el): return LV(self.root, self.path + (el,))
    def __repr__(self): return 'LV(%s,%s)' % (self.root, self.path)


class Ptr:
    """pointer to an object with a known location; lv None = null"""
    __slots__ = ('lv', 'cls')

    def __init__(self, lv, cls=None): self.lv, self.cls = lv, cls
    def __repr__(self): return 'Ptr(%s)' % self.lv


class SPtr:
    """pointer to an arbitrary (pre-existing) object"""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls): self.t, self.cls = t, cls
    def __repr__(self): return 'SPtr(%s)' % self.t


class Fn:
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this


class FRef:
    def __init__(self, f): self.f = f


class Comma:
    def __init__(self, lv): self.lv, self.row, self.col, self.h = lv, 0, 0, None


class Stream:
    pass


STREAM = Stream()


class Undef:
    def __repr__(self): return 'Undef'


UNDEF = Undef()


def merge(c, x, y):
    """value-level if-then-else; x and y are thunks"""
    if c is TRUE: return x()
    if c is FALSE: return y()
    return merge_v(c, x(), y())


def merge_v(c, a, b_):
    if a is b_: return a
    if c is TRUE: return a
    if c is FALSE: return b_
    if isinstance(a, T) and isinstance(b_, T): return ite(c, a, b_)
    if isinstance(a, Mat) and isinstance(b_, Mat) and (a.r, a.c, a.k) == (b_.r, b_.c, b_.k):
        return Mat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b_.e)], a.k)
    if isinstance(a, Quat) and isinstance(b_, Quat):
        return Quat(*[ite(c, x, y) for x, y in zip(a.tup(), b_.tup())])
    if isinstance(a, Tup) and isinstance(b_, Tup) and len(a.e) == len(b_.e):
        return Tup([merge_v(c, x, y) for x, y in zip(a.e, b_.e)], a.k)
    if isinstance(a, Rec) and isinstance(b_, Rec) and a.cls == b_.cls:
        return Rec(a.cls, {k: merge_v(c, a.f[k], b_.f[k]) for k in a.f})
    if isinstance(a, SPtr) and isinstance(b_, SPtr):
        return SPtr(ite(c, a.t, b_.t), a.cls)
    if isinstance(a, Seq) and isinstance(b_, Seq):
        ga, gb = a.get, b_.get
        return Seq(ite(c, a.n, b_.n), lambda i: merge(c, lambda: ga(i), lambda: gb(i)), ('ite', c, a, b_))
    if isinstance(a, (Mat, DMat)) and isinstance(b_, (Mat, DMat)):
        a, b_ = as_dmat(a), as_dmat(b_)
        return DMat(ite(c, a.r, b_.r), ite(c, a.c, b_.c), lambda i, j: ite(c, a.get(i, j), b_.get(i, j)), a.k, ('ite', c, a, b_))
    if isinstance(a, Undef): return b_
    if isinstance(b_, Undef): return a
    if isinstance(a, Ptr) and isinstance(b_, Ptr) and a.lv is not None and b_.lv is not None and (a.lv.root, a.lv.path) == (b_.lv.root, b_.lv.path): return a
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b_).__name__))


def as_dmat(m):
    if isinstance(m, DMat): return m

    def get(i, j):
        if isnum(i) and isnum(j): return m(int(val(i)), int(val(j)))
        r = None
        for a in range(m.r):
            for b_ in range(m.c):
                v = m(a, b_)
                c = and_(eq(i, num(a, 'I')), eq(j, num(b_, 'I')))
                r = v if r is None else ite(c, v, r)
        return r
    return DMat(num(m.r, 'I'), num(m.c, 'I'), get, m.k)


def leaves(v, path=''):
    """scalar terms of a fixed-shape value, with names"""
    if isinstance(v, T): return [(path, v)]
    if isinstance(v, Mat): return [('%s[%d]' % (path, i), x) for i, x in enumerate(v.e)]
    if isinstance(v, Quat): return [('%s.%s' % (path, n), x) for n, x in zip('wxyz', v.tup())]
    if isinstance(v, Tup): return [p for i, x in enumerate(v.e) for p in leaves(x, '%s.%d' % (path, i))]
    if isinstance(v, Rec): return [p for k, x in v.f.items() for p in leaves(x, '%s.%s' % (path, k.split('::')[-1]))]
    if isinstance(v, SPtr): return [(path, v.t)]
    if isinstance(v, AngleAxis): return leaves(v.angle, path + '.angle') + leaves(v.axis, path + '.axis')
    raise Unsupported('no leaves for %s' % type(v).__name__)


def map_leaves(v, f):
    if isinstance(v, T): return f(v)
    if isinstance(v, Mat): return Mat(v.r, v.c, [f(x) for x in v.e], v.k)
    if isinstance(v, Quat): return Quat(*[f(x) for x in v.tup()])
    if isinstance(v, Tup): return Tup([map_leaves(x, f) for x in v.e], v.k)
    if isinstance(v, Rec): return Rec(v.cls, {k: map_leaves(x, f) for k, x in v.f.items()})
    if isinstance(v, SPtr): return SPtr(f(v.t), v.cls)
    if isinstance(v, AngleAxis): return AngleAxis(f(v.angle), map_leaves(v.axis, f))
    if isinstance(v, Seq):
        if v.items is not None: return seq_items([map_leaves(x, f) for x in v.items])
        g = v.get
        return Seq(f(v.n), lambda i: map_leaves(g(i), f), ('mapped', v))
    if isinstance(v, DMat):
        g = v.get
        return DMat(f(v.r), f(v.c), lambda i, j: f(g(i, j)), v.k)
    return v
