"""C09 Aggregation partitions the obstacles into connected groups."""
from .common import *
from doav.values import Seq
from doav import loops

FN = 'Aggregation::aggregate_obstacles'
TIMES = ('ghost::times0', 'ghost::times1')
MADE, FOREIGN = 'ghost::made', 'ghost::foreign'


def ctype(v, kind, name):
    for t, o in v.prog.types.items() if isinstance(v.prog.types, dict) else enumerate(v.prog.types):
        if v.prog.tstr(t) == name: return t
    raise Unsupported('type ' + name)


class World:
    """arbitrary distinct obstacles with an arbitrary intersection relation; two of them, and something that is no obstacle, are
    followed: ghost fields of an aggregate count how often each is among its primitives"""

    def __init__(self, v):
        self.v = v
        f = v.prog.byq[NS + FN][0]
        self.L = v.ex.sym(f['params'][0]['t'], 'L')
        n, o = self.L.n, self.o
        c = self.c = [v.int('c0'), v.int('c1')]
        self.z = var('z', 'Ref')
        ex = v.ex
        ex.ghosts = dict([(k, ctype(v, 'int', 'int')) for k in TIMES + (FOREIGN,)] + [(MADE, ctype(v, 'bool', 'bool'))])
        k = fresh('k', 'I')
        v.assume(le(ti(0), c[0]), le(c[0], c[1]), lt(c[1], n))
        for x in c: v.assume(all_(k, 0, n, implies(ne(k, x), ne(o(k), o(x)))))
        v.assume(all_(k, 0, n, and_(not_(self.ghost(MADE, o(k))), ne(o(k), self.z))), not_(self.ghost(MADE, self.z)))
        self.contracts()
        ex.invariants = [self.plan]
        self.keys = {}
        self.more = lambda stage, idx, m, done: []

    def o(self, k): return self.L.get(k).t
    def ghost(self, key, ref): return self.v.ex.heap_get(key, self.v.ex.field_type(key), ref)
    def meets(self, a, b_): return app('meets', (self.o(a), self.o(b_)), 'B')

    def contracts(self):
        v = self.v; ex = v.ex

        def make(ex, args):
            """a new aggregate, without primitives (C10)"""
            if args: raise Unsupported('aggregate made from a list')
            r = fresh('aggregate', 'Ref')
            k = fresh('k', 'I')
            ex.assume(not_(self.ghost(MADE, r))); ex.assume(ne(r, self.z))
            ex.assume(all_(k, 0, self.L.n, ne(r, self.o(k))))
            ex.heap_set(MADE, r, TRUE)
            for g in TIMES + (FOREIGN,): ex.heap_set(g, r, ti(0))
            return SPtr(r, v.cls('Aggregate'))
        ex.makers[v.cls('Aggregate')] = make

        def ref(this):
            if not isinstance(this.root, tuple) or this.path: raise Unsupported('aggregate at a known place')
            return this.root[1]

        def add_primitive(ex, fn, this, args):
            """the primitives are those it had and the new one (C10)"""
            a, p = ref(this), ex.rv(args[0])
            v.ensure('a primitive is added to an aggregate', self.ghost(MADE, a))
            for g, q in list(zip(TIMES, [self.o(c) for c in self.c])) + [(FOREIGN, self.z)]:
                ex.heap_set(g, a, add(self.ghost(g, a), ite(eq(p.t, q), ti(1), ti(0))))
        for f in v.prog.byq[NS + 'Aggregate::add_primitive']: ex.contracts[f['usr']] = add_primitive

        def update_hull(ex, fn, this, args):
            v.ensure('the hull of an aggregate is updated', self.ghost(MADE, ref(this)))
        for f in v.prog.byq[NS + 'Aggregate::update_hull']: ex.contracts[f['usr']] = update_hull

        def is_intersecting(ex, fn, this, args):
            """any relation that does not change while aggregating"""
            return app('meets', (ref(this), ref(ex.tmp(args[0]))), 'B')
        for f in v.prog.byq[NS + 'Obstacle::is_intersecting']: ex.contracts[f['usr']] = is_intersecting

    # ------------------------------------------------------------------ loop invariants
    def now(self, a):
        if a.key[0] == 'heap': return self.v.ex.S['heap'][a.key[1]]
        return loops.pick(self.v.ex.S[a.key[0]], a.key[1])

    def plan(self, ex, accs):
        vals = list(accs.values())
        idx = [a for a in vals if isinstance(a.v0, Seq) and a.v0.items is None and isinstance(a.v0.get(ti(0)), T)]
        agg = [a for a in vals if isinstance(a.v0, Seq) and a not in idx]
        cnt = [a for a in vals if isinstance(a.v0, T) and a.v0.s == 'I']
        heap = [a for a in vals if a.key[0] == 'heap']
        if len(cnt) != 1: return None
        if len(idx) == 1 and len(agg) == 1 and heap: return self.pairs(ex, idx[0], agg[0], cnt[0])
        if len(idx) == 1 and not agg and heap: return self.merging(ex, accs, idx[0], cnt[0])
        if len(agg) == 1 and not idx and not heap: return self.singles(ex, agg[0], cnt[0])

    def groups(self, stage, idx, A, done):
        """what holds between two steps"""
        n, k, x, y = self.L.n, fresh('k', 'I'), fresh('x', 'I'), fresh('y', 'I')
        m = A.n
        out = [('as many groups as obstacles', eq(idx.n, n)), ('there are aggregates or none', le(ti(0), m)),
               ('every group is that of an aggregate', all_(k, 0, n, and_(le(ti(-1), idx.get(k)), lt(idx.get(k), m))))]
        out.append(('obstacles are no aggregates', and_(not_(self.ghost(MADE, self.z)), all_(k, 0, n, not_(self.ghost(MADE, self.o(k)))))))
        if m is not ti(0):
            a = lambda x: A.get(x).t
            out += [('aggregates are made here', all_(x, 0, m, self.ghost(MADE, a(x)))),
                    ('aggregates are different', all_(x, 0, m, all_(y, 0, x, ne(a(x), a(y))))),
                    ('nothing foreign is a primitive', all_(x, 0, m, eq(self.ghost(FOREIGN, a(x)), ti(0))))]
            for g, c in zip(TIMES, self.c):
                out.append(('an obstacle is a primitive of the aggregate of its group, once', all_(x, 0, m, eq(self.ghost(g, a(x)), ite(eq(idx.get(c), x), ti(1), ti(0))))))
        return out + self.more(stage, idx, m, done)

    def pairs(self, ex, idx, agg, cnt):
        outer = self.keys.get('outer')
        if outer is None and not ex.quiet:
            self.keys['outer'] = cnt; first = True
        else: first = outer is cnt
        if outer is None and ex.quiet: return lambda stage: []

        def inv(stage):
            i = self.now(self.keys['outer'])
            n = self.L.n
            if first: rng, done = and_(le(ti(0), i), le(i, n)), lambda a, b_: lt(a, i)
            else:
                j = self.now(cnt)
                self.keys['inner'] = cnt
                rng, done = and_(lt(i, j), le(j, n)), lambda a, b_: or_(lt(a, i), and_(eq(a, i), lt(b_, j)))
            return [('the counter stays in range', rng)] + self.groups(stage, self.now(idx), self.now(agg), done)
        return inv

    def merging(self, ex, accs, idx, cnt):
        n, k, x = self.L.n, fresh('k', 'I'), fresh('x', 'I')
        i0 = idx.v0
        if ex.quiet or 'inner' not in self.keys: return lambda stage: []
        p, q = i0.get(self.now(self.keys['outer'])), i0.get(self.now(self.keys['inner']))
        old, new = ite(lt(p, q), q, p), ite(lt(p, q), p, q)
        S = [s for s in ex.S.values() if isinstance(s, Seq) and s.items is None and s.n is not n and isinstance(probe(s), SPtr)]
        if len(S) != 1: return None
        A = S[0]

        def inv(stage):
            j, I = self.now(cnt), self.now(idx)
            out = [('the counter stays in range', and_(le(ti(0), j), le(j, n))), ('as many groups as obstacles', eq(I.n, n)),
                   ('groups merged so far', all_(k, 0, j, eq(I.get(k), ite(eq(i0.get(k), old), new, ite(lt(old, i0.get(k)), sub(i0.get(k), ti(1)), i0.get(k)))))),
                   ('groups not yet merged', all_(k, j, n, eq(I.get(k), i0.get(k))))]
            for g, c in list(zip(TIMES, self.c)) + [(FOREIGN, None)]:
                h = accs.get(('heap', g))
                if h is None: continue
                moved = and_(lt(c, j), eq(i0.get(c), old)) if c is not None else FALSE
                out.append(('primitives moved so far', all_(x, 0, A.n, eq(self.ghost(g, A.get(x).t), add(h.v0(A.get(x).t), ite(and_(eq(x, new), moved), ti(1), ti(0)))))))
            return out
        return inv

    def singles(self, ex, out, cnt):
        B, n = out.v0, self.L.n
        m = B.n
        x, y = fresh('x', 'I'), fresh('y', 'I')
        S = [s for s in ex.S.values() if isinstance(s, Seq) and s.items is None and isinstance(probe(s), T) and probe(s).s == 'I']
        if ex.quiet: return lambda stage: []
        if len(S) != 1: return None
        idx = S[0]

        def inv(stage):
            j, O = self.now(cnt), self.now(out)
            r = [('the counter stays in range', and_(le(ti(0), j), le(j, n))), ('nothing is lost', le(m, O.n)),
                 ('aggregates stay', all_(x, 0, m, eq(O.get(x).t, B.get(x).t))),
                 ('only obstacles are added', all_(x, m, O.n, and_(not_(self.ghost(MADE, O.get(x).t)), ne(O.get(x).t, self.z))))]
            for c in self.c:
                here = lambda x: eq(O.get(x).t, self.o(c))
                r += [('only single obstacles are added', all_(x, m, O.n, implies(here(x), and_(lt(c, j), eq(idx.get(c), ti(-1)))))),
                      ('no obstacle is added twice', all_(x, m, O.n, all_(y, m, x, not_(and_(here(x), here(y)))))),
                      ('single obstacles are added', implies(and_(lt(c, j), eq(idx.get(c), ti(-1))), ex_(x, m, O.n, here(x))))]
            return r
        return inv


def probe(s):
    try: return s.get(ti(0))
    except Exception: return None


def groups(v):
    """aggregate_obstacles, for any list and any relation: loop invariants over the groups and ghost counts of the primitives"""
    w = World(v)
    n, i, j, x, y = w.L.n, fresh('i', 'I'), fresh('j', 'I'), fresh('x', 'I'), fresh('y', 'I')
    d, e = w.c
    # an equivalence relation that holds between intersecting obstacles, as the kernel of a labelling; the least one is being connected by a chain
    label = lambda k: app('label', (k,), 'I')
    v.assume(all_(j, 0, n, all_(i, 0, j, implies(w.meets(i, j), eq(label(i), label(j))))))
    # obstacles that intersect no other
    alone = [v.bool('alone%d' % k) for k in (0, 1)]
    for b_, c in zip(alone, w.c): v.assume(implies(b_, all_(i, 0, n, and_(implies(lt(i, c), not_(w.meets(i, c))), implies(lt(c, i), not_(w.meets(c, i)))))))
    w.more = lambda stage, idx, m, done: [
        ('obstacles that intersect are in one group', implies(and_(lt(d, e), w.meets(d, e), done(d, e)), and_(eq(idx.get(d), idx.get(e)), le(ti(0), idx.get(d))))),
        ('groups are connected', all_(j, 0, n, all_(i, 0, j, implies(and_(le(ti(0), idx.get(i)), eq(idx.get(i), idx.get(j))), eq(label(i), label(j)))))),
        ('an obstacle that intersects no other is in no group', and_(*[implies(b_, eq(idx.get(c), ti(-1))) for b_, c in zip(alone, w.c)]))]
    O = v.function(FN, w.L)
    at = lambda x: O.get(x).t
    made = lambda x: w.ghost(MADE, at(x))
    times = lambda k, x: w.ghost(TIMES[k], at(x))
    for k, c in enumerate(w.c):
        hit = lambda x: or_(eq(at(x), w.o(c)), and_(made(x), lt(ti(0), times(k, x))))
        v.ensure('every obstacle is returned or is a primitive of an aggregate', ex_(x, 0, O.n, hit(x)))
        v.ensure('no obstacle appears in two places', all_(x, 0, O.n, all_(y, 0, x, not_(and_(hit(x), hit(y))))))
        v.ensure('no obstacle is twice a primitive', all_(x, 0, O.n, implies(made(x), le(times(k, x), ti(1)))))
        v.ensure('an obstacle that intersects no other is returned as itself', implies(alone[k], ex_(x, 0, O.n, eq(at(x), w.o(c)))))
    v.ensure('nothing else appears', all_(x, 0, O.n, and_(ne(at(x), w.z), implies(made(x), eq(w.ghost(FOREIGN, at(x)), ti(0))))))
    v.ensure('obstacles that intersect end in the same aggregate', implies(and_(lt(d, e), w.meets(d, e)), ex_(x, 0, O.n, and_(made(x), eq(times(0, x), ti(1)), eq(times(1, x), ti(1))))))
    v.ensure('obstacles in the same aggregate are connected by a chain', all_(x, 0, O.n, implies(and_(made(x), lt(ti(0), times(0, x)), lt(ti(0), times(1, x))), eq(label(d), label(e)))))


def none(v):
    """the empty list"""
    O = v.function(FN, Seq(ti(0), lambda i: v.sptr('none'), ('spec',)))
    v.ensure('nothing is made of nothing', eq(O.n, ti(0)))


TASKS = [groups, none]
