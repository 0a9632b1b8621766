"""Loops: concrete unrolling when the bound is a constant, otherwise a closed-form summary derived from one generic
iteration (the summary is the loop invariant; it is inductive by construction, see DESIGN.md)."""
import re
from .terms import *
from .values import *
from . import terms as terms_mod
from . import lib

I0, I1 = num(0, 'I'), num(1, 'I')
UNROLL = 12


class LoopExit(Exception):
    pass


class Backtrack(Exception):
    def __init__(self, pos, key): self.pos, self.key = pos, key


def fresh_id():
    return next(terms_mod._fresh)


FID = re.compile(r'!(\d+)')


def is_new(name, n0):
    m = FID.search(name)
    return bool(m) and int(m.group(1)) >= n0


def skolem(t, n0, k, memo=None):
    """make every symbol created since n0 a function of k"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'var':
            r = app(x.a[0], (k,), x.s) if x is not k and not x.a[0].startswith('#') and is_new(x.a[0], n0) else x
        elif x.op == 'app':
            args = tuple(go(y) for y in x.a[1:])
            if is_new(x.a[0], n0): r = mk('app', (x.a[0], k) + args, x.s)
            else: r = rebuild(x, (x.a[0],) + args)
        elif x.op in BINDERS:
            r = mk(x.op, tuple(go(y) if isinstance(y, T) else y for y in x.a), x.s)
        elif not x.a: r = x
        else:
            r = rebuild(x, tuple(go(y) if isinstance(y, T) else y for y in x.a))
        memo[x] = r
        return r
    return go(t)


def vmap(v, f):
    """map_leaves over every kind of value (lazily for closures)"""
    if v is None or isinstance(v, (Undef, Ptr, Fn, FRef)): return v
    if isinstance(v, It): return It(v.lv, f(v.i))
    if isinstance(v, MapIt): return MapIt(v.m, None if v.key is None else f(v.key), v.end if v.end is None or v.end is TRUE else f(v.end), None if v.idx is None else f(v.idx))
    if isinstance(v, MapV):
        h, g = v.has, v.get
        return MapV(lambda s: f(h(s)), lambda s: vmap(g(s), f), f(v.n), None, v.tag)
    if isinstance(v, Tup): return Tup([vmap(x, f) for x in v.e], v.k)
    if isinstance(v, Rec): return Rec(v.cls, {k: vmap(x, f) for k, x in v.f.items()})
    if isinstance(v, Seq):
        if v.items is not None: return seq_items([vmap(x, f) for x in v.items])
        g = v.get
        return Seq(f(v.n), lambda i: vmap(g(i), f), ('mapped', v))
    return map_leaves(v, f)


def flatten(v, path=()):
    """leaf locations of a stored value"""
    if isinstance(v, Rec):
        for k, x in v.f.items(): yield from flatten(x, path + (('f', k),))
    elif isinstance(v, Tup):
        for i, x in enumerate(v.e): yield from flatten(x, path + (('el', i),))
    elif isinstance(v, Mat):
        for i, x in enumerate(v.e): yield path + (('m', i),), x
    elif isinstance(v, Quat):
        for n in 'wxyz': yield path + (('q', n),), getattr(v, n)
    elif isinstance(v, It): yield path + (('it',),), v.i
    elif isinstance(v, MapIt) and v.idx is not None and v.key is None: yield path + (('mit',),), v.idx
    else: yield path, v


def put(v, path, x):
    if not path: return x
    el = path[0]
    if el[0] == 'f': return v.set(el[1], put(v.f[el[1]], path[1:], x))
    if el[0] == 'el':
        e = list(v.e); e[el[1]] = put(e[el[1]], path[1:], x)
        return Tup(e, v.k)
    if el[0] == 'm':
        e = list(v.e); e[el[1]] = x
        return Mat(v.r, v.c, e, v.k)
    if el[0] == 'q': return Quat(*[x if n == el[1] else getattr(v, n) for n in 'wxyz'])
    if el[0] == 'it': return It(v.lv, x)
    if el[0] == 'mit': return MapIt(v.m, None, None, x)
    raise Unsupported('path')


def pick(v, path):
    for el in path:
        if el[0] == 'f': v = v.f[el[1]]
        elif el[0] == 'el': v = v.e[el[1]]
        elif el[0] == 'm': v = v.e[el[1]]
        elif el[0] == 'q': v = getattr(v, el[1])
        elif el[0] == 'it': v = v.i
        elif el[0] == 'mit': v = v.idx
    return v


def sameshape(a, b_):
    if type(a) is not type(b_): return False
    if isinstance(a, Rec): return a.cls == b_.cls
    if isinstance(a, Mat): return (a.r, a.c, a.k) == (b_.r, b_.c, b_.k)
    if isinstance(a, It): return (a.lv.root, a.lv.path) == (b_.lv.root, b_.lv.path)
    return True


class Acc:
    def __init__(self, key, v0):
        self.key, self.v0 = key, v0
        self.sym = None       # generic value
        self.at = None        # closed form: k -> value
        self.how = None


def sample(outs, loc, path):
    """a sequence whose elements have the shape of those pushed in a loop"""
    for o in outs:
        try: x = pick(o.S[loc], path)
        except (KeyError, AttributeError, IndexError): continue
        while isinstance(x, Seq) and x.items is None and x.node and x.node[0] in ('push', 'set'):
            if x.node[0] == 'push':
                v = x.node[2]
                return Seq(x.n, lambda i: v)
            x = x.node[1]
        if isinstance(x, Seq) and x.items: return Seq(x.n, lambda i, v=x.items[0]: v)
    return None


def fits(S, key):
    if key[0] == 'heap': return True
    try: return not isinstance(pick(S[key[0]], key[1]), Undef)
    except (KeyError, AttributeError, IndexError): return False


class LoopMixin:
    # -------------------------------------------------------------- generic evaluation helpers
    def pure_value(self, thunk):
        """value of a side-effect free thunk, paths merged"""
        outs = self.explore(thunk)
        if not outs: raise Unsupported('no feasible path')
        for o in outs:
            if o.kind != 'ok': raise Unsupported('%s inside a pure expression' % o.kind)
            for key in o.S:
                if key in self.S and o.S[key] is not self.S[key]: raise Unsupported('side effect in an expression assumed pure')
        r = outs[-1].val
        for o in reversed(outs[:-1]): r = merge_v(and_(*o.conds), o.val, r)
        # locations allocated while evaluating may be referenced from the value
        for o in outs:
            for f in o.facts: self.assume(implies(and_(*o.conds), f))
        if any_ptr(r):
            raise Unsupported('allocation in an expression assumed pure')
        return r

    pure_term = pure_value

    def lam(self, f, lo=None, hi=None):
        """k -> value of the pure f(k), evaluated once for a generic index"""
        n0 = fresh_id()
        k = fresh('k', 'I')
        n1 = fresh_id()
        facts0 = len(self.pc)
        base = self.snapshot()
        if lo is not None: self.assume(and_(le(lo, k), lt(k, hi)))
        start = len(self.pc)
        v = self.pure_value(lambda: f(k))
        new = self.pc[start:]
        self.restore(base)
        v = vmap(v, lambda t: skolem(t, n1, k))
        for x in new:
            x = skolem(x, n1, k)
            self.assume(all_(k, lo, hi, x) if lo is not None else qall(k, x))
        return lambda i: vmap(v, lambda t: subst(t, {k: i}))

    def implied(self, t):
        k = self.known(t)
        if k is not None: return k
        if not whole(t): return False
        hs = [h for h in self.pc if whole(h)]
        key = (t, frozenset(hs))
        memo = self.__dict__.setdefault('impmemo', {})
        if key not in memo:
            from .prover import smt_prove
            memo[key] = smt_prove(hs, t, 1.0, tiers=(0,), want=('pure',)).status == 'proved'
        return memo[key]

    # -------------------------------------------------------------- entry points
    def loop(self, s, cond, body, inc):
        if s is not None:
            for h in self.invariants:
                if self.by_invariant(s, h, cond, body, inc): return
        start = self.snapshot(); pos = self.pos; again = False
        key = id(s) if s is not None else None
        if (tuple(self.dec[:pos]), key) in self.nounroll: return self.summarise(s, cond, body, inc)
        for n in range(UNROLL + 1):
            s0 = self.snapshot(); p0 = self.pos
            c = cond()
            k = self.known(c)
            if k is False: return
            if k is None or n == UNROLL:
                if self.pos != pos:
                    if (k is None and 0 < n <= 2) or n == UNROLL or self.pos != p0: raise Backtrack(pos, key)
                else: again = 0 < n and (n <= 2 or n == UNROLL)
                self.restore(s0)          # the condition is evaluated again as part of the summary
                break
            try: body()
            except BREAK(): return
            except CONT(): pass
            inc()
        if again: self.restore(start)     # long loops are summarised from their start
        self.summarise(s, cond, body, inc)

    def range_loop(self, s, rng):
        rng = self.tmp(rng)
        v = self.rv(rng)
        var_ = s['var']
        if isinstance(v, MapV): seq = lib.map_as_seq(self, rng); lv = None
        elif isinstance(v, Seq): seq = v; lv = rng
        elif isinstance(v, (Mat, DMat)):
            n, g = lib.one_dim(as_dmat(v))
            if n is None: raise Unsupported('range over a matrix')
            seq = Seq(n, g); lv = None
        else: raise Unsupported('range over ' + type(v).__name__)
        isref = self.prog.types[var_['t']]['kind'] == 'ref'

        def bindvar(el):
            if isref and isinstance(el, LV): x = el
            else:
                val_ = self.rv(el) if isinstance(el, LV) else el
                x = self.alloc(self.copyval(val_) if not isref else val_)
            self.env[var_['id']] = x
            for i, b_ in enumerate(var_.get('bindings') or []):
                self.env[b_['id']] = x / ('el', i)
                if b_.get('holding'): self.env[b_['holding']['id']] = x / ('el', i)

        def el_body(k):
            bindvar(lv / ('el', k) if lv is not None else seq.get(k))
            self.stmt(s['body'])
        self.loop_index(I0, seq.n, el_body, s)

    def loop_range(self, seq, i, j, f, lv):
        self.loop_index(i, j, lambda k: f(lv / ('el', k) if lv is not None else self.alloc(seq.get(k))))

    def loop_index(self, lo, hi, f, s=None):
        c = self.alloc(lo)
        def cond(): return lt(self.rv(c), hi)
        def body(): f(self.rv(c))
        def inc(): self.store(c, add(self.rv(c), I1))
        self.loop(s, cond, body, inc)

    def fold(self, init, s, i, j, op):
        acc = self.alloc(init)
        def step(el):
            a = self.rv(acc)
            v = self.rv(el)
            r = self.rv(self.apply(op, [self.alloc(a), self.alloc(v)])) if op is not None else lib.arith(self, '+', a, v)
            if isinstance(a, T) and a.s == 'R' and isinstance(r, T): r = toreal(r)
            self.store(acc, r)
        self.loop_range(s, i, j, step, None)
        return self.rv(acc)

    # -------------------------------------------------------------- summaries
    def shape(self, v):
        if v.tag is None: return None
        try: x = self.sym(v.tag, 'element')
        except Unsupported: return None
        return Seq(v.n, lambda i: x)

    def iteration(self, cond, body, inc):
        """one generic iteration from the current state"""
        def thunk():
            if not self.branch(cond()): raise LoopExit()
            try: body()
            except CONT(): pass
            inc()
        return self.explore(thunk)

    def by_invariant(self, s, plan, cond, body, inc):
        """loop contract: plan(ex, accs) gives the invariant as a function returning labelled formulas about the current state,
        or None when the loop is not one it knows"""
        self.quiet += 1; self.detect += 1
        try: accs, put_state, run, k, S0, outs, n1 = self.frame(s, cond, body, inc)
        finally: self.quiet -= 1; self.detect -= 1
        inv = plan(self, accs)
        if inv is None: return False
        for l, f in inv('initially'): self.check(l + ' (initially)', f)
        put_state(None)
        for l, f in inv('assume'): self.assume(f)
        if not self.branch(cond()): return True
        try: body()
        except BREAK(): return True
        except CONT(): pass
        inc()
        for l, f in inv('preserved'): self.check(l + ' (kept by an iteration)', f)
        raise Infeasible_()

    def check(self, label, formula):
        """an obligation raised by the executor; the task records it"""
        raise Unsupported('obligation outside of a task')

    def frame(self, s, cond, body, inc):
        """the locations a loop modifies, each with a generic value"""
        S0 = dict(self.S)
        nloc0 = self.nloc
        accs = {}
        k = fresh('k', 'I')

        def put_state(kk):
            """state at the start of iteration kk (None: generic)"""
            S = dict(S0)
            heap = dict(S0['heap'])
            for (loc, path), a in accs.items():
                v = a.at(kk) if a.at is not None and kk is not None else a.sym
                if loc == 'heap': heap[path] = v
                else: S[loc] = put(S[loc], path, v)
            S['heap'] = heap
            if any(key[0] == 'heap' for key in accs):
                S['epoch'] = ('loop', id(accs), kk.id if kk is not k and kk is not None else 'k')
                self.keep = getattr(self, 'keep', []) + [accs]
            self.S = S

        def run():
            base = self.snapshot()
            self.generic_depth = getattr(self, 'generic_depth', 0) + 1
            try:
                put_state(k)
                self.assume(le(I0, k))
                n1 = fresh_id()
                outs = self.iteration(cond, body, inc)
                return outs, n1, dict(self.S)
            finally:
                self.generic_depth -= 1
                self.restore(base)

        # modified locations, to a fixed point (starting from those seen when the same path was executed before)
        guess = self.__dict__.setdefault('framememo', {}).setdefault((id(s), tuple(self.dec[:self.pos]), nloc0), {}) if s is not None else {}
        start = dict((key, x) for key, x in guess.items() if fits(S0, key))
        for rnd in range(12):
            outs = []
            if start: new = set(start)
            else: outs, n1, Sb = run(); new = set()
            for o in outs:
                for loc, v in o.S.items():
                    if loc == 'epoch' or loc not in Sb: continue
                    if loc == 'heap':
                        for fk, h in v.items():
                            if Sb['heap'].get(fk) is not h: new.add(('heap', fk))
                        continue
                    if isinstance(loc, int) and loc > nloc0: continue
                    w = Sb[loc]
                    if v is w: continue
                    if not sameshape(v, w) or isinstance(w, Undef):
                        if isinstance(w, Undef) or isinstance(v, Undef): raise Unsupported('variable first assigned in a loop')
                        new.add((loc, ())); continue
                    fw = dict(flatten(w))
                    for p, x in flatten(v):
                        if fw.get(p) is not x and not same_fn(fw.get(p), x): new.add((loc, p))
            new -= set(accs)
            if not new: break
            for key in sorted(new, key=repr):
                loc, path = key
                if loc == 'heap':
                    a = Acc(key, S0['heap'].get(path))
                    ft = self.field_type(path)
                    if a.v0 is None: a.v0 = lambda r, path=path, ft=ft: self.heap_base(path, ft, r)
                    nm_ = 'hacc!%d' % fresh_id()
                    a.sym = (lambda r, nm_=nm_, ft=ft: self.symval(ft, lambda p, s_, idx=(): app(nm_ + p, (r,) + tuple(idx), s_)))
                else:
                    a = Acc(key, pick(S0[loc], path))
                    x = None
                    if isinstance(a.v0, Seq) and a.v0.items == []: x = (start.get(key) if start else sample(outs, loc, path)) or self.shape(a.v0)
                    a.sym = self.generic(x or a.v0)
                    guess[key] = x
                if loc == 'heap': guess[key] = None
                accs[key] = a
            start = {}
        else:
            raise Unsupported('loop modifies too many locations')
        return accs, put_state, run, k, S0, outs, n1

    def summarise(self, s, cond, body, inc):
        before = self.suppressed
        self.quiet += 1
        try: accs, put_state, run, k, S0, outs, n1 = self.closed_forms(s, cond, body, inc)
        finally: self.quiet -= 1
        if not self.quiet and self.suppressed != before: outs, n1 = run()[:2]      # obligations inside the body, for a generic iteration
        self.finish(accs, put_state, k, outs, n1, cond, body, inc)

    def closed_forms(self, s, cond, body, inc):
        accs, put_state, run, k, S0, outs, n1 = self.frame(s, cond, body, inc)
        # closed forms
        for rnd in range(10):
            todo = [a for a in accs.values() if a.at is None]
            if not todo: break
            normal = [o for o in outs if o.kind in ('ok', 'continue')]
            if not normal: break
            progress = False
            syms = set()
            for a in todo: syms |= value_syms(a.sym)
            for a in todo:
                f = self.closed_form(a, normal, syms, k, n1, S0, accs)
                if f is not None:
                    a.at = f; progress = True
            if not progress:
                for a in todo: self.havoc(a)
            outs, n1, Sb = run()
        return accs, put_state, run, k, S0, outs, n1

    def finish(self, accs, put_state, k, outs, n1, cond, body, inc):
        normal = [o for o in outs if o.kind in ('ok', 'continue')]
        early = [o for o in outs if o.kind not in ('ok', 'continue') and not isinstance(o.val, LoopExit) and o.kind != 'loopexit']
        exits = [o for o in outs if o.kind == 'loopexit']
        if not normal:
            # the body never completes normally: at most one iteration
            put_state(I0)
            self.one_iteration(cond, body, inc)
            return
        sk = lambda t: skolem(t, n1, k)
        N = self.trip_count(exits, k) if exits else None
        go = or_(*[and_(*[sk(c) for c in o.conds]) for o in normal])
        facts = [implies(and_(*[sk(c) for c in o.conds]), sk(f)) for o in normal for f in o.facts]
        lem = getattr(self, 'loop_lemmas', None)
        if N is not None and not early:
            j = fresh('j', 'I')
            for f in facts: self.assume(all_(j, I0, N, subst(f, {k: j})))
            put_state(N)
            self.after_loop(accs, N)
            return
        exit_c = or_(*[and_(*[sk(c) for c in o.conds]) for o in early])
        if N is not None and not self.const_false(exit_c):
            j = fresh('j', 'I')
            if self.branch(ex_(j, I0, N, and_(subst(exit_c, {k: j})))):
                kx = fresh('kx', 'I')
                self.assume(and_(le(I0, kx), lt(kx, N)))
                self.assume(all_(j, I0, kx, not_(subst(exit_c, {k: j}))))
                self.assume(subst(exit_c, {k: kx}))
                for f in facts: self.assume(all_(j, I0, kx, subst(f, {k: j})))
                put_state(kx)
                self.after_loop(accs, kx)
                self.one_iteration(cond, body, inc, must_exit=True)
                return
            for f in facts: self.assume(all_(j, I0, N, subst(f, {k: j})))
            put_state(N)
            self.after_loop(accs, N)
            return
        # general case: the first iteration that leaves
        kx = fresh('kx', 'I')
        j = fresh('j', 'I')
        leave = or_(*[and_(*[sk(c) for c in o.conds]) for o in early + exits])
        self.assume(le(I0, kx))
        self.assume(all_(j, I0, kx, not_(subst(leave, {k: j}))))
        self.assume(subst(leave, {k: kx}))
        for f in facts: self.assume(all_(j, I0, kx, subst(f, {k: j})))
        for n in self.bounds(exits, k, sk): self.assume(le(kx, n))
        put_state(kx)
        self.after_loop(accs, kx)
        self.terminates = False
        self.one_iteration(cond, body, inc, must_exit=True)

    def const_false(self, t): return t is FALSE

    def after_loop(self, accs, n): pass

    def one_iteration(self, cond, body, inc, must_exit=False):
        if not self.branch(cond()): return
        try: body()
        except BREAK(): return
        except CONT(): pass
        if must_exit: raise Infeasible_()
        inc()
        if self.branch(cond()): raise Unsupported('loop body that never completes')

    def generic(self, v):
        n = fresh_id()
        nm = 'acc!%d' % n
        if isinstance(v, T): return var(nm, v.s)
        if isinstance(v, SPtr): return SPtr(var(nm, 'Ref'), v.cls)
        if isinstance(v, Seq):
            def get(i):
                sh = v.get(I0 if v.items else i)
                cnt = [0]
                def f(t):
                    cnt[0] += 1
                    return app('%s.%d' % (nm, cnt[0]), (i,), t.s)
                return vmap(sh, f)
            return Seq(var(nm + '.n', 'I'), get, ('acc', nm))
        if isinstance(v, DMat):
            return DMat(v.r, v.c, lambda i, j: app(nm, (i, j), 'R'), v.k, ('acc', nm))
        if isinstance(v, (Mat, Quat, Tup, Rec)):
            cnt = [0]
            def f(t):
                cnt[0] += 1
                return var('%s.%d' % (nm, cnt[0]), t.s)
            return vmap(v, f)
        raise Unsupported('loop-modified value of kind ' + type(v).__name__)

    def merged(self, outs, getv, n1, k):
        """value over the normal paths, as nested conditionals on their branch conditions"""
        sk = lambda t: skolem(t, n1, k)
        vals = [(and_(*[sk(c) for c in o.conds[1:]]) if o.conds and o.conds[0] is not None else TRUE, vmap(getv(o), sk) if not callable(getv(o)) else getv(o)) for o in outs]
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]): r = merge_v(c, v, r)
        return r

    def closed_form(self, a, normal, syms, k, n1, S0, accs):
        loc, path = a.key
        j = fresh('j', 'I')
        if loc == 'heap': return self.heap_form(a, normal, syms, k, n1)
        try:
            raws = [pick(o.S[loc], path) for o in normal]
            if isinstance(a.v0, (Seq, DMat)):
                return self.seq_form(a, normal, raws, syms, k, n1)
            v = self.merged(normal, lambda o: pick(o.S[loc], path), n1, k)
        except Unsupported:
            return None
        x0 = a.v0
        if isinstance(v, SPtr) and isinstance(x0, SPtr):
            if not (fv(v.t) & syms):
                cls = x0.cls
                return lambda kk: SPtr(ite(eq(kk, I0), x0.t, subst(v.t, {k: sub(kk, I1)})), cls)
            return None
        if not isinstance(v, T): return None
        X = a.sym
        others = syms - {X}
        def free(t): return not (fv(t) & syms) and not acc_apps(t, syms)
        if X not in fv(v):
            if free(v): return lambda kk: ite(eq(kk, I0), x0, subst(v, {k: sub(kk, I1)})) if x0.s == v.s else ite(eq(kk, I0), toreal(x0), subst(v, {k: sub(kk, I1)}))
            return None
        if v.s in 'RI':
            g = diff(v, X)
            if g is not None and free(g):
                if g.s == 'I' and X.s == 'R': g = toreal(g)
                if k not in fv(g):
                    return lambda kk: add(x0, mul(g, kk if g.s == 'I' else toreal(kk)))
                return lambda kk: add(x0, sum_(j, I0, kk, subst(g, {k: j})))
            mm = self.minmax(v, X)
            if mm and free(mm[1]):
                op, g = mm
                nm = 'ext!%d' % fresh_id()
                def form(kk):
                    r = app(nm, (kk,), v.s)
                    gj = subst(g, {k: j})
                    cmp_ = (lambda p, q: le(p, q)) if op == 'max' else (lambda p, q: le(q, p))
                    self.assume(and_(cmp_(x0, r), all_(j, I0, kk, cmp_(gj, r)), or_(eq(r, x0), ex_(j, I0, kk, eq(r, gj)))))
                    return r
                return form
        if v.s == 'B':
            vt, vf = subst(v, {X: TRUE}), subst(v, {X: FALSE})
            if free(vt) and free(vf):
                if vt is vf: return lambda kk: ite(eq(kk, I0), x0, subst(vt, {k: sub(kk, I1)}))
                if vt is TRUE: return lambda kk: or_(x0, ex_(j, I0, kk, subst(vf, {k: j})))
                if vf is FALSE: return lambda kk: and_(x0, all_(j, I0, kk, subst(vt, {k: j})))
                if self.implied_all(implies(vf, vt), k):
                    # x' = vf or (x and vt)
                    if self.implied_all(vt, k): return lambda kk: or_(x0, ex_(j, I0, kk, subst(vf, {k: j})))
        if v.s == 'Str' and v.op == 'app' and v.a[0] == 'strcat' and v.a[1] is X and all(free(y) for y in v.a[2:]):
            g = lib.strcat(*v.a[2:])
            return lambda kk: lib.strcat(x0, catsum(j, kk, subst(g, {k: j})))
        # conditional overwrite
        cw = self.cond_write(v, X)
        if cw and free(cw[0]) and free(cw[1]):
            c, g = cw
            if k not in fv(g):
                return lambda kk: ite(ex_(j, I0, kk, subst(c, {k: j})), g, x0)
            nm = 'last!%d' % fresh_id()
            def form(kk):
                l = app(nm, (kk,), 'I')
                e = ex_(j, I0, kk, subst(c, {k: j}))
                self.assume(implies(e, and_(le(I0, l), lt(l, kk), subst(c, {k: l}), all_(j, add(l, I1), kk, not_(subst(c, {k: j}))))))
                return ite(e, subst(g, {k: l}), x0)
            return form
        return None

    def implied_all(self, t, k):
        return t is TRUE

    def minmax(self, v, X):
        if v.op != 'ite': return None
        c, p, q = v.a
        if c.op == '<':
            u, w = c.a
            # u < w ? p : q
            if p is w and q is u: g = w if u is X else u if w is X else None; return ('max', g) if g is not None else None
            if p is u and q is w: g = w if u is X else u if w is X else None; return ('min', g) if g is not None else None
        return None

    def cond_write(self, v, X):
        if v.op != 'ite': return None
        c, p, q = v.a
        if q is X and X not in fv(p): return c, p
        if p is X and X not in fv(q): return not_(c), q
        if q.op == 'ite' and X not in fv(p):
            r = self.cond_write(q, X)
            if r: return or_(c, r[0]), ite(c, p, r[1])
        if p.op == 'ite' and X not in fv(q):
            r = self.cond_write(p, X)
            if r: return or_(not_(c), r[0]), ite(c, r[1], q)
        return None

    def seq_form(self, a, normal, raws, syms, k, n1):
        sk = lambda t: skolem(t, n1, k)
        j = fresh('j', 'I')
        nm = a.sym.node[1]
        chains = []
        for r in raws:
            ch = []
            x = r
            while x is not a.sym:
                nd = x.node
                if nd is None or nd[0] not in ('push', 'set', 'region', 'blk', 'concat'): return None
                ch.append(nd); x = nd[1]
            ch.reverse(); chains.append(ch)
        conds = [and_(*[sk(c) for c in o.conds[1:]]) for o in normal]
        def free(v): return all(not (fv(t) & syms) and not acc_apps(t, syms) for t in all_terms(v))
        x0 = a.v0
        if any(nd[0] == 'blk' for ch in chains for nd in ch):
            # one column per iteration, next to each other
            if any(len(ch) != 1 or ch[0][0] != 'blk' for ch in chains): return None
            heads = {tuple(sk(t) for t in ch[0][2:6]) for ch in chains}
            if len(heads) != 1: return None
            r0, c0, nr, nc = heads.pop()
            lin = offset(c0, k)
            if nc is not I1 or lin is None or lin[0] == 0: return None
            down, off = lin[0] < 0, lin[1]
            if any(k in fv(t) or (fv(t) & syms) for t in (r0, nr, off)): return None
            i = var('cell-index', 'I')
            v = None
            for c, ch in reversed(list(zip(conds, chains))):
                w = sk(ch[0][6](i, I0))
                v = w if v is None else ite(c, w, v)
            if not free(v): return None

            def form(kk):
                def get(p, q):
                    it = sub(off, q) if down else sub(q, off); ri = sub(p, r0)
                    return ite(and_(le(I0, it), lt(it, kk), le(I0, ri), lt(ri, nr)), subst(subst(v, {i: ri}), {k: it}), x0.get(p, q))
                return DMat(x0.r, x0.c, get, x0.k, ('gen',))
            return form
        if any(nd[0] == 'region' for ch in chains for nd in ch):
            # consecutive blocks of the same length: one write of the whole range
            if len(chains) != 1 or len(chains[0]) != 1: return None
            _, _, off, cnt, cell = chains[0][0]
            off, cnt = sk(off), sk(cnt)
            step = sub(subst(off, {k: add(k, I1)}), off)
            if k in fv(cnt) or not (step is cnt or self.implied(eq(step, cnt))) or (fv(off) & syms) or (fv(cnt) & syms): return None
            i = var('cell-index', 'I')
            v = vmap(cell(i), sk)
            if not free(v): return None
            off0 = subst(off, {k: I0})

            def form(kk):
                def val_(it):
                    q, r = lib.idiv(it, cnt), lib.imod(it, cnt)
                    return vmap(vmap(v, lambda t: subst(t, {i: r})), lambda t: subst(t, {k: q}))
                n = mul(cnt, kk)
                def get(pos):
                    it = sub(pos, off0)
                    return merge(and_(le(I0, it), lt(it, n)), lambda: val_(it), lambda: x0.get(pos))
                return Seq(x0.n, get, ('region', x0, off0, n, val_))
            return form
        if any(nd[0] == 'concat' for ch in chains for nd in ch):
            # a segment of the same length is appended in every iteration
            if len(chains) != 1 or len(chains[0]) != 1: return None
            seg = chains[0][0][2]
            cnt = sk(seg.n)
            if k in fv(cnt) or (fv(cnt) & syms) or acc_apps(cnt, syms): return None
            i = var('cell-index', 'I')
            v = vmap(seg.get(i), sk)
            if any_ptr(v) or not free(v): return None

            def form(kk):
                def get(it):
                    q, r = lib.idiv(it, cnt), lib.imod(it, cnt)
                    return vmap(vmap(v, lambda t: subst(t, {i: r})), lambda t: subst(t, {k: q}))
                return lib.concat(x0, Seq(mul(cnt, kk), get, ('gen', None)))
            return form
        if isinstance(a.v0, Seq) and all(nd[0] == 'push' for ch in chains for nd in ch):
            cnts = {len(ch) for ch in chains}
            if cnts == {1}:
                vals = [vmap(ch[0][2], sk) for ch in chains]
                if any(any_ptr(v) for v in vals): return None
                v = vals[-1]
                for c, w in reversed(list(zip(conds, vals))[:-1]): v = merge_v(c, w, v)
                if not free(v): return None
                n0 = x0.n
                def form(kk):
                    new = Seq(kk, lambda i: vmap(v, lambda t: subst(t, {k: i})), ('gen', v))
                    return lib.concat(x0, new)
                return form
            if len(cnts) == 1:
                m = cnts.pop()
                if m == 0: return None
                n0 = x0.n
                vals = []
                for r in range(m):
                    v = vmap(chains[-1][r][2], sk)
                    for c, ch in reversed(list(zip(conds, chains))[:-1]): v = merge_v(c, vmap(ch[r][2], sk), v)
                    if not free(v): return None
                    vals.append(v)
                def form(kk):
                    mt = num(m, 'I')
                    def get(i):
                        q, r = lib.idiv(i, mt), lib.imod(i, mt)
                        out = vmap(vals[m - 1], lambda t: subst(t, {k: q}))
                        for x in range(m - 2, -1, -1):
                            out = merge_v(eq(r, num(x, 'I')), vmap(vals[x], lambda t: subst(t, {k: q})), out)
                        return out
                    return lib.concat(x0, Seq(mul(mt, kk), get, ('gen', None)))
                return form
            if cnts == {0, 1}:
                c = or_(*[cc for cc, ch in zip(conds, chains) if ch])
                vals = [(cc, vmap(ch[0][2], sk)) for cc, ch in zip(conds, chains) if ch]
                v = vals[-1][1]
                for cc, w in reversed(vals[:-1]): v = merge_v(cc, w, v)
                if not free(v) or (fv(c) & syms) or acc_apps(c, syms): return None
                u = fresh_id()
                def form(kk):
                    src = lambda i: app('src!%d' % u, (i,), 'I')
                    pos = lambda i: app('pos!%d' % u, (i,), 'I')
                    cnt = sum_(j, I0, kk, ite(subst(c, {k: j}), I1, I0))
                    i, l = fresh('i', 'I'), fresh('l', 'I')
                    if kk is not k:
                        self.assume(le(I0, cnt)); self.assume(le(cnt, kk))
                        self.assume(all_(i, I0, cnt, and_(le(I0, src(i)), lt(src(i), kk), subst(c, {k: src(i)}), eq(pos(src(i)), i))))
                        self.assume(all_(i, I0, cnt, all_(l, I0, i, lt(src(l), src(i)))))
                        self.assume(all_(i, I0, kk, implies(subst(c, {k: i}), and_(le(I0, pos(i)), lt(pos(i), cnt), eq(src(pos(i)), i)))))
                    return lib.concat(x0, Seq(cnt, lambda i: vmap(v, lambda t: subst(t, {k: src(i)})), ('filter', None)))
                return form
            return None
        if all(nd[0] == 'set' for ch in chains for nd in ch):
            # indexed writes: every path writes the same index pattern, linear in k with slope 1
            patt = None
            for ch in chains:
                p = [tuple(vmapidx(nd, sk)) for nd in ch]
                # later writes of the same cell win
                patt = merge_patt(patt, p)
            cells = []
            for idx in patt:
                lin = [offset(t, k) for t in idx]
                if any(l is None for l in lin): return None
                if any((fv(t) & syms) for t in idx): return None
                cells.append((idx, lin))
            moving = [[n for n, l in enumerate(lin) if l[0] != 0] for idx, lin in cells]
            if any(len(m) != 1 for m in moving): return None
            dim = moving[0][0]
            if any(m[0] != dim for m in moving): return None
            slope, off = cells[0][1][dim]
            if any(lin[dim][1] is not off or lin[dim][0] != slope for idx, lin in cells): return None
            # value written to each cell (acc value when a path does not write it)
            vals = []
            for idx, lin in cells:
                v = None
                for c, ch in reversed(list(zip(conds, chains))):
                    w = None
                    for nd in ch:
                        if tuple(vmapidx(nd, sk)) == idx: w = vmap(nd[-1], sk)
                    if w is None: w = a.sym.get(*idx)
                    v = w if v is None else merge_v(c, w, v)
                # reads of the cell itself, not yet written in this iteration, see the old contents
                old = a.v0.get(*idx)
                v = replace_read(v, a, idx, old, cells)
                if not free(v): return None
                vals.append(v)
            x0 = a.v0

            def form(kk):
                def get(*pos):
                    r = None
                    out = x0.get(*pos)
                    it = sub(pos[dim], off) if slope > 0 else sub(off, pos[dim])
                    inr = and_(le(I0, it), lt(it, kk))
                    for (idx, lin), v in zip(cells, vals):
                        c = and_(inr, *[eq(pos[n], lin[n][1]) for n in range(len(idx)) if n != dim])
                        out = merge(c, lambda v=v: vmap(v, lambda t: subst(t, {k: it})), lambda out=out: out)
                    return out
                if isinstance(x0, DMat): return DMat(x0.r, x0.c, lambda i, l: get(i, l), x0.k, ('gen',))
                if len(cells) == 1 and slope > 0:
                    return Seq(x0.n, lambda i: get(i), ('region', x0, off, kk, lambda it: vmap(vals[0], lambda t: subst(t, {k: it}))))
                return Seq(x0.n, lambda i: get(i), ('gen', None))
            return form
        return None

    def heap_form(self, a, normal, syms, k, n1):
        fk = a.key[1]
        sk = lambda t: skolem(t, n1, k)
        writes = []
        for o in normal:
            h = o.S['heap'].get(fk)
            x = h; ws = []
            while x is not a.sym:
                nd = getattr(x, 'node', None)
                if nd is None or nd[0] != 'set': return None
                ws.append((sk(nd[2]), vmap(nd[3], sk))); x = nd[1]
            writes.append((and_(*[sk(c) for c in o.conds[1:]]), ws))
        flatw = []
        for c, ws in writes:
            for r, v in ws: flatw.append((c, r, v))
        if not flatw: return None
        for c, r, v in flatw:
            for t in [c, r] + all_terms(v):
                if (fv(t) & syms) or acc_apps(t, syms): return None
        v0 = flatw[0][2]
        tv = all_terms(v0)
        if any(all_terms(v) != tv for _, _, v in flatw) or any(k in fv(t) for t in tv): return None
        old = a.v0
        j = fresh('j', 'I')

        def form(kk):
            def get(r):
                c = or_(*[ex_(j, I0, kk, and_(subst(c, {k: j}), eq(subst(rr, {k: j}), r))) for c, rr, _ in flatw])
                return merge(c, lambda: v0, lambda: old(r))
            return get
        return form

    def havoc(self, a):
        self.approx = True
        nm = 'hv!%d' % fresh_id()
        loc, path = a.key
        self.havocked = getattr(self, 'havocked', []) + [a.key]
        if loc == 'heap':
            ft = self.field_type(path)
            old = a.v0
            a.at = lambda kk: (lambda r: self.symval(ft, lambda p, s, idx=(): app(nm + p, (kk, r) + tuple(idx), s)))
            return
        v0 = a.v0
        if isinstance(v0, Seq):
            sh = a.sym
            cnt = [0]
            def form(kk):
                def get(i):
                    c = [0]
                    def f(t):
                        c[0] += 1
                        return app('%s.%d' % (nm, c[0]), (kk, i), t.s)
                    return vmap(v0.get(I0 if v0.items else i), f)
                n = app(nm + '.n', (kk,), 'I')
                return Seq(n, get, ('havoc',))
            a.at = form
            return
        if isinstance(v0, DMat):
            a.at = lambda kk: DMat(v0.r, v0.c, lambda i, j: app(nm, (kk, i, j), 'R'), v0.k, ('havoc',))
            return
        def form(kk):
            c = [0]
            def f(t):
                c[0] += 1
                return app('%s.%d' % (nm, c[0]), (kk,), t.s)
            return vmap(v0, f)
        a.at = form

    def trip_count(self, exits, k):
        """iterations of a loop whose only regular exit is  not (k + a < N)"""
        if len(exits) != 1: return None
        o = exits[0]
        if len(o.conds) != 1 or o.facts: return None
        c = o.conds[0]
        return self.bound_of(c, k)

    def bound_of(self, c, k):
        if c.op == 'not' and c.a[0].op == '<' and c.a[0].a[0].s == 'I' and c.a[0].a[1].s == 'I':
            d = sub(c.a[0].a[1], c.a[0].a[0])          # N - (a + m k) > 0 continues
            l = offset_m(d, k)
            if l and l[0] == -1: return self.nonneg(l[1])
            if l and l[0] is not None and l[0] < -1:
                m = num(-l[0], 'I')
                n = fresh('trip', 'I')
                d0 = l[1]
                self.assume(le(I0, n))
                self.assume(ite(le(d0, I0), eq(n, I0), and_(lt(mul(m, sub(n, I1)), d0), le(d0, mul(m, n)))))
                return n
        if c.op == '=' and c.a[0].s == 'I':
            d = sub(c.a[0], c.a[1])
            l = offset_m(d, k)
            if l and l[0] in (1, -1):
                n = l[1] if l[0] == -1 else neg(l[1])
                if self.implied(le(I0, n)): return n
        return None

    def bounds(self, exits, k, sk):
        out = []
        for o in exits:
            if len(o.conds) == 1:
                c = o.conds[0]
                for x in (c.a if c.op == 'or' else (c,)):
                    if x.op == 'not' and x.a[0].op == '<':
                        n = self.bound_of(x, k)
                        if n is not None: out.append(n)
        return out

    def nonneg(self, n):
        if isnum(n): return n if val(n) >= 0 else I0
        if self.implied(le(I0, n)): return n
        return fmax(I0, n) if False else ite(le(I0, n), n, I0)


def whole(t):
    """a quantifier-free fact about whole numbers only"""
    return t.s == 'B' and t.op != 'app' and all(x.s == 'I' or (x.s == 'B' and x.op in ('<', '=', 'not', 'and', 'or', 'true', 'false')) for x in subterms(t)) and not any(x.op in ('all', 'ex', 'app') for x in subterms(t))


def catsum(j, kk, g):
    """concatenation of g(0..kk-1) in order"""
    if isnum(kk): return lib.strcat(*[subst(g, {j: num(i, 'I')}) for i in range(int(val(kk)))])
    d = g.depth
    c = var('#%d' % d, 'I')
    return mk('sum', (c, I0, kk, subst(g, {j: c})), 'Str')


def diff(v, X):
    """v - X when v is linear in X with slope one on every branch"""
    if v is X: return num(0, v.s)
    if X not in fv(v): return None
    if v.op == '+':
        rest = [y for y in v.a if y is not X]
        if len(rest) == len(v.a) - 1:
            r = add(*rest)
            return r if X not in fv(r) else None
        # one summand is a conditional containing X
        for n, y in enumerate(v.a):
            if X in fv(y):
                d = diff(y, X)
                if d is None: return None
                return add(d, *[z for m, z in enumerate(v.a) if m != n])
    if v.op == 'ite' and X not in fv(v.a[0]):
        p, q = diff(v.a[1], X), diff(v.a[2], X)
        if p is None or q is None: return None
        return ite(v.a[0], p, q)
    return None


def offset_m(t, k):
    """(m, t - m k) for t linear in k"""
    if k not in fv(t): return 0, t
    if t is k: return 1, num(0, 'I')
    if t.op == '*' and len(t.a) == 2 and isnum(t.a[0]) and t.a[1] is k: return int(val(t.a[0])), num(0, 'I')
    if t.op == '+':
        m = 0; rest = []
        for y in t.a:
            l = offset_m(y, k)
            if l is None: return None
            m += l[0]; rest.append(l[1])
        return m, add(*rest)
    return None


def offset(t, k):
    l = offset_m(t, k)
    if l is None or l[0] not in (0, 1, -1): return None
    return l


def vmapidx(nd, f):
    return [f(x) for x in nd[2:-1]]


def merge_patt(p, q):
    q2 = []
    for x in q:
        if x not in q2: q2.append(x)
    if p is None: return q2
    for x in q2:
        if x not in p: p = p + [x]
    return p


def replace_read(v, a, idx, old, cells):
    m = {}
    acc = a.sym.get(*idx)
    try:
        for (p, x), (q, y) in zip(leaves(acc), leaves(old)): m[x] = y
    except Unsupported:
        return v
    return vmap(v, lambda t: subst(t, m))


def value_syms(v):
    """variables and function names standing for the generic accumulator"""
    out = set()
    if isinstance(v, T): return {v}
    if isinstance(v, SPtr): return {v.t}
    if isinstance(v, Seq): return {v.n, var(v.node[1], 'acc')}
    if isinstance(v, DMat): return {var(v.node[1], 'acc')}
    if callable(v):
        return {var('$heap', 'acc')}
    for p, x in flatten(v):
        if isinstance(x, T): out |= set(fv(x))
    return out


def acc_apps(t, syms):
    names = {s.a[0] for s in syms if s.s == 'acc'}
    if not names: return False
    for x in subterms(t):
        if x.op == 'app' and x.a[0].startswith(('acc!', 'hacc!')):
            n = x.a[0].split('.')[0]
            if n in names or (x.a[0].startswith('hacc!') and '$heap' in names): return True
    return False


def all_terms(v):
    out = []
    vmap_force(v, out)
    return out


def vmap_force(v, out):
    def f(t):
        out.append(t); return t
    if isinstance(v, Seq):
        out.append(v.n)
        if v.items is not None:
            for x in v.items: vmap_force(x, out)
        else:
            try: vmap_force(v.get(var('#probe', 'I')), out)
            except Unsupported: pass
        return
    if isinstance(v, DMat):
        out.append(v.get(var('#probe', 'I'), var('#probe2', 'I'))); return
    if isinstance(v, Tup):
        for x in v.e: vmap_force(x, out)
        return
    if isinstance(v, Rec):
        for x in v.f.values(): vmap_force(x, out)
        return
    vmap(v, f)


def any_ptr(v):
    if isinstance(v, Ptr): return v.lv is not None
    if isinstance(v, Tup): return any(any_ptr(x) for x in v.e)
    if isinstance(v, Rec): return any(any_ptr(x) for x in v.f.values())
    if isinstance(v, Seq) and v.items is not None: return any(any_ptr(x) for x in v.items)
    return False


def same_fn(a, b_): return False


def BREAK():
    from .engine import BreakEx as B
    return B


def CONT():
    from .engine import ContinueEx as C
    return C


def Infeasible_():
    from .engine import Infeasible as I
    return I()
