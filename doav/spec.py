"""Contracts on the real functions: each task executes functions of /repo symbolically and records obligations."""
import time, os, sys, multiprocessing, traceback
from .terms import *
from .values import *
from . import lib, engine, prover, smt

NS = 'DynamicObstacleAvoidance::'


class Obligation:
    __slots__ = ('task', 'label', 'fn', 'hyps', 'goal', 'approx', 'at')

    def __init__(self, task, label, fn, hyps, goal, approx):
        self.task, self.label, self.fn, self.hyps, self.goal, self.approx = task, label, fn, hyps, goal, approx


class V:
    """one task: helper API around a symbolic executor"""

    def __init__(self, prog, task, opts=None):
        self.prog, self.task = prog, task
        self.ex = engine.Exec(prog, deadline=time.time() + (opts or {}).get('exec_time', 60))
        self.ex.on_drop = self.dropped
        self.ex.check = self.ensure
        self.obs = []
        self.only = None      # record only the obligations whose label starts so
        self.seen = set()
        self.fn = ''
        self.general = {}

    # ---------------------------------------------------------------- arbitrary inputs
    def real(self, n): return var(n, 'R')
    def int(self, n): return var(n, 'I')
    def bool(self, n): return var(n, 'B')
    def str(self, n): return var(n, 'Str')
    def vec(self, n, k=3): return Mat(k, 1, [var('%s[%d]' % (n, i)) for i in range(k)])
    def mat(self, n, r, c): return Mat(r, c, [var('%s[%d]' % (n, i)) for i in range(r * c)])

    def quat(self, n, unit=True):
        q = Quat(*[var('%s.%s' % (n, c)) for c in 'wxyz'])
        if unit: self.assume(self.unit(q))
        return q

    def zquat(self, n):
        """unit rotation about the vertical axis"""
        q = Quat(var(n + '.w'), ZERO, ZERO, var(n + '.z'))
        self.assume(self.unit(q))
        return q

    def unit(self, q): return eq(lib.qn2(q), ONE)

    def obj(self, cls, n, **fixed):
        """object of the library in an arbitrary state (fixed: field name -> value); returns its location"""
        ex = self.ex
        q = self.cls(cls)
        f = {}
        for key, t in ex.fields(q):
            short = key.split('::')[-1]
            if short in fixed: f[key] = fixed[short]
            else: f[key] = ex.symval(t, lambda p, s, idx=(), short=short: app('%s.%s%s' % (n, short, p), idx, s) if idx else var('%s.%s%s' % (n, short, p), s))
        return ex.alloc(Rec(q, f))

    def cls(self, c):
        if c in self.prog.recq: return c
        for p in (NS,):
            if p + c in self.prog.recq: return p + c
        raise Unsupported('class ' + c)

    def sptr(self, n, cls='Obstacle'): return SPtr(var(n, 'Ref'), self.cls(cls))

    # ---------------------------------------------------------------- running code
    def assume(self, *ts):
        for t in ts: self.ex.assume(t)

    def lvof(self, o):
        if isinstance(o, LV): return o
        if isinstance(o, (SPtr, Ptr)): return self.ex.deref(o)
        return self.ex.alloc(o)

    def dyncls(self, lv):
        if isinstance(lv.root, tuple) and not lv.path: return lv.root[2]
        v = self.ex.load(lv)
        return v.cls

    def method(self, cls, name, args):
        """member function of cls (or a base) accepting these arguments"""
        ex = self.ex
        for c in [cls] + ex.bases(cls):
            cands = [f for f in self.prog.byq.get(c + '::' + name, []) if not f.get('isctor')]
            good = [f for f in cands if self.takes(f, args)]
            if good: return min(good, key=lambda f: len(f['params']))
        raise Unsupported('%s::%s with %d arguments' % (cls, name, len(args)))

    def takes(self, f, args):
        if len(f['params']) < len(args) or not all('def' in p for p in f['params'][len(args):]): return False
        return all(self.fits(a, p['t']) for a, p in zip(args, f['params']))

    def fits(self, a, t):
        ex = self.ex
        o = ex.prog.types[ex.strip(t)]
        c = a.cls if isinstance(a, SPtr) else a.root[2] if isinstance(a, LV) and isinstance(a.root, tuple) and not a.path else None
        if c is not None and o['kind'] == 'record' and o['rec'] in ex.prog.recq:
            return o['rec'] == c or o['rec'] in ex.bases(c)
        if isinstance(a, Ptr) and o['kind'] == 'record' and o['rec'] in ex.prog.recq: return ex.fits(ex.load(a.lv), t)
        if c is not None and isinstance(a, LV): return False
        return ex.fits(ex.rv(a), t)

    def adapt(self, f, args):
        """objects given by pointer are passed by reference where the parameter is a reference to the class"""
        ex = self.ex
        out = []
        for a, p in zip(args, f['params']):
            o = ex.prog.types[ex.strip(p['t'])]
            if isinstance(a, (SPtr, Ptr)) and o['kind'] == 'record' and o['rec'] in ex.prog.recq: a = ex.deref(a)
            out.append(a)
        return out + list(args[len(f['params']):])

    def run_body(self, fn, this, args):
        """verify the body of fn itself while its own contract stands for recursive calls"""
        ex = self.ex
        env, th = ex.env, ex.this
        try:
            ex.env, ex.this = {}, this
            ex.bind(fn['params'], args)
            ex.inlined.add(('body', fn['q'], fn['file'], fn['line']))
            try:
                ex.stmt(fn['body']); r = None
            except engine.ReturnEx as e: r = e.v
            return ex.rv(r) if r is not None else None
        finally:
            ex.env, ex.this = env, th

    def lemma(self, name, vs, f, inst):
        """a universally quantified fact, proved once on its own, used here for one instance"""
        if self.ex.quiet: self.ex.suppressed += 1
        if self.ex.detect: return
        key = ('lemma ' + name, f, ())
        if key not in self.seen and not self.ex.quiet:
            self.seen.add(key)
            self.obs.append(Obligation(self.task, 'lemma ' + name, self.fn, (), f, False))
        self.assume(subst(f, dict(zip(vs, inst))))

    def call(self, o, name, *args):
        """o.name(args): the real function, executed from its source (callees by contract or inlined)"""
        lv = self.lvof(o)
        args = [self.wrap(a) for a in args]
        cls = self.dyncls(lv)
        fn = self.method(cls, name, args)
        args = self.adapt(fn, args)
        sym = isinstance(lv.root, tuple) and not lv.path
        if sym and fn.get('virtual'):
            args = args + self.ex.default_args(fn, len(args))
            return self.ex.rv(self.ex.invoke(fn, fn, lv, args, False))
        args = args + self.ex.default_args(fn, len(args))
        self.fn = fn['q']
        r = self.ex.call_fn(fn, lv, args)
        return r

    def get(self, o, name, *args):
        r = self.call(o, name, *args)
        return self.ex.rv(r) if r is not None else None

    def wrap(self, a):
        return a if isinstance(a, (T, LV, Mat, DMat, Quat, Rec, Tup, Seq, Ptr, SPtr)) else lift(a)

    def function(self, name, *args):
        ex = self.ex
        args = [self.wrap(a) for a in args]
        cands = [f for q, fs in self.prog.byq.items() if q == NS + name or q.endswith('::' + name) or q == name for f in fs]
        good = [f for f in cands if self.takes(f, args)]
        if not good: raise Unsupported('function %s' % name)
        fn = min(good, key=lambda f: len(f['params']))
        args = self.adapt(fn, args)
        self.fn = fn['q']
        r = ex.call_fn(fn, None, args + ex.default_args(fn, len(args)))
        return ex.rv(r) if r is not None else None

    def raises(self, thunk):
        """class of the exception the real code throws, or None"""
        try: thunk(); return None
        except engine.CppThrow as e: return e.cls

    def derives(self, cls, base):
        """cls is base or a class derived from it"""
        std = ('std::exception', 'std::runtime_error', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument', 'std::length_error', 'std::domain_error', 'std::range_error')
        if cls == base: return True
        if base == 'std::exception' and cls in std: return True
        return cls in self.prog.recq and any(b == base or (base == 'std::exception' and b in std) for b in self.ex.bases(cls))

    def new(self, cls, *args):
        """construct an object with the given arguments; returns its location"""
        ex = self.ex
        q = self.cls(cls)
        args = [self.wrap(a) for a in args]
        f = None
        for c in self.prog.byq.get(q + '::' + q.split('::')[-1], []):
            if c.get('isctor') and self.takes(c, args) and (f is None or len(c['params']) < len(f['params'])): f = c
        if f is None: raise Unsupported('constructor of %s with %d arguments' % (cls, len(args)))
        self.fn = f['q']
        return ex.alloc(ex.construct(q, f, args + ex.default_args(f, len(args))))

    def copy(self, o):
        return self.ex.alloc(self.ex.copyval(self.ex.load(self.lvof(o))))

    # ---------------------------------------------------------------- obligations
    def ensure(self, label, goal, extra=()):
        if not isinstance(goal, T): raise Unsupported('obligation %s is not a formula' % label)
        if self.only and not label.startswith(self.only): return
        if self.ex.quiet: self.ex.suppressed += 1; return
        hyps = tuple(self.ex.pc) + tuple(extra)
        if self.general:        # these terms are generalised to arbitrary values (the statement proved is stronger)
            hyps = tuple(prover.subst_term(h, self.general) for h in hyps); goal = prover.subst_term(goal, self.general)
        key = (label, goal, hyps)
        if key in self.seen: return
        self.seen.add(key)
        o = Obligation(self.task, label, self.fn, hyps, goal, self.ex.approx)
        o.at = [(l[0], list(l[1])) for l in self.ex.levels]
        self.obs.append(o)

    def dropped(self, level, pre):
        """the paths of an exploration under this prefix of decisions are explored again: so are their obligations"""
        n = len(pre)
        gone = [o for o in self.obs if any(l is level and len(d) >= n and d[:n] == pre for l, d in getattr(o, 'at', ()))]
        for o in gone: self.seen.discard((o.label, o.goal, o.hyps))
        if gone: self.obs = [o for o in self.obs if o not in gone]

    def step(self, label, goal):
        """a fact that is proved here and used from here on"""
        self.ensure(label, goal)
        self.assume(goal)

    def perm(self):
        """the permutation (and its inverse) of the last std::sort on this path"""
        u = self.ex.lastperm
        return (lambda i: app('perm!%d' % u, (i,), 'I')), (lambda i: app('perminv!%d' % u, (i,), 'I'))

    def fail(self, label):
        self.ensure(label, FALSE)


def eqv(a, b_):
    """equality of two values of the same shape"""
    if isinstance(a, T) and isinstance(b_, T): return eq(a, b_)
    la, lb = leaves(a), leaves(b_)
    if len(la) != len(lb): return FALSE
    return and_(*[eq(x, y) for (_, x), (_, y) in zip(la, lb)])


def parallel(a, b_):
    """b_ is a positive or negative multiple of a"""
    a = [x for _, x in leaves(a)]; b_ = [x for _, x in leaves(b_)]
    return and_(*[eq(mul(a[i], b_[j]), mul(a[j], b_[i])) for i in range(len(a)) for j in range(i)])


class TaskResult:
    def __init__(self, task):
        self.task = task
        self.status = 'proved'        # proved | refuted | unknown | unsupported
        self.note = ''
        self.obs = []                 # (label, fn, status, by, seconds, note, env)
        self.functions = set()
        self.trusted = set()
        self.exec_s = 0.0
        self.paths = 0


def run_task(prog, task, fn, opts):
    """symbolic execution of one task; returns (V, TaskResult)"""
    tr = TaskResult(task)
    lib.REALS[0] = False
    v = V(prog, task, opts)
    t0 = time.time()
    try:
        outs = v.ex.explore(lambda: fn(v))
        for o in outs:
            if o.kind == 'throw':
                v.obs.append(Obligation(task, 'no exception escapes (%s)' % o.val.cls, v.fn, tuple(o.pc), FALSE, v.ex.approx))
            elif o.kind not in ('ok', 'return'):
                raise Unsupported('unexpected %s' % o.kind)
        tr.paths = len(outs)
        if not v.obs: tr.status = 'unsupported'; tr.note = 'no obligation was generated'
    except Unsupported as e:
        tr.status, tr.note = 'unsupported', str(e)
        if opts.get('debug'): traceback.print_exc()
    except (KeyError, NameError, AttributeError, TypeError, IndexError, RecursionError, AssertionError, ValueError, NotImplementedError, engine.ReturnEx, engine.Infeasible, engine.LoopExit) as e:
        tr.status, tr.note = 'unsupported', 'internal: %s: %s' % (type(e).__name__, e)
        if opts.get('debug'): traceback.print_exc()
    tr.exec_s = time.time() - t0
    tr.functions = set(v.ex.inlined)
    tr.trusted = set(v.ex.trusted)
    return v, tr


_OBS = []
_OPTS = {}


def _discharge(i):
    sys.setrecursionlimit(20000)
    ob = _OBS[i]
    t0 = time.time()
    try:
        env = None
        if _OPTS.get('stop') and t0 > _OPTS['stop']: return (i, 'unknown', 'none', 0.0, 'not attempted: the time of the check is used up', None, 0, {})
        if not ob.approx: env = prover.refute(list(ob.hyps), ob.goal, _OPTS.get('samples', 60), seed=_OPTS.get('seed', 1))
        if env is not None:
            return (i, 'refuted', 'evaluation', time.time() - t0, 'counterexample of the obligation', {k.a[0]: (v if not isinstance(v, float) else round(v, 9)) for k, v in env.items()}, 1, {})
        P = prover.Prover(_OPTS.get('timeout', 15.0), min(_OPTS.get('stop', 1e18), time.time() + _OPTS.get('ob_time', 90.0)))
        r = P.prove(list(ob.hyps), ob.goal)
        if r.status != 'proved' and not ob.approx:
            env = prover.refute(list(ob.hyps), ob.goal, _OPTS.get('samples', 60) * 20, seed=_OPTS.get('seed', 1) + 7)
            if env is not None:
                return (i, 'refuted', 'evaluation', time.time() - t0, 'counterexample of the obligation', {k.a[0]: (v if not isinstance(v, float) else round(v, 9)) for k, v in env.items()}, 1, {})
        return (i, r.status, r.by, time.time() - t0, r.note, None, P.parts, P.by)
    except Exception as e:
        return (i, 'unknown', 'internal', time.time() - t0, '%s: %s' % (type(e).__name__, str(e)[:300]), None, 0, {})


def _vac(job):
    """are the hypotheses of a task satisfiable: by a sampled input, else not refuted by the solvers"""
    task, hs = job
    for h in hs[:6]:
        if prover.refute(list(h), FALSE, 150, seed=3) is not None: return task, 'an input satisfies the hypotheses'
    for h in hs:
        if prover.smt_prove(list(h), FALSE, 2.0).status != 'proved': return task, 'no solver finds the hypotheses contradictory'
    return task, 'contradictory'


def vacuity(tasks, obs, n):
    jobs = []
    for t in tasks:
        if not t.count: continue
        hs = []
        for o in obs[t.first:t.first + t.count]:
            if o.hyps not in hs and not o.label.startswith('lemma '): hs.append(o.hyps)
        hs.sort(key=len)
        if hs: jobs.append((t.task, hs[:n]))
    if not jobs: return {}
    global _JOBS
    _JOBS = jobs
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as pool:
        return dict(pool.imap_unordered(_vacn, range(len(jobs))))


def _vacn(i):
    sys.setrecursionlimit(20000)
    try: return _vac(_JOBS[i])
    except Exception as e: return _JOBS[i][0], 'not decided (%s)' % type(e).__name__


def discharge_all(obs, opts, procs=6):
    global _OBS, _OPTS
    _OBS, _OPTS = obs, opts
    if not obs: return []
    if opts.get('serial') or len(obs) == 1:
        return [_discharge(i) for i in range(len(obs))]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(obs))) as pool:
        return list(pool.imap_unordered(_discharge, range(len(obs)), chunksize=1))
