"""SMT-LIB printing and the solver portfolio."""
import subprocess, time, os, tempfile, threading
from .terms import *

SOLVERS = {
    'z3-new': lambda t: ['z3-new', '-T:%d' % max(1, int(t + 0.999)), '-in'],
    'z3': lambda t: ['z3', '-T:%d' % max(1, int(t + 0.999)), '-in'],
    'cvc5': lambda t: ['cvc5', '--tlimit=%d' % int(t * 1000), '--lang=smt2', '-q'],
    'cvc5-nl': lambda t: ['cvc5', '--tlimit=%d' % int(t * 1000), '--lang=smt2', '-q', '--nl-ext-tplanes', '--nl-cov'],
}


class Printer:
    def __init__(self):
        self.decls = {}
        self.defs = []
        self.names = {}
        self.memo = {}
        self.strs = {}
        self.n = 0

    def sort(self, s):
        return {'R': 'Real', 'I': 'Int', 'B': 'Bool'}.get(s, s)

    def decl(self, key, args, res):
        if key not in self.decls:
            nm = 'f%d_%s' % (len(self.decls), ''.join(c if c.isalnum() else '_' for c in str(key[1] if isinstance(key, tuple) else key))[:40])
            self.decls[key] = (nm, args, res)
        return self.decls[key][0]

    def p(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._p(t)
            self.memo[t.id] = r
        return r

    def _p(self, t):
        op = t.op
        if op == 'num':
            c = t.a[0]
            if t.s == 'I':
                return str(c.numerator) if c >= 0 else '(- %d)' % -c.numerator
            s = '%d.0' % abs(c.numerator) if c.denominator == 1 else '(/ %d.0 %d.0)' % (abs(c.numerator), c.denominator)
            return s if c >= 0 else '(- %s)' % s
        if op == 'true' or op == 'false': return op
        if op == 'str':
            k = ('str', t.a[0]); self.strs[k] = 1
            return self.decl(k, (), 'Str')
        if op == 'var':
            if t.a[0].startswith('#'):
                return 'b' + t.a[0].replace('#', '_')
            return self.decl(('var', t.a[0], t.s), (), t.s)
        if op == 'app':
            f = self.decl(('app', t.a[0], tuple(x.s for x in t.a[1:]), t.s), tuple(x.s for x in t.a[1:]), t.s)
            if len(t.a) == 1: return f
            return '(%s %s)' % (f, ' '.join(self.p(x) for x in t.a[1:]))
        if op in '+*' or op in ('and', 'or'):
            if op in '+*' and t.s == 'R':
                return '(%s %s)' % (op, ' '.join(self.r(x) for x in t.a))
            return '(%s %s)' % (op, ' '.join(self.p(x) for x in t.a))
        if op in '<=':
            x, y = t.a
            if x.s in 'RI' and (x.s == 'R' or y.s == 'R'):
                return '(%s %s %s)' % (op, self.r(x), self.r(y))
            return '(%s %s %s)' % (op, self.p(x), self.p(y))
        if op == 'not': return '(not %s)' % self.p(t.a[0])
        if op == 'inv': return '(/ 1.0 %s)' % self.r(t.a[0])
        if op == 'toreal': return '(to_real %s)' % self.p(t.a[0])
        if op == 'ite':
            if t.s == 'R': return '(ite %s %s %s)' % (self.p(t.a[0]), self.r(t.a[1]), self.r(t.a[2]))
            return '(ite %s %s %s)' % tuple(self.p(x) for x in t.a)
        if op in ('all', 'ex'):
            k, lo, hi, body = t.a
            v = self.p(k)
            rng = '(and (<= %s %s) (< %s %s))' % (self.p(lo), v, v, self.p(hi))
            if op == 'all': return '(forall ((%s Int)) (=> %s %s))' % (v, rng, self.p(body))
            return '(exists ((%s Int)) (and %s %s))' % (v, rng, self.p(body))
        if op in ('qall', 'qex'):
            v, body = t.a
            return '(%s ((%s %s)) %s)' % ('forall' if op == 'qall' else 'exists', self.p(v), self.sort(v.s), self.p(body))
        if op == 'sum':
            # abstracted: a function of the free variables bound outside
            bvs = sorted((x for x in fv(t) if x.a[0].startswith('#')), key=lambda x: x.a[0])
            f = self.decl(('sum', t.id), tuple(x.s for x in bvs), t.s)
            if not bvs: return f
            return '(%s %s)' % (f, ' '.join(self.p(x) for x in bvs))
        raise ValueError(op)

    def r(self, t):
        s = self.p(t)
        if t.s == 'I':
            if t.op == 'num':
                return self.p(num(t.a[0], 'R'))
            return '(to_real %s)' % s
        return s

    def query(self, hyps, goal, produce_model=False):
        body = ['(assert %s)' % self.p(h) for h in hyps]
        if goal is not None: body.append('(assert (not %s))' % self.p(goal))
        sorts = set()
        for nm, a, r in self.decls.values():
            for s in tuple(a) + (r,):
                if s not in ('R', 'I', 'B'): sorts.add(s)
        out = ['(set-logic ALL)']
        if produce_model: out.insert(0, '(set-option :produce-models true)')
        out += ['(declare-sort %s 0)' % s for s in sorted(sorts)]
        for nm, a, r in self.decls.values():
            out.append('(declare-fun %s (%s) %s)' % (nm, ' '.join(self.sort(s) for s in a), self.sort(r)))
        ss = [self.decls[k][0] for k in self.strs]
        if len(ss) > 1: out.append('(assert (distinct %s))' % ' '.join(ss))
        out += body
        out.append('(check-sat)')
        return '\n'.join(out) + '\n'


def run(text, timeout, solvers=('z3-new', 'cvc5', 'z3')):
    """race the solvers; returns (answer, solver, seconds)"""
    t0 = time.time()
    procs = []
    res = {}
    done = threading.Event()
    lock = threading.Lock()

    def work(nm, p):
        try:
            out, _ = p.communicate(text, timeout=timeout + 2)
        except subprocess.TimeoutExpired:
            p.kill(); out = 'timeout'
            try: p.communicate(timeout=1)
            except Exception: pass
        except Exception as e:
            out = 'error'
        a = out.strip().splitlines()[0].strip() if out.strip() else 'unknown'
        with lock:
            res[nm] = a if a in ('sat', 'unsat') else 'unknown:' + a[:120]
            if a in ('sat', 'unsat') or len(res) == len(procs): done.set()
    ths = []
    for s in solvers:
        p = subprocess.Popen(SOLVERS[s](timeout), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((s, p))
    for s, p in procs:
        th = threading.Thread(target=work, args=(s, p), daemon=True); th.start(); ths.append(th)
    done.wait(timeout + 3)
    for s, p in procs:
        if p.poll() is None:
            try: p.kill()
            except Exception: pass
    for th in ths: th.join(0.5)
    dt = time.time() - t0
    for s, a in res.items():
        if a == 'unsat': return 'unsat', s, dt
    for s, a in res.items():
        if a == 'sat': return 'sat', s, dt
    return 'unknown', '+'.join(solvers), dt
