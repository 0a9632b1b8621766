"""Symbolic executor for the exported AST: direct style, paths enumerated by replaying decisions."""
import itertools, time
from .terms import *
from .values import *
from . import lib
from .loops import LoopMixin, LoopExit, Backtrack

from . import terms as _terms
sysfresh = _terms._fresh


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class Infeasible(Exception): pass


class CppThrow(Exception):
    def __init__(self, cls, v=None): self.cls, self.v = cls, v


class Outcome:
    __slots__ = ('kind', 'val', 'pc', 'S', 'facts', 'conds', 'dec')

    def __init__(self, kind, val, pc, S, conds=()):
        self.kind, self.val, self.pc, self.S, self.conds = kind, val, pc, S, list(conds)
        cs = set()
        for c in conds:
            cs.add(c)
            if c.op == 'and': cs.update(c.a)
        self.facts = [f for f in pc if f not in cs]


class Exec(LoopMixin):
    MAXPATHS = 4000

    def __init__(self, prog, quick=None, deadline=None):
        self.prog = prog
        self.ghosts = {}          # ghost fields of arbitrary objects: name -> type
        self.makers = {}          # class -> contract of its construction on the heap
        self.S = {'heap': {}, 'epoch': ()}
        self.pc = []          # conjuncts assumed on this path
        self.pcset = set()
        self.conds = []
        self.approx = False
        self.terminates = True
        self.env = {}
        self.this = None
        self.nloc = 0
        self.dec = []; self.pos = 0; self.pending = None
        self.contracts = {}   # usr -> callable(ex, fn, this, args) -> value   (modular calls)
        self.invariants = []  # loop contracts
        self.detect = self.suppressed = 0
        self.quiet = 0        # no obligations are recorded while looking for the locations a loop modifies
        self.guards = []      # conditions under which the operand being evaluated is evaluated
        self.checked = False; self.sites = 0     # when checked, accesses give obligations: the element exists
        self.quick = quick    # feasibility oracle: (pc, cond) -> True if pc => not cond is proved
        self.depth = 0
        self.nounroll = set()
        self.mapkeys = {}
        self.levels = []        # the explorations in progress: [identity, decisions of the current path]
        self.on_drop = None     # told when the paths under a prefix of decisions are abandoned
        self.inlined = set()
        self.trusted = set()
        self.paths = 0
        self.deadline = deadline
        self.globals_cache = {}
        self.forkhook = None

    # ------------------------------------------------------------ state
    def assume(self, t):
        if t is TRUE: return
        if t is FALSE: raise Infeasible()
        if t.op == 'and':
            for x in t.a: self.assume(x)
            return
        if t not in self.pcset:
            self.pc.append(t); self.pcset.add(t)

    def known(self, c):
        if is_const(c): return c is TRUE
        if c in self.pcset: return True
        n = not_(c)
        if n in self.pcset: return False
        if c.op == 'and':
            ks = [self.known(x) for x in c.a]
            if any(k is False for k in ks): return False
            if all(k is True for k in ks): return True
        if c.op == 'or':
            ks = [self.known(x) for x in c.a]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        return None

    def branch(self, c):
        if not isinstance(c, T): raise Unsupported('condition is not a scalar')
        k = self.known(c)
        if k is not None: return k
        if self.deadline and time.time() > self.deadline: raise Unsupported('symbolic execution exceeded its time budget')
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = None
            if self.quick:
                if self.quick(self.pc, not_(c)): d = 'T'        # not c is infeasible
                elif self.quick(self.pc, c): d = 'F'
            if d is None:
                if self.pending is None: raise Unsupported('fork outside of an exploration')
                self.pending.append(self.dec + [False])
                d = True
            self.dec.append(d)
        self.pos += 1
        r = d in (True, 'T')
        self.assume(c if r else not_(c))
        self.conds.append(c if r else not_(c))
        return r

    def snapshot(self):
        return (dict(self.S), list(self.pc), set(self.pcset), dict(self.env), self.this, self.nloc, list(self.conds), self.depth)

    def restore(self, s):
        self.S, self.pc, self.pcset, self.env, self.this, self.nloc = dict(s[0]), list(s[1]), set(s[2]), dict(s[3]), s[4], s[5]
        self.conds, self.depth = list(s[6]), s[7]

    def explore(self, thunk):
        """all outcomes of thunk from the current state; the state is restored afterwards"""
        base = self.snapshot()
        npc = len(self.pc); nc = len(self.conds)
        saved = (self.dec, self.pos, self.pending)
        stack = [[]]
        out = []
        lev = [object(), None]
        self.levels.append(lev)
        try:
            while stack:
                self.paths += 1
                if len(out) > self.MAXPATHS: raise Unsupported('too many paths')
                self.restore(base)
                self.dec = lev[1] = stack.pop(); self.pos = 0; self.pending = stack; nst = len(stack)
                try:
                    v = thunk()
                    o = Outcome('ok', v, self.pc[npc:], self.S, self.conds[nc:])
                except BreakEx: o = Outcome('break', None, self.pc[npc:], self.S, self.conds[nc:])
                except ContinueEx: o = Outcome('continue', None, self.pc[npc:], self.S, self.conds[nc:])
                except ReturnEx as e: o = Outcome('return', e.v, self.pc[npc:], self.S, self.conds[nc:])
                except CppThrow as e: o = Outcome('throw', e, self.pc[npc:], self.S, self.conds[nc:])
                except LoopExit: o = Outcome('loopexit', None, self.pc[npc:], self.S, self.conds[nc:])
                except Infeasible: continue
                except Backtrack as e:
                    # a loop that was unrolled with forks turns out to be long: redo it, summarised from its start
                    pre = self.dec[:e.pos]
                    self.nounroll.add((tuple(pre), e.key))
                    del stack[nst:]
                    out = [o for o in out if o.dec[:e.pos] != pre]     # paths that left the unrolled loop early are redone as well
                    if self.on_drop: self.on_drop(lev[0], pre)
                    stack.append(pre)
                    continue
                o.dec = self.dec
                out.append(o)
        finally:
            self.levels.pop()
            self.dec, self.pos, self.pending = saved
            self.restore(base)
        return out

    # ------------------------------------------------------------ memory
    def alloc(self, v):
        self.nloc += 1
        self.S[self.nloc] = v
        return LV(self.nloc)

    def tmp(self, x):
        return x if isinstance(x, LV) else self.alloc(x)

    def load(self, lv):
        if not isinstance(lv, LV): return lv
        if isinstance(lv.root, tuple):
            return self.load_sym(lv)
        v = self.S[lv.root]
        for el in lv.path: v = self.get_el(v, el)
        return v

    rv = load

    def load_sym(self, lv):
        _, ref, cls = lv.root
        if not lv.path:
            f = {}
            for key, t in self.fields(cls): f[key] = self.heap_get(key, t, ref)
            return Rec(cls, f)
        el = lv.path[0]
        if el[0] != 'f': raise Unsupported('access %s of an arbitrary object' % (el,))
        v = self.heap_get(el[1], self.field_type(el[1]), ref)
        for e in lv.path[1:]: v = self.get_el(v, e)
        return v

    def store(self, lv, v):
        if not isinstance(lv, LV): raise Unsupported('assignment to a temporary')
        if isinstance(lv.root, tuple):
            _, ref, cls = lv.root
            if not lv.path:
                for key, t in self.fields(cls): self.heap_set(key, ref, v.f[key])
                return
            key = lv.path[0][1]
            if len(lv.path) > 1:
                old = self.heap_get(key, self.field_type(key), ref)
                v = self.set_path(old, lv.path[1:], v)
            self.heap_set(key, ref, v)
            return
        if not lv.path: self.S[lv.root] = v
        else: self.S[lv.root] = self.set_path(self.S[lv.root], lv.path, v)

    def heap_get(self, key, t, ref):
        h = self.S['heap'].get(key)
        if h is not None: return h(ref)
        return self.heap_base(key, t, ref)

    def heap_base(self, key, t, ref):
        v = self.symval(t, lambda p, s, idx=(): app('%s%s' % (key, p), (ref,) + tuple(idx), s))
        return v

    def heap_set(self, key, ref, v):
        old = self.S['heap'].get(key)
        t = self.field_type(key)
        h = dict(self.S['heap'])

        def get(r, old=old, ref=ref, v=v):
            o = (lambda: old(r)) if old is not None else (lambda: self.heap_base(key, t, r))
            return merge(eq(r, ref), lambda: v, o)
        get.node = ('set', old, ref, v)
        h[key] = get
        self.S['heap'] = h
        self.S['epoch'] = ('w', id(get), key)

    def get_el(self, v, el):
        k = el[0]
        if k == 'f':
            if isinstance(v, Rec):
                if el[1] not in v.f: raise Unsupported('no field ' + el[1])
                return v.f[el[1]]
            raise Unsupported('field of %r' % type(v).__name__)
        if k == 'el':
            if isinstance(v, Tup): return v.e[el[1]]
            if isinstance(v, Seq): return v.get(el[1])
            raise Unsupported('element of %s' % type(v).__name__)
        if k == 'co':
            return lib.coeff(v, el[1], el[2])
        if k == 'q':
            return getattr(v, el[1])
        if k == 'blk':
            return lib.block(v, *el[1:])
        if k == 'kind':
            return v.kind(el[1])
        if k == 'T':
            return lib.transpose(v)
        if k == 'mapval':
            return v.get(el[1])
        raise Unsupported('access ' + str(k))

    def set_path(self, v, path, x):
        if not path: return x
        el = path[0]
        k = el[0]
        if len(path) > 1:
            x = self.set_path(self.get_el(v, el), path[1:], x)
        if k == 'f': return v.set(el[1], x)
        if k == 'el':
            if isinstance(v, Tup):
                e = list(v.e); e[el[1]] = x
                return Tup(e, v.k)
            return v.set(el[1], x)
        if k == 'co': return lib.set_coeff(v, el[1], el[2], x)
        if k == 'q':
            return Quat(*[x if n == el[1] else getattr(v, n) for n in 'wxyz'])
        if k == 'blk': return lib.set_block(v, el[1], el[2], el[3], el[4], x)
        if k == 'kind': return x.kind(v.k)
        if k == 'T': return lib.transpose(x)
        if k == 'mapval': return lib.map_set(v, el[1], x)
        raise Unsupported('store through ' + str(k))

    # ------------------------------------------------------------ types
    def T(self, t): return self.prog.types[t]

    def strip(self, t):
        o = self.prog.types[t]
        while o['kind'] == 'ref':
            t = o['to']; o = self.prog.types[t]
        return t

    def fields(self, q):
        """all fields (with bases) of a library class"""
        r = self.prog.recq.get(q)
        if r is None: raise Unsupported('class ' + q)
        out = []
        for b_ in r['bases']:
            bq = self.prog.types[b_]['rec']
            if bq in self.prog.recq: out += self.fields(bq)
        for f in r['fields']: out.append((q + '::' + f['name'], f['t']))
        return out

    def field_type(self, key):
        if key in self.ghosts: return self.ghosts[key]
        q, n = key.rsplit('::', 1)
        for f in self.prog.recq[q]['fields']:
            if f['name'] == n: return f['t']
        raise Unsupported(key)

    def symval(self, t, nm):
        """arbitrary value of a type; nm(path, sort, idx) names its leaves"""
        t = self.strip(t)
        o = self.prog.types[t]
        k = o['kind']
        if k == 'real': return nm('', 'R')
        if k in ('int', 'enum'):
            x = nm('', 'I')
            if o.get('unsigned') and not fv_bound(x): self.assume(le(num(0, 'I'), x))
            return x
        if k == 'bool': return nm('', 'B')
        if k == 'ptr': return SPtr(nm('', 'Ref'), self.rec_of(o['to']))
        if k == 'void': return None
        if k == 'record':
            q = o['rec']
            if q in ('std::basic_string', 'std::__cxx11::basic_string'): return nm('', 'Str')
            if q in ('Eigen::Matrix', 'Eigen::Array'):
                kk = 'M' if q == 'Eigen::Matrix' else 'A'
                r, c = o['targs'][1], o['targs'][2]
                if r > 0 and c > 0:
                    return Mat(r, c, [nm('[%d]' % i, 'R') for i in range(r * c)], kk)
                rr = num(r, 'I') if r > 0 else nm('.rows', 'I')
                cc = num(c, 'I') if c > 0 else nm('.cols', 'I')
                for x in (rr, cc):
                    if not isnum(x) and not fv_bound(x): self.assume(le(num(0, 'I'), x))
                return DMat(rr, cc, lambda i, j: nm('.at', 'R', (i, j)), kk)
            if q == 'Eigen::DiagonalMatrix':
                n = o['targs'][1]
                return Mat(n, n, [nm('[%d]' % i, 'R') for i in range(n)], 'D')
            if q == 'Eigen::Quaternion':
                return Quat(*[nm('.' + n, 'R') for n in 'wxyz'])
            if q == 'Eigen::AngleAxis':
                return AngleAxis(nm('.angle', 'R'), Mat(3, 1, [nm('.axis[%d]' % i, 'R') for i in range(3)]))
            if q in ('std::vector', 'std::deque', 'std::list'):
                et = o['targs'][0]
                n = nm('.n', 'I')
                if not fv_bound(n): self.assume(le(num(0, 'I'), n))
                return Seq(n, lambda i: self.symval(et, lambda p, s, idx=(): nm('.el' + p, s, (i,) + tuple(idx))), ('base', nm))
            if q in ('std::shared_ptr', 'std::unique_ptr'):
                return SPtr(nm('', 'Ref'), self.rec_of(o['targs'][0]))
            if q == 'std::pair':
                return Tup([self.symval(o['targs'][0], lambda p, s, idx=(): nm('.first' + p, s, idx)), self.symval(o['targs'][1], lambda p, s, idx=(): nm('.second' + p, s, idx))])
            if q == 'std::tuple':
                return Tup([self.symval(a, lambda p, s, idx=(), i=i: nm('.%d%s' % (i, p), s, idx)) for i, a in enumerate(o['targs'])], 'tuple')
            if q == 'std::map':
                return lib.sym_map(self, o, nm)
            if q in self.prog.recq:
                return Rec(q, {key: self.symval(ft, lambda p, s, idx=(), key=key: nm('.' + key.split('::')[-1] + p, s, idx)) for key, ft in self.fields(q)})
        raise Unsupported('symbolic value of type ' + o['s'])

    def rec_of(self, t):
        o = self.prog.types[self.strip(t)]
        return o.get('rec', o['s'])

    def sym(self, t, name):
        """named arbitrary input"""
        def nm(p, s, idx=()):
            if idx: return app(name + p, idx, s)
            return var(name + p, s)
        return self.symval(t, nm)

    def fresh_of(self, t, name):
        return self.sym(t, '%s!%d' % (name, next(sysfresh)))

    def default(self, t):
        """value of a default-initialised object of type t (None = indeterminate)"""
        o = self.prog.types[self.strip(t)]
        if o['kind'] == 'record':
            q = o['rec']
            if q in ('std::basic_string', 'std::__cxx11::basic_string'): return string('')
            if q in ('std::vector', 'std::deque', 'std::list'): return seq_items([], o['targs'][0])
            if q in ('std::shared_ptr', 'std::unique_ptr'): return Ptr(None)
            if q == 'std::map': return lib.empty_map(self)
            if q == 'std::pair':
                return Tup([self.default(a) for a in o['targs'][:2]])
            if q == 'std::tuple':
                return Tup([self.default(a) for a in o['targs']], 'tuple')
            if q.startswith('Eigen::'):
                if q in ('Eigen::Matrix', 'Eigen::Array') and (o['targs'][1] < 0 or o['targs'][2] < 0):
                    z = num(0, 'I')
                    r, c = o['targs'][1], o['targs'][2]
                    return DMat(num(r, 'I') if r > 0 else z, num(c, 'I') if c > 0 else z, lambda i, j: fresh('uninit'), 'M' if q == 'Eigen::Matrix' else 'A')
                return self.fresh_of(t, 'uninit')
        if o['kind'] in ('real', 'int', 'bool', 'enum'): return self.fresh_of(t, 'uninit')
        if o['kind'] == 'ptr': return UNDEF
        return UNDEF

    def zero(self, t):
        o = self.prog.types[self.strip(t)]
        if o['kind'] == 'real': return ZERO
        if o['kind'] in ('int', 'enum'): return num(0, 'I')
        if o['kind'] == 'bool': return FALSE
        if o['kind'] == 'ptr': return Ptr(None)
        return self.default(t)

    # ------------------------------------------------------------ functions
    def find(self, q, *ptypes):
        """library function by (suffix of its) qualified name and parameter type substrings"""
        cands = [f for qq, fs in self.prog.byq.items() for f in fs if qq == q or qq.endswith('::' + q)]
        if ptypes or len(cands) > 1:
            cands = [f for f in cands if len(f['params']) == len(ptypes) and all(x in self.prog.tstr(p['t']) for x, p in zip(ptypes, f['params']))]
        if not cands: raise Unsupported('function %s%s not found' % (q, ptypes))
        return cands[0]

    def call_fn(self, fn, this, args, virtual=False):
        """args: LVs or values"""
        c = self.contracts.get(fn['usr'])
        if c is not None:
            self.inlined.add(('contract', fn['q']))
            return c(self, fn, this, args)
        if self.depth > 40: raise Unsupported('recursion')
        self.inlined.add(('body', fn['q'], fn['file'], fn['line']))
        saved = (self.env, self.this)
        self.env = {}
        self.this = this
        self.depth += 1
        try:
            self.bind(fn['params'], args)
            if fn.get('isctor'): self.ctor_inits(fn)
            try:
                self.stmt(fn['body'])
                r = None
            except ReturnEx as e:
                r = e.v
            if r is not None and self.prog.types[fn['ret']]['kind'] != 'ref' and not fn.get('isctor'):
                r = self.rv(r)
            return r
        finally:
            self.depth -= 1
            self.env, self.this = saved

    def bind(self, params, args):
        if len(args) < len(params): raise Unsupported('missing arguments')
        for p, a in zip(params, args):
            if self.prog.types[p['t']]['kind'] == 'ref':
                self.env[p['id']] = self.tmp(a)
            else:
                self.env[p['id']] = self.alloc(self.copyval(self.rv(a)))

    def user_copy_ctor(self, cls):
        for f in self.prog.byq.get(cls + '::' + cls.split('::')[-1], []):
            if f.get('isctor') and len(f['params']) == 1:
                o = self.prog.types[f['params'][0]['t']]
                if o['kind'] == 'ref' and not o.get('rv') and self.prog.types[o['to']].get('rec') == cls: return f
        return None

    def copyval(self, v):
        if isinstance(v, Rec):
            f = self.user_copy_ctor(v.cls)
            if f is not None:
                return self.construct(v.cls, f, [self.alloc(v)])
            g = {}
            for k, x in v.f.items(): g[k] = self.copyval(x) if isinstance(x, Rec) else x
            return Rec(v.cls, g)
        return v

    def construct(self, cls, fn, args):
        lv = self.alloc(Rec(cls, {k: UNDEF for k, _ in self.fields(cls)}))
        self.call_fn(fn, lv, args)
        return self.load(lv)

    def construct_at(self, lv, fn, args):
        self.call_fn(fn, lv, args)

    def ctor_inits(self, fn):
        cls = fn['cls']
        for i in fn['inits']:
            if 'delegating' in i:
                self.init_into(self.this, i['e'])
            elif 'base' in i:
                if self.prog.types[i['base']].get('rec') in self.prog.recq:
                    self.init_into(self.this, i['e'], base=True)
            else:
                key = cls + '::' + i['field']
                t = self.field_type(key)
                v = self.init_value(i['e'], t)
                self.store(self.this / ('f', key), v)
        # members without any initialiser
        done = {cls + '::' + i['field'] for i in fn['inits'] if 'field' in i}
        if not any('delegating' in i for i in fn['inits']):
            for f in self.prog.recq[cls]['fields']:
                key = cls + '::' + f['name']
                if key not in done:
                    v = self.init_value(f['init'], f['t']) if f.get('init') else self.default(f['t'])
                    self.store(self.this / ('f', key), v)

    def init_into(self, lv, e, base=False):
        while e['k'] == 'cast': e = e['e']
        if e['k'] != 'ctor': raise Unsupported('base initialiser')
        fn = self.prog.fns.get(e['f']['usr'])
        args = [self.ev(a) for a in e['c']]
        if fn is None:
            if e.get('copy'):
                src = self.rv(args[0])
                cur = self.load(lv)
                for k, v in src.f.items():
                    if k in cur.f: self.store(lv / ('f', k), self.copyval(v))
                return
            q = e['f']['cls']
            for key, t in self.fields(q): self.store(lv / ('f', key), self.default_field(key, t))
            return
        self.call_fn(fn, lv, args)

    def default_field(self, key, t):
        q, n = key.rsplit('::', 1)
        for f in self.prog.recq[q]['fields']:
            if f['name'] == n and f.get('init'): return self.init_value(f['init'], t)
        return self.default_full(t)

    def default_full(self, t):
        o = self.prog.types[self.strip(t)]
        if o.get('rec') in self.prog.recq:
            for f in self.prog.byq.get(o['rec'] + '::' + o['rec'].split('::')[-1], []):
                if f.get('isctor') and not f['params']: return self.construct(o['rec'], f, [])
            return Rec(o['rec'], {k: self.default_field(k, ft) for k, ft in self.fields(o['rec'])})
        return self.default(t)

    def init_value(self, e, t):
        """value of an initialiser for an object of type t"""
        if e is None: return self.default_full(t)
        v = self.rv(self.ev(e))
        return self.coerce(v, t)

    def coerce(self, v, t):
        o = self.prog.types[self.strip(t)]
        if o['kind'] == 'record' and o['rec'] in ('Eigen::Matrix', 'Eigen::Array') and isinstance(v, (Mat, DMat)):
            return lib.convert(v, o)
        if o['kind'] == 'real' and isinstance(v, T): return toreal(v)
        return v

    def bases(self, cls):
        out = []
        r = self.prog.recq.get(cls)
        for b_ in (r['bases'] if r else []):
            q = self.prog.types[b_].get('rec')
            if q in self.prog.recq: out += [q] + self.bases(q)
        return out

    def fits(self, v, t):
        o = self.prog.types[self.strip(t)]
        k = o['kind']
        if isinstance(v, T): return (k == 'record' and o['rec'] in lib.STRINGS) if v.s == 'Str' else k in ('real', 'int', 'bool', 'enum')
        if k != 'record': return isinstance(v, (Ptr, SPtr)) and k == 'ptr'
        q = o['rec']
        if isinstance(v, Rec): return v.cls == q or q in self.bases(v.cls)
        if isinstance(v, (Mat, DMat)): return q == ('Eigen::Array' if v.k == 'A' else 'Eigen::Matrix')
        if isinstance(v, Quat): return q == 'Eigen::Quaternion'
        if isinstance(v, Seq): return q in lib.SEQS
        if isinstance(v, (Ptr, SPtr)): return q.endswith('_ptr')
        if isinstance(v, Tup): return q == 'std::' + v.k
        return False

    def pick_ctor(self, cls, vals):
        best = None
        for f in self.prog.byq.get(cls + '::' + cls.split('::')[-1], []):
            if not f.get('isctor') or len(f['params']) < len(vals): continue
            if any('def' not in p for p in f['params'][len(vals):]): continue
            if all(self.fits(v, p['t']) for v, p in zip(vals, f['params'])):
                if best is None or len(f['params']) < len(best['params']): best = f
        return best

    def default_args(self, fn, n):
        return [self.ev(p['def']) for p in fn['params'][n:]]

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None: return
        getattr(self, 's_' + s['k'], self.s_bad)(s)

    def s_bad(self, s): raise Unsupported('statement %s' % (s.get('what') or s['k']))

    def s_block(self, s):
        for c in s['c']: self.stmt(c)

    def s_decl(self, s):
        for c in s['c']: self.stmt(c)

    def s_null(self, s): pass

    def s_expr(self, s): self.ev(s['e'])

    def constant(self, e):
        """an initialiser that reads no variable of the function"""
        if isinstance(e, list): return all(self.constant(x) for x in e)
        if not isinstance(e, dict): return True
        if e.get('k') in ('this', 'lambda', 'assign'): return False
        if e.get('k') == 'ref' and e['id'] not in self.prog.globals and e.get('global') not in ('std::cerr', 'std::cout', 'std::clog'): return False
        return all(self.constant(x) for x in e.values())

    def s_var(self, v):
        o = self.prog.types[v['t']]
        if v.get('static') and not (o.get('const') and self.constant(v.get('init'))): raise Unsupported('static local variable')
        if o['kind'] == 'ref':
            x = self.ev(v['init'])
            self.env[v['id']] = self.tmp(x)
        else:
            self.env[v['id']] = self.alloc(self.init_value(v.get('init'), v['t']))
        if v.get('bindings'):
            lv = self.env[v['id']]
            for i, b_ in enumerate(v['bindings']):
                self.env[b_['id']] = lv / ('el', i)
                if b_.get('holding'): self.env[b_['holding']['id']] = lv / ('el', i)

    def s_if(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cvar'): self.s_var(s['cvar'])
        if self.cond(s['cond']): self.stmt(s['then'])
        else: self.stmt(s['else'])

    def cond(self, e):
        """evaluate a condition, forking on && || ! so that every path knows the atoms"""
        if e['k'] == 'bin' and e['op'] == '&&': return self.cond(e['l']) and self.cond(e['r'])
        if e['k'] == 'bin' and e['op'] == '||': return self.cond(e['l']) or self.cond(e['r'])
        if e['k'] == 'un' and e['op'] == '!': return not self.cond(e['e'])
        if e['k'] == 'cast' and e['ck'] in ('NoOp',): return self.cond(e['e'])
        return self.branch(self.truth(self.rv(self.ev(e))))

    def truth(self, v):
        if isinstance(v, T):
            if v.s == 'B': return v
            if v.s in 'RI': return ne(v, num(0, v.s))
        if isinstance(v, Ptr): return b(v.lv is not None)
        if isinstance(v, SPtr): return ne(v.t, var('null', 'Ref'))
        raise Unsupported('truth value of %s' % type(v).__name__)

    def s_return(self, s):
        if s['e'] is None: raise ReturnEx(None)
        v = self.ev(s['e'])
        raise ReturnEx(v)

    def s_break(self, s): raise BreakEx()
    def s_continue(self, s): raise ContinueEx()

    def s_switch(self, s):
        v = self.rv(self.ev(s['cond']))
        items = s['body']['c'] if s['body']['k'] == 'block' else [s['body']]
        flat = []
        for it in items:
            while it and it['k'] in ('case', 'default'):
                flat.append((it['k'], it.get('v'))); it = it['c']
            flat.append(('stmt', it))
        start = None
        for i, (k, x) in enumerate(flat):
            if k == 'case' and self.branch(eq(v, self.rv(self.ev(x)))): start = i; break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'default': start = i
        if start is None: return
        try:
            for k, x in flat[start:]:
                if k == 'stmt': self.stmt(x)
        except BreakEx: pass

    def s_try(self, s):
        try:
            self.stmt(s['body'])
        except CppThrow as e:
            for h in s['handlers']:
                if h['t'] is None or self.prog.tstr(h['t']) in ('std::exception',) or self.prog.tstr(h['t']).endswith(e.cls.split('::')[-1]) or (self.prog.tstr(h['t']) == 'std::runtime_error' and 'Exception' in e.cls):
                    if h.get('id'): self.env[h['id']] = self.alloc(e.v)
                    self.stmt(h['body'])
                    return
            raise

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        return getattr(self, 'e_' + e['k'], self.e_bad)(e)

    def e_bad(self, e): raise Unsupported('expression %s' % (e.get('what') or e['k']))

    def e_int(self, e): return num(int(e['v']), 'I') if self.prog.types[e['t']]['kind'] != 'bool' else b(int(e['v']) != 0)

    def e_real(self, e):
        sp = e.get('sp', '').rstrip('fFlL')
        try: x = Fr(sp)
        except (ValueError, ZeroDivisionError): x = Fr(float(e['v']))
        f = float(x)
        if f == math.pi: return PI
        if f == math.pi / 2: return mul(num(Fr(1, 2)), PI)
        return num(x)

    def e_bool(self, e): return b(e['v'])
    def e_str(self, e): return string(e['v'])
    def e_null(self, e): return Ptr(None)
    def e_this(self, e): return Ptr(self.this)

    def e_ref(self, e):
        if e['id'] in self.env: return self.env[e['id']]
        g = e.get('global')
        if g in ('std::cerr', 'std::cout', 'std::clog'): return STREAM
        if e['id'] in self.prog.globals:
            o = self.prog.globals[e['id']]
            if not o.get('const') and not self.prog.types[o['t']].get('const'): raise Unsupported('mutable global ' + o['q'])
            return self.init_value(o['init'], o['t'])
        raise Unsupported('variable ' + e['name'])

    def e_fref(self, e): return FRef(e['f'])

    def e_member(self, e):
        key = e['owner'] + '::' + e['f']
        x = self.ev(e['b'])
        if e['arrow']: x = self.deref(self.rv(x))
        if e['owner'] == 'std::pair':
            el = ('el', 0 if e['f'] == 'first' else 1)
            if isinstance(x, LV):
                v = None
                if x.path and x.path[-1][0] == 'mapit':
                    return self.load(LV(x.root, x.path[:-1])) if False else lib.map_member(self, x, e['f'])
                return x / el
            if isinstance(x, tuple) and x[0] == 'mapentry': return lib.map_member(self, x, e['f'])
            return self.get_el(x, el)
        if isinstance(x, LV): return x / ('f', key)
        return self.get_el(x, ('f', key))

    def within(self, what, *conds):
        """memory safety: the element accessed exists"""
        if not self.checked: return
        c = implies(and_(*self.guards), and_(*conds))
        self.sites += 1
        if c is TRUE: return
        self.check('access: ' + what, c)
        if c is FALSE: raise Infeasible()

    def index_ok(self, v, i, j=None):
        """element i (or i, j) of a list, vector or matrix exists"""
        if not self.checked: return
        I0 = lib.ti(0)
        if isinstance(v, Seq): self.within('the element of the list exists', le(I0, i), lt(i, v.n))
        elif isinstance(v, (Mat, DMat)):
            R, C = lib.dims(v)
            if j is None: self.within('the coefficient exists', le(I0, i), lt(i, mul(R, C)))
            else: self.within('the coefficient exists', le(I0, i), lt(i, R), le(I0, j), lt(j, C))

    def deref(self, p):
        if isinstance(p, LV): p = self.rv(p)
        if self.checked:
            if isinstance(p, It): self.index_ok(self.rv(p.lv), p.i)
            elif isinstance(p, MapIt): self.within('the iterator is not the end of the map', not_(p.end) if p.end is not None else lt(p.idx, self.rv(p.m).n))
            elif isinstance(p, Ptr) and p.lv is None: self.within('the pointer is not null', FALSE)
        if isinstance(p, Ptr):
            if p.lv is None: raise Unsupported('null dereference')
            return p.lv
        if isinstance(p, SPtr): return LV(('sym', p.t, p.cls))
        if isinstance(p, It): return p.lv / ('el', p.i)
        if isinstance(p, MapIt): return ('mapentry', lib.keyed(self, p))
        raise Unsupported('dereference of %s' % type(p).__name__)

    def e_cast(self, e):
        ck = e['ck']
        x = self.ev(e['e'])
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BitCast', 'Dependent', 'BuiltinFnToFnPtr', 'LValueBitCast', 'Dynamic'):
            return x
        if ck == 'ToVoid': return None
        if ck == 'NullToPointer': return Ptr(None)
        v = self.rv(x)
        if ck == 'LValueToRValue': return v
        if ck in ('IntegralToFloating',):
            if v.s == 'B': v = ite(v, num(1, 'I'), num(0, 'I'))
            return toreal(v)
        if ck == 'FloatingCast': return v
        if ck == 'IntegralCast':
            o = self.prog.types[e['t']]
            if v.s == 'B': return ite(v, num(1, 'I'), num(0, 'I'))
            if v.op == 'num' and v.a[0] < 0 and o.get('unsigned'):
                return num(v.a[0] + 2 ** o['bits'], 'I')
            return v
        if ck == 'FloatingToIntegral':
            if v.op == 'num': return num(int(v.a[0]), 'I')
            return app('trunc', (v,), 'I')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.truth(v)
        raise Unsupported('cast ' + ck)

    def e_zero(self, e): return self.zero(e['t'])

    def e_ilist(self, e):
        o = self.prog.types[e['t']]
        vals = [self.rv(self.ev(c)) for c in e['c']]
        if o['kind'] == 'record':
            q = o['rec']
            if q == 'std::pair': return Tup(vals)
            if q == 'std::initializer_list': return seq_items(vals)
            if q in self.prog.recq:
                fs = self.fields(q)
                return Rec(q, {k: (vals[i] if i < len(vals) else self.zero(t)) for i, (k, t) in enumerate(fs)})
        if o['kind'] == 'carray': return seq_items(vals)
        if len(vals) == 1: return vals[0]
        if not vals: return self.zero(e['t'])
        raise Unsupported('initialiser list')

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            l = self.truth(self.rv(self.ev(e['l'])))
            if op == '&&' and l is FALSE: return FALSE
            if op == '||' and l is TRUE: return TRUE
            # pure right operands are evaluated without forking
            snap = self.S
            if self.pure(e['r']):
                self.guards.append(l if op == '&&' else not_(l))
                try: r = self.truth(self.rv(self.ev(e['r'])))
                finally: self.guards.pop()
                return and_(l, r) if op == '&&' else or_(l, r)
            if op == '&&':
                return self.truth(self.rv(self.ev(e['r']))) if self.branch(l) else FALSE
            return TRUE if self.branch(l) else self.truth(self.rv(self.ev(e['r'])))
        if op == ',':
            self.ev(e['l']); return self.ev(e['r'])
        if op == '=':
            r = self.rv(self.ev(e['r'])); l = self.ev(e['l'])
            self.store(l, self.coerce(r, e['t'])); return l
        l = self.rv(self.ev(e['l'])); r = self.rv(self.ev(e['r']))
        if op == '!=' and self.same_expr(e['l'], e['r']) and isinstance(l, T) and l.s == 'R': return lib.isnan(l)
        if op == '==' and self.same_expr(e['l'], e['r']) and isinstance(l, T) and l.s == 'R': return not_(lib.isnan(l))
        return self.binop(op, l, r, e)

    def same_expr(self, x, y):
        return strip_ids(x) == strip_ids(y)

    def pure(self, e):
        """no calls other than to library/STL const functions and no assignments: evaluated without forking"""
        return is_pure(e)

    def binop(self, op, l, r, e=None):
        if isinstance(l, T) and isinstance(r, T):
            if l.s == 'B' and op in ('+', '-', '*', '<', '>', '<=', '>='): l = ite(l, num(1, 'I'), num(0, 'I'))
            if r.s == 'B' and op in ('+', '-', '*', '<', '>', '<=', '>='): r = ite(r, num(1, 'I'), num(0, 'I'))
            if op == '+': return add(l, r)
            if op == '-': return sub(l, r)
            if op == '*': return mul(l, r)
            if op == '/':
                if l.s == 'I' and r.s == 'I':
                    return lib.idiv(l, r)
                return div(l, r)
            if op in '/%' and l.s == 'I' and r.s == 'I': self.within('the divisor is not zero', ne(r, lib.ti(0)))
            if op == '%': return lib.imod(l, r)
            if op == '<': return lt(l, r)
            if op == '>': return lt(r, l)
            if op == '<=': return le(l, r)
            if op == '>=': return le(r, l)
            if op == '==': return eq(l, r) if l.s == r.s or (l.s in 'RI' and r.s in 'RI') else iff(self.truth(l), self.truth(r))
            if op == '!=': return not_(self.binop('==', l, r))
            if op == '|' and l.s == 'B' and r.s == 'B': return or_(l, r)
            if op == '&' and l.s == 'B' and r.s == 'B': return and_(l, r)
            if op == '|' or op == '&':
                if self.isbool(l) is not None and self.isbool(r) is not None:
                    x, y = self.isbool(l), self.isbool(r)
                    return ite(or_(x, y) if op == '|' else and_(x, y), num(1, 'I'), num(0, 'I'))
        if isinstance(l, (Ptr, SPtr)) or isinstance(r, (Ptr, SPtr)):
            c = self.ptr_eq(l, r)
            return c if op == '==' else not_(c)
        raise Unsupported('operator %s on %s and %s' % (op, type(l).__name__, type(r).__name__))

    def isbool(self, t):
        """integer that is the promotion of a bool"""
        if t.op == 'num' and t.a[0] in (0, 1): return b(t.a[0] == 1)
        if t.op == 'ite' and isnum(t.a[1]) and isnum(t.a[2]) and {val(t.a[1]), val(t.a[2])} <= {0, 1}:
            return ite(t.a[0], b(val(t.a[1]) == 1), b(val(t.a[2]) == 1))
        return None

    def ptr_eq(self, l, r):
        def key(p):
            if isinstance(p, Ptr): return ('c', None if p.lv is None else (p.lv.root, p.lv.path))
            return ('s', p.t)
        a, c = key(l), key(r)
        if a[0] == 'c' and c[0] == 'c': return b(a == c)
        if a[0] == 's' and c[0] == 's': return eq(a[1], c[1])
        s, k = (a, c) if a[0] == 's' else (c, a)
        if k[1] is None: return eq(s[1], var('null', 'Ref'))
        return FALSE     # freshly allocated object differs from every pre-existing one

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            v = self.rv(lv)
            if isinstance(v, T): nv = add(v, num(1 if op == '++' else -1, v.s))
            elif isinstance(v, Ptr): raise Unsupported('pointer arithmetic')
            else: nv = lib.iter_add(self, v, 1 if op == '++' else -1)
            self.store(lv, nv)
            return v if e['post'] else lv
        if op == '&':
            x = self.ev(e['e'])
            if isinstance(x, LV):
                if isinstance(x.root, tuple) and not x.path: return SPtr(x.root[1], x.root[2])
                return Ptr(x)
            return x
        if op == '*':
            return self.deref(self.rv(self.ev(e['e'])))
        v = self.rv(self.ev(e['e']))
        if op == '-':
            return neg(v)
        if op == '+': return v
        if op == '!': return not_(self.truth(v))
        raise Unsupported('unary ' + op)

    def e_assignop(self, e):
        l = self.ev(e['l'])
        r = self.rv(self.ev(e['r']))
        lv = self.rv(l)
        o = self.prog.types[e['t']]
        op = e['op']
        if o['kind'] == 'bool':
            x, y = self.truth(lv), self.truth(r)
            if op == '|': nv = or_(x, y)
            elif op == '&': nv = and_(x, y)
            else: raise Unsupported('bool ' + op)
        else:
            nv = self.binop(op, lv, r)
            if o['kind'] == 'real': nv = toreal(nv)
            elif o['kind'] == 'int' and nv.s == 'R': nv = app('trunc', (nv,), 'I')
        self.store(l, nv)
        return l

    def e_cond(self, e):
        c = self.truth(self.rv(self.ev(e['c'])))
        if c is TRUE: return self.ev(e['a'])
        if c is FALSE: return self.ev(e['b'])
        if self.known(c) is None and is_pure(e['a']) and is_pure(e['b']) and getattr(self, 'merge_cond', False):
            self.guards.append(c)
            try: a = self.rv(self.ev(e['a']))
            finally: self.guards.pop()
            self.guards.append(not_(c))
            try: d = self.rv(self.ev(e['b']))
            finally: self.guards.pop()
            if isinstance(a, T) and isinstance(d, T): return ite(c, a, d)
        return self.ev(e['a']) if self.branch(c) else self.ev(e['b'])

    def e_sub(self, e):
        x = self.ev(e['b']); i = self.rv(self.ev(e['i']))
        if self.checked: self.index_ok(self.rv(x), i)
        if isinstance(x, LV): return x / ('el', i)
        return self.get_el(x, ('el', i))

    def e_new(self, e):
        if e.get('array') or e.get('place'): raise Unsupported('array new')
        v = self.init_value(e['init'], e['at']) if e['init'] else self.default_full(e['at'])
        return Ptr(self.alloc(v))

    def e_throw(self, e):
        if e['e'] is None: raise Unsupported('rethrow')
        v = self.rv(self.ev(e['e']))
        o = self.prog.types[self.strip(e['e']['t'])]
        cls = o.get('rec') or o['s']
        raise CppThrow(cls if o['kind'] != 'ptr' else o['s'], v)

    def e_lambda(self, e):
        env = {}
        for c in e['captures']:
            if c.get('this'): continue
            if c.get('init') is not None: env[c['id']] = self.alloc(self.rv(self.ev(c['init'])))
            elif c.get('byref'): env[c['id']] = self.env[c['id']]
            else:
                env[c['id']] = self.alloc(self.copyval(self.rv(self.env[c['id']])))
        return Fn(e, env, self.this)

    def apply(self, f, args):
        """call a callable value"""
        if isinstance(f, LV): f = self.rv(f)
        if isinstance(f, FRef):
            fn = self.prog.fns.get(f.f['usr'])
            if fn is not None: return self.call_fn(fn, None, args)
            return lib.call(self, f.f, args, {'f': f.f, 'line': 0, 't': None})
        if isinstance(f, Fn):
            node = f.node
            params, body = node['params'], node.get('body')
            if body is None:
                if not node.get('spec'): raise Unsupported('generic lambda')
                params, body = node['spec'][0]['params'], node['spec'][0]['body']
            saved = (self.env, self.this)
            # captured references must see the current store: env holds locations
            self.env = dict(f.env); self.this = f.this
            self.depth += 1
            try:
                self.bind(params, args)
                try:
                    self.stmt(body); return None
                except ReturnEx as ex:
                    return ex.v
            finally:
                self.depth -= 1
                self.env, self.this = saved
        if callable(f): return f(*args)
        raise Unsupported('call of %s' % type(f).__name__)

    def e_ctor(self, e):
        f = e['f']
        o = self.prog.types[self.strip(e['t'])]
        if o['kind'] == 'carray':
            raise Unsupported('array of objects')
        cls = o.get('rec')
        if cls in self.prog.recq:
            if e.get('copy'):
                x = self.ev(e['c'][0])
                if self.prog.fns.get(f['usr']): return self.construct(cls, self.prog.fns[f['usr']], [x])
                v = self.rv(x)
                if isinstance(v, Rec) and v.cls != cls:   # slicing
                    keys = {k for k, _ in self.fields(cls)}
                    v = Rec(cls, {k: y for k, y in v.f.items() if k in keys})
                return self.copyval(v)
            fn = self.prog.fns.get(f['usr'])
            args = [self.ev(a) for a in e['c']]
            if fn is not None: return self.construct(cls, fn, args)
            if not args: return self.default_full(e['t'])
            raise Unsupported('constructor of ' + cls)
        if o.get('lambda'): return self.rv(self.ev(e['c'][0]))
        args = [self.ev(a) for a in e['c']]
        self.trusted.add(f['q'])
        return lib.construct(self, o, args, e)

    def e_call(self, e):
        if 'f' not in e:
            return self.apply(self.rv(self.ev(e['fe'])), [self.ev(a) for a in e['c']])
        f = e['f']
        fn = self.prog.fns.get(f['usr'])
        args = [self.ev(a) for a in e['c']]
        if fn is not None: return self.call_fn(fn, None, args)
        self.trusted.add(f['q'])
        return lib.call(self, f, args, e)

    def e_opcall(self, e):
        f = e.get('f')
        if f is None: raise Unsupported('operator')
        args = [self.ev(a) for a in e['c']]
        fn = self.prog.fns.get(f['usr'])
        if args and args[0] is STREAM: return STREAM
        if fn is not None:
            if 'cls' in fn and not fn.get('static'):
                return self.invoke(fn, f, self.tmp(args[0]), args[1:], False)
            return self.call_fn(fn, None, args)
        v0 = self.rv(args[0]) if args else None
        if isinstance(v0, (Fn, FRef)) and e['op'] == '()': return self.apply(v0, args[1:])
        if f.get('cls') in self.prog.recq and e['op'] == '=':    # implicit assignment
            v = self.rv(args[1])
            lvc = self.rv(args[0])
            if isinstance(lvc, Rec) and isinstance(v, Rec) and lvc.cls != v.cls:
                for k in v.f:
                    if k in lvc.f: self.store(args[0] / ('f', k), v.f[k])
                return args[0]
            self.store(args[0], v)
            return args[0]
        self.trusted.add(f['q'])
        return lib.opcall(self, e['op'], f, args, e)

    def e_mcall(self, e):
        f = e['f']
        x = self.ev(e['b'])
        if e['arrow']: x = self.deref(self.rv(x))
        fn = self.prog.fns.get(f['usr'])
        if x is STREAM: return STREAM
        if f.get('repo') or fn is not None:
            args = [self.ev(a) for a in e['c']]
            return self.invoke(fn, f, self.tmp(x), args, e.get('qual'))
        args = [self.ev(a) for a in e['c']]
        self.trusted.add(f['q'])
        return lib.mcall(self, f, x, args, e)

    def invoke(self, fn, f, this, args, qual):
        """member call with dynamic dispatch"""
        if f.get('virtual') and not qual:
            if isinstance(this.root, tuple) and not this.path:
                h = self.virtual_contract(f, this.root[1], args, fn)
                if h is not NotImplemented: return h
            else:
                v = self.load(this)
                if isinstance(v, Rec):
                    g = self.resolve(v.cls, f)
                    if g is not None: fn = g
        if fn is None: raise Unsupported('no body for ' + f['q'])
        return self.call_fn(fn, this, args)

    def resolve(self, cls, f):
        """final overrider of the virtual function f in class cls"""
        seen = cls
        while seen:
            r = self.prog.recq.get(seen)
            if r is None: return None
            for m in r['methods']:
                if m['usr'] == f['usr'] or self.overrides(m, f['usr']):
                    g = self.prog.fns.get(m['usr'])
                    if g is not None: return g
            seen = next((self.prog.types[b_]['rec'] for b_ in r['bases'] if self.prog.types[b_].get('rec') in self.prog.recq), None)
        return None

    def overrides(self, m, usr):
        todo = list(m['overrides'])
        allm = {x['usr']: x for r in self.prog.recq.values() for x in r['methods']}
        while todo:
            u = todo.pop()
            if u == usr: return True
            if u in allm: todo += allm[u]['overrides']
        return False

    def virtual_contract(self, f, ref, args, fn):
        """contract of a virtual function of an arbitrary obstacle: a pure function of the object's current state"""
        name = f['q'].split('::')[-1]
        h = self.vcontracts.get(name) if hasattr(self, 'vcontracts') else None
        if h is not None: return h(self, f, ref, args, fn)
        return self.pure_call(f, ref, args, fn)

    def pure_call(self, f, ref, args, fn):
        flat = []
        for a in args:
            flat += [t for _, t in self.flat(self.rv(a))]
        name = f['q'].split('::')[-1] + str(len(args)) + self.epoch()
        ret = fn['ret'] if fn else None
        if ret is None: raise Unsupported('virtual function without a body in the base class')
        if self.prog.tstr(ret) == 'void': raise Unsupported('virtual function with effects: ' + f['q'])
        self.inlined.add(('virtual contract', f['q']))
        return self.symval(ret, lambda p, s, idx=(): app('v:%s%s' % (name, p), (ref,) + tuple(flat) + tuple(idx), s))

    def epoch(self):
        e = self.S['epoch']
        if not e: return ''
        ids = self.__dict__.setdefault('_epochs', {})
        return '@%d' % ids.setdefault(e, len(ids) + 1)

    def flat(self, v):
        if isinstance(v, Rec):
            out = []
            for k, x in v.f.items():
                if isinstance(x, (Ptr, Undef)): continue
                out += self.flat(x)
            return out
        if isinstance(v, (Ptr, Undef)): return []
        return leaves(v)

    # loops
    def s_for(self, s):
        self.stmt(s['init'])
        self.loop(s, lambda: TRUE if s['cond'] is None else self.truth(self.rv(self.ev(s['cond']))), lambda: self.stmt(s['body']), lambda: s['inc'] and self.ev(s['inc']))

    def s_while(self, s):
        self.loop(s, lambda: self.truth(self.rv(self.ev(s['cond']))), lambda: self.stmt(s['body']), lambda: None)

    def s_do(self, s):
        try: self.stmt(s['body'])
        except BreakEx: return
        except ContinueEx: pass
        self.s_while(s)

    def s_rfor(self, s):
        rng = self.ev(s['range'])
        self.range_loop(s, rng)


import math


def fv_bound(t):
    return any(x.a[0].startswith('#') for x in fv(t))


def strip_ids(x):
    if isinstance(x, dict): return {k: strip_ids(v) for k, v in x.items() if k != 'line'}
    if isinstance(x, list): return [strip_ids(v) for v in x]
    return x


def is_pure(e):
    """syntactically free of assignments and of library calls that could fork"""
    if isinstance(e, list): return all(is_pure(x) for x in e)
    if not isinstance(e, dict): return True
    k = e.get('k')
    if k in ('assignop', 'lambda', 'new', 'throw', 'cond'): return False
    if k == 'bin' and e['op'] in ('=', ','): return False
    if k == 'un' and e['op'] in ('++', '--'): return False
    if k in ('call', 'mcall', 'opcall'):
        f = e.get('f') or {}
        if f.get('repo') and k != 'mcall': return False
        n = f.get('q', '').split('::')[-1]
        if f.get('repo') and not (n.startswith('get_') or n in PURE_VIRT): return False
        if n in ('normalized', 'normalize', 'push_back', 'insert', 'erase', 'operator='): return False
    return all(is_pure(v) for kk, v in e.items() if kk in ('c', 'l', 'r', 'e', 'b', 'i'))


PURE_VIRT = {'point_is_inside', 'is_closed', 'is_aggregated'}
