"""Runs astx over the library's sources and merges the typed ASTs (cached by content hash; rebuilt from /repo each run)."""
import os, json, subprocess, hashlib, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DOAV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class FrontendError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_astx():
    src = os.path.join(VERIF, 'astx', 'astx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'astx-' + h)
    if os.path.exists(exe): return exe
    with lock('astx'):
        if os.path.exists(exe): return exe
        flags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
        r = sh(['g++', '-O1', '-w', '-fno-rtti'] + flags + [src, '-o', exe + '.tmp', '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'])
        if r.returncode: raise FrontendError('astx does not build:\n' + r.stdout[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe


def cflags():
    py = sh(['python3-config', '--includes']).stdout.split()
    return ['-std=c++14', '-I' + REPO + '/include'] + py + ['-isystem', '/usr/lib/python3/dist-packages/numpy/core/include', '-isystem', '/usr/include/eigen3']


def sources():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        if 'Plotting' in d: continue
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(out) + [VERIF + '/astx/instances.cpp']


def header_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(REPO + '/include')):
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h


def load():
    exe = build_astx()
    hh = header_hash().hexdigest()
    os.makedirs(BUILD + '/ast', exist_ok=True)
    fl = cflags()

    def one(f):
        key = hashlib.sha256((hh + exe + f).encode() + open(f, 'rb').read()).hexdigest()[:24]
        o = '%s/ast/%s-%s.json' % (BUILD, os.path.basename(f)[:-4], key)
        if not os.path.exists(o):
            t = o + '.%d' % os.getpid()
            r = sh([exe, REPO, t, f, '--', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + fl)
            if not os.path.exists(t): raise FrontendError('clang cannot parse %s:\n%s' % (f, r.stdout[-2000:]))
            if r.returncode: raise FrontendError('clang reports errors in %s:\n%s' % (f, r.stdout[-2000:]))
            os.rename(t, o)
        return json.load(open(o))
    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(one, sources()))
    return Program(ds, sources())


class Program:
    """functions by USR; local type and variable ids are made unique per translation unit"""

    def __init__(self, ds, files):
        self.fns = {}; self.recs = {}; self.byq = {}; self.globals = {}
        self.types = {}
        for n, (d, f) in enumerate(zip(ds, files)):
            pre = 'u%d.' % n
            for t, o in d['types'].items():
                o = dict(o)
                if 'to' in o: o['to'] = pre + o['to']
                if 'targs' in o: o['targs'] = [pre + x if isinstance(x, str) else x for x in o['targs']]
                self.types[pre + t] = o
            for r in d['records']:
                fixup(r, pre)
                if r['usr'] not in self.recs: self.recs[r['usr']] = r
            for g, o in d['globals'].items():
                fixup(o, pre)
                self.globals[pre + g] = o
            for fn in d['functions']:
                if fn['usr'] in self.fns and not fn.get('internal'): continue
                fixup(fn, pre)
                if fn['usr'] not in self.fns:
                    self.fns[fn['usr']] = fn
                    self.byq.setdefault(fn['q'], []).append(fn)
        self.recq = {}
        for r in self.recs.values(): self.recq.setdefault(r['q'], r)

    def type(self, t):
        return self.types[t]

    def tstr(self, t):
        o = self.types[t]
        if o['kind'] == 'ref': return self.tstr(o['to'])
        return o['s']


TK = {'t', 'ret', 'to', 'at', 'ct', 'base'}


def fixup(x, pre):
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if k in ('t', 'ret', 'at', 'ct', 'to') and isinstance(v, str): x[k] = pre + v
            elif k == 'base' and isinstance(v, str): x[k] = pre + v
            elif k == 'id' and isinstance(v, str): x[k] = pre + v
            elif k in ('targs', 'bases') or (k == 'params' and v and isinstance(v[0], str)):
                x[k] = [pre + y if isinstance(y, str) else y for y in v]
            elif isinstance(v, (dict, list)): fixup(v, pre)
    elif isinstance(x, list):
        for v in x: fixup(v, pre)
