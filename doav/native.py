"""Builds the native replay harness of a property from /repo's current sources and runs it (object files cached by content hash)."""
import os, subprocess, hashlib, time, re
from concurrent.futures import ThreadPoolExecutor
from . import frontend as fe

NAT = os.path.join(fe.VERIF, 'native')
OUT = os.path.join(fe.BUILD, 'nat')
CXX = ['g++', '-O1', '-g0', '-w', '-std=c++14', '-fPIC', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-omit-frame-pointer']


class NativeError(Exception):
    pass


def obj(src, extra=b''):
    fl = [f for f in fe.cflags() if not f.startswith('-std')]
    key = hashlib.sha256(fe.header_hash().digest() + extra + repr((src, CXX, fl)).encode() + open(src, 'rb').read()).hexdigest()[:24]
    o = '%s/%s-%s.o' % (OUT, os.path.basename(src)[:-4], key)
    if not os.path.exists(o):
        t = '%s.%d' % (o, os.getpid())
        r = fe.sh(CXX + fl + ['-c', src, '-o', t])
        if r.returncode: raise NativeError('%s does not compile:\n%s' % (src, r.stdout[-2000:]))
        os.rename(t, o)
    return o


def build(prop):
    os.makedirs(OUT, exist_ok=True)
    nv = open(os.path.join(NAT, 'nv.hpp'), 'rb').read()
    with ThreadPoolExecutor(8) as ex:
        hs = ex.submit(obj, os.path.join(NAT, prop + '.cpp'), nv)
        os_ = [o for o in ex.map(obj, fe.sources())]
        ho = hs.result()
    key = hashlib.sha256('\n'.join([ho] + os_).encode()).hexdigest()[:24]
    exe = '%s/%s-%s' % (OUT, prop, key)
    if not os.path.exists(exe):
        t = '%s.%d' % (exe, os.getpid())
        lib = fe.sh(['python3-config', '--embed', '--ldflags']).stdout.split()
        r = fe.sh(CXX + [ho] + os_ + ['-o', t] + lib)
        if r.returncode: raise NativeError('the native harness does not link:\n' + r.stdout[-2000:])
        os.rename(t, exe)
    return exe


def run(exe, seed, seconds, timeout=None, extra=()):
    """(status, output, trials, checks): status ok | fail | error"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_segv=0:handle_abort=0:handle_sigfpe=0', MPLBACKEND='Agg')
    try:
        r = subprocess.run([exe, '--seed', str(seed), '--seconds', str(seconds)] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=timeout or seconds * 4 + 60)
    except subprocess.TimeoutExpired:
        return 'fail', 'FAIL does not terminate within %d s' % (timeout or seconds * 4 + 60), 0, 0
    m = re.search(r'^OK trials (\d+) checks (\d+)', r.stdout, re.M)
    if r.returncode == 0 and m: return 'ok', r.stdout, int(m.group(1)), int(m.group(2))
    out = r.stdout[-4000:]
    if 'FAIL' not in out: out += '\nFAIL crash (exit %d)\n%s' % (r.returncode, r.stderr[:3000])
    return 'fail', out, 0, 0
