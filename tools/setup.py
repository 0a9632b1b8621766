#!/usr/bin/env python3-vt
"""Builds the front end and, to warm the caches, the native harnesses."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from doav import frontend as fe, native
fe.load()


def one(f):
    try: native.build(f[:-4]); return 1
    except (native.NativeError, fe.FrontendError) as e: print('setup:', f, str(e)[:400]); return 0


fs = [f for f in sorted(os.listdir(native.NAT)) if f.endswith('.cpp')]
n = one(fs[0])              # the library's objects are compiled once
with ThreadPoolExecutor(7) as ex: n += sum(ex.map(one, fs[1:]))
print('setup: front end and %d native harnesses built' % n)
