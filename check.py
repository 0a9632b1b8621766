#!/usr/bin/env python3-vt
"""Decides one property on /repo's current sources:  check.py C07 [--tier quick|thorough]

1. the library's sources are parsed and every contract of specs/<id>.py becomes proof obligations over the real functions' code;
2. each obligation is discharged by the provers (all inputs, all iterations);
3. the native harness of the property runs the real code, to turn a failed obligation into a failing input.
exit 0: holds; exit 1 and a VIOLATION line: an obligation failed, or the real code broke the property on a concrete input."""
import sys, os, time, json, importlib, argparse, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from concurrent.futures import ThreadPoolExecutor
from doav import frontend as fe
from doav import spec, native, report

PROPS = {}
for l in open(os.path.join(fe.VERIF, 'properties.jsonl')):
    p = json.loads(l); PROPS[p['id']] = p


def deduce(prop, tier, seed, deadline, failing=lambda: False):
    """(tasks, obligations): every task executed, every obligation attempted"""
    P = fe.load()
    m = importlib.import_module('specs.' + prop)
    tasks = []; obs = []
    for f in m.TASKS:
        v, tr = spec.run_task(P, f.__name__, f, {'exec_time': min(150, max(20, deadline - time.time()))})
        tr.doc = (f.__doc__ or '').strip()
        tr.first, tr.count = len(obs), len(v.obs)
        if tr.status == 'unsupported': v.obs = []; tr.count = 0
        obs += v.obs
        tasks.append(tr)
    # with a failing input of the real code already at hand, the proof attempt only has to name the obligations that fail
    now = time.time()
    opts = {'timeout': 15.0, 'ob_time': 60.0, 'seed': seed, 'samples': 60 if tier == 'quick' else 600, 'stop': min(deadline, now + (40 if failing() else 300))}
    res = {r[0]: r for r in spec.discharge_all(obs, opts, procs=8)}
    # what the first round left open gets a second one with more time and less contention
    left = [i for i in sorted(res) if res[i][1] not in ('proved', 'refuted')]
    if left and not any(r[1] == 'refuted' for r in res.values()) and not failing():
        if time.time() + 60 < deadline:
            sub = [obs[i] for i in left[:24]]
            o2 = dict(opts, timeout=60.0, ob_time=min(240.0, (deadline - time.time()) / max(1, (len(sub) + 3) // 4)), stop=deadline)
            for r in spec.discharge_all(sub, o2, procs=4):
                if r[1] in ('proved', 'refuted'): res[left[r[0]]] = (left[r[0]],) + tuple(r[1:])
    return P, tasks, obs, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=None)
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    deadline = t0 + (600 if tier == 'quick' else 780)
    sys.stdout.reconfigure(line_buffering=True)
    nat = {'status': 'none', 'trials': 0, 'checks': 0, 'out': '', 'runs': 0}
    lock = threading.Lock()

    def nrun(exe, s, secs):
        r = native.run(exe, s, secs)
        with lock:
            nat['runs'] += 1
            nat['trials'] += r[2]; nat['checks'] += r[3]
            if r[0] == 'fail' and nat['status'] != 'fail': nat['status'], nat['out'], nat['seed'] = 'fail', r[1], s
            elif r[0] == 'ok' and nat['status'] == 'none': nat['status'] = 'ok'
        return r

    exe = None; nerr = None
    try: exe = native.build(prop)
    except native.NativeError as e: nerr = str(e)
    except fe.FrontendError as e: nerr = str(e)
    th = None
    if exe:
        th = threading.Thread(target=lambda: nrun(exe, seed, 3 if tier == 'quick' else 20)); th.start()
    tasks, obs, res, err = [], [], {}, None
    try:
        P, tasks, obs, res = deduce(prop, tier, seed, deadline, lambda: nat['status'] == 'fail')
    except fe.FrontendError as e:
        err = 'front end: ' + str(e)
    if th: th.join()
    failed = [i for i in sorted(res) if res[i][1] == 'refuted' or (res[i][1] != 'proved' and not obs[i].approx)]
    soft = [i for i in sorted(res) if res[i][1] not in ('proved', 'refuted') and obs[i].approx]
    unsupported = [t for t in tasks if t.status == 'unsupported']
    # an obligation failed or could not be formed: look harder for a failing input of the real code
    if exe and nat['status'] == 'ok' and (failed or soft or unsupported or err or tier == 'thorough'):
        secs = min(25 if tier == 'quick' else 60, max(5, deadline - time.time()))
        with ThreadPoolExecutor(7) as ex: list(ex.map(lambda s: nrun(exe, s, secs), [seed + 1000 + k for k in range(7)]))
    rc = report.write(prop, PROPS[prop], tier, seed, t0, tasks, obs, res, failed, soft, unsupported, err, nat, nerr, exe)
    sys.exit(rc)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
