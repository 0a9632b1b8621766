"""Verdict, replay file and evidence of one check run."""
import os, json, time, subprocess
from . import frontend as fe, prover, spec
from .terms import show

TRUST = ['astx and the symbolic executor of doav/ give C++ and the Eigen/STL operations used their meaning (doav/engine.py, lib.py, loops.py)',
         'doav/prover.py: splitting, normal forms and the axioms of sqrt, inverse, sin, cos, acos, atan2, exp, pow',
         'the SMT solvers z3, z3-new and cvc5', 'clang 18 parses the sources as g++ does']
ASSUME = ['doubles are treated as real numbers and ints as mathematical integers',
          'division by zero yields an unspecified number (total functions); square roots of negative numbers likewise',
          'loops terminate (partial correctness)']


def violation(prop, path, word):
    print('VIOLATION property=%s replay=%s%s' % (prop, path, word))


def head():
    r = subprocess.run(['git', '-C', fe.REPO, 'rev-parse', 'HEAD'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return r.stdout.strip()


def write(prop, P, tier, seed, t0, tasks, obs, res, failed, soft, unsupported, err, nat, nerr, exe):
    known = [l for l in open(os.path.join(fe.VERIF, 'known_findings.txt')) if l.startswith('known: property=%s ' % prop)] if os.path.exists(os.path.join(fe.VERIF, 'known_findings.txt')) else []
    proved = [i for i in res if res[i][1] == 'proved']
    hard = bool(failed)
    witness = nat['status'] == 'fail'
    backends = {}; secs = 0.0; parts = 0
    for i in res:
        secs += res[i][3]; parts += res[i][6]
        for k, n in (res[i][7] or {}).items(): backends[k] = backends.get(k, 0) + n
    functions = sorted({'%s (%s:%s)' % (q[1], os.path.relpath(q[2], fe.REPO), q[3]) for t in tasks for q in t.functions if q[0] == 'body'})
    contracts = sorted({q[1] for t in tasks for q in t.functions if q[0] != 'body'})
    trusted = sorted({str(x) for t in tasks for x in t.trusted})
    vac = spec.vacuity(tasks, obs, 100) if not hard and not witness else {}
    for t in tasks:
        if vac.get(t.task) == 'contradictory': unsupported.append(t); t.note = 'vacuous: the hypotheses of every obligation are contradictory'
    lines = []
    w = lines.append
    w('property %s: %s' % (prop, P['title'])); w('repository %s at %s, working tree included' % (fe.REPO, head())); w('')
    if witness:
        w('FAILING INPUT on the real code (native harness %s):' % os.path.join('native', prop + '.cpp')); w(nat['out'].strip())
        w('re-run: %s --seed %s [--trial N]   (rebuild: python3-vt /verif/check.py %s)' % (exe, nat.get('seed'), prop)); w('')
    for i in failed:
        o = obs[i]; r = res[i]
        w('FAILED OBLIGATION  task %s: %s' % (o.task, o.label)); w('  function under contract: %s' % o.fn); w('  verdict: %s by %s after %.1f s: %s' % (r[1], r[2], r[3], r[4]))
        if r[5]: w('  counterexample of the obligation: %s' % json.dumps(r[5], default=str)[:2000])
        w('  hypotheses (%d):' % len(o.hyps))
        for h in o.hyps[:20]: w('    ' + show(h)[:400])
        w('  goal: ' + show(o.goal)[:1500]); w('')
    bounded = []
    for t in unsupported: bounded.append('task %s: outside the verifier\'s reach (%s)' % (t.task, t.note))
    for i in soft: bounded.append('task %s, %s: a loop summary is too weak to decide it' % (obs[i].task, obs[i].label))
    if err: bounded.append(err)
    if nerr: bounded.append('native harness: ' + nerr[:300])
    rc = 1 if (witness or hard) else 0
    level = P.get('level', 'proof')
    cov = {'obligations': len(obs) + len(unsupported), 'discharged': len(proved), 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier), 'trusted_base': TRUST + ['trusted: ' + x for x in trusted],
           'tasks': {t.task: {'contract': t.doc, 'obligations': t.count, 'paths': t.paths, 'exec_s': round(t.exec_s, 2), 'status': t.status, 'note': t.note} for t in tasks},
           'functions_verified_from_source': functions, 'functions_used_by_contract': contracts, 'proof_parts': parts, 'back_ends': backends, 'solver_s': round(secs, 2),
           'vacuity': vac, 'bounded_only': bounded,
           'native_replay': {'status': nat['status'], 'runs': nat['runs'], 'trials': nat['trials'], 'checks': nat['checks'], 'note': 'samples the statement on the real binary to find failing inputs; not counted as proof'}}
    if not obs or len(proved) < len(obs) or unsupported:
        cov['explanation'] = 'Not every obligation is discharged on this tree; what is listed under bounded_only is decided by the native harness only (bounded).'
        cov['evaluations'] = nat['checks']; cov['distinct_nontrivial'] = nat['trials']; cov['rule'] = 'random inputs of native/%s.cpp, one trial each' % prop
        cov['samples'] = [nat['out'].strip()[:200]] if nat['out'] else ['seed %d' % seed]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level if (obs and len(proved) == len(obs) and not unsupported) or rc else ('proof' if False else 'other'), 'coverage': cov, 'assumptions': ASSUME + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': (1 if witness else 0) + len(failed)}
    if ev['level'] == 'other' and 'explanation' not in cov: cov['explanation'] = 'bounded'
    os.makedirs(os.path.join(fe.VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(fe.VERIF, 'evidence', prop + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, tmp[:-4])
    print('%s: %d obligations, %d discharged (%d parts, %.1f s of solving), %d functions from source; native %s, %d trials, %d checks; %.1f s' % (prop, len(obs), len(proved), parts, secs, len(functions), nat['status'], nat['trials'], nat['checks'], time.time() - t0))
    for b in bounded: print('NOTICE bounded only: ' + b[:300].replace('\n', ' '))
    for l in known: print('KNOWN-FINDING: property=%s %s' % (prop, l.split(' ', 2)[2].strip()))
    if rc:
        d = os.path.join(fe.VERIF, 'build', 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.txt')
        open(path, 'w').write('\n'.join(lines) + '\n')
        print('\n'.join(lines[:40])[:4000])
        violation(prop, path, '' if witness else ' no-failing-input-found')
    return rc
