#!/usr/bin/env python3
"""run.py <property id>: type-check /repo's current source with the fact-dumping driver, run the property's rules on the facts.
exit 0: every obligation discharged (known findings are printed); exit 1: VIOLATION line; exit 2: the code does not compile."""
import sys, os, json, time, re, subprocess, tempfile, fcntl, shutil
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

def extract():
    out = tempfile.mkdtemp(prefix='mirfacts.')
    f = os.path.join(out, 'facts.json')
    os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
    try:
        with open(os.path.join(HERE, '.build', 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            p = subprocess.run([os.path.join(HERE, 'extract.sh'), REPO, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or not os.path.exists(f):
            print(p.stdout[-4000:]); print('error: the source could not be type-checked'); sys.exit(2)
        from engine.prog import Prog
        return Prog(f)
    finally: shutil.rmtree(out, ignore_errors=True)

def findings():
    """known findings: lines 'finding: property=<id> rule=<regex> where=<regex> :: text' ; 'fixed:' lines suppress nothing"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) rule="([^"]*)" where="([^"]*)" :: (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def check(prog, pid, quiet=False):
    from rules.common import R, Undecided
    from rules.all import RULES
    r = R(prog, pid)
    try: RULES[pid](r)
    except Undecided as e: r.ok(False, f'{pid} the analysis has what it needs', None, str(e))
    except RecursionError: r.ok(False, f'{pid} the analysis finishes', None, 'recursion')
    except Exception as e:
        import traceback
        r.ok(False, f'{pid} the analysis recognises the construct', None, traceback.format_exc(limit=-4)[-1200:])
    return r

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    prog = extract(); t1 = time.time()
    r = check(prog, pid)
    known = [k for k in findings() if k[0] == pid]
    bad = []; hit = set()
    for v in r.violations:
        m = [k for k in known if re.search(k[1], v['rule']) and re.search(k[2], v['where'])]
        if m: hit.add(m[0])
        else: bad.append(v)
    for k in sorted(hit): print(f'KNOWN-FINDING: property={pid} {k[3]}')
    if not r.obligations: bad.append({'rule': pid + ' has obligations', 'where': '', 'detail': 'nothing was analysed'})
    obl = {}
    for d, ok, w in r.obligations:
        o = obl.setdefault(d, [0, 0, set()]); o[0] += 1; o[1] += ok
        if w: o[2].add(str(w)[:160])
    fns = sorted(r.analysed.items(), key=lambda x: -x[1])
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the type-checked program (MIR of /repo\'s current source): every acyclic path and loop iteration of the anchored functions, with calls inlined, '
                           'is summarised as effects and branch facts, and each obligation below is decided on every one of those paths.',
            'rules_applied': r.rules,
            'functions_analysed': len(r.analysed), 'program_points': sum(r.analysed.values()), 'paths': r.ntraces,
            'obligations': len(r.obligations), 'discharged': sum(1 for o in r.obligations if o[1]),
            'obligation_kinds': [{'rule': d, 'checked': o[0], 'held': o[1], 'sites': sorted(o[2])[:4]} for d, o in sorted(obl.items())][:120],
            'functions': [{'function': f[:160], 'points': n} for f, n in fns[:80]],
            'facts': {'functions_in_program': len(prog.fns), 'types': len(prog.types), 'read_under_recorded_names': [f'{a} as {b}' for a, b in prog.renamed]},
            'extract_s': round(t1 - t0, 2),
        },
        'assumptions': ['the compiler\'s MIR is the program; the standard library and the used crates behave as modelled in engine/models.py',
                        'no unwinding is caught (no catch_unwind in the code)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    if bad: ev['coverage']['violating_constructs'] = bad[:20]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{pid}: {ev["coverage"]["obligations"]} obligations on {r.ntraces} paths of {len(r.analysed)} functions, {len(bad)} violations, {ev["wall_s"]} s')
    if bad:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.json')
        with open(rp, 'w') as f: json.dump(bad[:50], f, indent=1)
        for v in bad[:8]: print('  ', v['rule'], '|', v['where'], '|', v['detail'][:400])
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0
if __name__ == '__main__': sys.exit(main())
