#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what it breaks' DEMO.rs FILE OLD NEW [FILE OLD NEW ...]: plant a bug, confirm it, keep it under /verif/seeded/ID"""
import sys, os, subprocess, json, shutil
sid, prop, needs, what, demo = sys.argv[1:6]; ed = sys.argv[6:]
S = '/tmp/w/seed'
shutil.rmtree(S, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', S], check=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for i in range(0, len(ed), 3):
    p = f'{S}/src/{ed[i]}'; s = open(p).read()
    assert s.count(ed[i + 1]) == 1, (ed[i], s.count(ed[i + 1]), ed[i + 1])
    open(p, 'w').write(s.replace(ed[i + 1], ed[i + 2]))
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
diff = sh('git diff', cwd=S).stdout
env = '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; ' % S
b = sh(env + 'cargo test --workspace --offline -- --test-threads 8', cwd=S)
if b.returncode: print(b.stdout[-3000:]); sys.exit('does not build or breaks the tests')
if 'warning: unused' in b.stdout and 'WARN' in os.environ: print(b.stdout[-1500:])
open(d + '/patch.diff', 'w').write(diff)
if demo.endswith('.rs'):
    shutil.copy(demo, d + '/demo.rs'); shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
else:   # a directory with demo.sh and its files
    for f in [x for x in os.listdir(demo) if x != '__pycache__']: shutil.copy(os.path.join(demo, f), d)
os.chmod(d + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
g = sh(f'bash {d}/demo.sh', cwd='/repo'); p = sh(f'bash {d}/demo.sh', cwd=S)
print(sid, 'clean', g.returncode, 'patched', p.returncode)
if g.returncode or not p.returncode: print(g.stdout[-1500:] if g.returncode else p.stdout[-1500:])
else: print([l for l in p.stdout.splitlines() if 'panicked' in l or 'assertion' in l or 'FAIL' in l][:4])
m = sh(f'cd {S} && MIRFACTS_TARGET=/tmp/w/tgt /verif/extract.sh {S} /tmp/w/seed.json; cd /tmp/w; python3 rr.py /tmp/w/seed.json {prop} | cut -c1-300 | head -5')
print(m.stdout[-1500:])
shutil.rmtree(S, ignore_errors=True)
