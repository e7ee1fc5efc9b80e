"""python3 tools/caught.py [ID..]: applies each planted bug to a scratch copy and runs its property's check (and extra checks with -a)"""
import sys, os, subprocess, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = '/tmp/plant'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))
extra = [a[1:] for a in sys.argv[1:] if a[0] == '-']
if not os.path.exists(S): sh(f'cp -a /repo {S}')
sh(f'git -C {S} checkout -q -- . && git -C {S} pull -q /repo HEAD')
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    sh(f'git -C {S} checkout -q -- .'); r = sh(f'git -C {S} apply {V}/seeded/{i}/patch.diff')
    if r.returncode: print(i, 'PATCH FAILS', r.stdout); continue
    for c in [m['property']] + extra:
        r = sh(f'python3-vt vc/run.py {c}', cwd=V, env=dict(os.environ, VC_REPO=S))
        l = [x for x in r.stdout.splitlines() if 'failed obligation' in x or 'ERROR' in x]
        print(f'{i}: {c} exit {r.returncode} {"no-failing-input" if "no-failing-input-found" in r.stdout else ""} | {l[0][:170] if l else r.stdout[-200:]}', flush=True)
    sh(f'git -C {S} checkout -q -- .')
