"""Plants one bug: python3 tools/plant.py ID  (definitions in tools/bugs.py). Confirms build, stable tests, demo clean/patched in a scratch copy."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
S = '/tmp/plant'
DEMO = '''#!/bin/bash
# builds the crate and demo.rs in a scratch directory and runs the demo
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2
trap 'rm -r -- "$T"' EXIT
rustc --edition 2021 -O --cap-lints allow --crate-type rlib --crate-name seuif97 "$R/src/lib.rs" -o "$T/libseuif97.rlib" || exit 2
rustc --edition 2021 -O --cap-lints allow --extern seuif97="$T/libseuif97.rlib" "$D/demo.rs" -o "$T/demo" || exit 2
timeout 60 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    if not os.path.exists(S): sh(f'cp -a /repo {S}')
    sh(f'git -C {S} checkout -q -- . && git -C {S} pull -q /repo HEAD')
def tests():
    t = sh('. /opt/vp/env.sh; cd ' + S + '; export CARGO_TARGET_DIR=' + S + '/target; rm -rf target/debug/.fingerprint/seuif97-*; cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=S, executable='/bin/bash')
    ok = {l.rsplit(' ... ',1)[0] for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')}
    bad = {l.rsplit(' ... ',1)[0] for l in t.stdout.splitlines() if l.startswith('test ') and l.endswith('FAILED')}
    return len(ok), bad, t
def plant(id, b):
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    for f, o, n in b['edits']:
        p = f'{S}/{f}'; t = open(p).read()
        if t.count(o) != 1: return f'{id}: text found {t.count(o)} times in {f}: {o[:50]!r}'
        open(p, 'w').write(t.replace(o, n))
    df = sh('git diff', cwd=S).stdout; open(d + '/patch.diff', 'w').write(df)
    if 'demosh' in b: open(d + '/demo.sh', 'w').write(b['demosh'])
    else:
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.rs', 'w').write('use seuif97::*;\nfn bad(m: &str) { println!("{m}"); std::process::exit(1); }\nfn main() {\n' + b['demo'].strip('\n') + '\n}\n')
    for n, t in b.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    n, badt, t = tests()
    patched = sh(d + '/demo.sh', cwd=S)
    sh('git checkout -q -- .', cwd=S)
    clean = sh(d + '/demo.sh', cwd=S)
    base = json.load(open('/opt/vp/BASELINE.json'))
    ok = not badt and n >= 55 and clean.returncode == 0 and patched.returncode != 0 and patched.returncode != 2
    if not ok: shutil.rmtree(d)
    return f'{id}: {"OK" if ok else "REJECTED"} tests ok={n} bad={sorted(badt)} clean={clean.returncode} {clean.stdout[-200:]!r} patched={patched.returncode} {patched.stdout[-200:]!r}' + (t.stdout[-800:] if n == 0 else '')
import bugs
sync()
for i in sys.argv[1:] or [k for k in bugs.B if not os.path.exists(f'{V}/seeded/{k}/meta.json')]: print(plant(i, bugs.B[i]), flush=True)
