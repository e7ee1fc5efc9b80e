"""Freezes the published IAPWS coefficient tables (as transcribed at the pinned upstream commit) into
spec/tables.json.  Run once by hand; the checks only read the frozen file, never the tree under test."""
import re, subprocess, json, ast
C = 'de2cf50'
def show(p): return subprocess.run(['git', '-C', '/repo', 'show', f'{C}:{p}'], stdout=subprocess.PIPE, text=True, check=True).stdout
out = {}
for f in subprocess.run(['git', '-C', '/repo', 'ls-tree', '-r', '--name-only', C, 'src'], stdout=subprocess.PIPE, text=True).stdout.split():
    t = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', show(f), flags=re.S))
    fn = ''; base = f.split('/')[-1][:-3]
    for m in re.finditer(r'\bfn\s+(\w+)|\b(?:const|static)\s+(\w+)\s*:\s*\[[^=]*?\]\s*=\s*(\[.*?\])\s*;|\blet (no)\s*:\s*\[f64; 4\]\s*=\s*(\[.*?\])\s*;|para\s*\{(\s*PS:.*?)\}|let pstar', t, flags=re.S):
        if m.group(1): fn = m.group(1); continue
        if m.group(2) or m.group(4):
            key = (f'{base}.{fn}.' if f.endswith('.rs') and t[:m.start()].rstrip() and not re.search(r'^(pub )?(const|static)', t[t.rfind('\n', 0, m.start()) + 1:m.start() + 12]) else f'{base}.') + (m.group(2) or m.group(4))
            v = re.sub(r'\s+', ' ', m.group(3) or m.group(5))
            try: v = ast.literal_eval(v)
            except Exception as e: print('skip', key, e); continue
            out[key] = v
        elif m.group(6):
            out[f'{base}.{fn}.para'] = {k: float(v) for k, v in re.findall(r'(\w+)\s*:\s*([-+0-9.eE]+)', m.group(6))}
json.dump(out, open('/verif/spec/tables.json', 'w'), indent=0)
for k, v in out.items(): print(k, len(v))
