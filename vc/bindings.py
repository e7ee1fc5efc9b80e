"""C02: the C (cdecl / stdcall) exports and the Python functions against the Rust API of the same build.

Deductive part: for each feature the crate is compiled with that feature (stdcall and cdecl also for i686, where the
stdcall convention exists); the body of each export is executed symbolically on the compiler's IR of that build, and under
every path condition the Rust function of the same name is executed for the same arguments: both return the same node.
The Python package's helper functions (python/seuif97/__init__.py) are evaluated symbolically from their AST.
Bounded part: the Python glue generated by pyo3 (argument extraction, registration) is exercised by importing the module."""
import ast, ctypes, glob, shutil, subprocess, sys, os, re, json, random
import engine
from engine import *
import witness
from dispatch import a, b, grid, special, XR, TB, same_bits
ALL = API2 + API1
T32 = 'i686-unknown-linux-gnu'
def has_i686():
    r = subprocess.run(['rustup', 'toolchain', 'list'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    for l in r.split('\n'):
        t = l.split(' ')[0]
        if t and os.path.isdir(os.path.expanduser(f'~/.rustup/toolchains/{t}/lib/rustlib/{T32}')): return t
    return None
def build_ir(feature, target=None, toolchain=None, dirs=None):
    h = dirs or build.harness_dir(); t = os.path.join(build.B, 'ir_' + '_'.join([feature, target or 'host', hashlib.sha1((build.REPO + str(dirs)).encode()).hexdigest()[:8]]))
    d = t + (f'/{target}' if target else '') + '/debug'
    with build.lock('ir_' + feature):
        for f in glob.glob(d + '/deps/*.ll'): os.unlink(f)
        for f in glob.glob(d + '/.fingerprint/seuif97-*') + glob.glob(d + '/.fingerprint/vharness-*'): shutil.rmtree(f, ignore_errors=True)
        env = dict(build.IRENV, CARGO_TARGET_DIR=t, PYO3_PYTHON='/usr/bin/python3')
        if target: env['CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER'] = '/bin/true'   # the cdylib of the dependency is not needed
        if toolchain: env['RUSTUP_TOOLCHAIN'] = toolchain
        build.sh(['cargo', 'build', '--offline', '--lib', '--features', feature] + (['--target', target] if target else []), env, h)
        return sorted(glob.glob(d + '/deps/seuif97*.ll')) + sorted(glob.glob(d + '/deps/vharness*.ll'))
def so(feature):
    """the real shared library with that feature; for stdcall (x86-32 only) the convention is replaced by C in a copy of the tree"""
    h = build.harness_dir(); t = os.path.join(build.B, 'so_' + feature + '_' + hashlib.sha1(build.REPO.encode()).hexdigest()[:8])
    if feature == 'stdcall':
        cp = os.path.join(t, 'copy'); shutil.rmtree(cp, ignore_errors=True)
        shutil.copytree(os.path.join(build.REPO, 'src'), cp + '/repo/src'); shutil.copy(build.REPO + '/Cargo.toml', cp + '/repo/Cargo.toml'); shutil.copy(build.REPO + '/README.md', cp + '/repo/README.md')
        p = cp + '/repo/Cargo.toml'; x = open(p).read(); open(p, 'w').write(re.sub(r'\[\[bench\]\]\n(?:[^\[\n].*\n)*', '', x))
        for f in glob.glob(cp + '/repo/src/**/*.rs', recursive=True):
            x = open(f).read()
            if 'stdcall"' in x: open(f, 'w').write(x.replace('extern "stdcall"', 'extern "C"'))
        shutil.copytree(V + '/harness', cp + '/h', dirs_exist_ok=True)
        p = cp + '/h/Cargo.toml'; x = open(p).read(); open(p, 'w').write(x.replace('"/repo"', f'"{cp}/repo"')); h = cp + '/h'
    with build.lock('so_' + feature):
        for f in glob.glob(t + '/release/.fingerprint/seuif97-*') + glob.glob(t + '/release/.fingerprint/vharness-*'): shutil.rmtree(f, ignore_errors=True)
        build.sh(['cargo', 'build', '--offline', '--release', '--lib', '--features', feature], {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': '', 'PYO3_PYTHON': '/usr/bin/python3'}, h)
    return t + '/release/deps/libseuif97.so'

CALLER = r'''
import sys, struct, ctypes
mode, path = sys.argv[1:3]
u = lambda s: struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]
B = lambda x: '%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]
if mode == 'c':
    L = ctypes.CDLL(path); F = {}
    for n in 'pt ph ps hs pv tv th ts px tx hx sx'.split():
        try: f = getattr(L, n)
        except AttributeError: continue
        f.argtypes = [ctypes.c_double, ctypes.c_double, ctypes.c_int32]; f.restype = ctypes.c_double; F[n] = f
else:
    import importlib.machinery, importlib.util
    ld = importlib.machinery.ExtensionFileLoader('seuif97', path)
    M = importlib.util.module_from_spec(importlib.util.spec_from_loader('seuif97', ld)); ld.exec_module(M)
    F = {n: getattr(M, n) for n in dir(M) if callable(getattr(M, n)) and not n.startswith('_')}
    print('names', ' '.join(sorted(F)), flush=True)
for l in sys.stdin:
    n, x, y, o, kw = l.split()
    if n not in F: print('missing', flush=True); continue
    try:
        if kw == '-': r = F[n](u(x), u(y), int(o))
        else:
            k1, k2 = kw.split(','); r = F[n](**{'o_id': int(o), k2: u(y), k1: u(x)})
        print(B(r), flush=True)
    except BaseException as e: print('exc:' + type(e).__name__, flush=True)
'''
def callso(mode, path, qs, timeout=200):
    inp = ''.join(f'{n} {build.bits(x)} {build.bits(y)} {o} {kw or "-"}\n' for n, x, y, o, kw in qs)
    p = subprocess.run(['/usr/bin/python3', '-c', CALLER, mode, path], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    l = p.stdout.split('\n'); names = None
    if mode == 'py':
        if not l or not l[0].startswith('names'): return None, [], p.stderr[-1500:]
        names = l.pop(0).split()[1:]
    r = [build.unbits(x) if re.fullmatch('[0-9a-f]{16}', x) else x for x in l if x]
    return names, r, p.stderr[-1500:] if len(r) < len(qs) else ''
def queries(n, cnt=60):
    rnd = random.Random(SEED + len(n)); q = []
    if n in API2: pts = grid(n, rnd, 80); rnd.shuffle(pts); pts = pts[:cnt]
    else:
        lo, hi = XR[n]; pts = [(lo + (hi - lo) * i / 9, x) for i in range(10) for x in (0., .3, 1.)] + [(lo, 0.), (hi, 1.), (lo - 1e-6, .5), (hi + 1e-6, .5), ((lo + hi) / 2, -1e-9), ((lo + hi) / 2, 1.0000001)]
    sp = special(); pts = pts + [(rnd.choice(sp), rnd.choice(sp)) for _ in range(12)]
    for i, (x, y) in enumerate(pts):
        for o in [i % 36, (i * 7 + 5) % 36, rnd.randrange(36), -3, 36, 99]: q.append((n, x, y, o))
    if n in API2:
        for k in (1, 2, 3, 4, 5):       # states of every region, every documented id
            for i, (x, y) in enumerate(region_inputs(n, k)[:24]):
                for o in range(i % 3, 36, 3): q.append((n, x, y, o))
        rnd.shuffle(q)
    return q
_ri = {}
def region_inputs(n, k):
    if (n, k) not in _ri:
        rnd = random.Random(SEED + 31 * k)
        if k == 4:
            tx = [(rnd.uniform(0.5, 373.), rnd.random()) for _ in range(24)]; c = [replay().many([('tx', t, x, IDS[d.upper()], None) for t, x in tx], 60) if d != 't' else [t for t, _ in tx] for d in n]
            _ri[n, k] = [z for z in zip(*c) if all(isinstance(w, float) for w in z)]
        else: _ri[n, k] = witness.inputs(n, k, witness.states(k, 24, rnd))
    return _ri[n, k]
def eqb(x, y): return x == y if not (isinstance(x, float) and isinstance(y, float)) else (build.bits(x) == build.bits(y) or (x != x and y != y))
def compare_real(feature, path, names=ALL, extra=()):
    """real library against the real Rust API (release build); -> (query, got, want) or None"""
    qs = list(extra) + [q for n in names for q in queries(n)]
    want = replay().many([(n, x, y, o, None) for n, x, y, o in qs], 120)
    ok = [i for i, w in enumerate(want) if isinstance(w, float)]
    _, got, err = callso('c' if feature != 'python' else 'py', path, [(*qs[i], None) for i in ok])
    for i, g in zip(ok, got):
        if not eqb(g, want[i]): return qs[i], g, want[i]
    if len(got) < len(ok): return qs[ok[len(got)]], 'process died: ' + err[-200:], want[ok[len(got)]]
    return None

def load(fs):
    m = ir.Module()
    for f in fs: m.load(f)
    return m
def defline(fs, sym):
    for f in fs:
        for l in open(f):
            if l.startswith('define') and re.search(r'@"?' + re.escape(sym) + r'"?\(', l): return l.strip()
    return None
def value_of(p):
    """what the path returns, reading an integer-to-float conversion of a constrained integer as the constant"""
    return p.ret
class Diff(str): pass
def diff(p, q, txt):
    d = Diff(txt); d.atoms = (list(p.cons.atoms), list(q.cons.atoms) if q is not None else []); return d
def same_under(X, f, g, args):
    """every path of f: g under that path's condition returns the same node. -> None or a description of the first difference"""
    ps = X.run(f, args)
    if not ps: return 'no path'
    for p in ps:
        qs = X.run(g, args, p.cons.atoms)
        if not qs: return diff(p, None, f'no path of the Rust function under {p}')
        for q in qs:
            if p.status != q.status: return diff(p, q, f'{p} / {q}')
            if p.status != 'ret': continue
            if isinstance(p.ret, N) and isinstance(q.ret, N) and p.ret is not q.ret:
                x, y = cval(p.ret), cval(q.ret)
                if x is not None and y is not None and build.bits(x) == build.bits(y): continue
                return diff(p, q, f'{p} / {q}')
            if not isinstance(p.ret, N) and p.ret != q.ret: return diff(p, q, f'{p} / {q}')
    return None
def directed_queries(n, e, cnt=4000):
    """calls on both sides of and between the constants the differing paths compare their arguments with"""
    if not isinstance(e, Diff): return []
    S = {'a': set(), 'b': set(), 'o': set()}
    for c, v in e.atoms[0] + e.atoms[1]:
        st = [c]; cs = set(); vs = set(); seen = set()
        while st:
            k = st.pop()
            if not isinstance(k, N) or k.id in seen: continue
            seen.add(k.id)
            if k.op == 'v' : vs.add(k.a[0])
            x = cval(k)
            if isinstance(x, (int, float)) and x == x and abs(x) < 1e300: cs.add(x)
            st += [x for x in k.a if isinstance(x, N)]
        for w in vs & set(S): S[w] |= cs | {-x for x in cs} | {x - 273.15 for x in cs}
    def near(xs):
        r = set()
        for x in xs:
            x = float(x)
            for d in (0.0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3): r |= {x - d * max(1.0, abs(x)), x + d * max(1.0, abs(x))}
            r |= {math.nextafter(x, math.inf), math.nextafter(x, -math.inf)}
        y = sorted(r); return y + [(u + w) / 2 for u, w in zip(y, y[1:])]
    rnd = random.Random(SEED); base = queries(n)
    A, Bv = near(S['a']), near(S['b']); O = sorted({int(x) + d for x in S['o'] if float(x) == int(x) and abs(x) < 2 ** 31 - 2 for d in (-1, 0, 1)}) + list(range(36))
    out = []
    for i in range(cnt):
        _, x, y, o = rnd.choice(base)
        if A and rnd.random() < (.7 if Bv else .9): x = rnd.choice(A)
        if Bv and rnd.random() < (.7 if A else .9): y = rnd.choice(Bv)
        out.append((n, x, y, rnd.choice(O) if rnd.random() < .8 else o))
    return out
CONV = {'cdecl': '', 'stdcall': 'x86_stdcallcc'}
def c02():
    ck = Check('C02'); tc = has_i686(); o = iv('o')
    saved = engine._mod
    tb = list(TB) + ['the region functions and the region detection are uninterpreted (the same symbols in the binding and in the Rust function of the same build)']
    confs = [('cdecl', None), ('python', None)] + ([('cdecl', T32), ('stdcall', T32)] if tc else [])
    if not tc: ck.bounded('stdcall: calling convention', 'no toolchain here has the i686 target; the bodies are compared in a copy where extern "stdcall" reads extern "C"')
    try:
        for feat, tgt in confs:
            tag = feat + (' (i686)' if tgt else ' (x86_64)')
            fs = build_ir(feat, tgt, tc if tgt else None)
            m = load(fs); engine._mod = m; engine._sigmemo.clear()
            X = Exec(m, pol_dispatch); badn = []
            for n in ALL:
                cands = [f for f in m.fns.values() if (f.name == n if feat != 'python' else f.name == f'seuif97::python_if97::{n}')]
                nm = f'{tag}: {n} exists with (f64, f64, i32) -> f64' + ('' if feat == 'python' else f' and the {feat} convention')
                if feat == 'python' and len(cands) != 1: badn.append((n, None)); continue
                if len(cands) != 1: ck.violate(nm, f'no symbol {n} is exported with feature {feat}', {'feature': feat, 'symbol': n}); continue
                f = cands[0]; sig = [t.k for t, *_ in f.params]
                d = defline(fs, n) if feat != 'python' else 'define internal '
                cc = re.findall(r'\b(\w*cc)\b', d.split('@')[0]) if d else ['?']
                vis = re.findall(r'\b(internal|private|hidden|protected)\b', d.split('@')[0]) if d else []
                okc = feat == 'python' or ((not cc or cc == ['ccc']) and not vis if CONV[feat] == '' else cc == [CONV[feat]] and not vis)
                if tgt is None and feat == 'cdecl': okc = (not cc) and not vis
                if sig == ['double', 'double', 'i'] and f.params[2][0].n == 32 and f.ret.k == 'double' and okc: ck.ok(nm, 'compiler IR declaration')
                else: ck.violate(nm, f'declared as: {d[:160]}', {'feature': feat, 'target': tgt, 'declaration': d})
                ck.fns.add(f'{feat}::{n}')
                nm = f'{tag}: {n}(a, b, o) is the Rust {n}(a, b, o) for every a, b, o'
                try: e = same_under(X, f, X.find('v_' + n), [a, b, o])
                except (Unsupported, KeyError, RecursionError) as ex: e = 'unsupported: ' + str(ex)
                if e is None: ck.ok(nm, 'symbolic execution (node identity under every path condition)')
                else: badn.append((n, (nm, e)))
            if badn:
                if feat == 'python': lib = so('python')
                else: lib = so(feat)
                engine._mod = saved
                for n, e in badn:
                    if e is None:
                        if feat == 'python': ck.bounded(f'{tag}: {n} body', 'no Rust function of that name in the module; decided by the import below'); continue
                    h = compare_real(feat, lib, [n], directed_queries(n, e[1]))
                    if h: ck.violate(e[0], f'{feat} {h[0]} = {h[1]}, the Rust function gives {h[2]}', {'feature': feat, 'query': h[0], 'got': h[1], 'expected': h[2]}, e[1][:800])
                    else: ck.bounded(e[0], 'structural identity lost; replayed queries agree: ' + e[1][:200])
    finally: engine._mod = saved; engine._sigmemo.clear()
    # the Python glue (pyo3) on the real module
    lib = so('python')
    names, got, err = callso('py', lib, [])
    nm = 'python: the module imports and offers exactly the twelve functions'
    if names is None: ck.violate(nm, 'the extension module cannot be imported: ' + err[-300:], {'module': lib})
    else:
        miss = [n for n in ALL if n not in names]
        if miss: ck.violate(nm, f'missing from the module: {miss}', {'missing': miss})
        else: ck.bounded(nm, 'import of the built module')
        qs = []
        for n in ALL:
            for i, q in enumerate(queries(n)[:200]): qs.append((*q, None)); qs.append((*q, f'{n[0]},{n[1]}'))
        want = replay().many([(n, x, y, o, None) for n, x, y, o, _ in qs], 120)
        _, got, err = callso('py', lib, qs)
        bad = {}
        for q, g, w in zip(qs, got, want):
            if isinstance(w, float) and not eqb(g, w) and g != 'missing': bad.setdefault((q[0], q[4] is not None), (q, g, w))
        for n in ALL:
            for kw in (False, True):
                nm = f'python: {n} called {"by keyword" if kw else "positionally"} returns the Rust value'
                if (n, kw) in bad:
                    q, g, w = bad[(n, kw)]; ck.violate(nm, f'{q[:4]} = {g}, the Rust function gives {w}', {'query': q, 'got': g, 'expected': w})
                elif n not in miss: ck.bounded(nm, f'{len([q for q in qs if q[0] == n])} calls through the built module')
    helpers(ck)
    need = 12 * 2 * (4 if tc else 2)
    ck.need(need + 48); ck.assume += ['pyo3 0.19.2 argument extraction and CPython are trusted beyond the replayed calls', 'the platform linker exports the symbols the IR defines externally']
    return ck.finish(tb)

# ------------------------------------------------------------------ python/seuif97/__init__.py
def helpers(ck):
    """each helper a2b of the Python package is `return <ab>(x, y, id)` after inlining constants and helpers"""
    p = os.path.join(build.REPO, 'python/seuif97/__init__.py')
    if not os.path.exists(p): return
    t = ast.parse(open(p).read()); consts = {}; funcs = {}; star = set()
    for st in t.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            try: consts[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError: consts[st.targets[0].id] = None
        elif isinstance(st, ast.FunctionDef): funcs[st.name] = st
    class No(Exception): pass
    def ev(e, env, depth=0):
        if depth > 20: raise No('depth')
        if isinstance(e, ast.Name):
            if e.id in env: return env[e.id]
            if e.id in consts: return ('k', consts[e.id])
            raise No('name ' + e.id)
        if isinstance(e, ast.Constant): return ('k', e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            args = [ev(x, env, depth + 1) for x in e.args]; kw = {k.arg: ev(k.value, env, depth + 1) for k in e.keywords}
            if e.func.id in funcs: return fn(funcs[e.func.id], args, kw, depth + 1)
            if e.func.id in ALL:
                names = [e.func.id[0], e.func.id[1], 'o_id']; full = dict(zip(names, args)); full.update(kw)
                return ('call', e.func.id) + tuple(full.get(k) for k in names)
        raise No(ast.dump(e)[:80])
    def fn(f, args, kw, depth=0):
        ps = [x.arg for x in f.args.args]; env = dict(zip(ps, args)); env.update(kw)
        for st in f.body:
            if isinstance(st, ast.Expr): continue
            if isinstance(st, ast.Pass): continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name): env[st.targets[0].id] = ev(st.value, env, depth); continue
            if isinstance(st, ast.Return): return ev(st.value, env, depth)
            raise No(type(st).__name__)
        raise No('no return')
    suspect = []
    for name, f in sorted(funcs.items()):
        mm = re.fullmatch(r'([pthsvx]{2})2([pthsvx])', name)
        if not mm or mm.group(1) not in ALL: continue
        base = mm.group(1); oid = IDS[mm.group(2).upper()]; nm = f'python package: {name}(x, y) is {base}(x, y, O{mm.group(2).upper()})'
        try: r = fn(f, [('v', 0), ('v', 1)], {})
        except No as e: suspect.append((nm, name, base, oid, str(e))); continue
        if len(f.args.args) == 2 and r == ('call', base, ('v', 0), ('v', 1), ('k', oid)): ck.ok(nm, 'symbolic evaluation of the Python AST')
        else: suspect.append((nm, name, base, oid, repr(r)))
    for nm, name, base, oid, why in suspect:
        h = helper_replay(p, name, base, oid)
        if h: ck.violate(nm, h[0], h[1], why[:600])
        else: ck.bounded(nm, 'AST outside the evaluated subset; recorded calls agree: ' + why[:160])
    for k in ('OP', 'OT', 'OV', 'OH', 'OS', 'OX'):
        nm = f'python package: {k} == {IDS[k[1:]]}'
        if k in consts:
            if consts[k] == IDS[k[1:]]: ck.ok(nm, 'Python AST')
            else: ck.violate(nm, f'{k} = {consts[k]}', {'constant': k, 'value': consts[k]})
def helper_replay(p, name, base, oid):
    """run the package source with a recording stand-in for the extension module"""
    src = r'''
import sys, types, json
rec = types.ModuleType('seuif97.seuif97'); rec.__all__ = []
def mkf(n):
    def f(x, y, o_id=None, **k): return ('call', n, x, y, o_id)
    return f
for n in 'pt ph ps hs pv tv th ts px tx hx sx'.split(): setattr(rec, n, mkf(n)); rec.__all__.append(n)
pk = types.ModuleType('seuif97'); pk.__path__ = []; pk.__package__ = 'seuif97'
sys.modules['seuif97'] = pk; sys.modules['seuif97.seuif97'] = rec
for n in rec.__all__: setattr(pk, n, getattr(rec, n))
exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), pk.__dict__)
out = []
for x, y in [(3.0, 300.0), (0.01, 20.5), (0.5, 0.5), (100.0, 7.25), (-1.0, 2.0), (700.0, 0.001)]:
    try: r = pk.__dict__[sys.argv[2]](x, y)
    except BaseException as e: r = 'exc ' + type(e).__name__
    out.append([x, y, list(r) if isinstance(r, tuple) else r])
print(json.dumps(out))
'''
    q = subprocess.run(['/usr/bin/python3', '-c', src, p, name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    if q.returncode: return f'{name} cannot be called: {q.stderr[-200:]}', {'helper': name}
    for x, y, r in json.loads(q.stdout):
        if r != ['call', base, x, y, oid]: return f'{name}({x}, {y}) evaluates {r} instead of {base}({x}, {y}, {oid})', {'helper': name, 'args': [x, y], 'got': r}
    return None
