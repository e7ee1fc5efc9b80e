"""Builds /repo's current working tree into IR / replay binaries under /verif/.build."""
import os, subprocess, glob, hashlib, time, fcntl, struct, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
B = os.path.join(V, '.build')
class BuildError(Exception): pass

def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ); e.update(env or {}); e['CARGO_NET_OFFLINE'] = 'true'
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode: raise BuildError(' '.join(cmd) + '\n' + p.stdout[-3000:])
    return p.stdout
def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'Cargo.toml'), 'rb').read())
    return h.hexdigest()
class lock:
    def __init__(s, n): s.n = n
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(os.path.join(B, s.n + '.lock'), 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

IRENV = {'RUSTC_BOOTSTRAP': '1', 'RUSTFLAGS': '--emit=llvm-ir -Zunstable-options -Csymbol-mangling-version=legacy -Cdebuginfo=0'}
def harness_dir():
    """the harness crate; if VC_REPO points elsewhere use a rewritten copy"""
    if REPO == '/repo': return os.path.join(V, 'harness')
    d = os.path.join(B, 'h_' + hashlib.sha1(REPO.encode()).hexdigest()[:8])
    import shutil
    shutil.copytree(os.path.join(V, 'harness'), d, dirs_exist_ok=True)
    p = os.path.join(d, 'Cargo.toml'); t = open(os.path.join(V, 'harness/Cargo.toml')).read().replace('/repo', REPO); open(p, 'w').write(t)
    return d
def ir(kind='main'):
    """fresh LLVM IR of /repo; returns list of .ll files"""
    h = harness_dir(); t = os.path.join(B, 'ir_' + hashlib.sha1((REPO + kind).encode()).hexdigest()[:8])
    with lock('ir'):
        if kind == 'main':
            for f in glob.glob(t + '/debug/deps/*.ll'): os.unlink(f)
            for f in glob.glob(t + '/debug/.fingerprint/seuif97-*') + glob.glob(t + '/debug/.fingerprint/vharness-*'):
                subprocess.run(['rm', '-rf', f])
            sh(['cargo', 'build', '--offline', '--lib'], dict(IRENV, CARGO_TARGET_DIR=t), h)
            return sorted(glob.glob(t + '/debug/deps/seuif97*.ll')) + sorted(glob.glob(t + '/debug/deps/vharness*.ll'))
    raise BuildError(kind)
def replay_bin():
    h = harness_dir(); t = os.path.join(B, 'rp_' + hashlib.sha1(REPO.encode()).hexdigest()[:8])
    with lock('rp'):
        for f in glob.glob(t + '/release/.fingerprint/seuif97-*') + glob.glob(t + '/release/.fingerprint/vharness-*'):
            subprocess.run(['rm', '-rf', f])
        sh(['cargo', 'build', '--release', '--offline', '--bin', 'replay'], {'CARGO_TARGET_DIR': t, 'RUSTFLAGS': ''}, h)
    return os.path.join(t, 'release/replay')

def bits(x): return '%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]
def unbits(s): return struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]
class Replay:
    """the real crate, executed"""
    def __init__(s): s.bin = replay_bin(); s.n = 0; s.hung = []
    def many(s, qs, timeout=60, stop=False):
        """qs: list of (fn,a,b,o,region|None) -> list of float | 'panic' | 'hang'"""
        if not qs: return []
        inp = ''.join(f'{f} {bits(a)} {bits(b)} {o} {"-" if r is None else r}\n' for f, a, b, o, r in qs)
        s.n += len(qs)
        p = subprocess.Popen([s.bin, '--flush'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        try: out, _ = p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); out = out or ''
            l = out.split()
            if len(l) >= len(qs): return [unbits(x) if x != 'panic' else x for x in l[:len(qs)]]
            s.hung.append(qs[len(l)])
            if stop: return [unbits(x) if x != 'panic' else x for x in l] + ['hang']
            return [unbits(x) if x != 'panic' else x for x in l] + ['hang'] + s.many(qs[len(l) + 1:], timeout)
        l = out.split()
        r = [unbits(x) if x != 'panic' else x for x in l]
        if len(r) < len(qs): r += ['abort'] + s.many(qs[len(r) + 1:], timeout)
        return r
    def one(s, *q): return s.many([q])[0]
