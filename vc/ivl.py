"""Vectorised interval arithmetic (outward rounding) on the expression DAG, and branch-and-bound proofs of g > 0 on boxes.
Back end 'interval branch and bound': every box is closed by natural interval extension or by the mean value form with
symbolic derivatives; boxes proved outside the domain are dropped. Rounding: +,-,*,/,sqrt are correctly rounded in IEEE double
and widened by one ulp; exp, log and pow are widened by 8 ulp (numpy / libm error below 4 ulp)."""
import numpy as np, math, time
import sym, core
from core import diff, nodes, Unsupported, N, b2f, cval
np.seterr(all='ignore')
INF = np.inf
def dn(x): return np.nextafter(x, -INF)
def up(x): return np.nextafter(x, INF)
E8 = 8 * 2.0 ** -52
def wide(lo, hi): return lo - np.abs(lo) * E8 - 5e-324, hi + np.abs(hi) * E8 + 5e-324
def fix(lo, hi):
    bad = np.isnan(lo) | np.isnan(hi)
    return np.where(bad, -INF, lo), np.where(bad, INF, hi)
def iadd(a, b): return fix(dn(a[0] + b[0]), up(a[1] + b[1]))
def isub(a, b): return fix(dn(a[0] - b[1]), up(a[1] - b[0]))
def imul(a, b):
    x = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    lo, hi = np.minimum(np.minimum(x[0], x[1]), np.minimum(x[2], x[3])), np.maximum(np.maximum(x[0], x[1]), np.maximum(x[2], x[3]))
    return fix(dn(lo), up(hi))
def idiv(a, b):
    z = (b[0] <= 0) & (b[1] >= 0)
    x = [a[0] / b[0], a[0] / b[1], a[1] / b[0], a[1] / b[1]]
    lo, hi = np.minimum(np.minimum(x[0], x[1]), np.minimum(x[2], x[3])), np.maximum(np.maximum(x[0], x[1]), np.maximum(x[2], x[3]))
    lo, hi = fix(dn(lo), up(hi))
    return np.where(z, -INF, lo), np.where(z, INF, hi)
def ipow(a, k):
    if k == 0: o = np.ones_like(a[0]); return o, o
    if k < 0: o = np.ones_like(a[0]); return idiv((o, o), ipow(a, -k))
    if k == 1: return a
    l, h = a[0] ** k, a[1] ** k
    if k % 2: lo, hi = l, h
    else:
        z = (a[0] <= 0) & (a[1] >= 0)
        lo, hi = np.where(z, 0.0, np.minimum(l, h)), np.maximum(l, h)
        lo, hi = wide(lo, hi); return fix(np.maximum(lo, 0.0), hi)
    return fix(*wide(lo, hi))
def isqrt(a):
    l = np.sqrt(np.maximum(a[0], 0.0)); h = np.sqrt(a[1])
    bad = a[0] < 0
    return fix(np.where(bad, -INF, np.maximum(dn(l), 0.0)), np.where(bad, INF, up(h)))
def iexp(a): l, h = wide(np.exp(a[0]), np.exp(a[1])); return fix(np.maximum(l, 0.0), h)
def ilog(a):
    bad = a[0] <= 0; l, h = wide(np.log(np.where(bad, 1.0, a[0])), np.log(np.where(bad, 1.0, a[1])))
    return np.where(bad, -INF, l), np.where(bad, INF, h)
def ev(ns, env, memo=None):
    """intervals of the nodes; env: variable name -> (lo, hi) arrays"""
    memo = {} if memo is None else memo
    sh = next(iter(env.values()))[0]
    for n in ns:
        st = [n]
        while st:
            k = st[-1]
            if k.id in memo: st.pop(); continue
            w = [x for x in k.a if isinstance(x, N) and x.id not in memo]
            if w: st += w; continue
            st.pop(); op, q = k.op, k.a
            v = [memo[x.id] if isinstance(x, N) else x for x in q]
            if op == 'c':
                c = b2f(q[0]); c = np.full_like(sh, c); e = float(cval(k))
                r = (c, c) if e == int(e) or abs(e) * 2 == int(abs(e) * 2) else (dn(c), up(c))
            elif op == 'v': r = env[q[0]]
            elif op == 'fadd': r = iadd(*v)
            elif op == 'fsub': r = isub(*v)
            elif op == 'fmul': r = imul(*v) if q[0] is not q[1] else ipow(v[0], 2)
            elif op == 'fdiv': r = idiv(*v)
            elif op == 'fneg': r = (-v[0][1], -v[0][0])
            elif op == 'powi': r = ipow(v[0], v[1])
            elif op == 'sqrt': r = isqrt(v[0])
            elif op == 'exp': r = iexp(v[0])
            elif op == 'log': r = ilog(v[0])
            elif op == 'pow': r = isqrt(v[0]) if cval(q[1]) == 0.5 else isqrt(isqrt(v[0])) if cval(q[1]) == 0.25 else iexp(imul(v[1], ilog(v[0])))
            elif op == 'fma': r = iadd(imul(v[0], v[1]), v[2])
            elif op == 'fabs':
                z = (v[0][0] <= 0) & (v[0][1] >= 0); x, y = np.abs(v[0][0]), np.abs(v[0][1])
                r = (np.where(z, 0.0, np.minimum(x, y)), np.maximum(x, y))
            else: raise Unsupported('iv ' + op)
            memo[k.id] = r
    return [memo[n.id] for n in ns]
class Res:
    def __init__(s): s.ok = False; s.boxes = 0; s.left = []; s.t = 0.0
    def __bool__(s): return s.ok
    def __repr__(s): return f'<{s.ok} boxes={s.boxes} left={s.left[:2]} {s.t:.2f}s>'
def prove(gs, box, out=(), cap=2000000, minw=1e-7, mv=True, chunk=20000, tmax=60.0, scale=None, tight=()):
    """every g in gs is > 0 on {x in box : no node of out is < 0}.  box: var name -> (lo, hi). out: nodes; a box on which some
    out-node is certainly negative is outside the domain.  Conjunction over gs, each box must close all of them.
    tight: sub-expressions (callees first) whose enclosure is sharpened by their own mean value form first."""
    R = Res(); t0 = time.process_time(); names = sorted(box)
    lo = np.array([[float(box[n][0])] for n in names]); hi = np.array([[float(box[n][1])] for n in names])
    W0 = (hi - lo)[:, 0]; V = {n: sym.fv(n) for n in names}
    D = {g.id: [diff(g, V[n]) for n in names] for g in gs} if mv else {}
    DT = [(t, [diff(t, V[n]) for n in names]) for t in tight]
    def sharpen(L, H, memo):
        """enclosures of the tight nodes on the boxes, into memo"""
        if not DT: return
        env = {n: (L[i], H[i]) for i, n in enumerate(names)}; M = np.clip(L + (H - L) * 0.5, L, H); envm = {n: (M[i], M[i]) for i, n in enumerate(names)}; mm = {}
        for t, ds in DT:
            nat = ev([t], env, memo)[0]; acc = ev([t], envm, mm)[0]
            for i, d in enumerate(ds): acc = iadd(acc, imul(ev([d], env, memo)[0], (dn(L[i] - M[i]), up(H[i] - M[i]))))
            memo[t.id] = (np.maximum(nat[0], acc[0]), np.minimum(nat[1], acc[1]))
    stack = [(lo, hi)]
    def close(lo, hi):
        env = {n: (lo[i], hi[i]) for i, n in enumerate(names)}; m = lo.shape[1]
        dead = np.zeros(m, bool)
        memo = {}
        for d in out: dead |= ev([d], env, memo)[0][1] < 0
        okb = np.ones(m, bool); score = None
        al = ~dead; idx = np.nonzero(al)[0]
        if len(idx) == 0: return dead, None
        L, H = lo[:, idx], hi[:, idx]; env = {n: (L[i], H[i]) for i, n in enumerate(names)}; memo = {}; sharpen(L, H, memo)
        okb = np.ones(len(idx), bool)
        for g in gs: okb &= ev([g], env, memo)[0][0] > 0
        done = dead.copy(); done[idx[okb]] = True
        if mv:
            r = np.nonzero(~okb)[0]
            if len(r):
                L2, H2 = L[:, r], H[:, r]; M = L2 + (H2 - L2) * 0.5; M = np.clip(M, L2, H2)
                envb = {n: (L2[i], H2[i]) for i, n in enumerate(names)}; envm = {n: (M[i], M[i]) for i, n in enumerate(names)}
                mb, mm = {k: (v[0][r], v[1][r]) for k, v in memo.items()}, {}; ok2 = np.ones(len(r), bool); score = np.zeros((len(names), len(r)))
                for g in gs:
                    nat = ev([g], envb, mb)[0]; cen = ev([g], envm, mm)[0]; acc = cen
                    for i, d in enumerate(D[g.id]):
                        dv = ev([d], envb, mb)[0]; t = imul(dv, (dn(L2[i] - M[i]), up(H2[i] - M[i]))); acc = iadd(acc, t)
                        s_ = np.where(np.isfinite(t[1] - t[0]), t[1] - t[0], 0.0); score[i] += np.where(acc[0] > 0, 0, s_ / (np.abs(cen[0]) + 1e-300))
                    ok2 &= (nat[0] > 0) | (acc[0] > 0)
                    # refuted at the centre?
                done[idx[r[ok2]]] = True
                full = np.zeros((len(names), m)); full[:, idx[r]] = score; score = full
        return done, score
    while stack:
        lo, hi = stack.pop(); R.boxes += lo.shape[1]
        if R.boxes > cap or time.process_time() - t0 > tmax:
            R.left = [[(float(lo[i, 0]), float(hi[i, 0])) for i in range(len(names))]]; R.t = time.process_time() - t0; return R
        done, score = close(lo, hi); r = np.nonzero(~done)[0]
        if not len(r): continue
        lo, hi = lo[:, r], hi[:, r]
        rel = (hi - lo) / W0[:, None]
        if np.any(np.max(rel, axis=0) < minw):
            j = int(np.argmin(np.max(rel, axis=0))); R.left = [[(float(lo[i, j]), float(hi[i, j])) for i in range(len(names))]]; R.t = time.process_time() - t0; return R
        if score is not None and len(names) > 1:
            sc = score[:, r]; ax = np.where(np.max(sc, axis=0) > 0, np.argmax(np.where(rel > 1e-3 * np.max(rel, axis=0), sc, -1), axis=0), np.argmax(rel, axis=0))
        else: ax = np.argmax(rel, axis=0)
        j = np.arange(len(r)); mid = lo[ax, j] + (hi[ax, j] - lo[ax, j]) * 0.5
        h1 = hi.copy(); h1[ax, j] = mid; l2 = lo.copy(); l2[ax, j] = mid
        L, H = np.concatenate([lo, l2], 1), np.concatenate([h1, hi], 1)
        for k in range(0, L.shape[1], chunk): stack.append((L[:, k:k + chunk], H[:, k:k + chunk]))
    R.ok = True; R.t = time.process_time() - t0
    return R
# ---------------------------------------------------------------- second-order bounds, compiled kernels (ivc.py)
def _run(kern, names, lo, hi, cap, minw, chunk, tmax):
    R = Res(); t0 = time.process_time(); W0 = np.maximum((hi - lo)[:, 0], 1e-300); stack = [(lo, hi)]; nv = len(names)
    def stop(L, H, j): R.left = [[(float(L[i, j]), float(H[i, j])) for i in range(nv)]]; R.t = time.process_time() - t0; return R
    while stack:
        L, H = stack.pop(); R.boxes += L.shape[1]
        if R.boxes > cap or time.process_time() - t0 > tmax: return stop(L, H, 0)
        F, S = kern(L, H); r = np.nonzero(F == 0)[0]
        if not len(r): continue
        L, H, S = L[:, r], H[:, r], S[:, r]; rel = (H - L) / W0[:, None]; mr = np.max(rel, axis=0)
        if np.any(mr < minw): return stop(L, H, int(np.argmin(mr)))
        big = np.max(S, axis=0) > 1e290; wide = np.argmax(rel, axis=0)
        ax = np.where(big | (np.max(S, axis=0) <= 0), wide, np.argmax(np.where(rel > 1e-4 * mr, S, -1), axis=0))
        j = np.arange(len(r)); mid = L[ax, j] + (H[ax, j] - L[ax, j]) * 0.5
        h1 = H.copy(); h1[ax, j] = mid; l2 = L.copy(); l2[ax, j] = mid
        LL, HH = np.concatenate([L, l2], 1), np.concatenate([h1, H], 1)
        for k in range(0, LL.shape[1], chunk): stack.append((LL[:, k:k + chunk], HH[:, k:k + chunk]))
    R.ok = True; R.t = time.process_time() - t0
    return R
def _box(box):
    names = sorted(box)
    return names, np.array([[float(box[n][0])] for n in names]), np.array([[float(box[n][1])] for n in names]), [sym.fv(n) for n in names]
def bound(e, lim, box, out=(), tight=(), cap=10 ** 9, minw=1e-9, chunk=20000, tmax=300.0):
    """|e| < lim on the part of the box where no out-node is negative; second-order Taylor form with interval Hessian.
    tight: inner nodes sharpened by their mean value form before the Hessian is enclosed."""
    import ivc
    names, lo, hi, V = _box(box); G = [diff(e, v) for v in V]
    Hs = {(i, j): diff(G[i], V[j]) for i in range(len(V)) for j in range(i, len(V))}
    k = ivc.kernel(names, list(out), [(t, [diff(t, v) for v in V]) for t in tight], None, None, e, G, Hs, lim)
    return _run(k, names, lo, hi, cap, minw, chunk, tmax)
