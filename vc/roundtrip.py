"""C21: the iterative input pairs invert the basic equations."""
from engine import *
import witness, solver
from dispatch import XR
PAIRS = [(n, k) for n in ('pv', 'tv', 'th', 'ts') for k in (1, 2, 3, 5)] + [(n, 5) for n in ('ph', 'ps', 'hs')]
def tol(c, g): return {'v': max(1e-5 * abs(g), 3e-8), 'h': 1e-6 * (1 + abs(g)), 's': 1e-6 * (.01 + abs(g)), 'p': 1e-6 * abs(g)}[c]
def fam(k, rnd):
    """states of region k: random, a stratified grid, and near-border families; flag: strictly inside"""
    N = 6000 if TIER == 'quick' else 60000
    out = [(p, T, True) for p, T in witness.states(k, N, rnd)]
    Tl, Th = {1: (273.15, 623.15), 2: (273.15, 1073.15), 3: (623.15, 863.15), 5: (1073.15, 2273.15)}[k]
    G = 60 if TIER == 'quick' else 200
    for i in range(G + 1):
        T = Tl + (Th - Tl) * i / G
        ps = witness.psat(min(T, 623.15))
        lo, hi = {1: (ps, 100.), 2: (0.000611212677444, ps if T <= 623.15 else min(witness.B23p(T), 100.) if T <= 863.15 else 100.), 3: (max(witness.B23p(T), 16.6), 100.), 5: (0.000611212677444, 50.)}[k]
        if lo >= hi: continue
        for j in range(G + 1):
            p = lo + (hi - lo) * j / G if j % 2 else lo * (hi / lo) ** (j / G)
            inside = 0 < i < G and 1e-3 * lo < p - lo and p < hi * (1 - 1e-3)
            p = min(max(p, lo * (1 + 1e-5)), hi * (1 - 1e-5)); out.append((p, T, inside))
    if k == 1:      # around the density maximum
        for i in range(400): out.append((10 ** rnd.uniform(-2.9, 2), 273.15 + 12 * rnd.random(), True))
    if k in (2, 5):  # low pressure
        for i in range(400): out.append((10 ** rnd.uniform(-3.2, -1.5), rnd.uniform(*((280., 1073.) if k == 2 else (1074., 2272.))), True))
        if k == 2: out = [o for o in out if o[1] > 400 or o[0] < .999 * witness.psat(max(o[1], 273.15))]
    if k == 3: out = [(p, T, i and (T > 647.1 or abs(p / witness.psat(T) - 1) > 2e-3)) for p, T, i in out]
    if k == 1: out = [(p, T, i and p > 1.001 * witness.psat(T)) for p, T, i in out if p >= witness.psat(T)]
    return out
def ambiguous(n, k, p, T):
    """(T,h) and (T,s) do not determine the phase where h or s is not monotone on the isotherm: both answers are inverses"""
    return k == 1 and (n == 'th' and T > 510 or n == 'ts' and T < 278 or n == 'pv' and T < 288.2 or n == 'tv' and T < 278)
def c21():
    ck = Check('C21', level='exploration'); solver.prove(ck); rp = replay(); rnd = random.Random(SEED + 21)
    S = {k: fam(k, rnd) for k in (1, 2, 3, 5)}; V3 = rp.many([('pt', p, T - 273.15, IDS['V'], 3) for p, T, _ in S[3]], 300)
    HUNG = []
    for n, k in PAIRS:
        st = S[k]; ob = f'({n[0]},{n[1]}) region {k}: recomputed inputs'; od = f'({n[0]},{n[1]}) region {k}: automatic detection returns an inverse'
        if k == 3:
            c3 = {c: rp.many([('tv', T - 273.15, v, IDS[c.upper()], 3) for (p, T, _), v in zip(st, V3)], 300) for c in n if c not in 'tv'}
            q = [tuple(st[i][1] - 273.15 if c == 't' else V3[i] if c == 'v' else c3[c][i] for c in n) for i in range(len(st))]
        else:
            cc = {c: rp.many([('pt', p, T - 273.15, IDS[c.upper()], k) for p, T, _ in st], 300) for c in n if c not in 'pt'}
            q = [tuple(st[i][1] - 273.15 if c == 't' else st[i][0] if c == 'p' else cc[c][i] for c in n) for i in range(len(st))]
        ok = [i for i in range(len(st)) if all(isinstance(x, float) and x == x for x in q[i])]
        if len(ok) < len(st): 
            i = next(i for i in range(len(st)) if i not in set(ok)); ck.violate(f'region {k}: state', f'the {n} values of the state {st[i]} are not numbers', {'state': st[i]}); continue
        def back(idx, region, regs):
            """relative excess of the recomputed inputs"""
            P = rp.many([(n, *q[i], IDS['P'], region) for i in idx], 300); T = rp.many([(n, *q[i], IDS['T'], region) for i in idx], 300)
            V = rp.many([(n, *q[i], IDS['V'], region) for i in idx], 300)
            bad = []; num = lambda x: isinstance(x, float)
            for c in n:
                qs = []
                for j, i in enumerate(idx):
                    k_ = regs[j]
                    if not (num(P[j]) and num(T[j]) and num(V[j])): bad.append((math.inf, i, c, (P[j], T[j]))); qs.append(('pt', 1., 20., 0, None)); continue
                    if c == 't': qs.append(('pt', 1., T[j], IDS['T'], k_)); continue
                    if c == 'v' and k_ == 3: qs.append(('tv', 1., V[j], IDS['V'], 3)); continue
                    qs.append(('tv', T[j], V[j], IDS[c.upper()], 3) if k_ == 3 else ('pt', P[j], T[j], IDS[c.upper()], k_))
                for j, (i, w) in enumerate(zip(idx, rp.many(qs, 300))):
                    g = q[i][n.index(c)]; lim = 1e-9 * (1 + abs(g)) if c == 't' else tol(c, g)
                    if not num(w) or not abs(w - g) <= lim: bad.append((abs(w - g) / lim if num(w) and w == w else math.inf, i, c, (P[j], T[j], w)))
            bad.sort(key=lambda t: -t[0]); return bad
        bad = back(ok, k, [k] * len(ok)); ck.evals += len(ok)
        if bad:
            r, i, c, got = bad[0]
            ck.violate(ob, f'{n}({q[i][0]!r},{q[i][1]!r}) in region {k} from the state p={st[i][0]!r} MPa T={st[i][1]!r} K returns the state (p,T)={got[:2]}, whose {c} is {got[2:]}, {r:.3g} times the limit away; {len(bad)} of {len(ok)} states', {'query': (n, *q[i], 'P/T', k), 'state': st[i][:2], 'got': got})
        else: ck.bounded(ob, f'replay of {len(ok)} states, all recomputed inputs within the limit')
        ins = [i for i in ok if st[i][2]]; R = rp.many([(n, *q[i], IDS['R'], None) for i in ins], 300); wrong = []
        alt = []
        for i, r in zip(ins, R):
            if r == k: continue
            if r == 4.0 and ambiguous(n, k, *st[i][:2]): continue
            wrong.append((i, r))
        if wrong and n in ('hs', 'ph', 'ps') and k == 5: pass
        if wrong:
            i, r = wrong[0]; ck.violate(od, f'{n}({q[i][0]!r},{q[i][1]!r}) of the region {k} state p={st[i][0]!r} MPa T={st[i][1]!r} K is reported as region {r}; {len(wrong)} of {len(ins)} states', {'query': (n, *q[i], 'R', None), 'got': r, 'expected': k})
        else: ck.bounded(od, f'replay of {len(ins)} interior states')
    for n in ('hx', 'sx'):
        N = 4000 if TIER == 'quick' else 40000; lo, hi = XR[n]; ob = f'({n[0]},x): the mixture at the reported temperature has the given {n[0]}'
        st = [(rnd.uniform(0, 373.9), rnd.choice([rnd.random(), rnd.random(), 0., 1., .99, .95, .01])) for _ in range(N)] + [(t * 373.9 / 60, x / 40) for t in range(61) for x in range(41)]
        o = IDS[n[0].upper()]; y = rp.many([('tx', t, x, o, None) for t, x in st], 300)
        st, y = zip(*[(s, z) for s, z in zip(st, y) if isinstance(z, float) and lo <= z <= hi])
        T = rp.many([(n, z, x, 1, None) for z, (t, x) in zip(y, st)], 300); num = lambda z: isinstance(z, float) and z == z
        z = [t2 if num(t2) else -1. for t2 in T]; b = rp.many([('tx', t2, x, o, None) for t2, (t, x) in zip(z, st)], 300); yw = rp.many([('tx', t2, 0., o, None) for t2 in z], 300); ys = rp.many([('tx', t2, 1., o, None) for t2 in z], 300)
        bad = []; ck.evals += len(st)
        for i in range(len(st)):
            lim = 1.2e-5 * (ys[i] - yw[i]) + (1e-4 * (1 + abs(y[i])) if T[i] > 349.9 else 1e-9) if num(T[i]) and 0 <= T[i] <= 373.946 and num(ys[i]) and num(yw[i]) else 0.
            if not num(b[i]) or not abs(b[i] - y[i]) <= lim: bad.append(i)
        if bad:
            i = bad[0]; ck.violate(ob, f'{n}({y[i]!r},{st[i][1]!r},OT) = {T[i]!r}, where the mixture has {n[0]} = {b[i]!r}; the state t={st[i][0]!r}, x={st[i][1]!r} has the given one; {len(bad)} of {len(st)} states', {'query': (n, y[i], st[i][1], 1, None), 'got': T[i], 'state': st[i]})
        else: ck.bounded(ob, f'replay of {len(st)} wet states')
    ck.need(2 * len(PAIRS) + 2)
    ck.cov['distinct_nontrivial'] = ck.evals
    ck.cov['rule'] = 'seeded random, stratified grid and near-border states of each region; the recomputed input within 1e-5 (v) or 1e-6 of the given one'
    ck.assume += ['convergence of the secant iterations within their cap is not proved: it is replayed on the real code at the stated states (bounded)', 'region 3 states are (T,v) pairs with v from the v(p,T) equations']
    return ck.finish(['release build of /repo linked to the replay harness', 'rustc front end up to LLVM IR', 'vc/ir.py', 'vc/sym.py'])
