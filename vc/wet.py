"""C13, C14: the saturation line and wet steam. API queries are executed symbolically under callee contracts; the published
(or, for phase properties, the library's own single-phase) values are the specification."""
from api import *
from contracts import _p, _T, _d
import if97, witness, backward, relations
from if97 import *
from backward import ivev, hunt, MI
a, b, o_ = fv('a'), fv('b'), iv('o')
witness.DFL['x'] = (0.0, 1.0)
GE, LE = GT | EQ, LT | EQ
def ge(x, y): return (mkrel(GE, L(x), L(y)), True)
def le(x, y): return (mkrel(LE, L(x), L(y)), True)
XR = {'px': (0.000611212677444, 22.064), 'tx': (0.0, 373.946), 'hx': (0.38039218566765925, 2803.2738880203456), 'sx': (0.33567511183921145, 9.153081306725117)}
T_OF = a + C27
class WApi(Api):
    """region 3 saturated volumes are executed (26-way selection), the state functions stay under contract"""
    def pol(s, name, args, X):
        if not name.startswith('seuif97::'): return None
        if re.search(r'::pT2v_sat_reg3$|::pT2v_3subreg$|2x_reg4$', name): return None
        return Api.pol(s, name, args, X)
def libfn(A, nm, *args):
    """the library's function of this name under the policy (contract symbol if verified, opaque otherwise), or its specification"""
    l = A.C.bynm.get(nm)
    if l and len(l) == 1 and not A.C.holds(nm): return mk('call', l[0].name, *args)
    if nm in SIMPLE: return subst(SIMPLE[nm][1], {f.id: x for f, x in zip(SIMPLE[nm][0], args)})
    return mk('call', nm, *args)
def fabs_ax(atoms):
    r = []; seen = set()
    for c, v in atoms:
        for k in nodes(c).values():
            if k.op == 'fabs' and k.id not in seen:
                seen.add(k.id); f = zlin(lin(k)); x = zlin(lin(k.a[0]))
                r += [f >= 0, z3.Or(f == x, f == -x)]
    return r
def wcases(paths, cases, pre=(), opaque_ok=True):
    if not paths or not cases: return ('no path', None, None)
    met = set()
    for pth in paths:
        for i, (conds, e) in enumerate(cases):
            at = list(pth.cons.atoms) + list(conds) + list(pre)
            if not Cons().assume_all(at): continue
            if pth.status == 'ret' and isinstance(pth.ret, N) and agree(pth.ret, e): met.add(i); continue
            r = sat(zatoms(at) + fabs_ax(at))
            if r is False: continue
            return ('path and case disagree' + ('' if r else ' (feasibility unknown)'), pth, (conds, e))
    if len(met) < len(cases): return ('a case is met by no path', None, None)
    return None

# ---------------------------------------------------------------- 1-D positivity by interval bisection
def positive(e, var, lo, hi, cap=20000, minw=1e-9):
    work = [(lo, hi)]; n = 0; de = diff(e, var); nm = var.a[0]
    while work:
        l, h = work.pop(); n += 1
        if n > cap: return False
        I = MI.mpf([l, h])
        try:
            c = ivev(e, {nm: I})
            if c.a > 0: continue
            m = (l + h) / 2
            c = ivev(e, {nm: MI.mpf(m)}) + ivev(de, {nm: I}) * (I - m)
            if c.a > 0: continue
        except Exception: pass
        if h - l < minw: return False
        m = (l + h) / 2; work += [(l, m), (m, h)]
    return True
def quad(x):
    return (x * x + n4[0] * x + n4[1], n4[2] * x * x + n4[3] * x + n4[4], n4[5] * x * x + n4[6] * x + n4[7])
def quadb(x):
    return (x * x + n4[2] * x + n4[5], n4[0] * x * x + n4[3] * x + n4[6], n4[1] * x * x + n4[4] * x + n4[7])
def with_pos(pos, f):
    core.POS[:] = pos
    try: return f()
    except Unsupported: return False
    finally: core.POS[:] = []
def c13():
    ck = Check('C13'); A = WApi('A'); C = A.C; X = A.X; rnd = random.Random(SEED)
    # 1. function contracts: the closed-form roots with the published coefficients
    for nm, sp in (('p_saturation', PSAT), ('T_saturation', TSAT)):
        name = f'contract {nm}: closed-form root of the published quadratic'
        if C.holds(nm): ck.ok(name, 'PIT + z3 case analysis'); ck.fns.add(nm)
    # 2. lemmas about the two roots
    th = _T + n4[8] / (_T - n4[9]); Aq, Bq, Cq = quad(th); disc = Bq * Bq - 4.0 * Aq * Cq; beta = 2.0 * Cq / (sqrt(disc) - Bq)
    lem = []
    def LM(name, ok, be):
        lem.append(ok)
        if ok: ck.ok(name, be)
        else: ck.bounded(name, 'lemma not discharged')
    LM('lemma: p_sat^(1/4) and theta(T) satisfy the implicit equation (every T)', identical(implicit4(beta, th), fc(0.0)), 'PIT')
    E_, F_, G_ = quadb(beta)
    y1, y2 = 2.0 * E_ * th + F_, n4[9] + th - 2.0 * _T
    TT = subst(TSAT, {_p.id: PSAT})
    for nm, e in (('discriminant of p_sat', disc), ('p_sat^(1/4)', beta), ('2 E theta + F', y1), ('n10 + theta - 2T', y2)):
        LM(f'lemma: {nm} > 0 on [273.15, 647.096]', positive(e, _T, 273.15, 647.096), 'interval arithmetic')
    LM('T_sat(p_sat(T)) == T for every T in [273.15, 647.096] (roots with these signs)', with_pos([beta, y1, y2], lambda: identical(TT, _T)), 'PIT on the sign-restricted points')
    bp = mk('pow', _p, fc(0.25)); E2, F2, G2 = quadb(bp); d2 = F2 * F2 - 4.0 * E2 * G2; D = 2.0 * G2 / (-F2 - sqrt(d2))
    t2 = n4[9] + D; d3 = t2 * t2 - 4.0 * (n4[8] + n4[9] * D)
    LM('lemma: p^(1/4) and theta(T_sat(p)) satisfy the implicit equation (every p)', identical(implicit4(bp, TSAT + n4[8] / (TSAT - n4[9])), fc(0.0)), 'PIT')
    # positivity in beta (p = beta^4)
    be = fv('beta'); Eb, Fb, Gb = quadb(be); db = Fb * Fb - 4.0 * Eb * Gb; Db = 2.0 * Gb / (-Fb - sqrt(db)); db3 = (n4[9] + Db) * (n4[9] + Db) - 4.0 * (n4[8] + n4[9] * Db)
    Ab, Bb, _ = quad(Db)
    lo, hi = 0.000611212677 ** .25 * (1 - 1e-15), 22.064 ** .25 * (1 + 1e-15)
    for nm, e in (('discriminant of theta', db), ('discriminant of T', db3), ('-(2 A beta + B)', -(2.0 * Ab * be + Bb))):
        LM(f'lemma: {nm} > 0 on the pressure range', positive(e, be, lo, hi), 'interval arithmetic')
    thp = TSAT + n4[8] / (TSAT - n4[9]); A2, B2, _ = quad(thp)
    LM('p_sat(T_sat(p)) == p for every p in the saturation range (roots with these signs)', with_pos([-(2.0 * A2 * bp + B2)], lambda: identical(subst(PSAT, {_T.id: TSAT}), _p)), 'PIT on the sign-restricted points')
    # 3. public API
    xs = [([(mkrel(EQ, b, fc(0.0)), True)], 'x=0'), ([(mkrel(EQ, b, fc(1.0)), True)], 'x=1'), ([gt(b, 0.0), lt(b, 1.0)], '0<x<1')]
    failed = []
    for n, c, sp, fn in (('px', 'T', subst(TSAT, {_p.id: a}) - C27, lambda: libfn(A, 'T_saturation', a) - C27), ('tx', 'P', subst(PSAT, {_T.id: T_OF}), lambda: libfn(A, 'p_saturation', T_OF))):
        lo, hi = XR[n]
        for pre, t in xs:
            name = f'{n}: O{c} is the saturation value of the input, {t}'
            full = [ge(a, lo), le(a, hi)] + pre
            try:
                ps = A.X.run(X.find('v_' + n), [a, b, IDS[c]], full)
                w = wcases(ps, [([], fn())])
            except Unsupported as e: w = (str(e), None, None)
            nm = 'p_saturation' if n == 'tx' else 'T_saturation'
            if w is None and C.holds(nm): ck.ok(name, 'symbolic execution under contract'); continue
            if w is None: w = C.failed.get(nm) or ('contract failed', None, None)
            failed.append((n, c, sp, name, w, pre))
    for n, c, sp, name, w, pre in failed:
        lo, hi = XR[n]
        pts = [((lo if i == 0 else hi if i == 60 else lo * (hi / lo) ** (i / 60) if n == 'px' and i % 2 else lo + (hi - lo) * (i + .31) / 61), x) for i in range(61) for x in (0.0, 1.0, 0.37)]
        pts += [(q[0], x) for q in (witness.directed(n, w[1].cons.atoms, 60, rnd) if w[1] is not None else []) if lo <= q[0] <= hi for x in (0.0, 1.0, rnd.random())]
        pts += [(lo + (hi - lo) * rnd.random(), rnd.random()) for _ in range(300)]
        pts = [q for q in pts if lo <= q[0] <= hi]
        if n == 'tx': pts = [q for q in pts if q[0] + 273.15 <= 647.096]
        bad = w if w[1] is not None else (w[0], None, None)
        if bad[1] is not None and not any(m.op == 'v' and m.a[0] == 'a' for m in nodes(bad[1].ret).values()): bad = (w[0], None, None)   # contract-level path: other variables
        hunt(ck, X, n, None, c, [([], sp)], name, bad, pts, list(pre))
    roundtrip(ck, failed)
    ck.fns |= {'px (OT)', 'tx (OP)'}
    ck.assume += AS97
    ck.need(18)
    return ck.finish(TB97 + ['mpmath.iv interval arithmetic (sign lemmas)'])
def roundtrip(ck, failed):
    """directly on the real code, when an API obligation was not discharged"""
    if not failed or ck.viol: return
    rp = replay(); ts = [373.9459 * i / 400 for i in range(401)]
    ps = rp.many([('tx', t, .5, IDS['P'], None) for t in ts]); tt = rp.many([('px', p, .5, IDS['T'], None) for p in ps])
    for t, p, u in zip(ts, ps, tt):
        if not abs(u - t) < 1e-9 * 273 and p <= 22.064 and p >= 0.000611212677444:
            ck.violate('round trip', f'tx({t},x,OP)={p}, px of it gives {u}', {'query': ('tx', t, .5, 0, None), 'p': p, 'back': u}); return

# ---------------------------------------------------------------- C14
MIXIDS = 'V H S U F G E'.split()
LIQ = [('c', None, 19.0088), ('s', 19.0089, 21.0434), ('u', 21.0435, 21.9316), ('y', 21.9317, None)]
VAP = [('t', None, 20.5), ('r', 20.5, 21.0434), ('x', 21.0435, 21.9009), ('z', 21.901, None)]
def ref(A, n0, k, c, m):
    ps = A.q(n0, k, IDS[c])
    if len(ps) != 1 or ps[0].status != 'ret': raise Unsupported(f'reference {n0} region {k} O{c} has paths')
    return subst(ps[0].ret, {x.id: y for x, y in m})
class Sat:
    """saturated phases as a function of a pressure node p and a temperature node T"""
    def __init__(s, A, p, T): s.A, s.p, s.T = A, p, T
    def low(s, c, ph):
        if c == 'V' or c == 'D': pass
        return ref(s.A, 'pt', 1 + ph, c, ((a, s.p), (b, s.T - C27)))
    def high(s, c, ph, letter):
        v = libfn(s.A, 'pT2v_3' + letter, s.p, s.T) if letter != 'C' else 1.0 / fc(322.0)
        if c == 'V': return v
        if c == 'D': return 1.0 / v
        return ref(s.A, 'tv', 3, c, ((a, s.T - C27), (b, v)))
    def bands(s, ph=None):
        """[(conditions, liquid phase fn, vapour phase fn)]"""
        out = [([lt(s.p, PS623), lt(s.T, 623.15)], lambda c: s.low(c, 0), lambda c: s.low(c, 1))]
        for l, l0, l1 in LIQ:
            for v, v0, v1 in VAP:
                lo = max(x for x in (l0, v0, PS623) if x is not None); hi = min(x for x in (l1, v1, 22.064) if x is not None)
                if lo >= hi: continue
                out.append(([gt(s.p, lo), lt(s.p, hi), gt(s.T, 623.15)], lambda c, l=l: s.high(c, 0, l), lambda c, v=v: s.high(c, 1, v)))
        return out
def mixnode(l, v, x): return l + x * (v - l)
NOCRIT = {'p': lambda p: [lt(p, 22.064 - 1.1e-6)], 'T': lambda T: [lt(T, 647.096 - 1.1e-6)]}
def c14():
    ck = Check('C14'); A = WApi('A'); X = A.X; C = A.C; rnd = random.Random(SEED)
    todo = []
    Pn, Tn = libfn(A, 'p_saturation', T_OF), libfn(A, 'T_saturation', a)
    ST = {'p': Sat(A, a, Tn), 't': Sat(A, Pn, T_OF)}
    crit = {'p': NOCRIT['p'](a), 't': NOCRIT['T'](T_OF) + [lt(Pn, 22.064 - 1.1e-6)]}
    def query(n, k, o, pre):
        fn = X.find(('vr_' if k is not None else 'v_') + n)
        return A.X.run(fn, [a, b, o] + ([k] if k is not None else []), pre)
    def oblige(name, n, k, c, cs, pre, pts, be='symbolic execution under contract + PIT + z3 case analysis'):
        try:
            ps = query(n, k, IDS[c], pre); cs = cs()
            w = wcases(ps, cs, pre)
        except Unsupported as e:
            w = ('unsupported: ' + str(e)[:300], None, None)
            try: cs = cs() if callable(cs) else cs
            except Unsupported: cs = []
        if w is None: ck.ok(name, be); return
        if len(ck.viol) < 5: todo.append((name, n, k, c, cs, pre, pts, w))
    def qpts(n, x=None):
        r = []
        lo, hi = XR[n]
        for i in range(90):
            u = rnd.random(); q = lo * (hi / lo) ** u if n == 'px' and i % 3 == 0 else lo + (hi - lo) * u
            if i % 3 == 1: q = (16.53 + 5.53 * u) if n == 'px' else 350.01 + 23.93 * u
            r.append((q, rnd.random() if x is None else x))
        return r
    # ---- quality queries
    for n in ('px', 'tx'):
        S = ST[n[0]]; lo, hi = XR[n]; rg = [ge(a, lo), le(a, hi)]
        for c in MIXIDS + ['D']:
            if IDS[c] in OWN[n]: continue
            def cs(c=c, S=S):
                out = []
                for cd, l, v in S.bands():
                    q = 'V' if c == 'D' else c
                    e = mixnode(l(q), v(q), b)
                    out.append((cd + crit[n[0]], 1.0 / e if c == 'D' else e))
                return out
            oblige(f'{n}: O{c} of the mixture, 0<x<1', n, None, c, cs, rg + [gt(b, 0.0), lt(b, 1.0)], lambda n=n: qpts(n))
        for ph in (0, 1):
            for c in IDS:
                if c in 'XRPT' or IDS[c] in OWN[n]: continue
                if c == 'ST': continue        # judged by C12
                def cs(c=c, S=S, ph=ph):
                    return [(cd + crit[n[0]], (l, v)[ph](c)) for cd, l, v in S.bands()]
                oblige(f'{n}: O{c} of the saturated {("liquid", "vapour")[ph]} (x={ph})', n, None, c, cs, rg + [(mkrel(EQ, b, fc(float(ph))), True)], lambda n=n, ph=ph: qpts(n, float(ph)))
    # ---- two-property queries in region 4: quality and mixture
    for n in ('ph', 'ps', 'pv', 'tv', 'th', 'ts'):
        S = ST[n[0]]; y = n[1].upper(); qn = n[0] + 'x'; lo, hi = XR[qn]; rg = [ge(a, lo), le(a, hi)]
        def pts(n=n, y=y, qn=qn):
            q = [(p_, x) for p_, x in qpts(qn)]
            ys = replay().many([(qn, p_, x, IDS[y], None) for p_, x in q])
            return [(p_, v) for (p_, x), v in zip(q, ys) if isinstance(v, float) and v == v]
        def xof(l, v): return (b - l(y)) / (v(y) - l(y))
        def cond(l, v): x = xof(l, v); return [gt(x, 0.0), lt(x, 1.0)]
        oblige(f'{n} region 4: x = (y-y\')/(y"-y\')', n, 4, 'X', lambda S=S: [(cd + crit[n[0]], xof(l, v)) for cd, l, v in S.bands()], rg, pts)
        for c in MIXIDS + ['D', 'P', 'T']:
            if IDS[c] in OWN[n]: continue
            def cs(c=c, S=S):
                out = []
                for cd, l, v in S.bands():
                    if c == 'P': e = S.p
                    elif c == 'T': e = S.T - C27
                    else:
                        q = 'V' if c == 'D' else c; e = mixnode(l(q), v(q), xof(l, v))
                        if c == 'D': e = 1.0 / e
                    out.append((cd + crit[n[0]] + cond(l, v), e))
                return out
            oblige(f'{n} region 4: O{c} is the mixture at that x', n, 4, c, cs, rg, pts)
    # ---- (h,s): at the temperature T_sat(h,s)
    try:
        r = query('hs', 4, IDS['T'], [])
        Tq = r[0].ret + C27 if len(r) == 1 and r[0].status == 'ret' else None
    except Unsupported: Tq = None
    if Tq is not None:
        Ph = libfn(A, 'p_saturation', Tq); Sh = Sat(A, Ph, libfn(A, 'T_saturation', Ph))
        NC = [ge(Ph, XR['px'][0]), lt(Ph, 22.064 - 1.1e-6), lt(Sh.T, 647.096 - 1.1e-6)]
        def pts(): return backward.hs4pts(rnd, 120)
        oblige('hs region 4: OP is p_sat of its temperature', 'hs', 4, 'P', lambda: [([], Ph)], [], pts)
        def xh(l, v): return (a - l('H')) / (v('H') - l('H'))
        oblige('hs region 4: x from h', 'hs', 4, 'X', lambda: [(cd + NC, xh(l, v)) for cd, l, v in Sh.bands()], [], pts)
        for c in ('V', 'U', 'F', 'G', 'E', 'D'):
            def cs(c=c):
                out = []
                for cd, l, v in Sh.bands():
                    q = 'V' if c == 'D' else c; x = xh(l, v); e = mixnode(l(q), v(q), x)
                    out.append((cd + NC + [gt(x, 0.0), lt(x, 1.0)], 1.0 / e if c == 'D' else e))
                return out
            oblige(f'hs region 4: O{c} is the mixture at that x', 'hs', 4, c, cs, [], pts)
    # ---- (h,x), (s,x): the (t,x) state of the temperature they report
    for n in ('hx', 'sx'):
        lo, hi = XR[n]; rg = [ge(a, lo), le(a, hi), ge(b, 0.0), le(b, 1.0)]
        try:
            r = query(n, None, IDS['T'], rg)
            if len(r) != 1 or r[0].status != 'ret': raise Unsupported('paths')
            Tq = r[0].ret + C27
        except Unsupported as e: ck.bounded(f'{n}: temperature', str(e)[:200]); continue
        Px = libfn(A, 'p_saturation', Tq); Sx = Sat(A, Px, Tq); NC = NOCRIT['T'](Tq) + [ge(Px, XR['px'][0]), lt(Px, 22.064 - 1.1e-6)]
        def pts(n=n):
            q = qpts('tx')[:40]; ys = replay().many([('tx', t, x, IDS[n[0].upper()], None) for t, x in q])
            return [(v, x) for (t, x), v in zip(q, ys) if isinstance(v, float) and lo <= v <= hi]
        oblige(f'{n}: OP is p_sat of its temperature', n, None, 'P', lambda: [([], Px)], rg, pts)
        for c in MIXIDS + ['D']:
            if IDS[c] in OWN[n]: continue
            def cs(c=c):
                out = []
                for cd, l, v in Sx.bands():
                    q = 'V' if c == 'D' else c; e = mixnode(l(q), v(q), b)
                    out.append((cd + NC + [gt(b, 0.0), lt(b, 1.0)], 1.0 / e if c == 'D' else e))
                return out
            oblige(f'{n}: O{c} is the mixture at its temperature', n, None, c, cs, rg, pts)
    if os.environ.get('VC_DEBUG'):
        for t in todo: print('TODO', t[0], '::', t[-1][0], '::', [(show(x,3), v) for x, v in t[-1][1].cons.atoms][-5:] if t[-1][1] else '', [(show(x,3), v) for x, v in t[-1][2][0]] if t[-1][2] else '')
        return 0
    for name, n, k, c, cs, pre, pts, w in todo[:40]:
        if len(ck.viol) >= 5: break
        q = pts() + ([x for x in witness.directed(n, w[1].cons.atoms, 40, rnd)] if w[1] is not None else [])
        hunt(ck, X, n, k, c, cs, name, w, q, pre)
    ck.fns |= {'px', 'tx', 'hx', 'sx'} | {f'{n} (region 4)' for n in API2 if n != 'pt'} | set(C.ok)
    ck.cov['iterative_functions_uninterpreted'] = sorted(A.X.used)
    ck.assume += AS97 + ['saturated region 3 volumes: the sub-region edges 19.0088, 21.0434, 21.9316 and 21.0434, 21.9009 MPa are judged outside a 1e-4 MPa band', 'the point where p(T) crosses 623.15 K / 16.529 MPa is judged on both open sides', '(h,s), (h,x), (s,x): the iterative temperature itself is uninterpreted (C15 and C07 cover it)']
    ck.need(200)
    return ck.finish(TB97)
