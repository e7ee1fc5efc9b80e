"""C18: mechanical and thermal stability of regions 1, 2, 5.  The code's v, cp, cv, w, kappa_T, h, s (contract symbols, expanded)
are linked by polynomial identity to the scaled Gibbs derivatives; their signs on the whole region are interval lemmas."""
from api import *
from contracts import _p, _T, _d
import if97, witness, ivl
from if97 import *
from wet import ge, le
from witness import holds_at, directed, Fl
a, b = fv('a'), fv('b')
x, y = fv('pi'), fv('tau')
RED = {1: (16.53, 1386.0, gamma1), 2: (1.0, 540.0, gamma2), 5: (1.0, 1000.0, gamma5)}
TT = b + C27
def lemmas(k):
    """{name: positive node}, boxes [(box, out)]"""
    ps, ts, g = RED[k]; G = g(x, y)
    gp, gt = diff(G, x), diff(G, y); gpp, gtt, gpt = diff(gp, x), diff(gt, y), diff(gp, y)
    sc, sc2 = (ONE, ONE) if k == 1 else (x, x * x)
    q = y * gpt
    L_ = {'gamma_pi > 0': mul_(gp, sc), 'gamma_pipi < 0': -mul_(gpp, sc2), 'gamma_tautau < 0': -gtt,
          'tau^2 gamma_tautau gamma_pipi > (gamma_pi - tau gamma_pitau)^2': y * y * gtt * gpp * sc2 - (sc * (gp - q)) ** 2 if k != 1 else y * y * gtt * gpp - (gp - q) ** 2}
    tight = [diff(e, z) for e in (gpp, gtt, gpt) for z in (x, y)] + [gpp, gpt, gtt, gp]
    T, P = ts / y, ps * x; PS = subst(PSAT, {_T.id: T}); B = subst(B23P, {_T.id: T})
    bx = {1: [(dict(pi=(0.0006 / 16.53, 100 / 16.53), tau=(1386 / 623.15, 1386 / 273.15)), [P - PS])],
          2: [(dict(pi=(0.0006, 100.0), tau=(540 / 1073.15, 540 / 863.15)), []), (dict(pi=(0.0006, 100.0), tau=(540 / 863.15, 540 / 623.15)), [B - P]), (dict(pi=(0.0006, 16.53), tau=(540 / 623.15, 540 / 273.15)), [PS - P])],
          5: [(dict(pi=(0.0006, 50.0), tau=(1000 / 2273.15, 1000 / 1073.15)), [])]}[k]
    return L_, bx, tight, (gp, gpp, gtt, gpt)
def link(k, gs):
    """property -> expression in (p,T) over the lemma nodes, each a quotient / product of factors with proved sign"""
    ps, ts, _ = RED[k]; m = {x.id: _p / ps, y.id: ts / _T}
    gp, gpp, gtt, gpt = (subst(e, m) for e in gs); tau = ts / _T; D = gp - tau * gpt; cvn = tau * tau * gtt * gpp - D * D
    return {'V': 1e-3 * (R * _T * gp) / ps, 'KT': -(gpp / gp) / ps, 'CP': -(R * tau * tau * gtt), 'CV': R * cvn / -gpp, 'W2': 1e3 * R * _T * gp * gp * (-(tau * tau * gtt)) / cvn, 'CP-CV': R * D * D / -gpp}
NEEDS = {'V': ('gamma_pi > 0',), 'KT': ('gamma_pi > 0', 'gamma_pipi < 0'), 'CP': ('gamma_tautau < 0',), 'CV': ('gamma_pipi < 0', 'tau^2'), 'W': ('gamma_pi > 0', 'gamma_tautau < 0', 'tau^2'), 'CP-CV': ('gamma_pipi < 0',), 'dH/dT': ('gamma_tautau < 0',), 'dS/dT': ('gamma_tautau < 0',)}
def domain(k):
    T = TT; PS = subst(PSAT, {_T.id: T}); B = subst(B23P, {_T.id: T})
    d = {1: [[ge(a, 0.0006), le(a, 100.0), ge(T, 273.15), le(T, 623.15)]], 2: [[ge(a, 0.0006), le(a, 100.0), ge(T, 273.15), le(T, 1073.15)]], 5: [[ge(a, 0.0006), le(a, 50.0), ge(T, 1073.15), le(T, 2273.15)]]}
    return d[k][0]
def in_region(k, p, t):
    T = t + 273.15
    if not (0.000611213 <= p <= 100.0): return False
    if k == 1: return 273.15 <= T <= 623.15 and p >= witness.psat(T) * (1 + 1e-6)
    if k == 5: return 1073.15 < T <= 2273.15 and p <= 50.0
    return T <= 1073.15 and T >= 273.15 and (p <= witness.psat(T) * (1 - 1e-6) if T <= 623.15 else p <= witness.B23p(T) if T <= 863.15 else True)
PROP = ['V', 'CP', 'CV', 'W', 'KT', 'H', 'S']
def points_of(A, k, bad, rnd):
    pts = [(p, T - 273.15) for p, T in witness.states(k, 500, rnd)]
    if k == 1: pts += [(p, t) for p in (0.1, 22.064, 50.0, 100.0) for t in (0.0, 3.98, 100.0, 350.0)] + [(witness.psat(t + 273.15) * 1.000002, t) for t in [rnd.uniform(0, 350) for _ in range(40)] + [350.0, 0.0]]
    if k == 2: pts += [(witness.psat(t + 273.15) * .999998, t) for t in [rnd.uniform(0, 350) for _ in range(40)] + [350.0]] + [(witness.B23p(t + 273.15) * .9999999, t) for t in [rnd.uniform(350, 590) for _ in range(40)]] + [(100.0, 800.0), (100.0, 590.0), (0.00062, 800.0), (0.00062, 0.0)]
    if k == 5: pts += [(p, t) for p in (0.00062, 1.0, 50.0) for t in (800.001, 1000.0, 2000.0)]
    for at in bad:
        pts += [q for q in directed('pt', at, 300, rnd)]
    return [q for q in pts if in_region(k, *q)]
def hunt(ck, k, name, prop, pts, why):
    rp = replay(); o = {'CP-CV': 'CP', 'dH/dT': 'H', 'dS/dT': 'S'}.get(prop, prop)
    q = [('pt', p, t, IDS[o], k) for p, t in pts]
    if prop == 'CP-CV': q += [('pt', p, t, IDS['CV'], k) for p, t in pts]
    if prop.startswith('d'): q += [('pt', p, t + 0.05, IDS[o], k) for p, t in pts]
    v = rp.many(q, 60); n = len(pts); okc = 0
    for i, (p, t) in enumerate(pts):
        z = v[i]
        if not isinstance(z, float) or z != z or abs(z) == math.inf: w = f'{prop} is not finite'
        elif prop == 'CP-CV': w = 'cp < cv' if z < v[n + i] * (1 - 1e-12) else None
        elif prop.startswith('d'):
            if not in_region(k, p, t + 0.05): continue
            w = f'{o} does not increase with temperature (next point +0.05 K: {v[n + i]!r})' if not v[n + i] > z else None
        else: w = f'{prop} is not positive' if not z > 0 else None
        if w: ck.violate(name, f'pt({p!r},{t!r},O{o},region {k}) = {z!r}: {w}', {'query': ('pt', p, t, IDS[o], k), 'got': z}, why); return
        okc += 1
    if okc >= 100: ck.bounded(name, f'{why["why"]}; {okc} replayed states are stable')
    else: ck.violate(name, why['why'], None, why)
def c18():
    ck = Check('C18'); A = Api('A'); rnd = random.Random(SEED)
    for k in (1, 2, 5):
        Ls, boxes, tight, gs = lemmas(k); held = set()
        for nm, e in Ls.items():
            rs = [ivl.prove([e], bx, out, tmax=60, tight=tight if nm.startswith('tau') else ()) for bx, out in boxes]
            if all(r.ok for r in rs): ck.ok(f'region {k}: lemma {nm} on the whole region', f'interval branch and bound'); held.add(nm)
            else: ck.violate(f'region {k}: lemma {nm}', 'interval lemma not discharged', None, {'left': [r.left[:2] for r in rs]})
        LK = link(k, gs); dom = domain(k); T_ = TT
        at_ = lambda e: subst(e, {_p.id: a, _T.id: T_})
        fm, S = PROPS[k]
        # the specification's own closed forms have the signs
        SP = {'V': S['V'], 'KT': S['KT'], 'CP': S['CP'], 'CV': S['CV'], 'W2': S['W'].a[0], 'CP-CV': S['CP'] - S['CV']}
        lk = {}
        for n_, e in SP.items():
            lk[n_] = identical(e, LK[n_])
            if lk[n_]: ck.ok(f'region {k}: {n_} factors into terms of proved sign', 'PIT')
        lk['dH'] = identical(diff(S['H'], _T), S['CP']); lk['dS'] = identical(diff(S['S'], _T) * _T, S['CP'])
        for n_ in ('dH', 'dS'):
            if lk[n_]: ck.ok(f'region {k}: {n_}/dT at constant p is cp{"" if n_ == "dH" else "/T"}', 'PIT')
        res = {}
        for c in PROP:
            try: ps = A.q('pt', k, IDS[c])
            except Unsupported as e: res[c] = ('unsupported: ' + str(e)[:160], []); continue
            bad = []; met = False
            for pth in ps:
                at = list(pth.cons.atoms)
                if sat(zatoms(at) + zatoms(dom)) is False: continue
                met = True
                core.POS[:] = [at_state(e, k, (a, TT)) for e in SIGN[k]]
                good = pth.status == 'ret' and isinstance(pth.ret, N) and agree(pth.ret, at_(S[c])); core.POS[:] = []
                if not good: bad.append(tuple(at))
            res[c] = None if met and not bad else ('a path returns something else than the region equation' if met else 'no path meets the region', bad)
        def settle(prop, cs, lkn):
            name = f'region {k}: ' + {'V': 'v > 0', 'KT': 'isothermal compressibility > 0', 'CP': 'cp > 0', 'CV': 'cv > 0', 'W': 'w real and > 0', 'CP-CV': 'cp >= cv', 'dH/dT': 'h increases with T along isobars', 'dS/dT': 's increases with T along isobars'}[prop]
            why = [res[c] for c in cs if res[c]]
            if not why and lk[lkn] and all(any(h.startswith(nd) for h in held) for nd in NEEDS[prop]): ck.ok(name, 'symbolic execution + PIT + interval branch and bound'); return
            w = why[0] if why else ('interval lemma or factorisation missing', [])
            hunt(ck, k, name, prop, points_of(A, k, [b_ for r in why for b_ in r[1]], rnd), {'why': w[0], 'paths': [[(show(c), v) for c, v in b_] for b_ in w[1][:3]]})
        for prop, cs, l_ in (('V', 'V', 'V'), ('KT', ['KT'], 'KT'), ('CP', ['CP'], 'CP'), ('CV', ['CV'], 'CV'), ('W', 'W', 'W2'), ('CP-CV', ['CP', 'CV'], 'CP-CV'), ('dH/dT', 'H', 'dH'), ('dS/dT', 'S', 'dS')):
            settle(prop, list(cs), l_)
        ck.fns |= {f'pT2{n}_reg{k}' for n in ('v', 'cp', 'cv', 'w', 'kt', 'h', 's') if A.C.state.get(f'pT2{n}_reg{k}')}
    ck.assume += ['finiteness: every closing box has a finite double enclosure of each factor; overflow of intermediate powers elsewhere is not modelled', 'a query without region returns the explicit-region value (C03)'] + AS97
    ck.need(45)
    return ck.finish(TB97 + ['vc/ivl.py interval arithmetic (numpy double, outward rounding)'])
