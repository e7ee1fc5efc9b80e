"""C09 C10 C11 C12 C19: relations between the answers of one query pair in one region, proved for all inputs by
polynomial identity over the symbolically executed code; every (pair, region, id) is one obligation."""
from api import *
from contracts import _p, _T, _d
import if97
R_ = if97.R
class Ctx:
    """one joint path: state nodes and a property accessor"""
    def __init__(s, A, n, k, st, need):
        s.A, s.n, s.k = A, n, k; s.X, s.Y = st; s.need = need
        s.T = st[0] if k == 3 else st[1]
        if k == 3: s.d = st[1]
        else: s.p = st[0]
    def spec(s, c): return at_state(PROPS[s.k][1][c], s.k, (s.X, s.Y))
    def lib(s, c): return s.need(c)
    def ref(s, c):
        """library's own basic formulation at the state: (p,t) query (region 3: (t,v) query)"""
        n0 = 'tv' if s.k == 3 else 'pt'
        ps = s.A.q(n0, s.k, IDS[c])
        if len(ps) != 1 or ps[0].status != 'ret': raise Unsupported('reference has paths')
        if s.k == 3: m = {a.id: s.T - C27, b.id: 1.0 / s.d}
        else: m = {a.id: s.p, b.id: s.T - C27}
        return subst(ps[0].ret, m)
    def P(s): return s.ref('P') if s.k == 3 else s.p
    # exact partial derivatives of the library's own surface: v(p,T), region 3 p(T,rho)
    def surf(s, w):
        n0 = 'tv' if s.k == 3 else 'pt'; c = 'P' if s.k == 3 else 'V'
        key = (s.A, s.k, w); r = _sf.get(key)
        if r is None:
            ps = s.A.q(n0, s.k, IDS[c])
            if len(ps) != 1 or ps[0].status != 'ret': raise Unsupported('surface has paths')
            e = expand(subst(ps[0].ret, {a.id: _T - C27, b.id: 1.0 / _d} if s.k == 3 else {a.id: _p, b.id: _T - C27}))
            if any(x.op == 'call' for x in nodes(e).values()): raise Unsupported('opaque surface')
            if s.k == 3:
                PT, Pd = diff(e, _T), diff(e, _d)
                q = {'DPDT': PT, 'DVDP': -(1.0 / (_d * _d * Pd)), 'DVDT': PT / (_d * _d * Pd)}
            else:
                VT, Vp = diff(e, _T), diff(e, _p)
                q = {'DVDT': VT, 'DVDP': Vp, 'DPDT': -(VT / Vp)}
            for x, y in q.items(): _sf[(s.A, s.k, x)] = y
            r = _sf[key]
        return at_state(r, s.k, (s.X, s.Y))
_sf = {}
L = lambda c: (lambda x: x.lib(c))
def eq(c, f): return (c, f)
REL = {
 'C09': [(c, lambda x, c=c: x.spec(c)) for c in 'V H U S CP CV W P'.split()],
 'C10': [('D', lambda x: 1.0 / x.lib('V')), ('F', lambda x: x.lib('U') - x.T * x.lib('S')), ('G', lambda x: x.lib('H') - x.T * x.lib('S')),
         ('Z', lambda x: 1e3 * x.P() * x.lib('V') / (R_ * x.T)), ('E', lambda x: x.lib('H') - 273.16 * x.lib('S'))],
 'C11': [('DVDT', lambda x: x.surf('DVDT')), ('DVDP', lambda x: x.surf('DVDP')), ('DPDT', lambda x: x.surf('DPDT')),
         ('EC', lambda x: x.surf('DVDT') / x.lib('V')), ('KT', lambda x: -(x.surf('DVDP') / x.lib('V'))),
         ('PC', lambda x: x.surf('DPDT') / x.P()), ('ALFAP', lambda x: x.surf('DPDT') / x.P()), ('BETAP', lambda x: -(1.0 / (x.P() * x.surf('DVDP')))),
         ('KS', lambda x: 1e-6 * x.lib('W') * x.lib('W') / (x.P() * x.lib('V'))),
         ('JTC', lambda x: 1e3 * (x.T * x.surf('DVDT') - x.lib('V')) / x.lib('CP')), ('IJTC', lambda x: 1e3 * (x.lib('V') - x.T * x.surf('DVDT'))),
         ('FU', lambda x: x.P() * x.lib('FI'))],
 'C12': [('DV', lambda x: if97call('viscosity', x.dens(), x.T)), ('TC', lambda x: if97call('thcond', x.dens(), x.T)), ('SDC', lambda x: if97call('static_dielectric', x.dens(), x.T)),
         ('ST', lambda x: if97.surft(x.T)), ('KV', lambda x: x.lib('DV') / x.lib('D')), ('TD', lambda x: 1e-3 * x.lib('TC') / (x.lib('D') * x.lib('CP'))),
         ('PR', lambda x: 1e3 * x.lib('DV') * x.lib('CP') / x.lib('TC'))],
 'C19': [(c, lambda x, c=c: x.ref(c)) for c in IDS if c not in ('X', 'R')] + [('X', lambda x: fc(0.0 if x.k == 1 else 1.0))],
}
Ctx.dens = lambda x: x.lib('D')
def if97call(n, *v):
    f, e = if97.FORM[n]
    return subst(e, dict(zip((i.id for i in f), v)))
def applies(pid, n, k, c):
    if IDS[c] in OWN[n]: return False
    if c == 'P' and pid == 'C09': return k == 3 and n != 'hs'
    if c == 'P' and k == 3 and n == 'hs': return False
    if pid == 'C19' and c != 'X': return n != ('tv' if k == 3 else 'pt')
    return True
def joint(A, pid, n, k, c, rule, echo=True):
    """(paths) of one obligation: [(atoms, lhs, rhs, state)]"""
    out = []
    f = if97
    for sa, st in state(A, n, k):
        if st is None: out.append((sa, None, None, None)); continue
        for q in A.q(n, k, IDS[c]):
            if q.status != 'ret': out.append((sa + tuple(q.cons.atoms), None, None, st)); continue
            # other ids needed: take the product lazily
            def run(fixed):
                need = []
                def get(x):
                    if IDS[x] in OWN[n]:
                        if echo or x in 'PT' or k == 3 and x == 'V': return (a, b)[OWN[n].index(IDS[x])]
                        return Ctx(A, n, k, st, get).ref(x)      # an echoed input stands for the formulation's own value at the state
                    if x in fixed: return fixed[x][1]
                    if not echo and x == 'D' and k != 3 and IDS['V'] in OWN[n]: return 1.0 / Ctx(A, n, k, st, get).ref('V')
                    raise Need(x)
                try: rhs = rule(Ctx(A, n, k, st, get))
                except Need as e:
                    for r in A.q(n, k, IDS[e.c]): yield from run({**fixed, e.c: (tuple(r.cons.atoms), r.ret)})
                    return
                yield tuple(x for v in fixed.values() for x in v[0]), rhs
            for at, rhs in run({}):
                out.append((sa + tuple(q.cons.atoms) + at, q.ret, rhs, st))
                if len(out) > 200: raise Unsupported('too many joint paths')
    return out
class Need(Exception):
    def __init__(s, c): s.c = c
def prove(A, pid, n, k, c, rule):
    """None if proved, else list of failing (atoms, lhs, rhs, state)"""
    bad = None
    for echo in (True, False):
        js = joint(A, pid, n, k, c, rule, echo)
        r = judge(A, pid, n, k, c, js)
        if r is None: return None
        bad = bad or r
    if pid == 'C19' and c == 'D' and 3 in OWN[n]: # OV echoed: density of the given volume
        if all(q.status == 'ret' and identical(q.ret, 1.0 / (a, b)[OWN[n].index(3)]) for q in A.q(n, k, IDS['D'])): return None
    return bad
def judge(A, pid, n, k, c, js):
    if not js: return [((), None, None, None)]
    bad = []
    for at, l, r, st in js:
        if l is not None and r is not None:
            core.POS[:] = [at_state(e, k, st) for e in SIGN[k]]
            ok = agree(l, r); core.POS[:] = []
            if ok: continue
        if at:
            pre = []
            if st is not None:
                pre.append((mkrel(GT, at_state(W2[k], k, st), fc(0.0)), True))
                if c == 'ST': pre += [(mkrel(GT, st[0] if k == 3 else st[1], fc(248.15)), True), (mkrel(LT, st[0] if k == 3 else st[1], fc(if97.TC)), True)]
            if sat(zatoms(at) + zatoms(pre)) is False: continue
            cs = Cons()
            if not cs.assume_all(at): continue
        bad.append((at, l, r, st))
    return bad or None

# ------------------------------------------------------------------ failed obligations: counterexample on the real code, or bounded acceptance
import witness
from witness import Err, states, inputs, directed, holds_at
def ck_spent(ck): return getattr(ck, 'spent', 0.0)
def search(ck, *a):
    t0 = time.time()
    try: return search_(ck, *a)
    finally: ck.spent = ck_spent(ck) + time.time() - t0
def ill(n, k, c, x, y, g, want):
    """a point outside the region's states (an explicit region far away): the real value moves by the observed difference under input changes of a few ulp"""
    e = [1 + s * m * 2.0 ** -50 for m in (1, 3, 9, 40) for s in (1, -1)]
    rs = replay().many([(n, x * u, y * w, IDS[c], k) for u, w in [(u, 1.0) for u in e] + [(1.0, u) for u in e]], 60)
    sp = [abs(r - g) for r in rs if isinstance(r, float) and r == r]
    return len(sp) < len(rs) or max(sp) * 64 >= abs(want - g) or want != want or g != g
def search_(ck, AA, AB, pid, n, k, c, rule, name, badB, why):
    rnd = random.Random(f'{SEED}{n}{k}'); few = ck_spent(ck) > 60   # many failed obligations (one function changed under all of them): fewer states each
    js = []
    for A in (AA, AB):
        for echo in (True, False):
            if A is not None:
                try: js += [(A, j) for j in joint(A, pid, n, k, c, rule, echo)][:40]
                except Unsupported: pass
    real = []; nreal = [0]
    def verdict(x, y, got):
        """None unknown, True agrees, False deviates"""
        best = None
        env = {'a': x, 'b': y}
        for A, (at, l, r, st) in js:
            if l is None or r is None: continue
            try:
                if at and not holds_at(at, env, A.X): continue
                E = Err(env, A.X); rv, re = E.ev(r)
                if c == 'ST':
                    T = E.ev(st[0] if k == 3 else st[1])[0]
                    if not 248.15 < T < 647.09: return None
                try: lv, le = E.ev(l)
                except Unsupported: le = re
                tol = 16 * (le + re) + abs(rv) * mpf(2) ** -50
                if rv != rv and got != got: d = True
                elif rv != rv: d = None
                else: d = bool(got == got and abs(mpf(got) - rv) <= tol)
                if d:
                    if nreal[0] < 12:
                        nreal[0] += 1
                        try:
                            if witness.real_dev(l, r, env, A.X): real.append((x, y))
                            else: real.append(None)
                        except Unsupported: pass
                    return True
                if d is False: best = (False, float(rv), float(tol))
            except (Unsupported, OverflowError, ValueError) as e: continue
        return best
    qs = []; n_ok = 0; covered = [False] * len(badB)
    pts = [(q, None) for q in inputs(n, k, states(k, 14 if few else 40, rnd))]
    valid = set(q for q, _ in pts)
    for i, (at, l, r, st) in enumerate(badB):
        if at: pts += [(q, i) for q in directed(n, at, 8 if few else 24, rnd)]
    got = replay().many([(n, x, y, IDS[c], k) for (x, y), _ in pts], 60)
    for ((x, y), i), g in zip(pts, got):
        if not isinstance(g, float):
            ck.violate(name, f'{n}({x},{y},(O{c},{k})) -> {g}', {'query': (n, x, y, IDS[c], k), 'got': g}, why); return
        v = verdict(x, y, g)
        if v is True: n_ok += 1
        elif v is not None and (x, y) not in valid and ill(n, k, c, x, y, g, v[1]): pass
        elif v is not None:
            ck.violate(name, f'{n}({x!r},{y!r},(O{c},{k})) = {g!r}, specified {v[1]!r} (rounding bound {v[2]:.3g})', {'query': (n, x, y, IDS[c], k), 'got': g, 'expected': v[1], 'tolerance': v[2]}, why); return
        if i is not None and v is True: covered[i] = True
        for j, (at, l, r, st) in enumerate(badB):
            if v is True and not covered[j]:
                try: covered[j] = not at or holds_at(at, {'a': x, 'b': y}, (AB or AA).X)
                except Unsupported: pass
    if real and None not in real: ck.violate(name, f'the expressions differ in exact arithmetic (below rounding at the tested inputs), e.g. at {n}{real[0]}', None, why)
    elif n_ok < 10: ck.violate(name, 'obligation not discharged and not evaluable', None, why)
    elif not all(covered) and len(badB) < 60: ck.violate(name, 'a code path was not shown to agree with the specification: ' + str([(show(c_), v) for c_, v in badB[covered.index(False)][0]])[:300], None, why)
    else: ck.bounded(name, f'real-code values agree with the specification within the rounding bound at {n_ok} states')
def run_rel(pid, trusted=(), assume=(), need=0):
    ck = Check(pid); A = Api('A'); B = None
    seen = set()
    for n in API2:
        for k in REGS:
            for c, rule in REL[pid]:
                if not applies(pid, n, k, c): continue
                name = f'{n} region {k}: O{c}'
                why = None; bad = None
                try: bad = prove(A, pid, n, k, c, rule)
                except Unsupported as e: why = str(e); bad = [((), None, None, None)]
                if bad is None: ck.ok(name, 'symbolic execution under callee contracts + PIT'); continue
                if len(ck.viol) >= 6: continue
                if B is None: B = Api('B')
                AB = B
                try:
                    bad2 = prove(B, pid, n, k, c, rule)
                    if bad2 is None: ck.ok(name, 'symbolic execution of inlined bodies + PIT + z3'); continue
                    bad = bad2
                except Unsupported as e: why = (why or '') + ' | ' + str(e); AB = None; bad = [b_ for b_ in bad if b_[0]] or bad
                why = {'unsupported': why, 'paths': [{'conditions': [(show(x), v) for x, v in q[0]], 'code': show(q[1], 5) if q[1] is not None else None, 'spec': show(q[2], 5) if q[2] is not None else None} for q in bad[:4]],
                       'failed_function_contracts': {f: w[0] for f, w in A.C.failed.items()}}
                search(ck, A, AB, pid, n, k, c, rule, name, [q for q in bad if q[0]], why)
    ck.fns |= set(A.C.ok) | {f'{n} (region {k})' for n in API2 for k in REGS}
    ck.cov['function_contracts_failed_then_inlined'] = {f: w[0] for f, w in A.C.failed.items()}
    ck.cov['iterative_functions_uninterpreted'] = sorted(A.X.used)
    ck.assume += AS97 + [AS_SIGN] + list(assume)
    ck.need(need)
    return ck.finish(TB97 + list(trusted))
def c09(): return run_rel('C09', need=150)
def c10(): return run_rel('C10', need=120)
def c11(): return run_rel('C11', need=300)
def c12(): return run_rel('C12', assume=['surface tension judged for 248.15 K <= T <= 647.096 K'], need=180)
def c19(): return run_rel('C19', assume=['iterative solvers and backward-equation dispatchers are uninterpreted functions of their arguments (their values are C15, C16, C21)'], need=700)
