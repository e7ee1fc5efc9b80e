"""C01 C03 C06 C08: dispatch-level contracts of the public API."""
from engine import *
a, b = fv('a'), fv('b')
TB = ['rustc 1.99 front end up to LLVM IR (opt-level 0)', 'vc/ir.py + vc/sym.py (IR reader and symbolic executor)', 'IEEE semantics of fcmp/select as modelled']

def special(): 
    import math
    return [math.nan, math.inf, -math.inf, 0.0, -0.0, 5e-324, 1e308, -3.7, 1.0, 3.0, 300.0, 2500.0, 0.5, 7.0, 120.0, 640.0]
def same_bits(x, y): return isinstance(x, float) and isinstance(y, float) and (build.bits(x) == build.bits(y))

# documented closed saturation ranges of the quality queries
XR = {'px': (0.000611212677444, 22.064), 'tx': (0.0, 373.946), 'hx': (0.38039218566765925, 2803.2738880203456), 'sx': (0.33567511183921145, 9.153081306725117)}
GE, LE = GT | EQ, LT | EQ
def rng(n, lo, hi): return [(mkrel(GE, n, fc(lo)), True), (mkrel(LE, n, fc(hi)), True)]

def c01():
    ck = Check('C01'); M = module(); X = Exec(M, pol_dispatch)
    for n in API2:
        for k, own in enumerate(OWN[n]):
            for form in ('v_', 'vr_'):
                o = (1 << 32) + own if own < 0 else own
                args = [a, b, o] + ([iv('reg')] if form == 'vr_' else [])
                name = f'{n}({n[0]},{n[1]},O{n[k].upper()}{",reg" if form == "vr_" else ""}) == input bits'
                ps = X.run(X.find(form + n), args)
                bad = [p for p in ps if not (p.status == 'ret' and p.ret is (a, b)[k])]
                if not bad and ps: ck.ok(name, 'symbolic execution (node identity, all paths)'); continue
                # replay
                qs = [(n, x, y, own, r) for x in special() for y in special() for r in ([None] if form == 'v_' else [10, 0, 1, 2, 3, 4, 5, -1, 7])]
                rs = replay().many(qs, 30)
                hit = [(q, r) for q, r in zip(qs, rs) if not (isinstance(r, float) and (build.bits(r) == build.bits(q[1 + k]) or (r != r and q[1 + k] != q[1 + k])))]
                if hit: ck.violate(name, f'{hit[0][0]} returned {hit[0][1]}', {'query': hit[0][0], 'got': hit[0][1]}, str(bad[0])[:800])
                elif all(p.status == 'ret' and isinstance(p.ret, N) and p.ret.op != 'c' and identical(p.ret, (a, b)[k]) for p in bad): ck.violate(name, 'result is recomputed, not the input', None, str(bad[0])[:800])
                else: ck.violate(name, 'a path does not return the input', None, str(bad[0])[:800])
    for n in API1:
        lo, hi = XR[n]
        for k, own in enumerate(OWN[n]):
            name = f'{n}(.,.,O{n[k].upper()}) == input bits on the closed range'
            ps = X.run(X.find('v_' + n), [a, b, own], rng(a, lo, hi) + rng(b, 0.0, 1.0))
            bad = [p for p in ps if not (p.status == 'ret' and p.ret is (a, b)[k])]
            if not bad and ps: ck.ok(name, 'symbolic execution (node identity, all paths)'); continue
            c = [lo, hi, (lo + hi) / 2, math.nextafter(lo, hi), math.nextafter(hi, lo)] + [lo + (hi - lo) * i / 97 for i in range(98)]
            qs = [(n, x, y, own, None) for x in c for y in (0.0, 1.0, 0.5, 5e-324, math.nextafter(1, 0), 0.25)]
            for p in bad:   # witness from the path condition
                d = p.cons.dom.get(a.id); e = p.cons.dom.get(b.id)
                for x in (d[:2] if d else (lo, hi)):
                    for y in (e[:2] if e else (0.0, 1.0)): qs.append((n, x, y, own, None))
            rs = replay().many(qs, 30)
            hit = [(q, r) for q, r in zip(qs, rs) if not (same_bits(r, q[1 + k]))]
            if hit: ck.violate(name, f'{hit[0][0]} returned {hit[0][1]}', {'query': hit[0][0], 'got': hit[0][1]}, str(bad[0])[:800])
            else: ck.violate(name, 'a path does not return the input', None, str(bad[0])[:800])
    ck.fns |= set(API2 + API1); ck.need(40)
    return ck.finish(TB)

def pathkey(p): return (p.status, p.ret.id if isinstance(p.ret, N) else p.ret)
def case_table(X, fn, args, pre, ov):
    return X.run(fn, args, pre)

def det_node(X, ps):
    """the region-detection call occurring in the paths"""
    s = set()
    for p in ps:
        for c, v in p.cons.atoms:
            if c.op == 'iset' and c.a[0].op == 'icall': s.add(c.a[0])
        if isinstance(p.ret, N):
            for k in nodes(p.ret).values():
                if k.op == 'icall': s.add(k)
    return s
def run_region(X, n, k, o, auto):
    """paths for region k: explicit, or automatic under (detected == k)"""
    f = X.find(('v_' if auto else 'vr_') + n)
    return f
I32 = (1 << 32)
def c03():
    ck = Check('C03'); M = module(); X = Exec(M, pol_dispatch)
    for n in API2:
        o = iv('o'); ownset = [(x, x) for x in OWN[n]]
        base = [(iset(o, ownset), False)]
        fv_, fr_ = X.find('v_' + n), X.find('vr_' + n)
        auto = X.run(fv_, [a, b, o], base)
        none = X.run(fr_, [a, b, o, 10], base)
        dets = det_node(X, auto)
        t10 = f'{n}: reg=10 is the automatic query'
        def norm(ps): return sorted([(sorted((c.id, v) for c, v in p.cons.atoms), pathkey(p)) for p in ps], key=repr)
        if auto and norm(auto) == norm(none): ck.ok(t10, 'symbolic execution (path-set equality)')
        else: semantic(ck, n, t10, [(None, 10)])
        det = list(dets)[0] if len(dets) == 1 else None
        for k in range(1, 6):
            exp = X.run(fr_, [a, b, o, k], base)
            nm = f'{n}: explicit region {k} never consults detection'
            if exp and not det_node(X, exp) and not any('_sub_region' in c for p in exp if isinstance(p.ret, N) for c in calls(p.ret)): ck.ok(nm, 'symbolic execution')
            else: semantic(ck, n, nm, None, k, dispatch=True)
            # region query
            nm = f'{n}: region query with explicit region {k} returns {k}'
            r = X.run(fr_, [a, b, 16, k])
            if r and all(p.status == 'ret' and isinstance(p.ret, N) and cval(p.ret) == float(k) for p in r): ck.ok(nm, 'symbolic execution')
            else: semantic(ck, n, nm, None, k, ids=[16], want=float(k))
            # value: region k's own function applied to the inputs
            nm = f'{n}: explicit region {k} evaluates the region-{k} function'
            def good(p):
                if p.status != 'ret' or not isinstance(p.ret, N): return False
                d = p.cons.idom.get(o.id, sym.I32FULL)
                if d == ((16, 16),): return cval(p.ret) == float(k)
                if d == ((15, 15),) and cval(p.ret) == {1: 0.0, 2: 1.0, 3: 1.0, 5: 1.0}.get(k): return True
                if p.ret.op != 'call': return False
                want = f'{n if n != "pt" else "pT"}_reg{k}'
                if p.ret.a[0].split('::')[-1] not in (want, want.replace('pT', 'pt')): return False
                x = p.ret.a
                o2 = x[3]
                inp = (a, b + fc(273.15)) if n == 'pt' and 'pT' in want and x[0].endswith(want) else (a, b)
                return (x[1] is inp[0] and identical(x[2], inp[1])) and (o2 is o or (not isinstance(o2, N) and d == ((o2, o2),)))
            if exp and all(good(p) for p in exp): ck.ok(nm, 'symbolic execution'); ck.fns.add(f'{n}_reg{k} (dispatch target)')
            else:
                # structural anchor lost: compare the bodies with the region function itself
                ok = body_compare(ck, n, k)
                if ok: ck.ok(nm, 'symbolic execution + PIT on inlined bodies')
                else: semantic(ck, n, nm, None, k, dispatch=True)
            # automatic == explicit(detected)
            nm = f'{n}: automatic with detected region {k} is the explicit-{k} query'
            if det is not None:
                au = X.run(fv_, [a, b, o], base + [(iset(det, [(k, k)]), True)])
                def kk(ps):
                    return sorted(((sorted((c.id, v) for c, v in p.cons.atoms if not (c.op == 'iset' and c.a[0] is det)), p.status, fold(p.ret, det, k)) for p in ps), key=repr)
                if au and kk(au) == kk(exp): ck.ok(nm, 'symbolic execution (path-set equality)'); continue
            semantic(ck, n, nm, [(None, k)], k)
        nm = f'{n}: undetected states return the detection code for every id but x'
        if det is not None:
            au = X.run(fv_, [a, b, o], base + [(iset(det, compl([(1, 5)])), True)])
            okc = bool(au)
            for p in au:
                d = p.cons.idom.get(o.id, sym.I32FULL)
                if d == ((15, 15),): okc &= isinstance(p.ret, N) and cval(p.ret) == -9999.0
                else: okc &= isinstance(p.ret, N) and (p.ret is mk('sitofp', det))
            if okc: ck.ok(nm, 'symbolic execution')
            else: semantic(ck, n, nm, [(None, None)])
        else: semantic(ck, n, nm, [(None, None)])
    ck.fns |= set(API2); ck.need(150)
    return ck.finish(TB + ['values of the region functions are uninterpreted here (their contracts are C09-C15, C19)'])
def fold(r, det, k):
    if isinstance(r, N):
        if r is mk('sitofp', det): return ('c', float(k))
        v = cval(r)
        return ('c', v) if v is not None else r.id
    return r
RANGES = {'p': [0.0007, 0.01, 0.1, 1., 3., 10., 16., 17., 19., 21., 22.5, 23.2, 25., 40., 50., 80., 100.],
          't': [0.0, 1., 20., 100., 200., 300., 349., 352., 365., 374., 380., 450., 550., 700., 800., 1000., 1500., 2000.],
          'h': [0.5, 100., 400., 800., 1200., 1600., 1700., 1900., 2000., 2100., 2300., 2500., 2700., 2900., 3200., 3700., 4200., 5500., 7000.],
          's': [0.01, 0.5, 1.5, 2.5, 3.4, 3.8, 4.2, 4.4, 4.8, 5.1, 5.5, 6., 7., 8., 9., 10., 11.],
          'v': [0.00099, 0.00105, 0.0012, 0.0015, 0.0018, 0.0025, 0.004, 0.008, 0.02, 0.1, 0.5, 2., 10., 100.]}
def grid(n, rnd=None, cnt=0):
    q = [(x, y) for x in RANGES[n[0]] for y in RANGES[n[1]]]
    if rnd:
        for _ in range(cnt):
            def pick(c):
                r = RANGES[c]; i = rnd.randrange(len(r) - 1); return r[i] + (r[i + 1] - r[i]) * rnd.random()
            q.append((pick(n[0]), pick(n[1])))
    return q
def eqv(x, y): return x == y or (isinstance(x, float) and isinstance(y, float) and x != x and y != y)
def semantic(ck, n, nm, pairs, k=None, ids=None, want=None, dispatch=False):
    """structural proof lost: search the real code for a disagreement"""
    rnd = random.Random(SEED); g = grid(n, rnd, 400); rp = replay()
    ids = ids or [i for i in range(36) if i not in OWN[n]] + [99, -5]
    reg = rp.many([(n, x, y, 16, None) for x, y in g])
    qs = []; ws = []
    for (x, y), r in zip(g, reg):
        if not isinstance(r, float): continue
        for i in ids:
            if want is not None: qs.append(((n, x, y, i, k), None, want))
            elif r in (1., 2., 3., 4., 5.): qs.append(((n, x, y, i, None), (n, x, y, i, int(r)), None)); qs.append(((n, x, y, i, 10), (n, x, y, i, int(r)), None))
            else: qs.append(((n, x, y, i, None), None, -9999.0 if i == 15 else r))
    A = rp.many([q[0] for q in qs], 120); Bq = [q[1] for q in qs if q[1]]; B = iter(rp.many(Bq, 120))
    for q, r in zip(qs, A):
        w = next(B) if q[1] else q[2]
        if not eqv(r, w):
            ck.violate(nm, f'{q[0]} = {r}, expected {w}', {'query': q[0], 'reference': q[1], 'got': r, 'expected': w}); return
    if dispatch:
        # explicit region: compare with the value of the region's own formulation through p,T
        h = dispatch_search(n, k, rp)
        if h: ck.violate(nm, h[0], h[1]); return
    ck.bounded(nm, f'structural match lost; {len(qs)} replayed queries agree')
def dispatch_search(n, k, rp, ids=None):
    """explicit region k on the real binary against the region function itself, executed on the IR (states of every region)"""
    import witness
    M = module(); name = (n if n != 'pt' else 'pT') + f'_reg{k}'
    fs = [f for f in M.fns.values() if f.name.split('::')[-1] == name and f.name.startswith('seuif97')]
    if len(fs) != 1: return None
    X = Exec(M, None); rnd = random.Random(SEED); g = grid(n); rnd.shuffle(g); qs = []
    for x, y in g[:60]:
        for o in [15, 16, -7, 77] + [i for i in (0, 1, 3, 4, 5, 8, 20) if i not in OWN[n]]: qs.append((n, x, y, o, k))
    hits = 0
    for q, r in zip(qs, rp.many(qs, 120)):
        o = q[3]
        if o == 16: w = float(k)
        elif o == 15 and k != 4: w = {1: 0.0}.get(k, 1.0)
        else:
            try: w = witness.icall(X, fs[0].name, [q[1], q[2] + 273.15 if n == 'pt' else q[2], o])
            except Unsupported: continue
        hits += 1
        if r == w or (r != r and w != w) or (isinstance(r, float) and abs(r - w) <= 1e-9 * (abs(r) + abs(w))): continue
        return f'{q} = {r}, but {name} gives {w}', {'query': q, 'got': r, 'expected': w}
    return None
def body_compare(ck, n, k):
    """inlined comparison of vr_n(.,.,o,k) with the named region function for every documented id"""
    M = module()
    cand = [x for x in ((n if n != 'pt' else 'pT') + f'_reg{k}',)]
    fs = [f for f in M.fns.values() if f.name.split('::')[-1] == cand[0]]
    if len(fs) != 1: return False
    X = Exec(M, pol_scalar)
    try:
        for o in [i for i in range(36) if i not in OWN[n] and i not in (15, 16)] + [77]:
            l = X.run(X.find('vr_' + n), [a, b, o, k]); r = X.run(fs[0], [a, (b + fc(273.15)) if n == 'pt' else b, o])
            if len(l) == len(r) == 1 and l[0].status == 'ret':
                if not identical(l[0].ret, r[0].ret): return False
            elif sorted(pathkey(p) for p in l) != sorted(pathkey(p) for p in r): return False
    except Unsupported: return False
    return True

UNDOC = [(-(1 << 31), -1), (36, (1 << 31) - 1)]
MIX = [IDS[c] for c in 'P T D V H S E U F G X R'.split()]
def c06():
    ck = Check('C06'); M = module(); X = Exec(M, pol_scalar_det)
    m1000 = lambda p: p.status == 'ret' and isinstance(p.ret, N) and cval(p.ret) == -1000.0
    UID = [-2147483648, -1, 36, 37, 100, 999, 2147483647, -1000, 40, 64]
    def fallback(nm, qs, bad):
        rs = replay().many(qs, 60)
        for q, r in zip(qs, rs):
            if r != -1000.0: ck.violate(nm, f'{q} = {r}, expected -1000', {'query': q, 'got': r}, str(bad)[:600]); return
        if qs and (X.used or not bad): ck.bounded(nm, f'dispatch not followed to the end ({sorted(X.used)[:3]}); {len(qs)} replayed queries answer -1000')
        else: ck.violate(nm, 'a path of the dispatch does not yield -1000', None, str(bad)[:800])
    o = iv('o')
    for n in API2:
        for k in (1, 2, 3, 5):
            nm = f'{n} region {k}: undocumented id -> -1000'
            ps = X.run(X.find('vr_' + n), [a, b, o, k], [(iset(o, UNDOC), True)])
            if ps and all(m1000(p) for p in ps): ck.ok(nm, 'symbolic execution (id symbolic over all 2^32-36 values)')
            else:
                ids = [i for p in ps if not m1000(p) for d in p.cons.idom.get(o.id, ()) for i in d]
                qs = [(n, x, y, i, k) for i in sorted(set(ids + UID)) for x, y in grid(n)[::7]]
                fallback(nm, qs, [p for p in ps if not m1000(p)][:1])
        # automatic detection, single phase
        ps = X.run(X.find('v_' + n), [a, b, o], [(iset(o, UNDOC), True)])
        det = det_node(X, ps)
        nm = f'{n} automatic: undocumented id -> -1000 in regions 1,2,3,5'
        if len(det) == 1:
            d = list(det)[0]
            ps = X.run(X.find('v_' + n), [a, b, o], [(iset(o, UNDOC), True), (iset(d, [(1, 3), (5, 5)]), True)])
            if ps and all(m1000(p) for p in ps): ck.ok(nm, 'symbolic execution'); nm = None
        if nm:
            g = grid(n); rs = replay().many([(n, x, y, 16, None) for x, y in g])
            qs = [(n, x, y, i, None) for (x, y), r in zip(g, rs) if r in (1., 2., 3., 5.) for i in UID]
            fallback(nm, qs, ps[:1])
        # wet steam
        nm = f'{n} region 4, 0<x<1: ids without mixture meaning -> -1000'
        nomix = compl([(i, i) for i in MIX + list(OWN[n])])
        if n == 'pt': pre = []; nm = 'pt region 4 (saturation line): no property value, only -1000 or the critical state'
        else:
            xp = X.run(X.find('vr_' + n), [a, b, 15, 4])
            pre = [q.cons.atoms + [(mkrel(GT, q.ret, fc(0.0)), True), (mkrel(LT, q.ret, fc(1.0)), True)] for q in xp if q.status == 'ret']
        if n == 'pt': pre = [[]]
        if pre:
            ps = []
            for pp in pre: ps += X.run(X.find('vr_' + n), [a, b, o, 4], pp + [(iset(o, nomix if n != 'pt' else compl([(i, i) for i in OWN['pt'] + (16,)])), True)])
            if n == 'pt': ps = [p for p in ps if not any(c.op == 'rel' and c.a[0] == EQ and v for c, v in p.cons.atoms)]
            if ps and all(m1000(p) for p in ps): ck.ok(nm, 'symbolic execution'); continue
        g = grid(n, random.Random(SEED), 300); rs = replay().many([(n, x, y, 15, None) for x, y in g])
        rg = replay().many([(n, x, y, 16, None) for x, y in g])
        qs = [(n, x, y, i, None) for (x, y), r, q in zip(g, rs, rg) if q == 4. and isinstance(r, float) and 0 < r < 1 for i in [j for j in range(36) if j not in MIX + list(OWN[n])] + UID]
        fallback(nm, qs, [p for p in (ps if pre else []) if not m1000(p)][:1])
    for n in API1:
        lo, hi = XR[n]
        nm = f'{n}: undocumented id -> -1000 on the closed range'
        ps = X.run(X.find('v_' + n), [a, b, o], rng(a, lo, hi) + rng(b, 0.0, 1.0) + [(iset(o, UNDOC), True)])
        if ps and all(m1000(p) for p in ps): ck.ok(nm, 'symbolic execution (id symbolic)')
        else: fallback(nm, [(n, lo + (hi - lo) * i / 40, x, u, None) for i in range(41) for x in (0., 0.3, 1.) for u in UID], [p for p in ps if not m1000(p)][:1])
        nm = f'{n}, 0<x<1: ids without mixture meaning -> -1000'
        pre = rng(a, lo, hi) + [(mkrel(GT, b, fc(0.0)), True), (mkrel(LT, b, fc(1.0)), True)]
        nomix = compl([(i, i) for i in MIX])
        ps = X.run(X.find('v_' + n), [a, b, o], pre + [(iset(o, nomix), True)])
        if ps and all(m1000(p) for p in ps): ck.ok(nm, 'symbolic execution (id symbolic)')
        else: fallback(nm, [(n, lo + (hi - lo) * i / 40, x, u, None) for i in range(41) for x in (0.1, 0.3, .9) for u in [j for j in range(36) if j not in MIX] + UID], [p for p in ps if not m1000(p)][:1])
    ck.fns |= set(API2 + API1); ck.need(50)
    return ck.finish(TB)
