"""Function contracts: verification of each named function of the crate against if97.py, and the policy that
substitutes verified contracts at call sites (a caller sees the callee's contract, never its body)."""
from engine import *
import if97, time
from if97 import SIMPLE, PIECE
import sym, core, re
TB97 = ['rustc 1.99 front end up to LLVM IR (opt-level 0)', 'vc/ir.py + vc/sym.py (IR reader, symbolic executor)', 'vc/core.py polynomial identity test over F_(2^127-1): real arithmetic, error probability < 1e-30 per obligation', 'spec/tables.json (IAPWS coefficients frozen from the pinned upstream transcription and checked against the published verification values)']
AS97 = ['floating-point operations are treated as real arithmetic (identities hold up to rounding)', 'exp, log and non-half-integer powers are uninterpreted functions of their argument']
for _n, (_f, _e) in SIMPLE.items(): INT.add(_n, _f, _e)

def short(n): return n.split('::')[-1]
class Contracts:
    def __init__(s, names=None, panics=False):
        s.M = module(); s.ok = {}; s.failed = {}; s.missing = []; s.bynm = {}; s.cache = {}
        for f in s.M.fns.values():
            if f.name.startswith('seuif97::'): s.bynm.setdefault(short(f.name), []).append(f)
        s.names = list(names or list(SIMPLE) + list(PIECE)); s.verifying = None; s.state = {}
        s.X = Exec(s.M, s.policy)
    def sig_ok(s, nm, nargs):
        l = s.bynm.get(nm)
        return bool(l) and len(l) == 1 and l[0].ret.k == 'double' and len(l[0].params) == nargs and all(p[0].k == 'double' for p in l[0].params)
    def formals(s, nm): return SIMPLE[nm][0] if nm in SIMPLE else PIECE[nm][0]
    def holds(s, nm):
        """verify on demand (callees first: recursion through policy)"""
        if nm not in SIMPLE and nm not in PIECE or nm not in s.names: return False
        r = s.state.get(nm)
        if r is None:
            if not s.sig_ok(nm, len(s.formals(nm))):
                s.state[nm] = False; s.missing.append(nm); return False
            s.state[nm] = False   # while in progress (no recursion among contracts)
            r = s.state[nm] = s.verify(nm)
        return r
    def policy(s, name, args, X):
        if not name.startswith('seuif97::'): return None
        nm = short(name)
        if (nm in SIMPLE or nm in PIECE) and nm in s.names and s.bynm.get(nm) and s.bynm[nm][0].name == name and nm not in s.active and s.holds(nm):
            return mk('call', nm, *args)
    active = ()
    def verify(s, nm):
        a0 = s.active; s.active = a0 + (nm,)
        X = Exec(s.M, s.policy)
        try:
            fm = s.formals(nm); f = s.bynm[nm][0]
            ps = X.run(f, list(fm))
            m = re.search(r'_reg([1235])$', nm)
            core.POS[:] = SIGN[int(m.group(1))] if m and nm in PIECE_PRE else []
            if nm in SIMPLE: w = cases_ok(ps, [([], SIMPLE[nm][1])], PIECE_PRE.get(nm, ()))
            else: w = cases_ok(ps, PIECE[nm][1], PIECE_PRE.get(nm, ()))
            if w is None: s.ok[nm] = 'PIT' if nm in SIMPLE else 'PIT + z3 case analysis'; return True
            s.failed[nm] = w; return False
        except Unsupported as e:
            s.failed[nm] = ('unsupported: ' + str(e)[:200], None, None); return False
        finally: s.active = a0; core.POS[:] = []
    def verify_all(s):
        for n in s.names: s.holds(n)
        return s
PIECE_PRE = {}
from if97 import p as _p, T as _T, d as _d, gamma1, gamma2, gamma5, PROPS
_pi, _tau = fv('pi'), fv('tau')
GPI = {k: subst(diff(g(_pi, _tau), _pi), {_pi.id: _p / ps, _tau.id: ts / _T}) for k, g, ps, ts in ((1, gamma1, 16.53, 1386.0), (2, gamma2, 1.0, 540.0), (5, gamma5, 1.0, 1000.0))}
W2 = {k: o['W'].a[0] for k, (f, o) in PROPS.items()}
# sign facts used by the algebra of square roots (all are consequences of C18 on the validity range)
SIGN = {k: [_p, _T, GPI[k]] for k in GPI}; SIGN[3] = [_T, _d]
for _k in (1, 2, 3, 5):
    for _n in ('w', 'ks', 'k'): PIECE_PRE[('Td2%s_reg%d' if _k == 3 else 'pT2%s_reg%d') % (_n, _k)] = [(mkrel(GT, W2[_k], fc(0.0)), True)]
AS_SIGN = 'v > 0 and w^2 > 0 (regions 1,2,5: established by C18 on the validity range; region 3: assumed) where square roots are rearranged'
def cases_ok(paths, cases, pre=(), memo=None):
    """every code path agrees with every specification case it can meet; None or (why, path, case)"""
    if not paths: return ('no path', None, None)
    for pth in paths:
        for conds, e in cases:
            if pth.status == 'ret' and isinstance(pth.ret, N) and agree(pth.ret, e): continue
            z = zatoms(pth.cons.atoms) + zatoms(conds) + [zrel(c, v) for c, v in pre]
            r = sat(z)
            if r is False: continue
            return ('path and case disagree' + ('' if r else ' (feasibility unknown)'), pth, (conds, e))
    return None
_ag = {}
def agree(x, y):
    k = (x.id, y.id, tuple(n.id for n in core.POS)); r = _ag.get(k)
    if r is None:
        ca, cb = cval(x), cval(y)
        if ca is not None and cb is not None and x.op == 'c' and y.op == 'c': r = ca == cb
        elif (x.op == 'c') != (y.op == 'c'): r = False
        else:
            ps, core.POS[:] = list(core.POS), []
            try: r = identical(x, y)
            except IllDefined: r = False
            core.POS[:] = ps
            if not r and ps:
                try: r = identical(x, y)
                except Unsupported: r = False
        _ag[k] = r
    return r
