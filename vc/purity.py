"""C08: frame condition. Every function reachable from the public API writes only its own
stack slots: no mutable or thread-local global is referenced, no callee outside the crate
is reached except pure intrinsics, allocation and panics, no atomics, volatile accesses,
inline assembly or integer-to-pointer conversions."""
from engine import *
from ir import Reg, G, Agg
PURE = {'sqrt', 'exp', 'log', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'tan', 'exp2', 'log2', 'log10', 'rint', 'roundeven', 'pow', 'powi', 'fma', 'fmuladd',
        'maxnum', 'minnum', 'maximumnum', 'minimumnum', 'copysign', 'sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul', 'memcpy', 'memmove', 'memset', 'umax', 'umin', 'smax', 'smin', 'abs',
        'expect', 'fptosi', 'fptoui', 'trap', 'lifetime', 'assume', 'donothing', 'experimental', 'ctpop', 'ctlz', 'cttz', 'bswap', 'fshl', 'fshr', 'ubsantrap', 'is', 'sinh', 'cosh', 'tanh', 'atan', 'asin', 'acos', 'atan2', 'maximum', 'minimum', 'scmp', 'ucmp', 'load', 'nearbyint', 'usub', 'bitreverse', 'canonicalize', 'ptrmask', 'threadlocal_'}
LIBM = sym.LIBM1 | {'pow', 'exp', 'log', 'sqrt', 'hypot', 'fmod', 'sin', 'cos', 'atan2', 'ldexp', 'frexp', 'memcmp', 'bcmp', 'memcpy', 'memset', 'memmove'}
EXT_OK = re.compile(r'panic|unwrap_failed|expect_failed|slice_index|slice_(start|end)_index|unreachable|handle_alloc_error|capacity_overflow|^alloc::|^<?&?alloc::|^core::|rust_alloc|rust_dealloc|rust_realloc|rust_no_alloc|eh_personality|_Unwind_Resume')

def globals_of(v, out):
    if isinstance(v, G): out.add(v.name)
    elif isinstance(v, Agg):
        for x in v.v: globals_of(x, out)
    elif isinstance(v, (tuple, list)):
        for x in v: globals_of(x, out)
def scan(M, roots):
    seen = set(); work = list(roots); issues = []; glob = set(); nins = 0; unk = []
    while work:
        s = work.pop()
        while s in M.aliases: s = M.aliases[s]
        if s in seen: continue
        seen.add(s)
        if s in M.globals:
            g = M.globals[s]
            if g['kind'] != 'constant' or g['tls']: issues.append((s, 'mutable or thread-local global'))
            elif g.get('err'): issues.append((s, 'unreadable constant: ' + g['err']))
            else:
                o = set(); globals_of(g['init'], o); work += o
            glob.add(s); continue
        if s.startswith('@llvm.'):
            n = s.split('.')[1]
            if n not in PURE: issues.append((s, 'intrinsic with possible effects'))
            continue
        f = M.fns.get(s)
        if f is None and s in M.bad: unk.append(s); continue
        if f is None:
            n = ir.demangle(s)
            if s.lstrip('@') in LIBM or EXT_OK.search(n) or EXT_OK.search(s): continue
            issues.append((s, 'external function ' + n)); continue
        for b in f.blocks.values():
            for i in b:
                nins += 1
                if i.op == 'unsupported':
                    issues.append((f.name, 'instruction outside the fragment: ' + str(i.a[1])[:120])); continue
                if i.op == 'cast' and i.a[0] == 'inttoptr': issues.append((f.name, 'integer to pointer conversion'))
                o = set(); globals_of(i.a, o)
                work += o
    return seen, issues, nins, unk
def c08():
    ck = Check('C08'); M = module(); rp = None
    unparsed = []
    allf = set(); allins = 0; iss = []
    for n in ['v_' + x for x in API2 + API1] + ['vr_' + x for x in API2]:
        f = [g for g in M.fns.values() if g.name == n]
        if len(f) != 1: raise Unsupported('entry point ' + n)
        seen, issues, k, unk = scan(M, [f[0].sym])
        iss += issues; unparsed += unk
        for s in seen:
            if s in M.fns: allf.add(M.fns[s].name)
    if unparsed and not iss: raise Unsupported('unparsed functions: ' + str([(x, M.bad.get(x)) for x in unparsed[:2]]))
    if not iss:
        for fn in sorted(allf): ck.ok('frame: ' + fn + ' writes only its own stack slots', 'IR frame scan')
    ck.fns |= {x for x in allf if x.startswith('seuif97')}
    if iss:
        # look for an observable history dependence
        rp = replay(); from dispatch import grid
        rnd = random.Random(SEED); qs = []
        for n in API2:
            for x, y in grid(n, rnd, 60)[::5]: 
                for o in (0, 1, 3, 4, 5, 15, 16, 8, 24): qs.append((n, x, y, o, None))
        for n in API1:
            from dispatch import XR
            for i in range(40):
                for o in (0, 1, 4, 5): qs.append((n, XR[n][0] + (XR[n][1] - XR[n][0]) * rnd.random(), rnd.choice([0., 1., .3, .8]), o, None))
        fresh = rp.many(qs, 100); order = list(range(len(qs))); wit = None
        for t in range(8):
            if t < 4: rnd.shuffle(order)
            elif t == 4: order.sort(key=lambda i: (qs[i][0], qs[i][3], qs[i][1], qs[i][2]))
            elif t == 5: order.sort(key=lambda i: (qs[i][0], qs[i][3], qs[i][2], qs[i][1]))
            else: order.reverse()
            r = rp.many([qs[i] for i in order], 100)
            for i, v in zip(order, r):
                if not eqb(v, fresh[i]): wit = {'query': qs[i], 'first_order': fresh[i], 'other_order': v, 'history_seed': t}; break
            if wit: break
        if not wit:   # repeated / neighbouring queries
            seq = []
            for q in qs[::3]: seq += [q, (q[0], q[1], math.nextafter(q[2], math.inf) if q[0] in API2 else q[2], q[3], None), (q[0], q[1] * (1 + 1e-13), q[2], q[3], None), q]
            r1 = rp.many(seq, 100); solo = {}
            r2 = rp.many(list(reversed(seq)), 100)[::-1]
            for q, x, y in zip(seq, r1, r2):
                if not eqb(x, y): wit = {'query': q, 'forward': x, 'backward': y}; break
        for s, w in iss[:5]:
            ck.violate('frame: ' + s, w + (f'; history dependence: {wit}' if wit else ''), wit, w)
    ck.need(60)
    return ck.finish(['rustc front end up to LLVM IR', 'vc/ir.py', 'LLVM `constant` globals are never written (stores to them are undefined behaviour)', 'core/alloc library functions outside the crate IR keep no state'],
                     extra={'reachable_functions': len(allf)})
def eqb(x, y): return x == y or (isinstance(x, float) and isinstance(y, float) and build.bits(x) == build.bits(y))
