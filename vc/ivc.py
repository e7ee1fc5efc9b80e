"""C kernels for ivl.py: interval evaluation of expression DAGs in directed rounding (FE_UPWARD, intervals kept as (-lo, hi)).
One kernel decides, for an array of boxes, whether each box is outside the domain, closed by the natural / mean value / Taylor
form, or must be split."""
import os, ctypes, hashlib, subprocess, tempfile, math
import numpy as np
import build
from core import nodes, Unsupported, N, b2f, cval, frac
from fractions import Fraction
PRE = r'''
#include <math.h>
#include <fenv.h>
typedef struct {double n,h;} I;
#define INF __builtin_inf()
static const I WHOLE={INF,INF};
static inline I mk(double lo,double hi){I r={-lo,hi};return r;}
static inline I chk(I r){ if(r.n!=r.n||r.h!=r.h) return WHOLE; return r;}
static inline I add(I a,I b){I r={a.n+b.n,a.h+b.h};return chk(r);}
static inline I sub(I a,I b){I r={a.n+b.h,a.h+b.n};return chk(r);}
static inline I neg(I a){I r={a.h,a.n};return r;}
static double mx(double a,double b,double c,double d){double x=a>b?a:b,y=c>d?c:d;return x>y?x:y;}
static __attribute__((noinline)) I mul(I a,I b){
  double al=-a.n,bl=-b.n;
  double p=al*bl,q=al*b.h,r=a.h*bl,s=a.h*b.h; if(!(p==p&&q==q&&r==r&&s==s)) return WHOLE;
  I z; z.h=mx(p,q,r,s); z.n=mx(a.n*bl,a.n*b.h,(-a.h)*bl,(-a.h)*b.h); return chk(z);}
static __attribute__((noinline)) I dvi(I a,I b){
  double al=-a.n,bl=-b.n; if(bl<=0&&b.h>=0) return WHOLE;
  double p=al/bl,q=al/b.h,r=a.h/bl,s=a.h/b.h; if(!(p==p&&q==q&&r==r&&s==s)) return WHOLE;
  I z; z.h=mx(p,q,r,s); z.n=mx(a.n/bl,a.n/b.h,(-a.h)/bl,(-a.h)/b.h); return chk(z);}
/* x>=0: upper bound of x^k, and minus the lower bound */
static double pu(double x,int k){double r=1;while(k){if(k&1)r*=x;k>>=1;if(k)x*=x;}return r;}
static double pd(double x,int k){double r=1,t;while(k){if(k&1){t=(-r)*x;r=-t;}k>>=1;if(k){t=(-x)*x;x=-t;}}return -r;}
static __attribute__((noinline)) I pw(I a,int k){
  double l=-a.n,h=a.h; I r; if(!(l==l&&h==h)) return WHOLE;
  if(k<0){I o={-1,1};return dvi(o,pw(a,-k));}
  if(k==0){I o={-1,1};return o;}
  if(k==1) return a;
  if(l>=0){r.n=pd(l,k);r.h=pu(h,k);}
  else if(h<=0){ if(k&1){r.n=pu(-l,k);r.h=pd(-h,k);} else {r.n=pd(-h,k);r.h=pu(-l,k);} }
  else if(k&1){r.n=pu(-l,k);r.h=pu(h,k);} else {double m=-l>h?-l:h;r.n=0;r.h=pu(m,k);}
  return chk(r);}
static I wide(double lo,double hi){double e=8*0x1p-52; I r; r.h=hi+fabs(hi)*e+5e-324; r.n=-lo+fabs(lo)*e+5e-324; return chk(r);}
static __attribute__((noinline)) I sqi(I a){double l=-a.n; if(l<0) return WHOLE; double s=sqrt(l); s=nextafter(nextafter(s,-INF),-INF); if(s<0) s=0; I r={-s,nextafter(sqrt(a.h),INF)}; return chk(r);}
/* square root of an argument that is known not to be negative */
static I sqc(I a){ if(a.h<0) return WHOLE; if(a.n>0) a.n=0; return sqi(a);}
static __attribute__((noinline)) I exi(I a){fesetround(FE_TONEAREST);double l=exp(-a.n),h=exp(a.h);fesetround(FE_UPWARD);I r=wide(l,h);if(r.n>0)r.n=0;return r;}
static __attribute__((noinline)) I lgi(I a){if(-a.n<=0){ I w={INF,INF}; if(a.h>0){fesetround(FE_TONEAREST);double h=log(a.h);fesetround(FE_UPWARD);I r=wide(h,h);w.h=r.h;} return w;}
  fesetround(FE_TONEAREST);double l=log(-a.n),h=log(a.h);fesetround(FE_UPWARD);return wide(l,h);}
static I fab(I a){double l=-a.n;if(l>=0)return a;if(a.h<=0)return neg(a);I r={0,-l>a.h?-l:a.h};return r;}
static I meet(I a,I b){I r={a.n<b.n?a.n:b.n,a.h<b.h?a.h:b.h};return r;}
static double wd(I a){double w=a.h+a.n;return (w==w&&w<INF)?w:1e300;}
'''
class Gen:
    def __init__(s, names): s.o = []; s.k = 0; s.names = names; s.cn = {}
    def const(s, n):
        e = n.id
        if e not in s.cn:
            c = b2f(n.a[0])
            if c != c or abs(c) == math.inf: raise Unsupported('non-finite constant in an interval kernel')
            f = frac(n.a[0])
            lo = hi = c
            if Fraction(c) != f:
                if Fraction(c) < f: hi = math.nextafter(c, math.inf)
                else: lo = math.nextafter(c, -math.inf)
            s.cn[e] = (len(s.cn), (-lo).hex(), hi.hex())
        return f'K{s.cn[e][0]}'
    def ev(s, n, memo, var):
        """emit code for node n; memo: node id -> C name; var: variable name -> C name"""
        st = [n]
        while st:
            k = st[-1]
            if k.id in memo: st.pop(); continue
            w = [x for x in k.a if isinstance(x, N) and x.id not in memo]
            if w: st += w; continue
            st.pop(); op, q = k.op, k.a
            v = [memo[x.id] if isinstance(x, N) else x for x in q]
            if op == 'c': memo[k.id] = s.const(k); continue
            if op == 'v': memo[k.id] = var[q[0]]; continue
            if op == 'fadd': r = f'add({v[0]},{v[1]})'
            elif op == 'fsub': r = f'sub({v[0]},{v[1]})'
            elif op == 'fmul': r = f'mul({v[0]},{v[1]})' if q[0] is not q[1] else f'pw({v[0]},2)'
            elif op == 'fdiv': r = f'dvi({v[0]},{v[1]})'
            elif op == 'fneg': r = f'neg({v[0]})'
            elif op == 'powi': r = f'pw({v[0]},{int(v[1])})'
            elif op == 'sqrt': r = f'sqi({v[0]})'
            elif op == 'sqrtc': r = f'sqc({v[0]})'
            elif op == 'exp': r = f'exi({v[0]})'
            elif op == 'log': r = f'lgi({v[0]})'
            elif op == 'fabs': r = f'fab({v[0]})'
            elif op == 'fma': r = f'add(mul({v[0]},{v[1]}),{v[2]})'
            elif op == 'pow':
                e = cval(q[1])
                if e == 0.5: r = f'sqi({v[0]})'
                elif e == 0.25: r = f'sqi(sqi({v[0]}))'
                elif e is not None and e == int(e) and abs(e) < 1e6: r = f'pw({v[0]},{int(e)})'
                else: r = f'exi(mul({v[1]},lgi({v[0]})))'
            else: raise Unsupported('iv ' + op)
            s.k += 1; s.o.append(f'I t{s.k}={r};'); memo[k.id] = f't{s.k}'
        return memo[n.id]
    def new(s, r): s.k += 1; s.o.append(f'I t{s.k}={r};'); return f't{s.k}'
def kernel(names, out, tight, gs, dgs, e, G, H, lim):
    """prove kernel (gs with gradients dgs) or bound kernel (e, gradient G, hessian H, limit lim).  tight: [(node, [derivs])]"""
    nv = len(names); g = Gen(names); o = g.o
    bv = {n: f'B{i}' for i, n in enumerate(names)}; cv = {n: f'C{i}' for i, n in enumerate(names)}
    for i in range(nv): o.append(f'I B{i}=mk(L[{i}*m+j],H[{i}*m+j]); double M{i}=L[{i}*m+j]+(H[{i}*m+j]-L[{i}*m+j])*0.5; if(M{i}>H[{i}*m+j])M{i}=H[{i}*m+j]; if(M{i}<L[{i}*m+j])M{i}=L[{i}*m+j]; I C{i}=mk(M{i},M{i}); I D{i}=sub(B{i},C{i});')
    mo = {}
    for d in out: o.append(f'if({g.ev(d, mo, bv)}.h<0){{F[j]=2;continue;}}')
    mb, mc = {}, {}
    for t, ds in tight:
        nat = g.ev(t, mb, bv); acc = g.ev(t, mc, cv)
        for i, d in enumerate(ds): acc = g.new(f'add({acc},mul({g.ev(d, mb, bv)},D{i}))')
        mb[t.id] = g.new(f'meet({nat},{acc})')
    for i in range(nv): o.append(f'double S{i}=0;')
    if e is None:
        o.append('int ok=1;')
        for x in gs: o.append(f'if(!({g.ev(x, mb, bv)}.n<0)) ok=0;')
        o.append('if(ok){F[j]=1;continue;}')
        if dgs:
            o.append('ok=1;')
            for x, ds in zip(gs, dgs):
                nat = g.ev(x, mb, bv); acc = cen = g.ev(x, mc, cv); o.append(f'double a{g.k}=fabs({cen}.h)+1e-300;'); den = f'a{g.k}'
                for i, d in enumerate(ds):
                    t = g.new(f'mul({g.ev(d, mb, bv)},D{i})'); acc = g.new(f'add({acc},{t})'); o.append(f'S{i}+=wd({t})/{den};')
                o.append(f'if(!({nat}.n<0||{acc}.n<0)) ok=0;')
            o.append('if(ok){F[j]=1;continue;}')
    else:
        acc = g.ev(e, mc, cv)
        for i in range(nv): t = g.new(f'mul({g.ev(G[i], mc, cv)},D{i})'); acc = g.new(f'add({acc},{t})'); o.append(f'S{i}+=wd({t});')
        for (i, k), h in H.items():
            t = g.new(f'mul({g.ev(h, mb, bv)},' + (f'pw(D{i},2))' if i == k else f'mul(D{i},D{k}))'))
            if i == k: t = g.new(f'mul({t},mk(0.5,0.5))')
            acc = g.new(f'add({acc},{t})'); o.append(f'S{i}+=wd({t});S{k}+=wd({t});')
        o.append(f'if({acc}.n<{float(lim).hex()}&&{acc}.h<{float(lim).hex()}){{F[j]=1;continue;}}')
    o.append('F[j]=0;' + ''.join(f'S[{i}*m+j]=S{i};' for i in range(nv)))
    src = PRE + ''.join(f'static const I K{i}={{{a},{b}}};\n' for i, a, b in g.cn.values()) + '__attribute__((optimize("no-tree-vectorize"))) void run(long m,const double*L,const double*H,unsigned char*F,double*S){fesetround(FE_UPWARD);for(long j=0;j<m;j++){\n' + '\n'.join(o) + '\n}fesetround(FE_TONEAREST);}\n'
    return load(src, nv)
_lib = {}
def load(src, nv):
    k = hashlib.sha256(src.encode()).hexdigest()[:24]
    if k in _lib: return _lib[k]
    d = os.path.join(build.B, 'ivk'); os.makedirs(d, exist_ok=True); so = f'{d}/{k}.so'
    if not os.path.exists(so):
        c = f'{d}/{k}.{os.getpid()}.c'; open(c, 'w').write(src)
        r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-frounding-math', '-fno-math-errno', '-ffp-contract=off', '-w', '-o', f'{so}.{os.getpid()}', c, '-lm'], capture_output=True, text=True)
        os.unlink(c)
        if r.returncode: raise Unsupported('interval kernel does not compile: ' + r.stderr[:300])
        os.rename(f'{so}.{os.getpid()}', so)
    f = ctypes.CDLL(so).run; f.restype = None
    P = ctypes.POINTER(ctypes.c_double)
    def run(L, H):
        L, H = np.ascontiguousarray(L), np.ascontiguousarray(H); m = L.shape[1]; F = np.zeros(m, np.uint8); S = np.zeros((nv, m))
        f(ctypes.c_long(m), L.ctypes.data_as(P), H.ctypes.data_as(P), F.ctypes.data_as(ctypes.POINTER(ctypes.c_ubyte)), S.ctypes.data_as(P))
        return F, S
    _lib[k] = run
    return run
