"""The specification: IAPWS-IF97 (R7-97(2012)) and its supplementary releases, written as generating functions
g(p,T) / f(rho,T), published backward equations, published sub-region rules and transport correlations.
Everything derived (v,h,s,cp,w,...) is obtained by symbolic differentiation, never transcribed.
The coefficient tables are frozen in spec/tables.json."""
import json, os
from core import *
import build
TAB = json.load(open(os.path.join(build.V, 'spec/tables.json')))
def tab(k): return TAB[k]
R = 0.461526; TC, PC, DC = 647.096, 22.064, 322.0
p, T, d, h, s, v, x = (fv(n) for n in ('p', 'T', 'd', 'h', 's', 'v', 'x'))

# ---------------------------------------------------------------- basic equations
def gamma1(pi, tau): return poly(7.1 - pi, tau - 1.222, tab('region1_gfe.IJn'))
def gamma2(pi, tau):
    r = log(pi)
    for j, n in zip(tab('region2_gfe.J0'), tab('region2_gfe.n0')): r = r + n * tau ** j
    return r + poly(pi, tau - 0.5, tab('region2_gfe.IJn'))
def gamma5(pi, tau):
    r = log(pi)
    for j, n in zip(tab('region5_gfe.Jo'), tab('region5_gfe.no')): r = r + n * tau ** j
    return r + poly(pi, tau, tab('region5_gfe.IJn'))
def phi3(de, tau): return 0.10658070028513e1 * log(de) + poly(de, tau, tab('region3_hfe.IJn'))
G = {1: R * T * gamma1(p / 16.53, 1386.0 / T), 2: R * T * gamma2(p / 1.0, 540.0 / T), 5: R * T * gamma5(p / 1.0, 1000.0 / T)}
F3 = R * T * phi3(d / DC, TC / T)

# ---------------------------------------------------------------- transport
def viscosity(rho, T):
    tr = T / TC; dr = rho / DC; sm = None
    for i, n in enumerate(tab('transport_further.viscosity.no')):
        t = n / tr ** i if i else fc(n); sm = t if sm is None else sm + t
    return 100.0 * sqrt(tr) / sm * exp(dr * poly(1.0 / tr - 1.0, dr - 1.0, tab('transport_further.viscosity.ijH'))) * 1e-6
def thcond(rho, T):
    tr = T / TC; dr = rho / DC; sm = None
    for i, n in enumerate(tab('transport_further.thcond.no')):
        t = n / tr ** i if i else fc(n); sm = t if sm is None else sm + t
    t2 = poly(1.0 / tr - 1.0, dr - 1.0, [(i, j, n) for i, l in enumerate(tab('transport_further.thcond.nij')) for j, n in enumerate(l) if n])
    return 1e-3 * (sqrt(tr) / sm * exp(dr * t2))
def surft(T):
    t = 1.0 - T / TC
    return 1e-3 * (235.8 * mk('pow', t, fc(1.256)) * (1.0 - 0.625 * t))
def diel(rho, T):
    k, Na, al, e0, mu, M = 1.380658e-23, 6.0221367e23, 1.636e-40, 8.854187817e-12, 6.138e-30, 0.018015268
    I, J, n = (tab('transport_further.static_dielectric.' + q) for q in 'IJn')
    de = rho / DC; tr = TC / T
    g = 1.0 + n[11] * de / mk('pow', TC / 228.0 / tr - 1.0, fc(1.2))
    for i in range(11): g = g + n[i] * de ** I[i] * mk('pow', tr, fc(J[i]))
    A = Na * mu * mu * rho * g / M / e0 / k / T
    B = Na * al * rho / 3.0 / M / e0
    c = 9.0 + 2.0 * A + 18.0 * B + A * A + 10.0 * A * B + 9.0 * B * B
    return (1.0 + A + 5.0 * B + sqrt(c)) / 4.0 / (1.0 - B)
FORM = {'viscosity': ((d, T), viscosity(d, T)), 'thcond': ((d, T), thcond(d, T)), 'static_dielectric': ((d, T), diel(d, T))}

# ---------------------------------------------------------------- all 36 properties of a single-phase state
def props(reg):
    """(formals, {id: node}) ; formals (p,T), region 3 (T,d)"""
    if reg == 3:
        f = F3; fT, fd = diff(f, T), diff(f, d)
        P = 1e-3 * d * d * fd                       # MPa  (f in kJ/kg)
        S = -fT; V = 1.0 / d; U = f + T * S; Hh = U + 1e3 * P * V; Gg = f + 1e3 * P * V; Ff = f
        pT, pd = diff(P, T), diff(P, d)             # (dp/dT)_d, (dp/dd)_T
        CV = -(T * diff(fT, T))
        dvdT = pT / (d * d * pd)                    # (dv/dT)_p = -(dp/dT)_v/(dp/dv)_T, dp/dv = -d^2 dp/dd
        dvdp = -(1.0 / (d * d * pd))
        dpdT = pT
        CP = CV + 1e3 * T * pT * pT / (d * d * pd)
        W2 = 1e6 * (pd + 1e3 * T * pT * pT / (d * d * CV) * 1.0)  # w^2 = (dp/drho)_T + T (dp/dT)^2/(rho^2 cv)
        # units: pd in MPa m3/kg = 1e6 m2/s2 ; T pT^2/(d^2 cv): MPa^2 m6/(kg kJ) = 1e3 MPa m3/kg
        fm = (T, d); dd = d
    else:
        g = G[reg]; gp, gT = diff(g, p), diff(g, T); P = p
        V = 1e-3 * gp; S = -gT; Gg = g; Hh = g + T * S; U = Hh - 1e3 * p * V; Ff = U - T * S
        gTT, gpT, gpp = diff(gT, T), diff(gp, T), diff(gp, p)
        CP = -(T * gTT); CV = CP + T * gpT * gpT / gpp
        dvdT, dvdp = 1e-3 * gpT, 1e-3 * gpp; dpdT = -(dvdT / dvdp)
        W2 = 1e3 * gp * gp * gTT / (gpT * gpT - gpp * gTT)
        fm = (p, T); dd = 1.0 / V
    o = {}
    o['V'] = V; o['D'] = dd; o['H'] = Hh; o['S'] = S; o['U'] = U; o['CP'] = CP; o['CV'] = CV; o['W'] = sqrt(W2); o['P'] = P
    o['F'] = Ff; o['G'] = Gg; o['Z'] = 1e3 * P * V / (R * T); o['E'] = Hh - 273.16 * S
    o['KS'] = 1e-6 * W2 / (P * V)
    o['DVDT'] = dvdT; o['DVDP'] = dvdp; o['DPDT'] = dpdT
    o['EC'] = dvdT / V; o['KT'] = -(dvdp / V); o['PC'] = dpdT / P; o['BETAP'] = -(1.0 / (P * dvdp)); o['ALFAP'] = dpdT / P
    o['JTC'] = 1e3 * (T * dvdT - V) / CP; o['IJTC'] = 1e3 * (V - T * dvdT)
    o['FI'] = exp(Gg / (R * T)) if reg in (1, 3) else exp((Gg - R * T * gamma0(reg)) / (R * T))
    o['FU'] = P * o['FI']
    eta, lam = viscosity(dd, T), thcond(dd, T)
    o['DV'] = eta; o['KV'] = eta / dd; o['TC'] = lam; o['TD'] = 1e-3 * lam / (dd * CP); o['PR'] = 1e3 * eta * CP / lam
    o['ST'] = surft(T); o['SDC'] = diel(dd, T)
    return fm, o
def gamma0(reg):
    if reg == 2: r, t = log(p / 1.0), list(zip(tab('region2_gfe.J0'), tab('region2_gfe.n0'))); tau = 540.0 / T
    else: r, t = log(p / 1.0), list(zip(tab('region5_gfe.Jo'), tab('region5_gfe.no'))); tau = 1000.0 / T
    for j, n in t: r = r + n * tau ** j
    return r
PROPS = {k: props(k) for k in (1, 2, 3, 5)}

# ---------------------------------------------------------------- saturation line (region 4)
n4 = tab('region4_sat_pT.n')
def _ps(T):
    th = T + n4[8] / (T - n4[9])
    A = th * th + n4[0] * th + n4[1]; B = n4[2] * th * th + n4[3] * th + n4[4]; C = n4[5] * th * th + n4[6] * th + n4[7]
    return (2.0 * C / (sqrt(B * B - 4.0 * A * C) - B)) ** 4
def _ts(p):
    b = mk('pow', p, fc(0.25))
    E = b * b + n4[2] * b + n4[5]; F = n4[0] * b * b + n4[3] * b + n4[6]; Gg = n4[1] * b * b + n4[4] * b + n4[7]
    D = 2.0 * Gg / (-F - sqrt(F * F - 4.0 * E * Gg))
    return (n4[9] + D - sqrt((n4[9] + D) ** 2 - 4.0 * (n4[8] + n4[9] * D))) / 2.0
def implicit4(b, th):
    """the published implicit equation: b^2 th^2 + n1 b^2 th + n2 b^2 + n3 b th^2 + n4 b th + n5 b + n6 th^2 + n7 th + n8"""
    return b * b * th * th + n4[0] * b * b * th + n4[1] * b * b + n4[2] * b * th * th + n4[3] * b * th + n4[4] * b + n4[5] * th * th + n4[6] * th + n4[7]
PSAT, TSAT = _ps(T), _ts(p)
# ---------------------------------------------------------------- backward and boundary equations
def two(a, b, k, sc): return sc * poly(a, b, tab(k))
n23 = tab('boundaries.B23_T2p.n23')
B23P = n23[0] + n23[1] * T + n23[2] * T * T
B23T = n23p = None
_q = tab('boundaries.B23_p2T.n23')
B23T = _q[1] + sqrt((p - _q[2]) / _q[0])
bc = tab('region2_T_ph.enthalpy_2bc.n')
def cub(x, n): return n[0] + n[1] * x + n[2] * x * x + n[3] * x * x * x
def frac_poly(x, y, t): 
    r = None
    for i, j, n in t:
        q = n * mk('pow', x, fc(i)) * y ** j
        r = q if r is None else r + q
    return r
SIMPLE = {}    # function name -> (formals, expression)
def S_(name, f, e): SIMPLE[name] = (f, e)
S_('B23_T2p', (T,), B23P); S_('B23_p2T', (p,), B23T)
S_('ph2T_reg1', (p, h), poly(p, h / 2500.0 + 1.0, tab('region1_T_phps.ph2T_reg1.IJn')))
S_('ps2T_reg1', (p, s), poly(p, s + 2.0, tab('region1_T_phps.ps2T_reg1.IJn')))
S_('hs2p_reg1', (h, s), two(h / 3400.0 + 0.05, s / 7.6 + 0.05, 'region1_p_hs.hs2p_reg1.IJn', 100.0))
S_('ph2T_reg2a', (p, h), poly(p, h / 2000.0 - 2.1, tab('region2_T_ph.ph2T_reg2a.IJn')))
S_('ph2T_reg2b', (p, h), poly(p - 2.0, h / 2000.0 - 2.6, tab('region2_T_ph.ph2T_reg2b.IJn')))
S_('ph2T_reg2c', (p, h), poly(p + 25.0, h / 2000.0 - 1.8, tab('region2_T_ph.ph2T_reg2c.IJn')))
H2BC = bc[1] + sqrt((p - bc[2]) / bc[0])
S_('ps2T_reg2a', (p, s), frac_poly(p, s / 2.0 - 2.0, tab('region2_T_ps.ps2T_reg2a.IJn')))
S_('ps2T_reg2b', (p, s), poly(p, 10.0 - s / 0.7853, tab('region2_T_ps.ps2T_reg2b.IJn')))
S_('ps2T_reg2c', (p, s), poly(p, 2.0 - s / 2.9251, tab('region2_T_ps.ps2T_reg2c.IJn')))
S_('hs2p_reg2a', (h, s), 4.0 * poly(h / 4200.0 - 0.5, s / 12.0 - 1.2, tab('region2_p_hs.hs2p_reg2a.IJn')) ** 4)
S_('hs2p_reg2b', (h, s), 100.0 * poly(h / 4100.0 - 0.6, s / 7.9 - 1.01, tab('region2_p_hs.hs2p_reg2b.IJn')) ** 4)
S_('hs2p_reg2c', (h, s), 100.0 * poly(h / 3500.0 - 0.7, s / 5.9 - 1.1, tab('region2_p_hs.hs2p_reg2c.IJn')) ** 4)
H2AB = cub(s, [-0.349898083432139e4, 0.257560716905876e4, -0.421073558227969e3, 0.276349063799944e2])
H3AB = cub(p, tab('region3_Tv_phps.p2h_3ab.n'))
def r3(n, f, a, b, sc): S_(n, f, two(a, b, f'region3_Tv_phps.{n}.IJn', sc))
r3('ph2T_3a_reg3', (p, h), p / 100.0 + 0.240, h / 2300.0 - 0.615, 760.0)
r3('ph2T_3b_reg3', (p, h), p / 100.0 + 0.298, h / 2800.0 - 0.720, 860.0)
r3('ph2v_3a_reg3', (p, h), p / 100.0 + 0.128, h / 2100.0 - 0.727, 0.0028)
r3('ph2v_3b_reg3', (p, h), p / 100.0 + 0.0661, h / 2800.0 - 0.720, 0.0088)
r3('ps2T_3a_reg3', (p, s), p / 100.0 + 0.240, s / 4.4 - 0.703, 760.0)
r3('ps2T_3b_reg3', (p, s), p / 100.0 + 0.760, s / 5.3 - 0.818, 860.0)
r3('ps2v_3a_reg3', (p, s), p / 100.0 + 0.187, s / 4.4 - 0.755, 0.0028)
r3('ps2v_3b_reg3', (p, s), p / 100.0 + 0.298, s / 5.3 - 0.816, 0.0088)
S_('hs2p3a_reg3', (h, s), two(h / 2300.0 - 1.01, s / 4.4 - 0.750, 'region3_p_hs.hs2p3a_reg3.IJn', 99.0))
S_('hs2p3b_reg3', (h, s), 16.6 / poly(h / 2800.0 - 0.681, s / 5.3 - 0.792, tab('region3_p_hs.hs2p3b_reg3.IJn')))
# region-3 v(p,T) sub-region equations
for c in 'abcdefghijklmopqrstuvwxyz':
    q = tab(f'region3_v_subregion_pT.pT2v_3{c}.para')
    def pw(b, e): return b if e == 1.0 else sqrt(b) if e == 0.5 else mk('pow', b, fc(e))
    S_(f'pT2v_3{c}', (p, T), q['VS'] * poly(pw(p / q['PS'] - q['a'], q['c']), pw(T / q['TS'] - q['b'], q['d']), tab(f'region3_v_subregion_pT.pT2v_3{c}.IJn')) ** int(q['e']))
S_('pT2v_3n', (p, T), 0.0031 * exp(poly(p / 23.0 - 0.976, T / 650.0 - 0.997, tab('region3_v_subregion_pT.pT2v_3n.IJn'))))
# T3xx(p) sub-region boundaries
TB = {}
for b in 'ab cd gh ij jk mn op qu rx uv wx'.split():
    I, n = tab(f'region3_v_pT.T_atRegionBoundary.I3{b}'), tab(f'region3_v_pT.T_atRegionBoundary.n3{b}')
    q = log(p) if b in ('ab', 'op', 'wx') else p; r = None
    for i, k in list(zip(I, n))[1:]:
        t = k * q ** i if i else fc(k); r = t if r is None else r + t
    TB[b] = r
TB['ef'] = 3.727888004 * (p - 22.064) + 647.096

# ---------------------------------------------------------------- piecewise functions: name -> (formals, [(strict conditions, value)])
def lt(a, b): return (mkrel(LT, L(a), L(b)), True)
def gt(a, b): return (mkrel(GT, L(a), L(b)), True)
def cl(n, *a): return call(n, *a)
PIECE = {}
def C_(name, f, cases): PIECE[name] = (f, cases)
def SV(n): return SIMPLE[n][1]
SC = 4.41202148223476
C_('p_saturation', (T,), [([gt(T, 273.15), lt(T, TC)], PSAT), ([lt(T, 273.15)], fc(-9999.0)), ([gt(T, TC)], fc(-9999.0))])
C_('T_saturation', (p,), [([gt(p, 0.000611212677), lt(p, PC)], TSAT), ([lt(p, 0.000611212677)], fc(-9999.0)), ([gt(p, PC)], fc(-9999.0))])
C_('ph2T_reg2', (p, h), [([lt(p, 4.0)], SV('ph2T_reg2a')), ([gt(p, 4.0), gt(p, bc[2]), lt(h, H2BC)], SV('ph2T_reg2c')), ([gt(p, 4.0), gt(p, bc[2]), gt(h, H2BC)], SV('ph2T_reg2b'))])
C_('ps2T_reg2', (p, s), [([lt(p, 4.0)], SV('ps2T_reg2a')), ([gt(p, 4.0), gt(s, 5.85)], SV('ps2T_reg2b')), ([gt(p, 4.0), lt(s, 5.85)], SV('ps2T_reg2c'))])
C_('hs2p_reg2', (h, s), [([lt(h, H2AB)], None), ([gt(h, H2AB)], None)])   # filled below
C_('ph2T_reg3', (p, h), [([lt(h, H3AB)], SV('ph2T_3a_reg3')), ([gt(h, H3AB)], SV('ph2T_3b_reg3'))])
C_('ph2v_reg3', (p, h), [([lt(h, H3AB)], SV('ph2v_3a_reg3')), ([gt(h, H3AB)], SV('ph2v_3b_reg3'))])
C_('ps2T_reg3', (p, s), [([lt(s, SC)], SV('ps2T_3a_reg3')), ([gt(s, SC)], SV('ps2T_3b_reg3'))])
C_('ps2v_reg3', (p, s), [([lt(s, SC)], SV('ps2v_3a_reg3')), ([gt(s, SC)], SV('ps2v_3b_reg3'))])
C_('hs2p_reg3', (h, s), [([lt(s, SC)], SV('hs2p3a_reg3')), ([gt(s, SC)], SV('hs2p3b_reg3'))])
C_('hs2p_reg2', (h, s), [([lt(h, H2AB)], SV('hs2p_reg2a')), ([gt(h, H2AB), gt(s, 5.85)], SV('hs2p_reg2b')), ([gt(h, H2AB), lt(s, 5.85)], SV('hs2p_reg2c'))])
S_('enthalpy_2bc', (p,), H2BC); S_('s2h_reg2_ab', (s,), H2AB); S_('p2h_3ab', (p,), H3AB)
S4V, S4V273, S4L, S4L273 = 5.210887825, 9.155759395, 3.77828134, -1.545495919e-4
def guard(name, f, var, lo, hi, e, code): C_(name, f, [([gt(var, lo), lt(var, hi)], e), ([lt(var, lo)], fc(code)), ([gt(var, hi)], fc(code))])
BT = lambda k: tab('boundaries.' + k + '.IJn')
HS1 = 1700.0 * poly(s / 3.8 - 1.09, s / 3.8 + 0.366e-4, BT('hs_region_h1_s'))
HS3A = 1700.0 * poly(s / 3.8 - 1.09, s / 3.8 + 0.366e-4, BT('hs_region_h3a_s'))
HS2AB = 2800.0 * exp(poly(1.0 / (s / 5.21) - 0.513, s / 9.2 - 0.524, BT('hs_region_h2ab_s')))
HS2C3B = 2800.0 * poly(s / 5.9 - 1.02, s / 5.9 - 0.726, BT('hs_region_h2c3b_s')) ** 4
HS13 = 1700.0 * poly(s / 3.8 - 0.884, s / 3.8 - 0.864, BT('hs_region_h13_s'))
T23HS = 900.0 * poly(h / 3000.0 - 0.727, s / 5.3 - 0.864, BT('hs_region_t_hs'))
PSH = 22.0 * poly(h / 2600.0 - 1.02, h / 2600.0 - 0.608, BT('h2p_sat_reg3'))
PSS = 22.0 * poly(s / 5.2 - 1.03, s / 5.2 - 0.699, BT('s2p_sat_reg3'))
T4HS = 550.0 * poly(h / 2800.0 - 0.119, s / 9.2 - 1.07, tab('region4_T_hs.hs2T_reg43.IJn'))
# names of boundary functions; the value inside the published range (outside: an error code, not judged here)
BOUND = {'hs_region_h1_s': ((s,), HS1, S4L273, S4L), 'hs_region_h3a_s': ((s,), HS3A, S4L, SC), 'hs_region_h2ab_s': ((s,), HS2AB, 5.85, S4V273),
         'hs_region_h2c3b_s': ((s,), HS2C3B, SC, 5.85), 'hs_region_h13_s': ((s,), HS13, 3.397782955, S4L)}
for k_, (f_, e_, lo_, hi_) in BOUND.items(): C_(k_, f_, [([gt(s, lo_), lt(s, hi_)], e_)])
C_('hs_region_t_hs', (h, s), [([gt(s, 5.048096828), lt(s, 5.260578707), gt(h, 2.563592004e3), lt(h, 2.812942061e3)], T23HS)])
PS623 = 16.5291642526045
def at(reg, o, **kw):
    fm, q = PROPS[reg]; return subst(q[o], {f.id: L(kw[f.a[0]]) for f in fm})
H13_, H23_ = at(1, 'H', p=PS623, T=623.15), at(2, 'H', p=PS623, T=623.15)
S13_, S23_ = at(1, 'S', p=PS623, T=623.15), at(2, 'S', p=PS623, T=623.15)
C_('h2p_sat_reg3', (h,), [([gt(h, H13_), lt(h, H23_)], PSH)])
C_('s2p_sat_reg3', (s,), [([gt(s, S13_), lt(s, S23_)], PSS)])
C_('hs2T_reg43', (h, s), [([gt(s, S4V)], T4HS)])
C_('surface_tension', (T,), [([gt(T, 248.15), lt(T, TC)], surft(T))])

# single-phase property functions by name
EXT = dict(f='F', g='G', z='Z', k='KS', ks='KS', kt='KT', ec='EC', joule='JTC', iJTC='IJTC', pc='PC', dpdtcv='DPDT', dvdpct='DVDP', dvdTcp='DVDT', dvdtcp='DVDT', e='E', batap='BETAP', fi='FI', fu='FU', alfap='ALFAP',
           v='V', h='H', s='S', u='U', cp='CP', cv='CV', w='W')
for r_ in (1, 2, 5):
    for n_, i_ in EXT.items(): S_(f'pT2{n_}_reg{r_}', (p, T), PROPS[r_][1][i_])
for n_, i_ in list(EXT.items()) + [('p', 'P')]: S_(f'Td2{n_}_reg3', (T, d), PROPS[3][1][i_])
for n_, (f_, e_) in FORM.items(): S_(n_, f_, e_)
pi, tau, de = fv('pi'), fv('tau'), fv('delta')
dv, cp, tc = fv('dv'), fv('cp'), fv('tc')
S_('prandtl_number', (dv, cp, tc), 1e3 * dv * cp / tc); S_('thermal_diffusivity', (tc, cp, d), 1e-3 * tc / (cp * d))
def ders(fmt, f, X):
    for suf, w in (('', ()), ('_' + X[1], (X[0],)), ('_' + X[1] * 2, (X[0],) * 2), ('_tau', (tau,)), ('_tautau', (tau,) * 2), (f'_{X[1]}tau', (X[0], tau))):
        e = f
        for y in w: e = diff(e, y)
        S_(fmt % suf, (X[0], tau), e)
ders('gamma%s_reg1', gamma1(pi, tau), (pi, 'pi'))
ders('gammar%s_reg2', poly(pi, tau - 0.5, tab('region2_gfe.IJn')), (pi, 'pi'))
ders('gammar%s_reg5', poly(pi, tau, tab('region5_gfe.IJn')), (pi, 'pi'))
ders('phi%s_reg3', phi3(de, tau), (de, 'delta'))

# region-3 sub-region selection (IAPWS S05 Tables 2, 10, Figs. 2-5); Tsat as symbol
P3CD = 19.00881189173929
PS643 = float(mpeval(PSAT, {'T': mpf('643.15')}))
def vcase(*conds_c): *c, l = conds_c; return (c, SV('pT2v_3' + l))
def between(lst, pc):
    """lst: [(letter, upper bound or None)]"""
    r = []; lo = None
    for l, ub in lst:
        c = list(pc)
        if lo is not None: c.append(gt(T, lo))
        if ub is not None: c.append(lt(T, ub))
        r.append((c, SV('pT2v_3' + l))); lo = ub
    return r
TS = cl('T_saturation', p)
def P(lo, hi): return ([gt(p, lo)] if lo is not None else []) + ([lt(p, hi)] if hi is not None else [])
b_ = TB
V3 = []
V3 += between([('a', b_['ab']), ('b', None)], P(40.0, 100.0))
V3 += between([('c', b_['cd']), ('d', b_['ab']), ('e', b_['ef']), ('f', None)], P(25.0, 40.0))
V3 += between([('c', b_['cd']), ('g', b_['gh']), ('h', b_['ef']), ('i', b_['ij']), ('j', b_['jk']), ('k', None)], P(23.5, 25.0))
V3 += between([('c', b_['cd']), ('l', b_['gh']), ('h', b_['ef']), ('i', b_['ij']), ('j', b_['jk']), ('k', None)], P(23.0, 23.5))
V3 += between([('c', b_['cd']), ('l', b_['gh']), ('m', b_['mn']), ('n', b_['ef']), ('o', b_['op']), ('p', b_['ij']), ('j', b_['jk']), ('k', None)], P(22.5, 23.0))
V3 += between([('c', b_['cd']), ('q', b_['qu']), ('u', b_['uv']), ('v', b_['ef']), ('w', b_['wx']), ('x', b_['rx']), ('r', b_['jk']), ('k', None)], P(22.11, 22.5))
V3 += between([('c', b_['cd']), ('q', b_['qu']), ('u', b_['uv']), ('y', b_['ef']), ('z', b_['wx']), ('x', b_['rx']), ('r', b_['jk']), ('k', None)], P(22.064, 22.11))
# below the critical pressure; liquid side (T<Tsat) and vapour side (T>Tsat)
def sub(lo, hi, liq, vap):
    r = []; 
    for c, e in between(liq, P(lo, hi) + [lt(T, TS)]): r.append((c, e))
    for c, e in between(vap, P(lo, hi) + [gt(T, TS)]): r.append((c, e))
    return r
V3 += sub(21.93161551, 22.064, [('c', b_['cd']), ('q', b_['qu']), ('u', b_['uv']), ('y', None)], [('z', b_['wx']), ('x', b_['rx']), ('r', b_['jk']), ('k', None)])
V3 += sub(21.90096265, 21.93161551, [('c', b_['cd']), ('q', b_['qu']), ('u', None)], [('z', b_['wx']), ('x', b_['rx']), ('r', b_['jk']), ('k', None)])
V3 += sub(PS643, 21.90096265, [('c', b_['cd']), ('q', b_['qu']), ('u', None)], [('x', b_['rx']), ('r', b_['jk']), ('k', None)])
V3 += sub(20.5, PS643, [('c', b_['cd']), ('s', None)], [('r', b_['jk']), ('k', None)])
V3 += sub(P3CD, 20.5, [('c', b_['cd']), ('s', None)], [('t', None)])
V3 += sub(PS623, P3CD, [('c', None)], [('t', None)])
# ordering lemmas of the boundary curves inside each pressure band (discharged by interval arithmetic, see lemmas())
ORD = [((25.0, 40.0), ['cd', 'ab', 'ef']), ((23.0, 25.0), ['cd', 'gh', 'ef', 'ij', 'jk']), ((22.5, 23.0), ['cd', 'gh', 'mn', 'ef', 'op', 'ij', 'jk']),
       ((22.064, 22.5), ['cd', 'qu', 'uv', 'ef', 'wx', 'rx', 'jk']), ((21.93161551, 22.064), ['cd', 'qu', 'uv', 'TS', 'wx', 'rx', 'jk']),
       ((21.90096265, 21.93161551), ['cd', 'qu', 'TS', 'wx', 'rx', 'jk']), ((PS643, 21.90096265), ['cd', 'qu', 'TS', 'rx', 'jk']), ((20.5, PS643), ['cd', 'TS', 'jk']), ((P3CD, 20.5), ['cd', 'TS'])]
