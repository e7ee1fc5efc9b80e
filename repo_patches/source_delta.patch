From d8b6157967619e9d94fdab5dbd4bb7ecd53e2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 01/24] fix: export cdecl pt with the C calling convention

---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From 6e56e821926c46503a01bebea697db6a4b5130ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 02/24] fix: kinematic viscosity of region 3 is viscosity
 divided by density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..77f6f8a 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From a6448b1d7541b89f8cf2eb441ccf177cb862a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 03/24] fix: Prandtl number uses the density of the state, not
 1/T

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 77f6f8a..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From 1899eb0a5145b4342cc849d10cda627f3c7eee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 04/24] fix: isochoric heat capacity of region 5

---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From 4962a6e8d3c09c1e9d519812e6d1e6e153957c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 05/24] fix: specific exergy of region 3

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From 7b3028f2356025cee8a6fad566be1f4f8d5084e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 06/24] fix: isothermal throttling coefficient in kJ/(kg MPa),
 was 1000 times too small

---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From 57d6ad61734ef6106c8781b7cbf57173fee1119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 07/24] fix: keep sub-regions 3c and 3k for p_sat(643.15 K) < p
 <= 22.5 MPa

---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From 76171f6cde75eca304ccd89a2fc2d332a754a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 08/24] fix: density of wet steam is the reciprocal of its
 specific volume

---
 src/r4/region4_pTx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..0f099b8 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -177,7 +177,8 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
     let T: f64 = T_saturation(p);
     match o_id {
         OT => return T-273.15,
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / px_reg4(p, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
@@ -210,7 +211,8 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
     }
     let mut r: f64 = 0.0;
     match o_id {
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / Tx_reg4(T, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-- 
2.43.0


From 8c11860e1cb14762d89f43b41a9498ae82c04bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 09/24] fix: p = P_MIN belongs to region 2 below 623.15 K

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..4485603 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -60,7 +60,7 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
         if p >= p_saturation(T) && p <= 100.0 {
             return 1;
         }
-        if p < p_saturation(T) && p > P_MIN {
+        if p < p_saturation(T) && p >= P_MIN {
             return 2;
         }
     };
-- 
2.43.0


From e7b1ed71c4fb44b338a10c2926fd5866863fcf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/24] fix: bound the iteration of T_sat(h,s), which never
 ended for some wet-steam states

---
 src/r4/region4_T_hs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..4ecbaa5 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -117,7 +117,10 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     let mut v4v: f64;
     let mut v4L: f64;
 
-    while (s - sss).abs() > 1.0e-6 {
+    // the saturated states of region 3 are discontinuous in p, so s may be unreachable
+    let mut iters: i32 = 0;
+    while (s - sss).abs() > 1.0e-6 && iters < 10000 {
+        iters += 1;
         p = 0.5 * (p_Low_Bound + p_High_Bound);
 
         Tsat = T_saturation(p);
-- 
2.43.0


From 7388d11db11c8d1d19c9961c45f852a117c43c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 11/24] fix: (p,t) on the saturation line reported 4.0 as the
 value of every property

---
 src/r4/region4.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9fff503..089311e 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -21,7 +21,8 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
     if T == TC_WATER && p == PC_WATER {
         return Td_reg3(TC_WATER, DC_WATER, o_id);
     } else {
-        return 4.0 as f64;
+        // the pair does not fix the quality on the saturation line
+        return INVALID_OUTID as f64;
     }
 }
 
-- 
2.43.0


From 6b7c40f93605abe7361dc9201f8633d138be92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 12/24] fix: region 3l v(p,T) equation sums all 43 terms

---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From 7c5192d7d286bd201404784811580557e04d7cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:41 +0000
Subject: [PATCH 13/24] fix: (t,v), (t,h), (t,s) detection covers region 2
 above 863.15 K

---
 src/common/region.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 4485603..6e5f991 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -634,7 +637,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T >= T_MIN2) && (T <= T_MAX1) && (h > hss) && (h < hpmax2) {
         return 2;
     };
-    if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
+    if ((T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2))
+    {
         return 2;
     };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
@@ -715,6 +720,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From 92dfb5779a4c31445c0d3bc58e4c770871dff673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:23 +0000
Subject: [PATCH 14/24] fix: (p,v) in region 1 finds T by bisection, also near
 the density maximum

---
 src/algo/root.rs           |  32 +++++++++++
 src/common/region.rs       |  11 ++--
 src/r1/region1_pair_ext.rs | 108 ++++++++-----------------------------
 3 files changed, 63 insertions(+), 88 deletions(-)

diff --git a/src/algo/root.rs b/src/algo/root.rs
index af761fc..3bbb34f 100644
--- a/src/algo/root.rs
+++ b/src/algo/root.rs
@@ -93,3 +93,35 @@ pub fn rtsec2(
     }
     return rts;
 }
+
+/// the position of the minimum of a function with a single minimum in [xl,xr]
+pub fn argmin<F: Fn(f64) -> f64>(f: F, mut xl: f64, mut xr: f64) -> f64 {
+    let mut i: i32 = 0;
+    while i < I_MAX {
+        let x1: f64 = xl + (xr - xl) / 3.0;
+        let x2: f64 = xr - (xr - xl) / 3.0;
+        if f(x1) <= f(x2) {
+            xr = x2;
+        } else {
+            xl = x1;
+        }
+        i += 1;
+    }
+    0.5 * (xl + xr)
+}
+
+/// the root of f(x) = 0 by bisection, f(xl) and f(xr) have different signs
+pub fn bisect<F: Fn(f64) -> f64>(f: F, mut xl: f64, mut xr: f64) -> f64 {
+    let rising: bool = f(xr) > f(xl);
+    let mut i: i32 = 0;
+    while i < I_MAX {
+        let x: f64 = 0.5 * (xl + xr);
+        if (f(x) < 0.0) == rising {
+            xl = x;
+        } else {
+            xr = x;
+        }
+        i += 1;
+    }
+    0.5 * (xl + xr)
+}
diff --git a/src/common/region.rs b/src/common/region.rs
index 6e5f991..e72ce9a 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_pair_ext::*;
 
 use crate::r2::region2_T_ps::*;
 use crate::r2::region2_pT::*;
@@ -429,7 +430,11 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         return INVALID_VALUE;
     }
 
-    let vt273: f64 = pT2v_reg1(p, 273.15);
+    // the smallest v of region 1 at p: water is densest some degrees above 273.15 K
+    let mut vmin1: f64 = pT2v_reg1(p, T_MIN1);
+    if v < vmin1 {
+        vmin1 = pT2v_reg1(p, p2Tvmin_reg1(p));
+    }
     let vt1073: f64 = pT2v_reg2(p, 1073.15);
     let mut vt2273: f64 = 0.0;
     if (p >= P_MIN5) && (p <= P_MAX5) {
@@ -456,8 +461,8 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
             vss = pT2v_sat_reg3(p, T1, 1.0);
         }
     }
-    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vt273) && (v <= vsw))
-        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vt273) && (v <= vt623))
+    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vmin1) && (v <= vsw))
+        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vmin1) && (v <= vt623))
     {
         return 1;
     };
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..3cd1afa 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -5,98 +5,36 @@ use crate::common::constant::*;
 use crate::r1::region1_pT::*;
 use crate::r4::region4_sat_pT::*;
 
-/// Region 1  (p,v)->T using the secant method and refine adjust
+/// Region 1: the highest T at the pressure p
+fn p2Tmax_reg1(p: f64) -> f64 {
+    if p < P_MIN3 {
+        return T_saturation(p);
+    }
+    T_MAX1
+}
+
+/// Region 1: T of the smallest specific volume at the pressure p (the density maximum of water)
+pub fn p2Tvmin_reg1(p: f64) -> f64 {
+    argmin(|T| pT2v_reg1(p, T), T_MIN1, p2Tmax_reg1(p).min(T_MIN1 + 15.0))
+}
+
+/// Region 1  (p,v)->T by bisection: v rises with T above the density maximum
 /// * p: pressure  MPa
 //  * v: specific volume m^3/kg
 /// * T: temperature  K
 pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
-    let mut T1: f64 = T_MIN1;
-    let mut v1: f64 = pT2v_reg1(p, T1);
-    let mut f1: f64 = v - pT2v_reg1(p, T1);
-
-    let mut T2: f64 = T_MAX1;
-    if (p >= 16.5291643) && (p <= 100.0) {
-        T2 = T_MAX1;
-    } else {
-        T2 = T_saturation(p);
-    };
-    let mut v2: f64 = pT2v_reg1(p, T2);
-    let mut f: f64 = v - v2;
-    if (v2 - v1) != 0.0 {
-        T2 = T1 + (T2 - T1) * (v - v1) / (v2 - v1);
+    let T2: f64 = p2Tmax_reg1(p);
+    let T1: f64 = p2Tvmin_reg1(p);
+    if v <= pT2v_reg1(p, T1) {
+        return T1;
     }
-    v2 = pT2v_reg1(p, T2);
-    f = v - v2;
-    if f > 0.0 {
-        T2 = T_MAX1;
-        v2 = pT2v_reg1(p, T2);
-        f = v - v2;
+    if v <= pT2v_reg1(p, T2) {
+        return bisect(|T| pT2v_reg1(p, T) - v, T1, T2);
     }
-    let mut T: f64 = rtsec2(pT2v_reg1, p, v, T1, T2, f1, f, 1.0e-3, 100);
-
-    let mut r_error = 0.0; //relative error
-    r_error = (v - pT2v_reg1(p, T)) / v;
-    if T >= T_MIN1 && T <= T_MAX1 && r_error.abs() < 1.0e-8 {
-        return T;
-    };
-    if T < T_MIN1 {
-        T = T_MIN1;
-    };
-    if T > T_MAX1 {
-        T = T_MAX1;
+    if v <= pT2v_reg1(p, T_MIN1) {
+        return bisect(|T| pT2v_reg1(p, T) - v, T_MIN1, T1);
     }
-
-    // Region 1 : the diff volume is the very small when the diff T is large
-    // so, we need to adjust the T
-    let V_ESPION: f64 = 1.0e-8;
-    let MAX_STEPS: i32 = 1000000;
-    f = v - pT2v_reg1(p, T);
-    r_error = f / v;
-    let mut success: bool = false;
-    let mut steps: i32 = 0;
-    if r_error > 0.0
-    // T^ -> V^, the  v of T is samller than the real value,T is  small
-    {
-        while !success {
-            T += 0.01; //the T is smaller than the real value, so  +T
-            if T > T_MAX1 {
-                return T;
-            };
-            f = v - pT2v_reg1(p, T);
-            r_error = f / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            }
-        }
-    }
-
-    if r_error < 0.0
-    // T^ -> V^, the  v of T is biggerr than the real value,T is  bigger
-    {
-        success = false;
-        steps = 0;
-        while !success {
-            T -= 0.001; //the T is biggerr than the real value,so  -T
-            if T < T_MIN1 {
-                return T_MIN1;
-            };
-            r_error = (v - pT2v_reg1(p, T)) / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            };
-        }
-    };
-    INVALID_VALUE as f64
+    T2
 }
 
 /// Region 1  (T,v)->p using the secant method
-- 
2.43.0


From 4012968bd4808276c4938d4cd1fad727ff057773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:47 +0000
Subject: [PATCH 15/24] fix: (t,h) in region 1 covers isotherms on which h
 first falls with p

---
 src/common/region.rs       | 27 ++++-----------------------
 src/r1/region1_pair_ext.rs | 34 ++++++++++++++--------------------
 2 files changed, 18 insertions(+), 43 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index e72ce9a..8facf12 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -613,30 +613,11 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 1;
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
-    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) && (h <= hp100) {
-        let mut Hmin: f64 = hsw;
-        let mut p11: f64 = p1 + 0.1;
-        let mut Hmid: f64 = pT2h_reg1(p11, T);
-        if Hmid < Hmin {
-            let mut HminFounded: bool = false;
-
-            while !HminFounded {
-                p11 += 0.1;
-                Hmid = pT2h_reg1(p11, T);
-                if Hmid < Hmin {
-                    Hmin = Hmid;
-                } else {
-                    HminFounded = true;
-                }
-            }
-            if h >= Hmin {
-                return 1;
-            } else {
-                return INVALID_VALUE;
-            };
-        } else {
-            return INVALID_VALUE;
+    if (T >= T_MIN1) && (T <= T_MAX1) && (h < hsw) {
+        if h >= pT2h_reg1(T2phmin_reg1(T), T) {
+            return 1;
         }
+        return INVALID_VALUE;
     };
 
     if (T >= T_MIN2) && (T <= T_MAX1) && (h > hss) && (h < hpmax2) {
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 3cd1afa..1f23d9a 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -50,34 +50,28 @@ pub fn Tv2p_reg1(T: f64, v: f64) -> f64 {
     return p;
 }
 
-/// Region 1  (T,h)->p using the secant method
+/// Region 1: p of the smallest specific enthalpy on the isotherm T
+pub fn T2phmin_reg1(T: f64) -> f64 {
+    argmin(|p| pT2h_reg1(p, T), p_saturation(T), P_MAX1)
+}
+
+/// Region 1  (T,h)->p by bisection: on an isotherm h falls with p to a minimum, then rises
 ///  *  T: temperature  K
 ///  *  h: specific enthalpy kJ/kg
 ///  *  p: pressure  MPa
 pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1;
-    let mut p2: f64 = P_MAX1; // p1 + stepa
-    let mut h1 = pT2h_reg1(p1, T);
-    if (h - h1).abs() < ESP {
-        return p1;
-    };
-    let mut h2: f64 = pT2h_reg1(p2, T);
-    if (h - h2).abs() < ESP {
-        return p2;
+    let p0: f64 = T2phmin_reg1(T);
+    if h <= pT2h_reg1(p0, T) {
+        return p0;
     }
-
-    let f1: f64 = h - pT2h_reg1(p1, T);
-    let f: f64 = h - pT2h_reg1(p2, T);
-    let mut p: f64 = rtsec1(pT2h_reg1, T, h, p1, p2, f1, f, ESP, I_MAX);
-
-    if p > P_MAX1 {
-        p = P_MAX1;
+    if h <= pT2h_reg1(P_MAX1, T) {
+        return bisect(|p| pT2h_reg1(p, T) - h, p0, P_MAX1);
     }
-    if p < pmin1 {
-        p = pmin1;
+    if h <= pT2h_reg1(pmin1, T) {
+        return bisect(|p| pT2h_reg1(p, T) - h, pmin1, p0);
     }
-    p
+    P_MAX1
 }
 
 /// Region 1  (T,s)->p using the secant method
-- 
2.43.0


From 8342f2abfd60f0e2b5e5a0c0f92c298bbae3909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:09 +0000
Subject: [PATCH 16/24] fix: (t,s) in region 1 below the temperature of the
 density maximum

---
 src/r1/region1_pair_ext.rs | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 1f23d9a..e8b5a5a 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -74,32 +74,17 @@ pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     P_MAX1
 }
 
-/// Region 1  (T,s)->p using the secant method
+/// Region 1  (T,s)->p by bisection: s falls with p, below the density maximum after a small rise
 ///  * T: temperature  K
 ///  * s: specific entropy  kJ/(kg K)
 ///  * p: pressure  MPa
 pub fn Ts2p_reg1(T: f64, s: f64) -> f64 {
-    let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1; //
-    let mut s1: f64 = pT2s_reg1(p1, T);
-    let mut f1: f64 = s - s1;
-    let p2: f64 = P_MAX1;
-    let s2: f64 = pT2s_reg1(p2, T);
-    let f2: f64 = s - s2;
-    p1 = p2 - (p2 - p1) * (s - s2) / (s1 - s2);
-    if p1 < pmin1 {
-        p1 = pmin1;
-    }
-    s1 = pT2s_reg1(p1, T);
-    f1 = s - s1;
-    if f1.abs() < ESP {
-        return p1;
+    let p0: f64 = argmin(|p| -pT2s_reg1(p, T), p_saturation(T), P_MAX1);
+    if s >= pT2s_reg1(p0, T) {
+        return p0;
     }
-    let mut p: f64 = rtsec1(pT2s_reg1, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX1 {
-        p = P_MAX1;
-    } else if p < pmin1 {
-        p = pmin1;
+    if s <= pT2s_reg1(P_MAX1, T) {
+        return P_MAX1;
     }
-    p
+    bisect(|p| pT2s_reg1(p, T) - s, p0, P_MAX1)
 }
-- 
2.43.0


From 86183638aeefac012ccb6b046da549a7f35a6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 17/24] fix: (t,v) in region 5 starts from an interpolation in
 1/v

---
 src/r5/region5_pair_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r5/region5_pair_ext.rs b/src/r5/region5_pair_ext.rs
index faec665..92678f3 100644
--- a/src/r5/region5_pair_ext.rs
+++ b/src/r5/region5_pair_ext.rs
@@ -69,7 +69,8 @@ pub fn Tv2p_reg5(T: f64, v: f64) -> f64 {
     }
 
     let mut f2: f64 = v - v2;
-    p1 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
+    // p is nearly proportional to 1/v
+    p1 = p2 - (p2 - p1) * (1.0 / v2 - 1.0 / v) / (1.0 / v2 - 1.0 / v1);
     if p1 < P_MIN5 {
         p1 = P_MIN5;
     }
-- 
2.43.0


From 168c8887019de0ca317b766471805bd532efa96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 18/24] fix: (t,v) in region 2 converges relative to p at low
 pressure

---
 src/r2/region2_pair_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 57bc85c..9224af7 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -159,7 +159,7 @@ pub fn Tv2p_reg2(T: f64, v: f64) -> f64 {
         return p1;
     }
 
-    let mut p: f64 = rtsec1(pT2v_reg2, T, v, p1, p2, f1, f2, ESP, I_MAX);
+    let mut p: f64 = rtsec1(pT2v_reg2, T, v, p1, p2, f1, f2, ESP * p1.min(1.0), I_MAX);
     if p < P_MIN2 {
         p = P_MIN2;
     } else if p > pmax2 {
-- 
2.43.0


From d2a3e9f47e2938ea74fc85f0d21a7764ace530b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 19/24] fix: quality queries reject NaN arguments instead of
 returning a property

---
 src/cdecl_c_if97.rs   | 8 ++++----
 src/python_if97.rs    | 8 ++++----
 src/rust_if97.rs      | 8 ++++----
 src/stdcall_c_if97.rs | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index f949f78..c37ac6d 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -56,7 +56,7 @@ pub unsafe extern "C" fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 /// double px(double p,double x,short o_id) - the propertry of `o_id` (thermodynamic)
 #[no_mangle]
 pub unsafe extern "C" fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(p >= P_MIN4 && p <= P_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -74,7 +74,7 @@ pub unsafe extern "C" fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T >= T_MIN4 && T <= T_MAX4 && x >= 0.0 && x <= 1.0) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -129,7 +129,7 @@ pub unsafe extern "C" fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 /// double hx(double h,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "C" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(h >= H_MIN4 && h <= H_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -142,7 +142,7 @@ pub unsafe extern "C" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// double sx(double s,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "C" fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(s >= S_MIN4 && s <= S_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/python_if97.rs b/src/python_if97.rs
index cd57e35..eaf7cb4 100644
--- a/src/python_if97.rs
+++ b/src/python_if97.rs
@@ -53,7 +53,7 @@ fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(p >= P_MIN4 && p <= P_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -70,7 +70,7 @@ fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T >= T_MIN4 && T <= T_MAX4 && x >= 0.0 && x <= 1.0) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -120,7 +120,7 @@ fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(h >= H_MIN4 && h <= H_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -132,7 +132,7 @@ fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 
 #[pyfunction]
 fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(s >= S_MIN4 && s <= S_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/rust_if97.rs b/src/rust_if97.rs
index 615e31b..80b76ba 100644
--- a/src/rust_if97.rs
+++ b/src/rust_if97.rs
@@ -181,7 +181,7 @@ where
 // #[no_mangle]
 // pub unsafe extern "C"  fn px(p: f64, x: f64, o_id: i32) -> f64 {
 pub fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(p >= P_MIN4 && p <= P_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -211,7 +211,7 @@ pub fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T >= T_MIN4 && T <= T_MAX4 && x >= 0.0 && x <= 1.0) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -344,7 +344,7 @@ where
 /// ```
 ///
 pub fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(h >= H_MIN4 && h <= H_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -369,7 +369,7 @@ pub fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// ```
 ///
 pub fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(s >= S_MIN4 && s <= S_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
diff --git a/src/stdcall_c_if97.rs b/src/stdcall_c_if97.rs
index 5a0a787..7ae485e 100644
--- a/src/stdcall_c_if97.rs
+++ b/src/stdcall_c_if97.rs
@@ -56,7 +56,7 @@ pub unsafe extern "stdcall" fn hs(h: f64, s: f64, o_id: i32) -> f64 {
 /// double px(double p,double x,short o_id) - the propertry of `o_id` (thermodynamic)
 #[no_mangle]
 pub unsafe extern "stdcall" fn px(p: f64, x: f64, o_id: i32) -> f64 {
-    if p > P_MAX4 || p < P_MIN4 || x > 1.0 || x < 0.0 {
+    if !(p >= P_MIN4 && p <= P_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -74,7 +74,7 @@ pub unsafe extern "stdcall" fn tx(t: f64, x: f64, o_id: i32) -> f64 {
         OX => return x,
         _ => {
             let T: f64 = t + 273.15;
-            if T > T_MAX4 || T < T_MIN4 || x > 1.0 || x < 0.0 {
+            if !(T >= T_MIN4 && T <= T_MAX4 && x >= 0.0 && x <= 1.0) {
                 return INVALID_VALUE as f64;
             }
             Tx_reg4(T, x, o_id)
@@ -129,7 +129,7 @@ pub unsafe extern "stdcall" fn ts(t: f64, s: f64, o_id: i32) -> f64 {
 /// double hx(double h,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "stdcall" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
-    if h > H_MAX4 || h < H_MIN4 || x > 1.0 || x < 0.0 {
+    if !(h >= H_MIN4 && h <= H_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
@@ -142,7 +142,7 @@ pub unsafe extern "stdcall" fn hx(h: f64, x: f64, o_id: i32) -> f64 {
 /// double sx(double s,double x,short o_id)- the propertry of `o_id` (thermodynamic)  
 #[no_mangle]
 pub unsafe extern "stdcall" fn sx(s: f64, x: f64, o_id: i32) -> f64 {
-    if s > S_MAX4 || s < S_MIN4 || x > 1.0 || x < 0.0 {
+    if !(s >= S_MIN4 && s <= S_MAX4 && x >= 0.0 && x <= 1.0) {
         return INVALID_VALUE as f64;
     }
     match o_id {
-- 
2.43.0


From dcbf7770f54a9499a399fa05fd592fa005cf94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:39 +0000
Subject: [PATCH 20/24] fix: (p,v) below the region 2 saturation volume at low
 pressure is not region 2

---
 src/common/region.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 8facf12..830131d 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -447,7 +447,9 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vt623: f64 = 0.0;
     let mut vB23: f64 = 0.0;
 
-    if (p > 0.000611213) && (p <= P_MIN3) {
+    if p < P_MIN {
+        vss = pT2v_reg2(p, T_MIN2);
+    } else if p <= P_MIN3 {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
@@ -476,7 +478,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 3;
     };
-    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
     if (p > P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
-- 
2.43.0


From 8de0abcd31a15a4df7fabb8068599fea3598bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 21/24] fix: (h,s) states beyond the range are not regions 2 or
 5

---
 src/common/region.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 830131d..f7e1e47 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -266,7 +266,9 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
-        if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
+        // p and T are limited to region 5: (h,s) beyond it is not reproduced
+        let reproduced: bool = (pT2h_reg5(p, T) - h).abs() < 0.1 && (pT2s_reg5(p, T) - s).abs() < 1.0E-4;
+        if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 && reproduced {
             return 5;
         }
     };
@@ -394,7 +396,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        if hs <= h && h <= hmax && p <= 100.1 {
             return 2;
         }
     };
@@ -407,7 +409,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        if hs <= h && h <= hmax && p <= 100.1 {
             return 2;
         }
     }
-- 
2.43.0


From fa60f1f001f2aa3062928c439b2f7f96e4a0613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 22/24] fix: T_sat(h,s) by bisection along h, the iteration
 returned an error code for wet-steam states with h below 1670.9

---
 src/r4/region4_T_hs.rs | 78 +++++++++---------------------------------
 1 file changed, 17 insertions(+), 61 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 4ecbaa5..906056f 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -15,6 +15,7 @@ use crate::r4::*;
 
 const s4L_623: f64 = 3.778281340; // T=623.16 ，Sature Liquid s
 const s4V_623: f64 = 5.210887825; // T=623.16 ，Sature steam   s
+const h4L_623: f64 = 1.6708582183e+03; // Page 25  Sature Liquid   h
 const h4V_623: f64 = 2.5635920043e+03; // Page 25  Sature steam   h
 const s4L_273: f64 = -1.545495919e-04; // T=273.15 ，Sature Liquid s
 const s4V_273: f64 = 9.155759395; // T=273.15 ，Sature steam s
@@ -76,76 +77,31 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     };
 
     //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
-    let mut p_Low_Bound: f64 = 0.0;
-    let mut p_High_Bound: f64 = 0.0;
-    let mut PL: f64 = 0.0;
-    let mut Tsat: f64 = 0.0;
-
-    if s > s4L_273 && s <= s4L_623 {
-        p_Low_Bound = P_MIN;
-        p_High_Bound = Ps_623;
-
-        let mut hL: f64 = -1000.0;
-        while (hL - h).abs() > 1.0e-04 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-4 {
-            PL = 0.5 * (p_Low_Bound + p_High_Bound);
-            Tsat = T_saturation(PL);
-            hL = pT2h_reg1(PL, Tsat);
-            if hL > h {
-                p_High_Bound = PL;
-            } else {
-                p_Low_Bound = PL;
-            }
-        }
+    // the largest p of the wet steam with h: h is the saturated liquid (or steam) enthalpy
+    let p_High_Bound: f64 = if s <= s4L_623 || h < h4L_623 {
+        bisect(|p| pT2h_reg1(p, T_saturation(p)) - h, P_MIN, Ps_623)
+    } else {
+        h2p_sat_reg3(h)
     };
 
-    if s > s4L_623 && s <= SC_WATER {
-        PL = h2p_sat_reg3(h); // liquid , boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-    if s > SC_WATER && s <= s4V_623 {
-        PL = h2p_sat_reg3(h); // steam,boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-
-    let mut sss: f64 = -1000.0;
-    let mut p: f64 = 0.0;
-    let mut xs: f64;
-    let mut s4v: f64;
-    let mut s4L: f64;
-    let mut v4v: f64;
-    let mut v4L: f64;
-
-    // the saturated states of region 3 are discontinuous in p, so s may be unreachable
-    let mut iters: i32 = 0;
-    while (s - sss).abs() > 1.0e-6 && iters < 10000 {
-        iters += 1;
-        p = 0.5 * (p_Low_Bound + p_High_Bound);
-
-        Tsat = T_saturation(p);
-        xs = ph_reg4(p, h, OX); // region4_phps
+    let ph2s = |p: f64| -> f64 {
+        let mut s4v: f64;
+        let mut s4L: f64;
+        let Tsat: f64 = T_saturation(p);
+        let xs: f64 = ph_reg4(p, h, OX); // region4_phps
 
         if p < Ps_623 {
             s4v = pT2s_reg2(p, Tsat);
             s4L = pT2s_reg1(p, Tsat);
         } else {
-            v4v = ph_reg3(p, p2sat_steam(p, OH), OV);
+            let v4v: f64 = ph_reg3(p, p2sat_steam(p, OH), OV);
             s4v = Td2s_reg3(Tsat, 1.0 / v4v);
-            v4L = ph_reg3(p, p2sat_water(p, OH), OV);
+            let v4L: f64 = ph_reg3(p, p2sat_water(p, OH), OV);
             s4L = Td2s_reg3(Tsat, 1.0 / v4L);
         };
+        xs * s4v + (1.0 - xs) * s4L
+    };
 
-        sss = xs * s4v + (1.0 - xs) * s4L;
-
-        if sss < s {
-            p_High_Bound = p;
-            p_Low_Bound = (1.0 + (sss - s) / s) * p;
-        } else {
-            p_Low_Bound = p;
-            p_High_Bound = (1.0 + (sss - s) / s) * p;
-        }
-    } // end of while  ( abs(s - sss).abd() > 1.0e-6)
-
-    T_saturation(p)
+    // s of the wet steam falls with p at constant h
+    T_saturation(bisect(|p| ph2s(p) - s, P_MIN, p_High_Bound))
 }
-- 
2.43.0


From d96762810815d836845be27223732695b7184aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:32 +0000
Subject: [PATCH 23/24] fix: (h,s) just below 273.15 K or above 100 MPa is
 outside regions 1 and 3

---
 src/common/region.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index f7e1e47..e2de371 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_p_hs::*;
 use crate::r1::region1_pair_ext::*;
 
 use crate::r2::region2_T_ps::*;
@@ -18,6 +19,7 @@ use crate::r3::region3::*;
 use crate::r3::region3_Td::*;
 use crate::r3::region3_Tv_phps::*;
 use crate::r3::region3_v_pT::*;
+use crate::r3::region3_p_hs::*;
 
 use crate::r4::region4_pTx::*;
 use crate::r4::region4_sat_pT::*;
@@ -280,7 +282,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        // the backward equations allow 0.025 K
+        if hs <= h && h <= hmax && ph2T_reg1(hs2p_reg1(h, s), h) > 273.15 - 0.05 {
             return 1;
         }
     };
@@ -352,7 +355,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             //hs2p_reg2c r2::region2_p_hs
             {
                 return 2;
-            } else {
+            } else if hs2p_reg3(h, s) <= 100.1 {
                 return 3;
             }
         }
-- 
2.43.0


From a8900afc7ff5b5f8bd20b01d0f9f35663412c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:57 +0000
Subject: [PATCH 24/24] fix: (h,x) and (s,x) at or beyond the end of a falling
 h or s along x, bisection without a sign change ended at the critical
 temperature

---
 src/r4/region4.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 089311e..6f28762 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -3,6 +3,7 @@
 //! * (p,v),(t,v),(t,h),(t,s)
 //! * (h,x),(s,x)
 
+use crate::algo::*;
 use crate::common::constant::*;
 use crate::common::propertry_id::*;
 use crate::r3::*;
@@ -128,6 +129,9 @@ fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64,
     let mut fr: f64 = Ty2x_residuals(Tr, x, y, y_id); //resdiual for right bound
     let mut f: f64 = 0.0;
     let mut numIters: i32 = 0;
+    if fl.abs() < tol {
+        return Tl;
+    }
 
     for i in 0..maxiter {
         numIters += 1;
@@ -154,10 +158,38 @@ fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64,
     T
 }
 
+/// the right bound of the root of Ty2x_residuals(T,x, y, y_id)=0, the left one is T_MIN4:
+///   T_MAX4, or the extremum of y along x if y is the same side of it at both ends
+fn Ty2x_right_bound(x: f64, y: f64, y_id: i32) -> f64 {
+    let dy = |T: f64| {
+        let sw = T2sat_water(T, y_id);
+        sw + x * (T2sat_steam(T, y_id) - sw) - y
+    };
+    let above: bool = dy(T_MIN4) > 0.0;
+    let side = |T: f64| if above { dy(T) } else { -dy(T) };
+    if side(T_MAX4) <= 0.0 {
+        return T_MAX4;
+    }
+    let dT: f64 = (T_MAX4 - T_MIN4) / 100.0;
+    let mut Tm: f64 = T_MIN4;
+    for i in 1..=100 {
+        let T: f64 = T_MIN4 + i as f64 * dT;
+        if side(T) < side(Tm) {
+            Tm = T;
+        }
+    }
+    Tm = argmin(side, (Tm - dT).max(T_MIN4), (Tm + dT).min(T_MAX4));
+    // no temperature gives y
+    if side(Tm) > 0.0 {
+        return T_MAX4;
+    }
+    Tm
+}
+
 /// (h,x,o_id)
 pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
     let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
+    let mut Tr: f64 = Ty2x_right_bound(x, h, OH);
     let T: f64 = bisection_reg4(x, h, OH, Tl, Tr, 0.00001, 1000);
     if o_id == OT {
         return T - 273.15;
@@ -168,7 +200,7 @@ pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
 /// (s,x,o_id)
 pub fn sx_reg4(s: f64, x: f64, o_id: i32) -> f64 {
     let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
+    let mut Tr: f64 = Ty2x_right_bound(x, s, OS);
     let T: f64 = bisection_reg4(x, s, OS, Tl, Tr, 0.00001, 1000);
     if o_id == OT {
         return T - 273.15;
-- 
2.43.0

