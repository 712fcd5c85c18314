From 2276bb4a292d753fb070ebd39fdfec0445a467fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 01/30] fix: vst4_u8 and vst4_u32 store the fourth vector at
 element 4*i+3

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..74eb61e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From bf9b2e2dd97d660fd92199c819bb592eb2c4768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 02/30] fix: define vld2_s32 under its declared name

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 74eb61e..3f03bc4 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -233,7 +233,7 @@ uint32x2x2_t vld2_u32(uint32_t const* ptr)
     }
     return r;
 }
-int32x2x2_t vld_s32(int32_t const* ptr)
+int32x2x2_t vld2_s32(int32_t const* ptr)
 {
     int32x2x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From aba4db640614ef9562addd8d551180d1f37ecf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 03/30] fix: define veor_u32 under its declared name

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3f03bc4..222e847 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5317,7 +5317,7 @@ uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b)
     return r;
 }
 
-uint32x2_t ver_u32(uint32x2_t a, uint32x2_t b)
+uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b)
 {
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 1d303204a1c49f40db36c83f15e283a7a4563f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 04/30] fix: define vsubhn_{s32,s64,u32,u64} under their names
 and return the high half

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 222e847..1c5711c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1974,22 +1974,22 @@ int8x8_t vsubhn_s16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
+int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
 {
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-int32x2_t vsubn_s64(int64x2_t N, int64x2_t M)
+int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
@@ -2004,22 +2004,22 @@ uint8x8_t vsubhn_u16(uint16x8_t N, uint16x8_t M)
     return D;
 }
 
-uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
+uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
 {
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-uint32x2_t vsubn_u64(uint64x2_t N, uint64x2_t M)
+uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
-- 
2.43.0


From f484fa81ebee588ea6df01a940d56b07f5a3f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 05/30] fix: define vsub_f64 under its declared name

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 1c5711c..b2ead7c 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1869,7 +1869,7 @@ float32x2_t vsub_f32(float32x2_t N, float32x2_t M)
     return D;
 }
 
-float64x1_t vsub_f32(float64x1_t N, float64x1_t M)
+float64x1_t vsub_f64(float64x1_t N, float64x1_t M)
 {
     float64x1_t D;
     for (size_t i = 0; i < 1; i++)
-- 
2.43.0


From 32715f6d0b4dd508dea158c646d711ce9b0f998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 06/30] fix: vmaxq/vminq of unsigned lanes take and compare
 unsigned vectors

---
 neon_sim.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index b2ead7c..a06f935 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1239,9 +1239,9 @@ int32x4_t vmaxq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vmaxq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1249,9 +1249,9 @@ int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vmaxq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1259,9 +1259,9 @@ int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vmaxq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -3683,9 +3683,9 @@ int32x4_t vminq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vminq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3693,9 +3693,9 @@ int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vminq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3703,9 +3703,9 @@ int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vminq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vminq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
-- 
2.43.0


From 358e1d620554dd638c66ff7ea3f4c487f0575053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 07/30] fix: vsubl_s32 and vsubl_u32 take 64-bit vectors as
 declared

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a06f935..0543f18 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2256,7 +2256,7 @@ int32x4_t vsubl_s16(int16x4_t N, int16x4_t M)
     return D;
 }
 
-int64x2_t vsubl_s32(int32x4_t N, int32x2_t M)
+int64x2_t vsubl_s32(int32x2_t N, int32x2_t M)
 {
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2286,7 +2286,7 @@ uint32x4_t vsubl_u16(uint16x4_t N, uint16x4_t M)
     return D;
 }
 
-uint64x2_t vsubl_u32(uint32x4_t N, uint32x2_t M)
+uint64x2_t vsubl_u32(uint32x2_t N, uint32x2_t M)
 {
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
-- 
2.43.0


From 63b18e62853acd5dc6f021b9ab4c8e729b906c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 08/30] fix: vaddhn_high of 32- and 64-bit lanes returns the
 high half

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0543f18..49588e3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1513,7 +1513,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1523,7 +1523,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 
@@ -1543,7 +1543,7 @@ uint16x8_t vaddhn_high_u32(uint16x4_t r, uint32x4_t a, uint32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1553,7 +1553,7 @@ uint32x4_t vaddhn_high_u64(uint32x2_t r, uint64x2_t a, uint64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 #endif // __aarch64__
-- 
2.43.0


From e4422dbec60a275276d2799d2b005479e55788c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 09/30] fix: vaddl_high of 32-bit lanes widens before adding

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 49588e3..6555ea5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1697,7 +1697,7 @@ int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (int64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1730,7 +1730,7 @@ uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
-- 
2.43.0


From 7495183f510330adf1580ad23f3c59d7f480c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 10/30] fix: vhsub of 32-bit lanes halves the exact difference

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 6555ea5..8123960 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2050,7 +2050,7 @@ int32x2_t vhsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - (int64_t)M.val[i]) >> 1;
     }
     return D;
 }
@@ -2080,7 +2080,7 @@ uint32x2_t vhsub_u32(uint32x2_t N, uint32x2_t M)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - (int64_t)M.val[i]) >> 1;
     }
     return D;
 }
@@ -2111,7 +2111,7 @@ int32x4_t vhsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - (int64_t)M.val[i]) >> 1;
     }
     return D;
 }
@@ -2141,7 +2141,7 @@ uint32x4_t vhsubq_u32(uint32x4_t N, uint32x4_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - (int64_t)M.val[i]) >> 1;
     }
     return D;
 }
-- 
2.43.0


From 6472cda8c4e78e0d202e25292d790873ebd8c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 11/30] fix: vqsub of 64-bit lanes computes in integers instead
 of double

---
 neon_sim.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8123960..ba0c0ce 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2218,18 +2218,17 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2428,18 +2427,13 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2517,18 +2511,17 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2605,18 +2598,13 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
-- 
2.43.0


From c9264e7ac27e08caf6421778c40b84a7f475bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 12/30] fix: vrsubhn of 64-bit lanes adds the rounding constant
 2^31

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index ba0c0ce..9b623b4 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2638,7 +2638,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     const int64_t shift = 32;
-    const int64_t delta = (1 << (shift - 1));
+    const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
@@ -2674,7 +2674,7 @@ uint32x2_t vrsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     const uint64_t shift = 32;
-    const uint64_t delta = (1 << (shift - 1));
+    const uint64_t delta = ((uint64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
-- 
2.43.0


From 0559a1b1e82c5edfbc2e840697c54a588e57be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 13/30] fix: vmull, vmull_n, vmlal and vmlsl of 32-bit lanes
 multiply in 64 bits

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 9b623b4..2cfda5d 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2959,7 +2959,7 @@ uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b)
     uint64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2987,7 +2987,7 @@ int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (int64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3008,7 +3008,7 @@ int64x2_t vmull_n_s32(int32x2_t N, int32_t M)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (int64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3028,7 +3028,7 @@ uint64x2_t vmull_n_u32(uint32x2_t N, uint32_t M)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3078,7 +3078,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3108,7 +3108,7 @@ uint64x2_t vmlal_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3139,7 +3139,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3169,7 +3169,7 @@ uint64x2_t vmlsl_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 1a764115137e0b46a1404759f7f6d7320e45541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 14/30] fix: vqshrun_n_s32 and vqshrun_n_s64 return the result,
 without rounding

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2cfda5d..8b21b04 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3887,7 +3887,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3896,6 +3896,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3911,7 +3912,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3920,6 +3921,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From e9cf6c6db973985be5ba4f8b6f82ba81f7876c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 15/30] fix: vshr_n_u16 accepts shift counts up to 16

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8b21b04..15de736 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3757,9 +3757,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
-- 
2.43.0


From ee8969889fe207538d3cb779432aab01db95c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 16/30] fix: vsraq_n_s32 adds the shifted second operand to the
 unshifted first

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 15de736..690b183 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3966,7 +3966,7 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  (a.val[i] >> n) + (b.val[i] >> n);
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)((int64_t)b.val[i] >> n);
     }
     return r;
 }
-- 
2.43.0


From e8a72d3621709862ba465acc53c7b82bfa93a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 17/30] fix: vqtbl1_u8 returns 0 for indices beyond the table

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 690b183..740c94e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4725,7 +4725,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From c25fe8f9f25c8188533460a21a83af0385c512d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 18/30] fix: vrev32_s8 stays inside its 64-bit vector

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 740c94e..2bedad5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5656,7 +5656,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From e2a6e3259983b77f8b8a5d39c950313313f3b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 19/30] fix: vrev64q_s8 and vrev64q_s16 reverse both halves

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2bedad5..65d42af 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5848,7 +5848,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
@@ -5865,7 +5865,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 46127cba63ec2b178cda734ee5c57d14c7ce13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 20/30] fix: vbslq_f32 selects bit by bit

---
 neon_sim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 65d42af..2e8781e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3733,7 +3733,11 @@ float32x4_t vbslq_f32(uint32x4_t mask, float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  mask.val[i] ? a.val[i] : b.val[i];
+        uint32_t x, y;
+        memcpy(&x, &a.val[i], sizeof(x));
+        memcpy(&y, &b.val[i], sizeof(y));
+        x = (mask.val[i] & x) | (~mask.val[i] & y);
+        memcpy(&r.val[i], &x, sizeof(x));
     }
     return r;
 }
-- 
2.43.0


From b62fedbbe6d2597d209ad2b3277ec3b0cd1dcee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 21/30] fix: vqshrn_n_s64 clamps before narrowing

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2e8781e..1adc984 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -6017,7 +6017,7 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  std::min<int32_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
+        r.val[i] =  std::min<int64_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
     }
     return r;
 }
-- 
2.43.0


From 017e47699adf93980b351dbc8039ec19164943fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 22/30] fix: reject lane numbers outside the vector

---
 neon_sim.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 1adc984..78d6edc 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -637,6 +637,11 @@ float32x4_t vld1q_dup_f32(float32_t const* ptr)
 
 int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -648,6 +653,11 @@ int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 
 uint8x8_t vld1_lane_u8(uint8_t const* ptr, uint8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -1202,6 +1212,11 @@ void vst4q_u32(uint32_t* ptr, uint32x4x4_t val)
 // vst4q_lane
 void vst4q_lane_f32(float32_t* ptr, float32x4x4_t val, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     for (int i = 0; i < 4; i++)
     {
         ptr[i] = val.val[i].val[lane];
@@ -3581,6 +3596,11 @@ float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 
 float32_t vget_lane_f32(float32x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
@@ -3597,46 +3617,91 @@ float32_t vgetq_lane_f32(float32x4_t v, int lane)
 // vgetq_lane_type
 uint8_t vgetq_lane_u8(uint8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint16_t vgetq_lane_u16(uint16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint32_t vgetq_lane_u32(uint32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint64_t vgetq_lane_u64(uint64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int8_t vgetq_lane_s8(int8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int16_t vgetq_lane_s16(int16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int32_t vgetq_lane_s32(int32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int64_t vgetq_lane_s64(int64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 float64_t vgetq_lane_f64(float64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
-- 
2.43.0


From 511d7e714bccec6e89b45d4fb42ed53a92b0d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 23/30] fix: reject shift counts outside the architectural
 range

---
 neon_sim.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 78d6edc..0aebe05 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4021,6 +4021,11 @@ uint8x8_t vqrshrun_n_s16(int16x8_t v, const int n)
 
 uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     const int delta = (1 << (n - 1));
     for (int i = 0; i < 8; i++)
@@ -4032,6 +4037,11 @@ uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 
 int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -4043,6 +4053,11 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 // shift left
 int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 {
+    if (n < 0 || n > 31)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 31]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
@@ -4053,6 +4068,11 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
+    if (n < 0 || n > 7)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint16x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6059,6 +6079,11 @@ float64x2_t vdivq_f64(float64x2_t a, float64x2_t b)
 // saturated shift right and narrow
 int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6069,6 +6094,11 @@ int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 
 int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     int16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6079,6 +6109,11 @@ int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 
 int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
@@ -6089,6 +6124,11 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 
 uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6099,6 +6139,11 @@ uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 
 uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     uint16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6109,6 +6154,11 @@ uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 
 uint32x2_t vqshrn_n_u64(uint64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From dd90248accff72db851320c82f432ebbad4639f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 24/30] fix: vext_u8 and vextq_u16 reject offset 8

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0aebe05..03576db 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4824,9 +4824,9 @@ uint8x8_t vext_u8(uint8x8_t a, uint8x8_t b, const int n)
 {
     uint8x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
@@ -4885,9 +4885,9 @@ uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, const int n)
 {
     uint16x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
-- 
2.43.0


From 9ce52fad1bad05296de5f45bb0ee409fb090fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 25/30] fix: float to integer conversions saturate and give 0
 for NaN

---
 neon_sim.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 03576db..9fc4c0e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4304,12 +4304,28 @@ float32x4_t vcvtq_f32_s32(int32x4_t a)
     return r;
 }
 
+// float to integer: out of range values saturate, NaN gives 0
+static int32_t saturate_s32(double v)
+{
+    if (v != v) return 0;
+    if (v >= 2147483647.0) return INT32_MAX;
+    if (v <= -2147483648.0) return INT32_MIN;
+    return (int32_t)v;
+}
+
+static uint32_t saturate_u32(double v)
+{
+    if (!(v > 0)) return 0;
+    if (v >= 4294967295.0) return UINT32_MAX;
+    return (uint32_t)v;
+}
+
 int32x4_t vcvtq_s32_f32(float32x4_t a)
 {
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  saturate_s32(a.val[i]);
     }
     return r;
 }
@@ -4319,7 +4335,7 @@ uint32x4_t vcvtq_u32_f32(float32x4_t a)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  saturate_u32(a.val[i]);
     }
     return r;
 }
@@ -4329,7 +4345,7 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  saturate_s32(a.val[i]);
     }
     return r;
 }
-- 
2.43.0


From 690f979293bb1324d0c878e84b6024456d7e25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 26/30] fix: vcvtnq_s32_f32 rounds to nearest, ties to even

---
 neon_sim.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 9fc4c0e..2cb3e00 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4345,7 +4345,14 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  saturate_s32(a.val[i]);
+        double v = a.val[i];
+        double t = floor(v);
+        double d = v - t;
+        if (d > 0.5 || (d == 0.5 && fmod(t, 2.0) != 0))
+        {
+            t += 1;
+        }
+        r.val[i] =  saturate_s32(t);
     }
     return r;
 }
-- 
2.43.0


From 51c303eaec5cd9fc0b38d6a7e43287b985bd7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 27/30] fix: float max and min propagate NaN and order signed
 zeros

---
 neon_sim.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2cb3e00..db55afa 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -7,6 +7,7 @@
 #include <math.h>
 
 #include <algorithm>
+#include <cmath>
 #include <string>
 
 ////// Load
@@ -1284,12 +1285,27 @@ uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
     return D;
 }
 
+// NaN operands give NaN, and -0 is smaller than +0
+static float32_t float_max(float32_t a, float32_t b)
+{
+    if (a != a || b != b) return a + b;
+    if (a == b) return std::signbit(a) ? b : a;
+    return a > b ? a : b;
+}
+
+static float32_t float_min(float32_t a, float32_t b)
+{
+    if (a != a || b != b) return a + b;
+    if (a == b) return std::signbit(a) ? a : b;
+    return a < b ? a : b;
+}
+
 float32x4_t vmaxq_f32(float32x4_t N, float32x4_t M)
 {
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = float_max(N.val[i], M.val[i]);
     }
     return D;
 }
@@ -3581,16 +3597,16 @@ uint8x8_t vget_high_u8(uint8x16_t a)
 float32x2_t vpmax_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] > a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] > b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = float_max(a.val[0], a.val[1]);
+    r.val[1] = float_max(b.val[0], b.val[1]);
     return r;
 }
 
 float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] < a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] < b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = float_min(a.val[0], a.val[1]);
+    r.val[1] = float_min(b.val[0], b.val[1]);
     return r;
 }
 
@@ -3771,7 +3787,7 @@ float32x4_t vminq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = float_min(N.val[i], M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 6792591a58e001b0adcd7cf559efdacfbc8a58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 28/30] fix: vrecpeq_f32 handles zeros, infinities, NaN,
 subnormal operands and subnormal results

---
 neon_sim.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index db55afa..2f97ec5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4411,10 +4411,41 @@ uint32_t RecipEstimate(uint32_t a)
 float FPRecipEstimate(float operand)
 {
     float_parts parts{operand};
-    parts.exp = 253 - parts.exp;
+    if (parts.exp == 0xff)
+    {
+        if (parts.fraction != 0)
+        {
+            return operand; // NaN
+        }
+        parts.exp = 0;
+        return float(parts);
+    }
+    int exp = parts.exp;
+    if (exp == 0)
+    {
+        if (parts.fraction < (1u << 21)) // the reciprocal overflows
+        {
+            parts.exp = 0xff;
+            parts.fraction = 0;
+            return float(parts);
+        }
+        if (parts.fraction < (1u << 22))
+        {
+            exp = -1;
+            parts.fraction <<= 1;
+        }
+        parts.fraction <<= 1;
+    }
+    exp = 253 - exp;
     uint32_t scaled = 0x100 | ((parts.fraction >> 15) & 0xFF);
     uint32_t estimate = RecipEstimate(scaled);
     parts.fraction = (estimate & 0xff) << 15;
+    if (exp <= 0) // subnormal result
+    {
+        parts.fraction = ((1 << 23) | parts.fraction) >> (1 - exp);
+        exp = 0;
+    }
+    parts.exp = exp;
     return float(parts);
 }
 
-- 
2.43.0


From fafee6578a8318d2eb84e7116fb40d839c33fc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 29/30] fix: vrecpsq_f32 rounds once and returns 2 for infinity
 times zero

---
 neon_sim.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 2f97ec5..a7972ec 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4495,7 +4495,16 @@ float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  2.0 - (a.val[i] * b.val[i]);
+        float x = a.val[i];
+        float y = b.val[i];
+        if ((std::isinf(x) && y == 0) || (x == 0 && std::isinf(y)))
+        {
+            r.val[i] = 2;
+        }
+        else
+        {
+            r.val[i] =  std::fma(-x, y, 2.0f);
+        }
     }
     return r;
 }
-- 
2.43.0


From bad493ed31b7c78d19e246692f2fe766cebd9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:11 +0000
Subject: [PATCH 30/30] fix: vrecpeq_f32 allocated heap memory, so a call from
 a signal handler could crash or deadlock

---
 neon_sim.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a7972ec..1a63370 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -8,7 +8,6 @@
 
 #include <algorithm>
 #include <cmath>
-#include <string>
 
 ////// Load
 // vld1
@@ -4387,8 +4386,9 @@ struct float_parts
 
     int exp_bits[8];
     int fraction_bits[23];
-    std::string exp_bits_str = std::string(8, '0');
-    std::string fraction_bits_str = std::string(23, '0');
+    // no heap memory here: a signal handler may call this while it is running
+    char exp_bits_str[8 + 1] = {};
+    char fraction_bits_str[23 + 1] = {};
 
 private:
     void int32_to_binary(int data, int* bits, int n = 32)
-- 
2.43.0

