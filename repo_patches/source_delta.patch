From a8daaf4a2a49300de0ebfa24b3188488b908dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 1/5] fix: transforms of length 1 (complex) and 2 (real, DCT)
 dereferenced a null pointer

FFT0 creates no algorithm object for N = 1, the transformation methods
nevertheless called through it.
---
 src/otfft_algo.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..55f973c 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -102,19 +102,20 @@ namespace OTFFT_NAMESPACE
         }
     }
 
+    // NOTE: there is no algorithm object for N = 1, the transformation is the identity
     void FFT0::fwd(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd(x, y);
+        if (obj) obj->fwd(x, y);
     }
 
     void FFT0::fwd0(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd0(x, y);
+        if (obj) obj->fwd0(x, y);
     }
 
     void FFT0::fwdu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwdu(x, y);
+        if (obj) obj->fwdu(x, y);
     }
 
     void FFT0::fwdn(complex_vector x, complex_vector y) const noexcept
@@ -124,7 +125,7 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::inv(complex_vector x, complex_vector y) const noexcept
     {
-        obj->inv(x, y);
+        if (obj) obj->inv(x, y);
     }
 
     void FFT0::inv0(complex_vector x, complex_vector y) const noexcept
@@ -134,12 +135,12 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::invu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invu(x, y);
+        if (obj) obj->invu(x, y);
     }
 
     void FFT0::invn(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invn(x, y);
+        if (obj) obj->invn(x, y);
     }
 
     FFT::FFT() noexcept : fft(), work(), y(0) {}
-- 
2.43.0


From eb6ae82e01458c76c2d0b3bfc3cbb78a6469bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 2/5] fix: do not execute XGETBV unless the OS has enabled it

XGETBV raises an invalid opcode exception if CR4.OSXSAVE is not set.
---
 src/otfft.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..5cd8a10 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,9 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is only available if the OS has enabled it (OSXSAVE)
+                const bool osxsave = (cpu_info_1[2] & 0x08000000) != 0;
+                const auto cpu_info_xcr = osxsave ? XGETBV(0) : std::uint64_t(0);
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From b9101010fe6295f39e3d8e38d2d69d015f959ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 3/5] fix: complex_t *= and /= with a real that is part of the
 object itself

z *= z.Re and z /= z.Re read the scalar again after it had been overwritten.
---
 inc/otfft_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..388f0a9 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -97,14 +97,14 @@ struct complex_t
         return *this;
     }
 
-    complex_t& operator*=(const double& x) NOEXCEPT
+    complex_t& operator*=(const double x) NOEXCEPT
     {
         Re *= x;
         Im *= x;
         return *this;
     }
 
-    complex_t& operator/=(const double& x) NOEXCEPT
+    complex_t& operator/=(const double x) NOEXCEPT
     {
         Re /= x;
         Im /= x;
-- 
2.43.0


From ff7b8929b8fb692e6afd40b25ae4c86f658fba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 4/5] fix: twiddle index product overflows int for prime
 factors above 46341 (mixed radix)

---
 src/otfft_mixedradix.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..6f90888 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -11,6 +11,8 @@
 
 #include "otfft_misc.h"
 
+#include <stdint.h>
+
 namespace OTFFT_NAMESPACE {
 
 namespace OTFFT_MixedRadix { //////////////////////////////////////////////////
@@ -24,6 +26,12 @@ constexpr int OMP_THRESHOLD = 1<<30;
 constexpr int OMP_THRESHOLD = 1<<15;
 #endif
 
+    // (i*j)%k, the product exceeds the range of int for factors k > 46341
+    static inline int mulmod(const int i, const int j, const int k) noexcept
+    {
+        return static_cast<int>(static_cast<int64_t>(i) * j % k);
+    }
+
     struct cpx {
         xmm z;
         cpx(const xmm& z) noexcept : z(z) {}
@@ -512,7 +520,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +540,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*mulmod(i, j, k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1077,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1097,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*mulmod(i, j, k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1657,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1682,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2241,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2266,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From 3f6aa1428dea5e52852389e3ce4d0e7c4b6d7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:42 +0000
Subject: [PATCH 5/5] fix: DCT of length 2^30 overflowed int in the weight
 angle

---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 55f973c..317c2d1 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -517,7 +517,7 @@ namespace OTFFT_NAMESPACE
         N = n;
         rfft.setup(N);
         weight.setup(N+1); V = &weight;
-        const double theta0 = M_PI/(2*N);
+        const double theta0 = M_PI/(2.0*N);
         const int Nh = N/2;
         if (N < 2) {}
         else if (N < OMP_THRESHOLD_W) for (int p = 0; p <= Nh; p++) {
-- 
2.43.0

