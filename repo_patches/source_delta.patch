From bc0e8d9c9229b49979e0ba937f222054f33979b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 1/7] fix: mixed radix: index of the DFT matrix overflowed for
 prime factors above 46341

---
 src/otfft_mixedradix.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..3af8cfe 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -11,6 +11,8 @@
 
 #include "otfft_misc.h"
 
+#include <cstdint>
+
 namespace OTFFT_NAMESPACE {
 
 namespace OTFFT_MixedRadix { //////////////////////////////////////////////////
@@ -39,6 +41,12 @@ constexpr int OMP_THRESHOLD = 1<<15;
         return mulpz(a, b);
     }
 
+    // (i*j)%k; the product does not fit in an int once k exceeds 46341
+    static inline int mulmod(const int i, const int j, const int k) noexcept
+    {
+        return static_cast<int>(static_cast<int64_t>(i)*j%k);
+    }
+
     ///////////////////////////////////////////////////////////////////////////////
     // Forward Butterfly Operation
     ///////////////////////////////////////////////////////////////////////////////
@@ -512,7 +520,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +540,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*mulmod(i, j, k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1077,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1097,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*mulmod(i, j, k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1657,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1682,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2241,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2266,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*mulmod(i, j, k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From 86b4dc370f391aec9c37d588f3c8584c9b989431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 2/7] fix: transforms of length 1 (and real/cosine transforms
 of length 2) dereferenced null

---
 src/otfft_algo.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..73d1e70 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -104,17 +104,17 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::fwd(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd(x, y);
+        if (obj) obj->fwd(x, y);
     }
 
     void FFT0::fwd0(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwd0(x, y);
+        if (obj) obj->fwd0(x, y);
     }
 
     void FFT0::fwdu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->fwdu(x, y);
+        if (obj) obj->fwdu(x, y);
     }
 
     void FFT0::fwdn(complex_vector x, complex_vector y) const noexcept
@@ -124,7 +124,7 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::inv(complex_vector x, complex_vector y) const noexcept
     {
-        obj->inv(x, y);
+        if (obj) obj->inv(x, y);
     }
 
     void FFT0::inv0(complex_vector x, complex_vector y) const noexcept
@@ -134,12 +134,12 @@ namespace OTFFT_NAMESPACE
 
     void FFT0::invu(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invu(x, y);
+        if (obj) obj->invu(x, y);
     }
 
     void FFT0::invn(complex_vector x, complex_vector y) const noexcept
     {
-        obj->invn(x, y);
+        if (obj) obj->invn(x, y);
     }
 
     FFT::FFT() noexcept : fft(), work(), y(0) {}
-- 
2.43.0


From 2cb2cd2adb801441795edd80592f2208af70985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 3/7] fix: complex_t scaling by its own real part used the
 already scaled value

---
 inc/otfft_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..388f0a9 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -97,14 +97,14 @@ struct complex_t
         return *this;
     }
 
-    complex_t& operator*=(const double& x) NOEXCEPT
+    complex_t& operator*=(const double x) NOEXCEPT
     {
         Re *= x;
         Im *= x;
         return *this;
     }
 
-    complex_t& operator/=(const double& x) NOEXCEPT
+    complex_t& operator/=(const double x) NOEXCEPT
     {
         Re /= x;
         Im /= x;
-- 
2.43.0


From 8f94b9fc7fc3a60f1738bc62454023590f6ac3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 4/7] fix: DCT table angle no longer overflows int for N = 2^30

---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 73d1e70..b7ef4f2 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -516,7 +516,7 @@ namespace OTFFT_NAMESPACE
         N = n;
         rfft.setup(N);
         weight.setup(N+1); V = &weight;
-        const double theta0 = M_PI/(2*N);
+        const double theta0 = M_PI/(2.0*N);
         const int Nh = N/2;
         if (N < 2) {}
         else if (N < OMP_THRESHOLD_W) for (int p = 0; p <= Nh; p++) {
-- 
2.43.0


From 072d1970089193bdfd5fd8b65277bf88921cf8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 5/7] fix: complex_t helpers read their operands through
 references, so they are pure, not const

With __attribute__((const)) a compiler may reuse the result of an earlier
call with the same references although the operands were modified in
between; clang at -O1 and above does, e.g. norm(z) before and after z *= 2.
---
 inc/otfft_complex.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index 388f0a9..103c77e 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -132,32 +132,32 @@ typedef complex_t* const complex_vector;
 typedef const complex_t* const const_complex_vector;
 #endif
 
-static inline double Re(const complex_t& z) NOEXCEPT force_inline;
+static inline double Re(const complex_t& z) NOEXCEPT force_inline2;
 static inline double Re(const complex_t& z) NOEXCEPT { return z.Re; }
-static inline double Im(const complex_t& z) NOEXCEPT force_inline;
+static inline double Im(const complex_t& z) NOEXCEPT force_inline2;
 static inline double Im(const complex_t& z) NOEXCEPT { return z.Im; }
 
-static inline double norm(const complex_t& z) NOEXCEPT force_inline;
+static inline double norm(const complex_t& z) NOEXCEPT force_inline2;
 static inline double norm(const complex_t& z) NOEXCEPT
 {
     return z.Re*z.Re + z.Im*z.Im;
 }
-static inline complex_t conj(const complex_t& z) NOEXCEPT force_inline;
+static inline complex_t conj(const complex_t& z) NOEXCEPT force_inline2;
 static inline complex_t conj(const complex_t& z) NOEXCEPT
 {
     return complex_t(z.Re, -z.Im);
 }
-static inline double abs(const complex_t& z) NOEXCEPT force_inline;
+static inline double abs(const complex_t& z) NOEXCEPT force_inline2;
 static inline double abs(const complex_t& z) NOEXCEPT
 {
     return sqrt(norm(z));
 }
-static inline double arg(const complex_t& z) NOEXCEPT force_inline;
+static inline double arg(const complex_t& z) NOEXCEPT force_inline2;
 static inline double arg(const complex_t& z) NOEXCEPT
 {
     return atan2(z.Im, z.Re);
 }
-static inline complex_t proj(const complex_t& z) NOEXCEPT force_inline;
+static inline complex_t proj(const complex_t& z) NOEXCEPT force_inline2;
 static inline complex_t proj(const complex_t& z) NOEXCEPT
 {
     const double den(norm(z) + double(1.0));
@@ -168,54 +168,54 @@ static inline complex_t polar(const double rho, const double theta) NOEXCEPT
 {
     return complex_t(rho * cos(theta), rho * sin(theta));
 }
-static inline complex_t jx(const complex_t& z) NOEXCEPT force_inline;
+static inline complex_t jx(const complex_t& z) NOEXCEPT force_inline2;
 static inline complex_t jx(const complex_t& z) NOEXCEPT
 {
     return complex_t(-z.Im, z.Re);
 }
-static inline complex_t neg(const complex_t& z) NOEXCEPT force_inline;
+static inline complex_t neg(const complex_t& z) NOEXCEPT force_inline2;
 static inline complex_t neg(const complex_t& z) NOEXCEPT
 {
     return complex_t(-z.Re, -z.Im);
 }
-static inline complex_t mjx(const complex_t& z) NOEXCEPT force_inline;
+static inline complex_t mjx(const complex_t& z) NOEXCEPT force_inline2;
 static inline complex_t mjx(const complex_t& z) NOEXCEPT
 {
     return complex_t(z.Im, -z.Re);
 }
-static inline complex_t operator+(const complex_t& a, const complex_t& b) NOEXCEPT force_inline;
+static inline complex_t operator+(const complex_t& a, const complex_t& b) NOEXCEPT force_inline2;
 static inline complex_t operator+(const complex_t& a, const complex_t& b) NOEXCEPT
 {
     return complex_t(a.Re + b.Re, a.Im + b.Im);
 }
-static inline complex_t operator-(const complex_t& a, const complex_t& b) NOEXCEPT force_inline;
+static inline complex_t operator-(const complex_t& a, const complex_t& b) NOEXCEPT force_inline2;
 static inline complex_t operator-(const complex_t& a, const complex_t& b) NOEXCEPT
 {
     return complex_t(a.Re - b.Re, a.Im - b.Im);
 }
-static inline complex_t operator*(const double& a, const complex_t& b) NOEXCEPT force_inline;
+static inline complex_t operator*(const double& a, const complex_t& b) NOEXCEPT force_inline2;
 static inline complex_t operator*(const double& a, const complex_t& b) NOEXCEPT
 {
     return complex_t(a*b.Re, a*b.Im);
 }
-static inline complex_t operator*(const complex_t& a, const complex_t& b) NOEXCEPT force_inline;
+static inline complex_t operator*(const complex_t& a, const complex_t& b) NOEXCEPT force_inline2;
 static inline complex_t operator*(const complex_t& a, const complex_t& b) NOEXCEPT
 {
     return complex_t(a.Re*b.Re - a.Im*b.Im, a.Re*b.Im + a.Im*b.Re);
 }
-static inline complex_t operator/(const complex_t& a, const double& b) NOEXCEPT force_inline;
+static inline complex_t operator/(const complex_t& a, const double& b) NOEXCEPT force_inline2;
 static inline complex_t operator/(const complex_t& a, const double& b) NOEXCEPT
 {
     return complex_t(a.Re/b, a.Im/b);
 }
-static inline complex_t operator/(const complex_t& a, const complex_t& b) NOEXCEPT force_inline;
+static inline complex_t operator/(const complex_t& a, const complex_t& b) NOEXCEPT force_inline2;
 static inline complex_t operator/(const complex_t& a, const complex_t& b) NOEXCEPT
 {
     const double b2 = b.Re*b.Re + b.Im*b.Im;
     return (a * conj(b)) / b2;
 }
 
-static inline complex_t expj(const double& theta) NOEXCEPT force_inline;
+static inline complex_t expj(const double& theta) NOEXCEPT force_inline2;
 static inline complex_t expj(const double& theta) NOEXCEPT
 {
     //return complex_t(cos(theta), sin(theta));
-- 
2.43.0


From 41c1e0d0deb4288ca3b893d5ba512b259b8f50f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 6/7] fix: execute XGETBV only if the OS enabled XSAVE

Without CPUID.1:ECX.OSXSAVE the instruction is invalid, so the factories died instead of
falling back to SSE2 on processors without XSAVE or with XSAVE disabled.
---
 src/otfft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..13d5488 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,8 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is an invalid instruction unless the OS enabled XSAVE
+                const auto cpu_info_xcr = ((cpu_info_1[2] & 0x08000000) != 0) ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From daa7de547c3dcc348680366b04b3a0fc26481647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:12 +0000
Subject: [PATCH 7/7] fix: Bluestein::setup(0) kept the previous length

After setup(n) with n >= 1, setup(0) returned without recording the new
length, so a following transform still rewrote n elements.
---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index b7ef4f2..3a0ab87 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -746,7 +746,7 @@ namespace OTFFT_NAMESPACE
 
     void Bluestein::setup(int n)
     {
-        if (n < 1) return;
+        if (n < 1) { N = 0; return; }
         N = n;
         const int N2 = 2*N;
         for (L = 1; L < N2 - 1; L *= 2);
-- 
2.43.0

