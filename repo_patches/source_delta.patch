From 1f7777241069d946a48fad558f33c7ac13c40d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 001/147] fix: dual operator*= and operator/= computed the dual
 part from the updated real part

---
 src/autodiff/dual.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..e19710c 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,9 +215,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				return *this;
+				return (*this = (*this) * other);
 			}
 
 			/// Multiply this dual number by a real number
@@ -231,9 +229,7 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
-				b = (b * other.a - a * other.b) / square(other.a);
-				return *this;
+				return (*this = (*this) / other);
 			}
 
 			/// Divide a dual number by a real number
-- 
2.43.0


From fc76f7ea3009753f1f54ce1c9d41de9be5852db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 002/147] fix: derivative of tanh(dual) was missing a factor 4

---
 src/autodiff/dual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..f63506d 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,7 +218,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
-- 
2.43.0


From f0632d2e160d947a333ea8abef97f68e370d386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 003/147] fix: asin and acos of dual numbers did not reject x
 <= -1

---
 src/autodiff/dual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index f63506d..2a52c81 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -157,7 +157,7 @@ namespace theoretica {
 	/// Compute the arcsine of a dual number
 	inline dual asin(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
@@ -169,7 +169,7 @@ namespace theoretica {
 	/// Compute the arccosine of a dual number
 	inline dual acos(dual x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual)", x.Re(), OUT_OF_DOMAIN);
 			return dual(nan(), nan());
 		}
-- 
2.43.0


From 4dbb6416b7f01d0c00d18ee2821b15255b8e8ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 004/147] fix: acos(-0.0) returned -pi/2

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..0fd73d2 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1081,6 +1081,10 @@ namespace theoretica {
 			return nan();
 		}
 
+		// Covers both signed zeros
+		if(x == 0)
+			return PI2;
+
 		if(x < 0)
 			return atan(sqrt(1 - x * x) / x) + PI;
 		else
-- 
2.43.0


From a4b8804469a10528217ca4dcc7df9d354270a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 005/147] fix: second order part of dual2::inverse (and of
 dual2 division)

---
 src/autodiff/dual2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..7ca9d4d 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,8 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a),
+					2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From 895fa56a7977f092dd68fa2eadc79971671120b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 006/147] fix: dual2 operator*= used components it had already
 overwritten

---
 src/autodiff/dual2.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 7ca9d4d..e3696d6 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -208,10 +208,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
-				return *this;
+				return (*this = (*this) * other);
 			}
 
 			/// Multiply this dual number by a real number
-- 
2.43.0


From 3afc36cde18657e90f381d6019d64cfc5cc400ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 007/147] fix: second order part of pow(dual2, n)

---
 src/autodiff/dual2_functions.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..7bdfe49 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,13 +40,16 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
-		const real pow_n_2_x = pow(x.Re(), n - 2);
+		// The coefficients vanish where the exponent would become negative
+		const real df = (n == 0) ? 0.0 : n * pow(x.Re(), n - 1);
+		const real d2f = (n == 0 || n == 1)
+			? 0.0 : real(n) * (n - 1) * pow(x.Re(), n - 2);
 
-		real f = pow_n_2_x * square(x.Re());
-		real df = pow_n_2_x * x.Re() * n * x.Dual1();
-		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
-
-		return dual2(f, df, d2f);
+		return dual2(
+			pow(x.Re(), n),
+			df * x.Dual1(),
+			d2f * square(x.Dual1()) + df * x.Dual2()
+		);
 	}
 
 
-- 
2.43.0


From 05ad4b38259fc3c17d67e0519f40015bc1c74186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 008/147] fix: abs(dual2) dropped the second order part

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 7bdfe49..2b6ef85 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -199,7 +199,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From d349334dab5e20ba11afa83c44b7045b2fee89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 009/147] fix: sign of the second derivative of cot(dual2)

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 2b6ef85..f41d1a2 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -132,7 +132,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
-- 
2.43.0


From 092d76a99463387c97891c2ace2fb20b62a3c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 010/147] fix: sign of the second derivative of atan(dual2)

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index f41d1a2..7f1c703 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -247,7 +247,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From 39d66d452c855719a67637585d703eb05d02a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 011/147] fix: asin and acos of dual2 did not reject x <= -1

---
 src/autodiff/dual2_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 7f1c703..1b0d875 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -206,7 +206,7 @@ namespace theoretica {
 	/// Compute the arcsine of a second order dual number
 	inline dual2 asin(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan());
 		}
@@ -225,7 +225,7 @@ namespace theoretica {
 	/// Compute the arcosine of a second order dual number
 	inline dual2 acos(dual2 x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
 			return dual2(nan(), nan());
 		}
-- 
2.43.0


From 4947e61a6cc2c349241eaa9ce21d74bc233c2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:34 +0000
Subject: [PATCH 012/147] fix: pow(dual, 0) was NaN at x = 0

---
 src/autodiff/dual_functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index 2a52c81..771f873 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,10 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		// Avoid a negative exponent for constant powers
+		if(n == 0)
+			return dual(1.0, 0.0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
-- 
2.43.0


From 2ff86ee78e85495a70880014639d5bee9389e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 013/147] fix: domain errors of dual2 functions returned 0 as
 second derivative

---
 src/autodiff/dual2_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 1b0d875..7f897d3 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -60,7 +60,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(dual2)", sqrt_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -107,7 +107,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(dual2)", cos_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -126,7 +126,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(dual2)", sin_x, DIV_BY_ZERO);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -155,7 +155,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(ln(x.Re()),
@@ -170,7 +170,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -186,7 +186,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		return dual2(
@@ -208,7 +208,7 @@ namespace theoretica {
 
 		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
@@ -227,7 +227,7 @@ namespace theoretica {
 
 		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(dual2)", x.Re(), OUT_OF_DOMAIN);
-			return dual2(nan(), nan());
+			return dual2(nan(), nan(), nan());
 		}
 
 		const real sqrt_1mx2 = sqrt(1 - square(x.Re()));
-- 
2.43.0


From 08760ea2200d00516b65653106841e75715c6b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 014/147] fix: multidual operator*= and operator/= computed the
 dual part from the updated real part

---
 src/autodiff/multidual.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..3f14b1a 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -205,9 +205,7 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
-				v = (other.v * a) + (v * other.a);
-				return *this;
+				return (*this = (*this) * other);
 			}
 
 			/// Multiply this multidual number by a real number
@@ -221,9 +219,7 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
-				v = (v * other.a - other.v * a) / (other.a * other.a);
-				return *this;
+				return (*this = (*this) / other);
 			}
 
 			/// Divide a multidual number by a real number
-- 
2.43.0


From 3443b0c36b994e6abc1100a31882619f58c974c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 015/147] fix: multidual operator/ rejected a zero numerator
 instead of a zero divisor

---
 src/autodiff/multidual.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 3f14b1a..d704672 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -156,7 +156,7 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
 					return multidual(nan(), vec<real, N>(nan(), N));
 				}
-- 
2.43.0


From f8db40cb82e62223f7127aee9293fe1fe76c2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 016/147] fix: error values of multidual swapped size and value
 of the dual part

---
 src/autodiff/multidual.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index d704672..61daf9a 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -98,7 +98,7 @@ namespace theoretica {
 
 				if(a == 0) {
 					TH_MATH_ERROR("multidual::inverse", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(N, nan()));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(1.0 / a, v * (-1 / (a * a)));
@@ -158,7 +158,7 @@ namespace theoretica {
 
 				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(v.size(), nan()));
 				}
 
 				return multidual(a / other.a,
@@ -228,7 +228,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(v.size(), nan());
 					return *this;
 				}
 
-- 
2.43.0


From 35dd20dd75dfa15a3338d8623b0e19ac592aa864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 017/147] fix: domain errors of multidual functions converted
 NaN to a vector size for dynamic vectors

---
 src/autodiff/multidual_functions.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..8bbf9eb 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -51,7 +51,7 @@ namespace theoretica {
 
 		if(sqrt_x == 0) {
 			TH_MATH_ERROR("sqrt(multidual)", sqrt_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(sqrt_x, x.Dual() * 0.5 / sqrt_x);
@@ -80,7 +80,7 @@ namespace theoretica {
 
 		if(cos_x == 0) {
 			TH_MATH_ERROR("tan(multidual)", cos_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(tan(x.Re()), x.Dual() / square(cos_x));
@@ -95,7 +95,7 @@ namespace theoretica {
 
 		if(sin_x == 0) {
 			TH_MATH_ERROR("cot(multidual)", sin_x, DIV_BY_ZERO);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(cot(x.Re()), x.Dual() * (-1 / square(sin_x)));
@@ -116,7 +116,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("ln(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(ln(x.Re()), x.Dual() / x.Re());
@@ -129,7 +129,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log2(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log2(x.Re()), x.Dual() * LOG2E / x.Re());
@@ -142,7 +142,7 @@ namespace theoretica {
 
 		if(x.Re() <= 0) {
 			TH_MATH_ERROR("log10(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(log10(x.Re()), x.Dual() * LOG10E / x.Re());
@@ -162,7 +162,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(asin(x.Re()), x.Dual() / sqrt(1 - square(x.Re())));
@@ -175,7 +175,7 @@ namespace theoretica {
 
 		if(x.Re() >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
-			return multidual<N>(nan(), vec<real, N>(nan()));
+			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
 
 		return multidual<N>(acos(x.Re()), x.Dual() * (-1 / sqrt(1 - square(x.Re()))));
-- 
2.43.0


From ecb07c3d742df63d12657084c30d696c6fcf089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 018/147] fix: derivative of tanh(multidual) was missing a
 factor 4

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 8bbf9eb..dbde638 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -213,7 +213,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * 4.0 / square(exp_x + 1.0 / exp_x));
 	}
 
 }
-- 
2.43.0


From 4bbf26fe00d0f804cf3c265c1ee377efa79c2b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 019/147] fix: asin and acos of multidual did not reject x <=
 -1

---
 src/autodiff/multidual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index dbde638..e88cf92 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -160,7 +160,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> asin(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("asin(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
@@ -173,7 +173,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> acos(multidual<N> x) {
 
-		if(x.Re() >= 1) {
+		if(abs(x.Re()) >= 1) {
 			TH_MATH_ERROR("acos(multidual)", x.Re(), OUT_OF_DOMAIN);
 			return multidual<N>(nan(), vec<real, N>(x.Dual().size(), nan()));
 		}
-- 
2.43.0


From 105b6fa0ec6eb372619c7ff95e9be4106e24b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 020/147] fix: pow(multidual, 0) was NaN at x = 0

---
 src/autodiff/multidual_functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index e88cf92..57e00e2 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,10 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+		// Avoid a negative exponent for constant powers
+		if(n == 0)
+			return multidual<N>(1.0, x.Dual() * 0.0);
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
 	}
-- 
2.43.0


From eb1eac760a52b01e9da5cb92cb40da4a9fc9df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:51 +0000
Subject: [PATCH 021/147] fix: multidual extract functions ignored dynamically
 sized vectors

---
 src/autodiff/multidual.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 61daf9a..de26a71 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -272,7 +272,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -288,8 +288,8 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
+				for (unsigned int i = 0; i < v.size(); ++i)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 				
 				return J;
@@ -304,9 +304,9 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
+				for (unsigned int i = 0; i < v.size(); ++i) {
 					
-					for (unsigned int j = 0; j < N; ++j)
+					for (unsigned int j = 0; j < v.size(); ++j)
 						J.at(j, i) = v.get(j).Dual().get(i);
 					
 					x[i] = v.get(i).Re();
-- 
2.43.0


From 11e08c23d3068b766284194919586f11bb6ba4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:20 +0000
Subject: [PATCH 022/147] fix: pow(multidual, n) did not compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 57e00e2..91bfe1e 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -43,7 +43,7 @@ namespace theoretica {
 			return multidual<N>(1.0, x.Dual() * 0.0);
 
 		real pow_n_1_x = pow(x.Re(), n - 1);
-		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
+		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
 
 
-- 
2.43.0


From b3a1774df525694a18953fe82b5ced7956ba8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:21 +0000
Subject: [PATCH 023/147] fix: autodiff::directional_derivative did not compile

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..68016f3 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -341,7 +341,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * v.dot(gradient(f, x));
 		}
 
 
-- 
2.43.0


From 1c31b1b7704ef41cf6332219455b18409df8dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:40 +0000
Subject: [PATCH 024/147] fix: abs(multidual) did not compile

---
 src/autodiff/multidual_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 91bfe1e..a30d352 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -156,7 +156,7 @@ namespace theoretica {
 	/// Compute the absolute value of a multidual number
 	template<unsigned int N>
 	multidual<N> abs(multidual<N> x) {
-		return multidual<N>(abs(x.Re()), x.Dual() * sgn(x.Re()));
+		return multidual<N>(abs(x.Re()), x.Dual() * real(sgn(x.Re())));
 	}
 
 
-- 
2.43.0


From 83a87dae86e2cf1bfb2e9bf18e0610b83cff01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:40 +0000
Subject: [PATCH 025/147] fix: autodiff::sturm_liouville did not compile

---
 src/autodiff/autodiff.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 68016f3..80a1e8e 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -11,6 +11,7 @@
 #include "multidual.h"
 #include "../algebra/vec.h"
 #include "../algebra/mat.h"
+#include "../algebra/transform.h"
 #include "../core/error.h"
 #include "../core/core_traits.h"
 #include "./autodiff_types.h"
@@ -436,9 +437,10 @@ namespace theoretica {
 			multidual<N>(*H)(vec<multidual<N>, N>),
 			vec<real, N> eta) {
 
-			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+			return gradient(f, eta).dot(
+				algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size())
+					* gradient(H, eta)
+			);
 		}
 
 	}
-- 
2.43.0


From 99903b841eeca0819303a8fc1b224c8e35ba6481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:57 +0000
Subject: [PATCH 026/147] fix: dynamic matrices used the wrong stride, aliasing
 elements of non-square matrices

---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..64f86ae 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From e26d6970ad33c2e40e6ba38532beb1a5cc74eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:57 +0000
Subject: [PATCH 027/147] fix: resizing a dynamic matrix moved the overlapping
 elements to other positions

---
 src/algebra/mat.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 64f86ae..3c63770 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1241,11 +1241,17 @@ namespace theoretica {
 
 			if (data.size()) {
 
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
+				const size_t min_rows = min(rows, row_sz);
+				const size_t min_cols = min(cols, col_sz);
 
 				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
+				for (size_t i = 0; i < min_rows; ++i)
+					for (size_t j = 0; j < min_cols; ++j)
+#ifdef THEORETICA_ROW_FIRST
+						new_data[j + i * cols] = data[j + i * col_sz];
+#else
+						new_data[i + j * rows] = data[i + j * row_sz];
+#endif
 			}
 
 			data = new_data;
-- 
2.43.0


From 68ea76255bac2b3283b6c14ca5a66f1ed6cbf8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:57 +0000
Subject: [PATCH 028/147] fix: the diagonal constructor of fixed size matrices
 ignored the diagonal when sizes were omitted

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 3c63770..7926a9c 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = min(rows(), cols());
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From 2c24557e522a043a5e773f2d6f2a568fc4024aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 029/147] fix: matrix-vector products of non-square matrices
 used the wrong result size and wrote out of bounds

---
 src/algebra/algebra.h | 10 ++++++++--
 src/algebra/mat.h     | 11 +++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..99c317d 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -702,7 +702,7 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
 			if(v.size() != A.cols()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
@@ -710,6 +710,12 @@ namespace theoretica {
 				return res;
 			}
 
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
+				vec_error(res);
+				return res;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
@@ -736,7 +742,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 7926a9c..8e756fb 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -319,7 +319,7 @@ namespace theoretica {
 			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
-				res.resize(cols());
+				res.resize(rows());
 				algebra::vec_error(res);
 				return res;
 			}
@@ -332,7 +332,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -877,7 +878,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
@@ -894,7 +895,9 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		template<unsigned int N = 0, unsigned int K = 0>
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			res.resize(rows());
+			return algebra::transform(res, *this, v);
 		}
 
 
-- 
2.43.0


From 63401ce94d61cb3bc3155845cb72fd92453847ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 030/147] fix: apply_transform left the vector unchanged

---
 src/algebra/algebra.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 99c317d..95cc9ca 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -681,14 +681,21 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
+
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::apply_transform", res.size(), INVALID_ARGUMENT);
+				vec_error(v);
+				return v;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
-- 
2.43.0


From aa35b9c4ea43085fb5f13404281b5d0c8486198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 031/147] fix: the vector-matrix product computed the
 matrix-vector product

---
 src/algebra/mat.h | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 8e756fb..9c62c35 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -284,7 +284,19 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, K> operator*(
 			const vec<VecType, M>& a, const mat<Type, N, K>& B) {
-			return B * a;
+
+			vec<VecType, K> res;
+
+			if(a.size() != N) {
+				TH_MATH_ERROR("mat::operator*", a.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(res);
+			}
+
+			for (unsigned int j = 0; j < K; ++j)
+				for (unsigned int i = 0; i < N; ++i)
+					res[j] += a[i] * B(i, j);
+
+			return res;
 		}
 
 
@@ -850,7 +862,22 @@ namespace theoretica {
 		template<typename VecType, unsigned int M>
 		inline friend vec<VecType, 0> operator*(
 			const vec<VecType, M>& a, const mat<Type, 0, 0>& B) {
-			return B * a;
+
+			vec<VecType, 0> res;
+			res.resize(B.cols());
+
+			if(a.size() != B.rows()) {
+				TH_MATH_ERROR("mat::operator*", a.size(), INVALID_ARGUMENT);
+				return algebra::vec_error(res);
+			}
+
+			algebra::vec_zeroes(res);
+
+			for (unsigned int j = 0; j < B.cols(); ++j)
+				for (unsigned int i = 0; i < B.rows(); ++i)
+					res[j] += a[i] * B(i, j);
+
+			return res;
 		}
 
 
-- 
2.43.0


From 028a0fe8b26651d21115f6dab926d7da3efe65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 032/147] fix: mat_swap_cols iterated over the number of
 columns instead of rows

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 95cc9ca..7876e0f 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -211,7 +211,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From 5be45d97619fad3cb427761bd94d67f78aeb7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 033/147] fix: in-place sums and differences of matrices and
 vectors of different types did not compile

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7876e0f..83d858a 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -774,7 +774,7 @@ namespace theoretica {
 		/// @param B The second matrix to add
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_sum(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_sum(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_sum", A.rows(), INVALID_ARGUMENT);
@@ -842,7 +842,7 @@ namespace theoretica {
 		/// @param B The second matrix
 		/// @return A reference to the overwritten matrix
 		template<typename Matrix1, typename Matrix2>
-		inline Matrix2& mat_diff(Matrix1& A, const Matrix2& B) {
+		inline Matrix1& mat_diff(Matrix1& A, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_diff", A.rows(), INVALID_ARGUMENT);
@@ -911,7 +911,7 @@ namespace theoretica {
 		/// @param B The second matrix to combine
 		/// @return A reference to the overwritten matrix
 		template<typename Field1, typename Matrix1, typename Field2, typename Matrix2>
-		inline Matrix2& mat_lincomb(
+		inline Matrix1& mat_lincomb(
 			Field1 alpha, Matrix1& A, Field2 beta, const Matrix2& B) {
 
 			if(A.rows() != B.rows()) {
@@ -1145,7 +1145,7 @@ namespace theoretica {
 		/// @param v2 The second vector to add
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_sum(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_sum(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_sum", v1.size(), INVALID_ARGUMENT);
@@ -1193,7 +1193,7 @@ namespace theoretica {
 		/// @param v2 The second vector
 		/// @return A reference to the overwritten vector
 		template<typename Vector1, typename Vector2>
-		inline Vector2& vec_diff(Vector1& v1, const Vector2& v2) {
+		inline Vector1& vec_diff(Vector1& v1, const Vector2& v2) {
 
 			if(v1.size() != v2.size()) {
 				TH_MATH_ERROR("algebra::vec_diff", v1.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 1b92b3ec574f76d90850b1972938890f40049a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 034/147] fix: mat_lincomb with a result argument did not
 compile

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 83d858a..d4146ba 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -950,14 +950,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -976,7 +976,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From a9fc121635647f41c455b1c98d9bffdafbb4c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 035/147] fix: make_hermitian did not conjugate the diagonal

---
 src/algebra/algebra.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index d4146ba..279ecde 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -509,6 +509,8 @@ namespace theoretica {
 					m(i, j) = conjugate(m(j, i));
 					m(j, i) = conjugate(buff);
 				}
+
+				m(i, i) = conjugate(m(i, i));
 			}
 
 			return m;
-- 
2.43.0


From ebe0764c5b95ff96f521ba5c3a8ab0d50de77d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 036/147] fix: operator/= of fixed size vectors did not compile

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..09e7092 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From b8cc99848742ceba74f6b81b3c298fc4bf66a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 037/147] fix: operator* of fixed size non-square matrices
 always failed

---
 src/algebra/mat.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 9c62c35..547cc1c 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -391,6 +391,16 @@ namespace theoretica {
 		}
 
 
+		/// Overloads the `*` operator for the multiplication of fixed size matrices.
+		/// @tparam M The number of columns in matrix `B`.
+		/// @param B The matrix to multiply with.
+		/// @return The resulting matrix.
+		template<unsigned int M>
+		inline mat<Type, N, M> operator*(const mat<Type, K, M>& B) const {
+			return mul(B);
+		}
+
+
    		/// Overloads the `*` operator for matrix multiplication.
    		/// @tparam Matrix The type of the matrix to multiply with.
    		/// @param B The matrix to multiply with.
-- 
2.43.0


From eb42f418c82e3d369997305770d63cd781e0eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 038/147] fix: copying into a fixed size matrix or vector of a
 different size wrote out of bounds

---
 src/algebra/algebra.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 279ecde..8cc682e 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -126,6 +126,12 @@ namespace theoretica {
 
 			dest.resize(src.rows(), src.cols());
 
+			// Fixed size matrices cannot be resized
+			if(dest.rows() != src.rows() || dest.cols() != src.cols()) {
+				TH_MATH_ERROR("algebra::mat_copy", src.rows(), INVALID_ARGUMENT);
+				return mat_error(dest);
+			}
+
 			for (unsigned int i = 0; i < src.rows(); ++i)
 				for (unsigned int j = 0; j < src.cols(); ++j)
 					dest(i, j) = src(i, j);
@@ -144,6 +150,12 @@ namespace theoretica {
 
 			dest.resize(src.size());
 
+			// Fixed size vectors cannot be resized
+			if(dest.size() != src.size()) {
+				TH_MATH_ERROR("algebra::vec_copy", src.size(), INVALID_ARGUMENT);
+				return vec_error(dest);
+			}
+
 			for (unsigned int i = 0; i < src.size(); ++i)
 				dest[i] = src[i];
 
-- 
2.43.0


From ad8bd2b1e0b36988938d3578bcd93f4f454251f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:23 +0000
Subject: [PATCH 039/147] fix: decompose_lu left stale elements over the
 diagonal of L

---
 src/algebra/algebra.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 8cc682e..46a41de 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1419,9 +1419,10 @@ namespace theoretica {
 
 			using Type = matrix_element_t<Matrix1>;
 
-			// Set the diagonal of L to 1.0
+			// Set the diagonal of L to 1.0 and the elements over it to 0.0
 			for (unsigned int i = 0; i < A.rows(); ++i)
-				L(i, i) = (Type) 1.0;
+				for (unsigned int j = i; j < A.cols(); ++j)
+					L(i, j) = (Type) (i == j ? 1.0 : 0.0);
 
 			// Compute L and U
 			for(unsigned int i = 0; i < A.rows(); ++i) {
-- 
2.43.0


From 4e2ac122d4dac93277e05852fa2fc21ca8c85a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:23 +0000
Subject: [PATCH 040/147] fix: the LU decomposition of complex matrices
 conjugated the elements of U

---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 46a41de..534da5c 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1432,7 +1432,7 @@ namespace theoretica {
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1440,7 +1440,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1472,7 +1472,7 @@ namespace theoretica {
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From 7bfb4e1f0be4988e86be4df3e6da32afc914cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:23 +0000
Subject: [PATCH 041/147] fix: solve_triangular_upper read past the last column
 and element

---
 src/algebra/algebra.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 534da5c..956abe9 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1647,17 +1647,12 @@ namespace theoretica {
 				return vec_error(x);
 			}
 
-			if (U.rows() == 1) {
-				x[0] = b[0] / U(0, 0);
-				return x;
-			}
-
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-				Type sum = U(i, i + 1) * x[i + 1];
+				Type sum = Type(0.0);
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From 64eb80e4006edaccd3cec09f3e50f655888eca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:23 +0000
Subject: [PATCH 042/147] fix: solve_triangular did not signal an error for
 matrices which are not triangular

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 956abe9..7181e10 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1683,6 +1683,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("algebra::solve_triangular", false, INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From 24a0374ed33637dc7bb8191995bedaf07d7ec7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 043/147] fix: solving a system with a zero pivot returned NaN
 without an error

---
 src/algebra/algebra.h | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7181e10..7c489f1 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1735,6 +1735,11 @@ namespace theoretica {
 				for (unsigned int j = i + 1; j < A.rows(); ++j)
 					sum += A(i, j) * b[j];
 
+				if (A(i, i) == Type(0.0)) {
+					TH_MATH_ERROR("algebra::solve_lu_inplace", false, DIV_BY_ZERO);
+					return vec_error(b);
+				}
+
 				b[i] = (b[i] - sum) / A(i, i);
 			}
 		
@@ -1752,8 +1757,42 @@ namespace theoretica {
 		template<typename Matrix, typename Vector>
 		inline Vector solve_lu(Matrix A, Vector b) {
 
-			// Apply in-place LU decomposition
-			decompose_lu_inplace(A);
+			if (!is_square(A) || A.rows() != b.size()) {
+				TH_MATH_ERROR("algebra::solve_lu", A.rows(), INVALID_ARGUMENT);
+				return vec_error(b);
+			}
+
+			using Type = matrix_element_t<Matrix>;
+
+			// Apply in-place LU decomposition, exchanging
+			// rows of the system when a pivot is zero
+			for (unsigned int j = 0; j < A.cols(); ++j) {
+
+				unsigned int p = j;
+
+				while (p < A.rows() && A(p, j) == Type(0.0))
+					++p;
+
+				if (p == A.rows()) {
+					TH_MATH_ERROR("algebra::solve_lu", false, IMPOSSIBLE_OPERATION);
+					return vec_error(b);
+				}
+
+				if (p != j) {
+					mat_swap_rows(A, j, p);
+					const auto tmp = b[j];
+					b[j] = b[p];
+					b[p] = tmp;
+				}
+
+				for (unsigned int i = j + 1; i < A.rows(); ++i) {
+
+					A(i, j) /= A(j, j);
+
+					for (unsigned int k = j + 1; k < A.cols(); ++k)
+						A(i, k) -= A(i, j) * A(j, k);
+				}
+			}
 
 			// Apply forward and backward substitution
 			return solve_lu_inplace(A, b);
-- 
2.43.0


From c678f4cf4d94308cae144a4a536a3130fcb755fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:57 +0000
Subject: [PATCH 044/147] fix: the determinant of matrices with a zero pivot
 was NaN

---
 src/algebra/algebra.h | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 7c489f1..f29a288 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2086,12 +2086,46 @@ namespace theoretica {
 		template<typename Matrix>
 		inline auto det(const Matrix& A) {
 
+			using Type = matrix_element_t<Matrix>;
+
+			if (!is_square(A)) {
+				TH_MATH_ERROR("algebra::det", A.rows(), INVALID_ARGUMENT);
+				return Type(nan());
+			}
+
 			Matrix LU = A;
-			decompose_lu_inplace(LU);
+			Type sign = Type(1.0);
+
+			// Reduce the matrix to triangular form,
+			// exchanging rows when a pivot is zero
+			for (unsigned int j = 0; j < LU.cols(); ++j) {
+
+				unsigned int p = j;
+
+				while (p < LU.rows() && LU(p, j) == Type(0.0))
+					++p;
+
+				// The matrix is singular
+				if (p == LU.rows())
+					return Type(0.0);
+
+				if (p != j) {
+					mat_swap_rows(LU, j, p);
+					sign = -sign;
+				}
+
+				for (unsigned int i = j + 1; i < LU.rows(); ++i) {
+
+					const Type coeff = LU(i, j) / LU(j, j);
+
+					for (unsigned int k = j; k < LU.cols(); ++k)
+						LU(i, k) -= coeff * LU(j, k);
+				}
+			}
 
 			// The determinant of a triangular matrix
 			// is the product of the elements on its diagonal
-			return diagonal_product(LU);
+			return Type(sign * diagonal_product(LU));
 		}
 
 
-- 
2.43.0


From f19f92b5e0283eab610255e7217e959d68a16a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 045/147] fix: floor (and fract) of negative non-integer
 numbers below -1 rounded towards zero

---
 src/core/real_analysis.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 0fd73d2..2809318 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -270,12 +270,9 @@ namespace theoretica {
 	/// e.g. floor(-0.3) = -1
 	TH_CONSTEXPR inline int floor(real x) {
 
-		if(x < 0 && x > -1)
-			return -1;
-
 		// Compute the biggest integer number
-		// that is smaller than x
-		return x - (int(x) % 1);
+		// that is not bigger than x
+		return (x < int(x)) ? (int(x) - 1) : int(x);
 	}
 
 
-- 
2.43.0


From 0db2ed6926fc423e318a45ddf34a09337dd5e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 046/147] fix: isqrt and icbrt of the biggest integer divided
 by zero

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 2809318..e609e67 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -55,7 +55,7 @@ namespace theoretica {
 	inline UnsignedIntType isqrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
@@ -95,7 +95,7 @@ namespace theoretica {
 	inline UnsignedIntType icbrt(UnsignedIntType n) {
 
 		// Upper bound
-		UnsignedIntType upper = n + 1;
+		UnsignedIntType upper = (n >> 1) + 2;
 		
 		// Lower bound
 		UnsignedIntType lower = 0;
-- 
2.43.0


From 189e1227628c0b5178410e9487f95b62d512df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 047/147] fix: pad2 overflowed for integers over 2^30

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e609e67..cf95437 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -584,11 +584,11 @@ namespace theoretica {
 				// Check if x is a power of 2
 				for (int j = 0; j < i; ++j)
 					if(x & ((UnsignedIntType) 1 << j))
-						return (1 << (bit + 1));
+						return ((UnsignedIntType) 1 << (bit + 1));
 			}
 		}
 
-		return (1 << bit);
+		return ((UnsignedIntType) 1 << bit);
 	}
 
 
-- 
2.43.0


From f217c151a9dbe62aaeef376a25adbef17afd72fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 048/147] fix: roots of odd order of negative numbers recursed
 without end

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index cf95437..68c5602 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -831,6 +831,10 @@ namespace theoretica {
 			if(x == 0)
 				return 0;
 
+			// Roots of odd order are odd functions
+			if(x < 0)
+				return -root(-x, n);
+
 			// Approximate root between 0 and 1
 			// The root of the inverse is the inverse of the root
 			// !!! Possible precision problems with smaller numbers
-- 
2.43.0


From 90064b9d128819e97c6141e00db6f029c33d864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 049/147] fix: atan2 returned the wrong angle for negative
 arguments

---
 src/core/real_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 68c5602..c72983c 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1113,9 +1113,9 @@ namespace theoretica {
 		}
 
 		if(x > 0) {
-			return sgn(y) * atan(y / x);
+			return atan(y / x);
 		} else {
-			return sgn(y) * atan(y / -x) + PI2;
+			return atan(y / x) + (y >= 0 ? PI : -PI);
 		}
 	}
 
-- 
2.43.0


From b04675aa1ca2f3c2caaee0c1ac08aba937140cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 050/147] fix: binomial_coeff overflowed for coefficients
 representable in 64 bits

---
 src/core/real_analysis.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index c72983c..c7afca4 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1242,10 +1242,14 @@ namespace theoretica {
 
 		IntType res = 1;
 
-		for (unsigned int i = n; i > m; --i)
-			res *= i;
+		// The coefficient is symmetric
+		const unsigned int k = (m < n - m) ? m : (n - m);
+
+		// Every partial product is a binomial coefficient
+		for (unsigned int i = 1; i <= k; ++i)
+			res = res * (n - k + i) / i;
 
-		return res / fact(n - m);
+		return res;
 	}
 
 
-- 
2.43.0


From 7285b15b651610a8947a178708919f96013e859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:16 +0000
Subject: [PATCH 051/147] fix: bit_rotate by 0 shifted by the width of the type

---
 src/core/bit_op.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/bit_op.h b/src/core/bit_op.h
index 2a03594..3bc2f99 100644
--- a/src/core/bit_op.h
+++ b/src/core/bit_op.h
@@ -77,7 +77,7 @@ namespace theoretica {
 	inline TH_CONSTEXPR UnsignedIntType
 	bit_rotate(UnsignedIntType x, unsigned int i) {
 
-		return (x << i) | (x >> ((sizeof(UnsignedIntType) * 8) - i));
+		return (x << i) | (x >> (((sizeof(UnsignedIntType) * 8) - i) % (sizeof(UnsignedIntType) * 8)));
 	}
 
 
-- 
2.43.0


From 44a7ae7e1dc357a6825ede57b49e3e5d77aad6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:32 +0000
Subject: [PATCH 052/147] fix: operator/= of complex numbers by a real number
 did not compile

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..c3ba180 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From 81f004b8c244591556761dc146e846d09ab1db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:32 +0000
Subject: [PATCH 053/147] fix: the complex square root of negative real numbers
 was zero

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..91c7af9 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -113,7 +113,7 @@ namespace theoretica {
 
 		return complex<T>(
 			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From 981ef81e43a2ee732159ee123c30407aac1911e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:32 +0000
Subject: [PATCH 054/147] fix: quat::invert did not compile

---
 src/complex/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..1453990 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
-- 
2.43.0


From e5395bd0e721ab5f9803249b63755d54f4421dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:32 +0000
Subject: [PATCH 055/147] fix: quat::rotation did not compile

---
 src/complex/quat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index 1453990..b2de525 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -323,9 +323,12 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
+				const Vector n_axis = algebra::normalize(axis);
+				const Type s = sin(rad / 2.0);
+
 				return quat(
 					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
+					n_axis.get(0) * s, n_axis.get(1) * s, n_axis.get(2) * s
 				);
 			}
 
-- 
2.43.0


From b28655db17c2cbb76209a5346c36afb706d28578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:32 +0000
Subject: [PATCH 056/147] fix: phasor::inverse did not compile

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..572ccdf 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
 				if(modulus < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor((Type) nan(), (Type) nan());
 				}
 
 				return phasor(
-- 
2.43.0


From 280baa4ee9552d9ebd25d3a163d35e706a83aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:55 +0000
Subject: [PATCH 057/147] fix: tan and acos of complex numbers did not compile
 with clang

---
 src/complex/complex_analysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 91c7af9..8628312 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -99,7 +99,7 @@ namespace theoretica {
 	inline complex<T> tan(complex<T> z) {
 
 		const complex<T> t = z * complex<T>(0, 2);
-		return (exp(t) - 1) / (exp(t) + 1) * complex<T>(0, -1);
+		return (exp(t) - T(1)) / (exp(t) + T(1)) * complex<T>(0, -1);
 	}
 
 
@@ -137,7 +137,7 @@ namespace theoretica {
 	/// @param z A complex number
 	template<typename T>
 	inline complex<T> acos(complex<T> z) {
-		return ln(z + sqrt(square(z) - 1)) * complex<T>(0, -1);
+		return ln(z + sqrt(square(z) - T(1))) * complex<T>(0, -1);
 	}
 
 
-- 
2.43.0


From b309f10bda16655c204d679cd4352e377373261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 058/147] fix: rotation_3d had the wrong sign in the element
 (0, 2)

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..e9e8547 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From 0e8e33aa2d3ae3755a0e6714711210b80df17e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 059/147] fix: rotation_3d_yaxis and rotation_3d_zaxis wrote
 outside of 3x3 matrices

---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e9e8547..1e8ed94 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -286,7 +286,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -329,7 +328,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From a905fbb52419263b6d4d7c32bf256613c3fd2b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 060/147] fix: perspective_fov failed for dynamically allocated
 matrices

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 1e8ed94..36c69c8 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -415,7 +415,7 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(-width, width, -height, height, near, far, rows, cols);
 		}
 
 
-- 
2.43.0


From f1588bb60c44a8bd26bd169fa00cb75727be6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 061/147] fix: look_at read past the end of the axis vectors

---
 src/algebra/transform.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 36c69c8..80415a5 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -487,19 +487,19 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
 			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
 
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
 			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
 
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
 			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
 
 			m(3, 0) = 0;
-- 
2.43.0


From 1d1e80a18e40db4f4e9b0d6e326128a2351e3500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 062/147] fix: symplectic did not reject statically allocated
 matrices of odd size

---
 src/algebra/transform.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 80415a5..e8bd34d 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -519,8 +519,8 @@ namespace theoretica {
 			if(rows && cols)
 				m.resize(rows, cols);
 
-			if(rows != cols || (rows % 2 != 0)) {
-				TH_MATH_ERROR("algebra::symplectic", rows, INVALID_ARGUMENT);
+			if(m.rows() != m.cols() || (m.rows() % 2 != 0)) {
+				TH_MATH_ERROR("algebra::symplectic", m.rows(), INVALID_ARGUMENT);
 				mat_error(m);
 				return m;
 			}
-- 
2.43.0


From 718d675a6b35aa0d844b80cdbd63909011d906d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 063/147] fix: polynomial::find_order returned the degree of a
 null coefficient

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..45a76e1 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) >= MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From 43e20919fe9b2947226a8100085a3325dab66527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 064/147] fix: polynomial::trim popped coefficients of empty
 polynomials

---
 src/polynomial/polynomial.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 45a76e1..ea22713 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,12 +106,8 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) > MACH_EPSILON)
-						break;
-
+				while (!coeff.empty() && abs(coeff.back()) < MACH_EPSILON)
 					coeff.pop_back();
-				}
 			}
 
 
-- 
2.43.0


From 7616f533dcdcfc59c8225d76476b9fff8d165061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 065/147] fix: the difference of polynomials read past the end
 of the shorter one

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index ea22713..8df9d04 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -147,7 +147,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From 40ebba5b6c06ca773aac51b339de75c743028911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 066/147] fix: the product with an empty polynomial overflowed
 its size

---
 src/polynomial/polynomial.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 8df9d04..46e0eef 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -165,6 +165,10 @@ namespace theoretica {
 			inline polynomial operator*(const polynomial& p) const {
 
 				polynomial r = polynomial();
+
+				if(!this->size() || !p.size())
+					return r;
+
 				r.coeff.resize(this->size() + p.size() - 1);
 
 				for (unsigned int i = 0; i < size(); ++i) {
@@ -289,6 +293,10 @@ namespace theoretica {
 			inline polynomial& operator*=(const polynomial& p) {
 
 				polynomial r = polynomial();
+
+				if(!this->size() || !p.size())
+					return (*this = r);
+
 				r.coeff.resize(this->size() + p.size() - 1, Type(0));
 
 				for (unsigned int i = 0; i < coeff.size(); ++i)
-- 
2.43.0


From a0cc36e038c21a55662fb2d7fc8eff1d9a11f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 067/147] fix: polynomial::operator== compared polynomials with
 zero

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 46e0eef..502cf5e 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -349,12 +349,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From 71032f1baabbeca33d648df00a1554628469c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 068/147] fix: the division of polynomials ended with an error
 or a partial quotient

---
 src/polynomial/polynomial.h | 44 ++++++++++++-------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 502cf5e..3d895f6 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -187,46 +187,30 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
+				if(!d.size() || (d_order == 0 && abs(d.get(0)) < MACH_EPSILON)) {
+					TH_MATH_ERROR("polynomial::operator/", d_order, DIV_BY_ZERO);
 					return polynomial(nan());
 				}
 
-				// Remainder
-				polynomial r = *this;
-
 				// Quotient
 				polynomial q = polynomial();
-				unsigned int i = 0;
-
-				while(i < this_order) {
 
-					// Compute only once the degree of the polynomial
-					const unsigned int r_order = r.find_order();
+				if(!size() || this_order < d_order)
+					return q;
 
-					// Stop execution if the division is complete
-					// (when the remainder is 0 or has lower degree)
-					if((r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
-						break;
+				// Remainder
+				polynomial r = *this;
+				q.coeff.resize(this_order - d_order + 1, Type(0));
 
-					// Simple division between highest degree terms
-					const polynomial t = polynomial<Type>::monomial(
-						r.get(r_order) / d.get(d_order),
-						r_order - d_order);
+				// Divide the highest degree terms and subtract the
+				// resulting monomial times the divisor from the remainder
+				for (unsigned int i = 0; i < q.size(); ++i) {
 
-					// Add monomial to quotient and subtract the
-					// monomial times the dividend from the remainder
-					q += t;
-					r -= t * d;
+					const unsigned int pos = q.size() - i - 1;
+					q[pos] = r[pos + d_order] / d[d_order];
 
-					i++;
-				}
-
-				// The algorithm has stopped iterating after a number
-				// of the dividend's degree counts
-				if(i == this_order) {
-					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
-					return polynomial(nan());
+					for (unsigned int j = 0; j <= d_order; ++j)
+						r[pos + j] -= q[pos] * d[j];
 				}
 
 				return q;
-- 
2.43.0


From 461a94dd8af34c5efff31910b23310c92cc795db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 069/147] fix: roots of a polynomial did not compile, as it
 modified its argument

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..af01fda 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -696,13 +696,13 @@ namespace theoretica {
 	/// @return A vector of the roots of the polynomial that were found.
 	template<typename Field>
 	inline std::vector<Field> roots(
-		const polynomial<Field>& p,
+		polynomial<Field> p,
 		real tolerance = OPTIMIZATION_TOL,
 		unsigned int steps = 0) {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+		p /= Field(p.coeff[n]);
 
 		// Absolute value of the highest coefficient
 		Field a_hi = abs(p.coeff[n]);
-- 
2.43.0


From 85bda663b1c6d371bc841c9444c63576e812f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:35 +0000
Subject: [PATCH 070/147] fix: quadratic_roots did not compile with clang

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 3d895f6..2cb28ef 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -399,7 +399,7 @@ namespace theoretica {
 				// Use Vieta's theorem to avoid catastrophic cancellation
 				if(abs(p) > 1) {
 
-					z1 = -sgn(p) * (abs(p) / 2.0
+					z1 = Type(-sgn(p)) * (abs(p) / 2.0
 						+ abs(p) * sqrt(complex<>(0.25 - (q / p) / p)));
 					z2 = q / z1;
 
-- 
2.43.0


From 8798e1e6c61261168107e2ba655190ec49408ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 071/147] fix: the p-value of a Chi-squared far from its mean
 was 0 or 1 for many degrees of freedom

---
 src/statistics/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 2c2a88c..4e0ca33 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -506,7 +506,7 @@ namespace theoretica {
 					if(new_x < -3)
 						return 1 - integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, -new_x, 1E-16, 25);
+						}, -new_x, 1, 1E-16, 25);
 
 					return 0.5 + integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
@@ -516,7 +516,7 @@ namespace theoretica {
 					if(new_x > 3)
 						return integral_inf_riemann([=](real x) {
 							return exp(-x * x / 2) / SQRTPI / SQRT2;
-						}, new_x, 1E-16, 25);
+						}, new_x, 1, 1E-16, 25);
 
 					return 0.5 - integral_romberg_tol([=](real x) {
 						return exp(-x * x / 2) / SQRTPI / SQRT2;
-- 
2.43.0


From 856848f388a5f6f189f3cea1e765ec3ebb5f54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 072/147] fix: the autocorrelation was normalized over part of
 the dataset for lags other than 1

---
 src/statistics/statistics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/statistics/statistics.h b/src/statistics/statistics.h
index 4e0ca33..0159a1e 100644
--- a/src/statistics/statistics.h
+++ b/src/statistics/statistics.h
@@ -304,20 +304,22 @@ namespace theoretica {
 		template<typename Dataset>
 		inline real autocorrelation(const Dataset& X, unsigned int n = 1) {
 
-			if(X.size() < n) {
+			if(X.size() < n || !X.size()) {
 				TH_MATH_ERROR("autocorrelation", X.size(), INVALID_ARGUMENT);
 				return nan();
 			}
 
 			const real mu = mean(X);
 			real num = 0;
-			real den = square(X[0] - mu);
+			real den = 0;
 
-			for (unsigned int i = n; i < X.size(); ++i) {
+			for (unsigned int i = 0; i < X.size(); ++i) {
 
 				const real delta = X[i] - mu;
-				num += delta * (X[i - n] - mu);
 				den += delta * delta;
+
+				if(i >= n)
+					num += delta * (X[i - n] - mu);
 			}
 
 			return num / den;
-- 
2.43.0


From 72c1b0292ec377c534f6e9872f466e1f9afcfdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 073/147] fix: quotient_sum read the first element of empty
 datasets

---
 src/core/dataset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..89865b7 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -97,7 +97,7 @@ namespace theoretica {
 	template<typename Vector>
 	inline auto quotient_sum(const Vector& X, const Vector& Y) {
 
-		if(X.size() != Y.size()) {
+		if(X.size() != Y.size() || !X.size()) {
 			TH_MATH_ERROR("quotient_sum", X.size(), INVALID_ARGUMENT);
 			return nan();
 		}
-- 
2.43.0


From 55017ef5bc4c3316d6252dae71a77424dfe4a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 074/147] fix: sum_pairwise did not terminate for a base size
 of 0

---
 src/core/dataset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 89865b7..3296cab 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -189,7 +189,7 @@ namespace theoretica {
 		real sum = 0;
 
 		// Base case with given size (defaults to 128)
-		if((end - begin) <= base_size) {
+		if((end - begin) <= base_size || (end - begin) <= 1) {
 
 			for (size_t i = begin; i < end; ++i)
 				sum += X[i];
-- 
2.43.0


From f5856d67e9a6e8ddd47090b5c9bdfce689b39d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 075/147] fix: ols_linear_orig returned the inverse of the
 slope

---
 src/statistics/regression.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..9b3e634 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -221,13 +221,13 @@ namespace theoretica {
 			const real sum_x = sum(X);
 			const real sum_y = sum(Y);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
+			if(abs(sum_x) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_x, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
+			B = sum_y / sum_x;
 			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
 		}
 
-- 
2.43.0


From 6795442b721c2df7823aaa538f6367331d27ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 076/147] fix: wls_linear_orig returned the inverse of the
 slope and a wrong error

---
 src/statistics/regression.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 9b3e634..cfce129 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -247,14 +247,14 @@ namespace theoretica {
 			const real sum_xw = product_sum(X, W);
 			const real sum_yw = product_sum(Y, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
+			if(abs(sum_xw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xw, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = sum_yw / sum_xw;
+			sigma_B = sqrt(sum(W) / square(sum_xw));
 		}
 
 
-- 
2.43.0


From 234d896bc3cefcf68df9fa1d444607f49f4122bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 077/147] fix: ols_linear_error divided by a wrapped or null
 number of degrees of freedom

---
 src/statistics/regression.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index cfce129..0c1890f 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -270,6 +270,12 @@ namespace theoretica {
 				return nan();
 			}
 
+			// At least one degree of freedom is needed
+			if(X.size() <= 2) {
+				TH_MATH_ERROR("ols_linear_error", X.size(), INVALID_ARGUMENT);
+				return nan();
+			}
+
 			real err = 0;
 			for (unsigned int i = 0; i < X.size(); ++i) {
 				err += square(Y[i] - intercept - slope * X[i]);
-- 
2.43.0


From 3a5ed770bc24614ca63e1e84802c46555eac69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 078/147] fix: linear_model::fit with a standard deviation for
 each point did not compile

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 0c1890f..c5155d1 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -463,9 +463,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From 27b0818ce3f92e08e94b3c229fa7ecc5f062fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 079/147] fix: linear_model computed the Chi-squared from the
 root of the residuals

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index c5155d1..9611da6 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -433,8 +433,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = square(err / sigma_Y) * ndf;
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -513,8 +513,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = square(err) * ndf / (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From abb95850887194d5ec04f998a59e059a1d93dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 080/147] fix: the minimum of a histogram was always -inf

---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From 1a3792327a109e85dfd84901541c44fca12772c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 081/147] fix: inserting NaN in a histogram accessed memory out
 of bounds

---
 src/statistics/histogram.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..4bd5b77 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,7 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				if(!(x >= range_min && x <= range_max))
 					return;
 
 				// Update average and TSS using Welford's method
@@ -210,7 +210,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max))
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From 8f3da74e3af03d970539eb4fa4dd6bea6b7db58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:13 +0000
Subject: [PATCH 082/147] fix: values rounded to the upper extreme of a
 histogram were counted out of bounds

---
 src/statistics/histogram.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 4bd5b77..1753262 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -137,10 +137,13 @@ namespace theoretica {
 				if(abs(x - range_max) < MACH_EPSILON)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const unsigned int i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				// Values may be rounded to the upper extreme
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
-- 
2.43.0


From 210b8bad1920e26d8ee617020051dde64580066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:56 +0000
Subject: [PATCH 083/147] fix: th::map to a destination of a different size
 converted NaN to a vector size

---
 src/core/dataset.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 3296cab..8782cea 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -267,7 +267,8 @@ namespace theoretica {
 
 		if(src.size() != dest.size()) {
 			TH_MATH_ERROR("th::map", dest.size(), INVALID_ARGUMENT);
-			dest = Vector2(nan());
+			for (unsigned int i = 0; i < dest.size(); i++)
+				dest[i] = nan();
 			return dest;
 		}
 
-- 
2.43.0


From c209777ec04e3c85c4cfebc1fa4df476188ce426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:04 +0000
Subject: [PATCH 084/147] fix: the values of a histogram closer than epsilon to
 its maximum were counted in the last bin

---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 1753262..ed4fdae 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -134,7 +134,7 @@ namespace theoretica {
 			/// so care should be taken to use only valid inputs.
 			inline unsigned int index(real x) const {
 
-				if(abs(x - range_max) < MACH_EPSILON)
+				if(x >= range_max)
 					return bin_counts.size() - 1;
 
 				const unsigned int i = floor(
-- 
2.43.0


From 9ab441cf4266ad3f342943e484a6ed57e64fdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:43 +0000
Subject: [PATCH 085/147] fix: the errors and Chi-squared of a linear_model
 which could not be fit were not initialized

---
 src/statistics/regression.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 9611da6..c07c8e4 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -295,30 +295,30 @@ namespace theoretica {
 			real A;
 
 			/// Estimated error on A
-			real sigma_A;
+			real sigma_A {nan()};
 
 			/// Slope
 			real B;
 
 			/// Estimated error on B
-			real sigma_B;
+			real sigma_B {nan()};
 
 			/// Covariance matrix of the coefficients A and B
 			mat2 covar_mat;
 
 			/// Total error on linearization
-			real err;
+			real err {nan()};
 
 			/// Chi-squared on linearization
-			real chi_squared;
+			real chi_squared {nan()};
 
 			/// Number of degrees of freedom
 			/// of the linear regression
-			unsigned int ndf;
+			unsigned int ndf {0};
 
 			/// The p-value associated to the
 			/// computed Chi-squared
-			real p_value;
+			real p_value {nan()};
 
 
 			/// Default constructor
-- 
2.43.0


From 76bf3b188d7e58beb65c18b82a752148eda1433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 086/147] fix: the constants LN2, LN10 and LOG10E were only
 given to 12 digits

---
 src/core/constants.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/constants.h b/src/core/constants.h
index 4aa399a..ab1fc78 100644
--- a/src/core/constants.h
+++ b/src/core/constants.h
@@ -243,13 +243,13 @@ namespace theoretica {
 	constexpr real LOG210 = 3.32192809488736218170856773213;
 
 	/// The base-10 logarithm of e
-	constexpr real LOG10E = 0.434294481903;
+	constexpr real LOG10E = 0.434294481903251827651;
 
 	/// The natural logarithm of 2
-	constexpr real LN2 = 0.69314718056;
+	constexpr real LN2 = 0.693147180559945309417;
 
 	/// The natural logarithm of 10
-	constexpr real LN10 = 2.30258509299;
+	constexpr real LN10 = 2.30258509299404568402;
 
 	/// The scalar conversion factor from degrees to radians
 	constexpr real DEG2RAD = 0.017453292519943295474371680598;
-- 
2.43.0


From 8e0036599c83799540a8597ad7ea87b05eb34849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 087/147] fix: the cubic root of numbers over 1E+26 or under
 1E-26 did not converge

---
 src/core/real_analysis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index c7afca4..f1749bd 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -213,6 +213,11 @@ namespace theoretica {
 			return 1.0 / cbrt(1.0 / x);
 		}
 
+		// Domain reduction of big numbers, which would
+		// not converge in the maximum number of iterations
+		if(x > 1E+21 && x <= std::numeric_limits<real>::max())
+			return 1E+06 * cbrt(x / 1E+18);
+
 		// Approximate cbrt(x) using Newton-Raphson
 		real y = x;
 		unsigned int i = 0;
-- 
2.43.0


From 2a490d43967cc1491b457868a9662f16c55815c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 088/147] fix: roots of big and small numbers did not reach an
 absolute tolerance and returned NaN

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index f1749bd..0aa6610 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -861,7 +861,7 @@ namespace theoretica {
 
 			const real y_pow = pow(y, n - 1);
 
-			if((y_pow * y - x) < OPTIMIZATION_TOL)
+			if((y_pow * y - x) < OPTIMIZATION_TOL * x)
 				break;
 
 			y = (y * (n - 1) + x / y_pow) / (real) n;
-- 
2.43.0


From a5462fed5086720d455a98edacc06774f3c57c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 089/147] fix: asinh of negative numbers lost all digits by
 cancellation

---
 src/core/real_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 0aa6610..589d6a6 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1167,6 +1167,10 @@ namespace theoretica {
 
 	/// Compute the inverse hyperbolic sine
 	inline real asinh(real x) {
+		// asinh(x) is odd
+		if(x < 0)
+			return -asinh(-x);
+
 		return ln(x + sqrt(square(x) + 1));
 	}
 
-- 
2.43.0


From b80987d1523c9b1b7e04762536efef65bf7be42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 090/147] fix: atanh(1) divided by zero and no error was raised

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 589d6a6..68ebf7d 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1190,7 +1190,7 @@ namespace theoretica {
 	/// Compute the inverse hyperbolic tangent
 	inline real atanh(real x) {
 
-		if(x < -1 || x > 1) {
+		if(x <= -1 || x >= 1) {
 			TH_MATH_ERROR("atanh", x, OUT_OF_DOMAIN);
 			return nan();
 		}
-- 
2.43.0


From a419301246433217c92145dc7da98c04dc94c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 091/147] fix: coth(0) divided by zero and no error was raised

---
 src/core/real_analysis.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 68ebf7d..b8e49bc 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1160,6 +1160,12 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic cotangent of x
 	inline real coth(real x) {
+
+		if(x == 0) {
+			TH_MATH_ERROR("coth", x, DIV_BY_ZERO);
+			return nan();
+		}
+
 		real exp_x = exp(x);
 		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
 	}
-- 
2.43.0


From 997cb88d17f628906c6b4ebdbe82e32a07bb8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 092/147] fix: ilog2(0) converted infinity to an integer

---
 src/core/real_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index b8e49bc..4e376ce 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -553,7 +553,7 @@ namespace theoretica {
 
 		if(x == 0) {
 			TH_MATH_ERROR("ilog2", x, OUT_OF_RANGE);
-			return -inf();
+			return 0;
 		}
 
 		UnsignedIntType bit = 0;
-- 
2.43.0


From 4096e6fa6da9921eefde0d9f378c890b4f3c42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 093/147] fix: log2 of numbers over 2^63 did not terminate
 without x86 instructions

---
 src/core/real_analysis.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 4e376ce..2fa45d4 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -448,13 +448,16 @@ namespace theoretica {
 		if (x < 1.0)
 			return -log2(1.0 / x);
 
-		// Compute the biggest power of 2 so that x <= 2^i
+		// Compute the smallest power of 2 so that x <= 2^i
 		unsigned int i = 0;
-		while(x > (uint64_t(1) << i))
+		real p = 1;
+		while(x > p) {
+			p *= 2;
 			i++;
+		}
 
-		// Domain reduction to [1, 2]
-		x /= (uint64_t(1) << i);
+		// Domain reduction to [1/2, 1]
+		x /= p;
 
 		// Use the Taylor expansion of the logarithm
 		// ln(1 + x) = \sum_k^n (-1)^(k+1) x^k / k
-- 
2.43.0


From 5fc966ce09e7f8c52fd52800298f569cb2ceeba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:21 +0000
Subject: [PATCH 094/147] fix: the Gamma functions of integers over 21
 overflowed 64 bits

---
 src/core/special.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/special.h b/src/core/special.h
index 352576e..3bd36eb 100644
--- a/src/core/special.h
+++ b/src/core/special.h
@@ -27,7 +27,7 @@ namespace theoretica {
 				return nan();
 			}
 
-			return fact(k - 1);
+			return fact<real>(k - 1);
 		}
 
 
@@ -46,8 +46,8 @@ namespace theoretica {
 			}
 
 			return (k % 2 == 0)
-		        ? fact<uint64_t>(k / 2 - 1)
-		        : double_fact<uint64_t>(k - 2) * SQRTPI / (1 << ((k - 1) / 2));
+		        ? fact<real>(k / 2 - 1)
+		        : double_fact<real>(k - 2) * SQRTPI / pow(2.0, (k - 1) / 2);
 		}
 
 
-- 
2.43.0


From 8d149aa8d7058b9e2e9a40874d8d5f6dd55f153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:03 +0000
Subject: [PATCH 095/147] fix: pow with the smallest integer as exponent
 recursed without end

---
 src/core/real_analysis.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 2fa45d4..31c4fae 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -628,7 +628,8 @@ namespace theoretica {
 			return res;
 
 		} else if(n < 0) {
-			return T(1.0) / pow(x, -n);
+			// The opposite of the smallest integer is not representable
+			return T(1.0) / (pow(x, -(n + 1)) * x);
 		} else {
 			return 1;
 		}
-- 
2.43.0


From 87d1279795d7da95e40a64993365f7a5099e0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:03 +0000
Subject: [PATCH 096/147] fix: exp of NaN, infinity and big numbers recursed
 without end

---
 src/core/real_analysis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 31c4fae..1440658 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -747,6 +747,13 @@ namespace theoretica {
 		if(x < 0)
 			return 1.0 / exp(-x);
 
+		if(is_nan(x))
+			return x;
+
+		// The result is not representable (nor is floor(x), for bigger x)
+		if(x > std::numeric_limits<real>::max_exponent)
+			return inf();
+
 		const real fract_x = fract(x);
 		const int floor_x = floor(x);
 
-- 
2.43.0


From 7350be8e90cf165b7f52e2fcc718b36dff88a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:03 +0000
Subject: [PATCH 097/147] fix: tanh and coth of big numbers returned NaN

---
 src/core/real_analysis.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 1440658..fd533c0 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1162,8 +1162,8 @@ namespace theoretica {
 	/// @param x A real number
 	/// @return The hyperbolic tangent of x
 	inline real tanh(real x) {
-		real exp_x = exp(x);
-		return (exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x);
+		const real t = exp(-2 * abs(x));
+		return sgn(x) * (1 - t) / (1 + t);
 	}
 
 
@@ -1177,8 +1177,8 @@ namespace theoretica {
 			return nan();
 		}
 
-		real exp_x = exp(x);
-		return (exp_x + 1.0 / exp_x) / (exp_x - 1.0 / exp_x);
+		const real t = exp(-2 * abs(x));
+		return sgn(x) * (1 + t) / (1 - t);
 	}
 
 
-- 
2.43.0


From 4b6d22414ce4f1fb9c911ab571d4bb247c9e640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 098/147] fix: fixed step solvers did not compile for
 differential equations of one real variable

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..61c48fa 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -315,7 +315,7 @@ namespace theoretica {
 
 			if (tf < t0) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
+				ode_solution_t<Vector> err; err.t = vec<real>(1, nan());
 				return err;
 			}
 
-- 
2.43.0


From b4403c3fe520fa6218a8bc56cb5847b9cbd81b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 099/147] fix: the last stage of Kutta's 3/8 rule used k1 in
 place of k3, losing its order

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 61c48fa..2f385d4 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From 7dccf3d0775a6436542d49d886983b8f0d9cabcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 100/147] fix: the last coefficient of the Adams-Bashforth
 method of order 3 was wrong

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 2f385d4..dab80a5 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From aecd1cfd9c87f46de6f7540b6e83e7b503dcaf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 101/147] fix: fixed step solvers accepted a null or negative
 step

---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index dab80a5..14eeb11 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -313,7 +313,7 @@ namespace theoretica {
 			OdeFunction f, const Vector& x0, real t0, real tf,
 			StepFunction step, real stepsize = 0.001) {
 
-			if (tf < t0) {
+			if (tf < t0 || !(stepsize > 0)) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
 				ode_solution_t<Vector> err; err.t = vec<real>(1, nan());
 				return err;
-- 
2.43.0


From 2d4a59f1c2b97c07a7cda6ae0d6325e9937d858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 102/147] fix: Simpson's method gave wrong integrals for an odd
 number of steps

---
 src/calculus/integral.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..2dc32ff 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -130,7 +130,11 @@ namespace theoretica {
 			TH_MATH_ERROR("integral_simpson", steps, DIV_BY_ZERO);
 			return nan();
 		}
-		
+
+		// Simpson's rule needs an even number of steps
+		if(steps % 2)
+			steps++;
+
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
 
-- 
2.43.0


From 0283ff7ea37df9d393c88a0a081d9eb8adc74678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 103/147] fix: Romberg's method with no iterations accessed an
 empty array

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 2dc32ff..86efc28 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -168,6 +168,11 @@ namespace theoretica {
 		real a, real b,
 		unsigned int iter = 8) {
 
+		if(iter == 0) {
+			TH_MATH_ERROR("integral_romberg", iter, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real T[iter][iter];
 
 		T[0][0] = (f(a) + f(b)) * (b - a) / 2.0;
-- 
2.43.0


From 8f79f0d65620d06d63ec1c77d5a0735fbaa4b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:23 +0000
Subject: [PATCH 104/147] fix: integral_inf_riemann reported no convergence
 when it converged in the last step

---
 src/calculus/integral.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 86efc28..9fe8c5f 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -523,7 +523,7 @@ namespace theoretica {
 		// Number of steps performed
 		unsigned int i = 0;
 
-		while(abs(delta) > tol && i <= max_iter) {
+		while(abs(delta) > tol && i < max_iter) {
 
 			delta = integral_romberg_tol(f, x_n, x_n + step_sz, tol);
 			sum += delta;
@@ -531,7 +531,7 @@ namespace theoretica {
 			i++;
 		}
 
-		if(i >= max_iter) {
+		if(abs(delta) > tol) {
 			TH_MATH_ERROR("integral_inf_riemann", i, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 70ee7735b327a65ed33a46fe907c9fb90f8953be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:11 +0000
Subject: [PATCH 105/147] fix: Ridders' method of degree zero accessed an empty
 array

---
 src/calculus/deriv.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/deriv.h b/src/calculus/deriv.h
index c0d0983..563d002 100644
--- a/src/calculus/deriv.h
+++ b/src/calculus/deriv.h
@@ -137,6 +137,11 @@ namespace theoretica {
 	>
 	inline real deriv_ridders(RealFunction f, real x, real h = 0.01, unsigned int degree = 3) {
 
+		if(degree == 0) {
+			TH_MATH_ERROR("deriv_ridders", degree, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real A[degree][degree];
 
 		for (unsigned int i = 0; i < degree; ++i) {
-- 
2.43.0


From a275fc558742c5cd9454923c9211f240ea0a72b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 106/147] fix: root_bisect returned zero when the interval was
 already as small as the tolerance

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index af01fda..6ace1a0 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -93,7 +93,7 @@ namespace theoretica {
 			return nan();
 		}
 
-		return x_avg;
+		return (x_max + x_min) / 2.0;
 	}
 
 
-- 
2.43.0


From dbfca81d9e73be9ff7dc7d970c86d0a241f6c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 107/147] fix: root_steffensen never converged, as its stop
 condition read a shadowed variable

---
 src/optimization/roots.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 6ace1a0..13542f2 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -426,7 +426,7 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From d7c4e1f88fd0391ca9b94de9ad9d765bbdce0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 108/147] fix: root_newton over the complex numbers did not
 compile

---
 src/optimization/roots.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 13542f2..fd3c38b 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -302,10 +302,10 @@ namespace theoretica {
 		complex<Type> f_z = Type(inf());
 		unsigned int iter = 0;
 
-		while(f_z * f_z.conjugate() > tol * tol && iter <= max_iter) {
+		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
-			z = z - (f_z / df(z));
+			z = z - (f_z / Df(z));
 			iter++;
 		}
 
-- 
2.43.0


From 191658fde8502579005d5b87ff3eaec4710d77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 109/147] fix: root finding methods returned NaN when an
 iteration fell exactly on a root

---
 src/optimization/roots.h | 47 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index fd3c38b..4c35c00 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -225,6 +225,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The point is exactly a root
+			if(f_x == 0.0)
+				break;
+
 			x = x - (f_x / Df(x));
 			iter++;
 		}
@@ -265,6 +270,10 @@ namespace theoretica {
 			// Compute the function and its derivative at the same time
 			s = f(dual(x, 1.0));
 
+			// The point is exactly a root
+			if(s.Re() == 0.0)
+				break;
+
 			x = x - (s.Re() / s.Dual());
 			iter++;
 		}
@@ -305,6 +314,11 @@ namespace theoretica {
 		while(f_z.sqr_norm() > tol * tol && iter <= max_iter) {
 
 			f_z = f(z);
+
+			// The point is exactly a root
+			if(f_z.sqr_norm() == 0.0)
+				break;
+
 			z = z - (f_z / Df(z));
 			iter++;
 		}
@@ -344,6 +358,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The point is exactly a root
+			if(f_x == 0.0)
+				break;
+
 			const real df_x = Df(x);
 
 			x = x - (2 * f_x * df_x) / (2 * square(df_x) - f_x * D2f(x));
@@ -387,6 +406,10 @@ namespace theoretica {
 			// second derivatives at the same time.
 			s = f(dual2(x, 1, 0));
 
+			// The point is exactly a root
+			if(s.Re() == 0.0)
+				break;
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real d2f_x = s.Dual2();
@@ -427,6 +450,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The point is exactly a root
+			if(f_x == 0.0)
+				break;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
@@ -473,6 +501,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The point is exactly a root
+			if(f_x == 0.0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 
@@ -521,6 +554,10 @@ namespace theoretica {
 
 			s = f(dual2(x, 1.0, 0.0));
 
+			// The point is exactly a root
+			if(s.Re() == 0.0)
+				break;
+
 			const real f_x = s.Re();
 			const real df_x = s.Dual1();
 			const real u = f_x / df_x;
@@ -567,6 +604,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The point is exactly a root
+			if(f_x == 0.0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = f(x - u);
@@ -615,6 +657,11 @@ namespace theoretica {
 		while(abs(f_x) > tol && iter <= max_iter) {
 
 			f_x = f(x);
+
+			// The point is exactly a root
+			if(f_x == 0.0)
+				break;
+
 			const real df_x = Df(x);
 			const real u = f_x / df_x;
 			const real f_xu = Df(x - 2.0 * u / 3.0);
-- 
2.43.0


From c0dc2af82b292a83c98fffd70f967d0ab4bdef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 110/147] fix: roots returned twice a root shared by two
 intervals

---
 src/optimization/roots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4c35c00..b0009f2 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -715,7 +715,11 @@ namespace theoretica {
 			// Check whether the extremes of the candidate intervals
 			// happen to coincide with the roots
 			if(abs(f(intervals[i][0])) <= MACH_EPSILON) {
-				res.push_back(intervals[i][0]);
+
+				// The root may already have been found in the previous interval
+				if(res.empty() || res.back() != intervals[i][0])
+					res.push_back(intervals[i][0]);
+
 				continue;
 			}
 
-- 
2.43.0


From 29c0107b53b7e747801634efc6aab27c6a3216df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 111/147] fix: multi_minimize_grad, multi_maximize and
 multi_maximize_lingrad did not compile

---
 src/optimization/multi_extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..b9031cc 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -47,7 +47,7 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
-- 
2.43.0


From 8f070c5d9f5a4425eccd514d208126ec0469bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 112/147] fix: multivariate minimization ignored the given
 tolerance

---
 src/optimization/multi_extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b9031cc..86e75c7 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -51,7 +51,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -126,7 +126,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
@@ -177,7 +177,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-- 
2.43.0


From e5a0a33da2096b4879eb7bfa9fb1223d07912faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 113/147] fix: multi_maximize_grad always failed, as it passed
 a positive step to the minimization

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 86e75c7..b23fa1c 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+
+			grad = autodiff::gradient(f, x);
+			x -= gamma * grad;
+			iter++;
+
+		} while(grad.norm() > tolerance && iter <= max_iter);
+
+		if(iter > max_iter) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From 122c003153e109486413016d2b3eb05870d1ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 114/147] fix: minimize_bisection returned a maximum instead of
 NaN when it did not find a minimum

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From a78b2fd84d44e8e095c9f75cc1888de801fe88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:21 +0000
Subject: [PATCH 115/147] fix: cubic_splines wrote the last coefficient out of
 the bounds of its vector

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..8c30e74 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -271,7 +271,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -345,7 +345,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From 6615a5cd03301f4751d5eeeb8554241a70e9a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:21 +0000
Subject: [PATCH 116/147] fix: cubic_splines solved the wrong system for points
 which are not equidistant

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 8c30e74..4ca552c 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -285,7 +285,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -359,7 +359,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From 560e0c4bbdc46f254d5dc82b714d6f70ef83a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:21 +0000
Subject: [PATCH 117/147] fix: bezier assigned to its constant control points
 and did not compile

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 4ca552c..48a8d1b 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -187,7 +187,7 @@ namespace theoretica {
 	/// \see quadratic_bezier
 	/// \see cubic_bezier
 	template<unsigned int N>
-	inline vec<real, N> bezier(const std::vector<vec<real, N>>& points, real t) {
+	inline vec<real, N> bezier(std::vector<vec<real, N>> points, real t) {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 000b520941cae66ce5dc9a2f0b4908891ac4084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:21 +0000
Subject: [PATCH 118/147] fix: the vector overload of remap did not compile, as
 invlerp returned a vector

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 48a8d1b..c139472 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -36,13 +36,13 @@ namespace theoretica {
 
 	/// Inverse linear interpolation
 	template<unsigned int N>
-	inline vec<real, N> invlerp(
+	inline real invlerp(
 		const vec<real, N>& P1, const vec<real, N>& P2, real value) {
 
 		real t = invlerp(P1.get(0), P2.get(0), value);
 
 		// Check that all computed t_i are the same
-		for (int i = 1; i < N; ++i) {
+		for (unsigned int i = 1; i < N; ++i) {
 
 			real t_new = invlerp(P1.get(i), P2.get(i), value);
 
-- 
2.43.0


From 3c861329c6e5eb0160620b2da14bd974c8c8eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:21 +0000
Subject: [PATCH 119/147] fix: lagrange_polynomial only reported equal
 abscissas when they were consecutive

---
 src/interpolation/polynomial.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..0cf6102 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -30,10 +30,12 @@ namespace theoretica {
 
 		// Check that all x_i are different to prevent
 		// division by zero
-		for (unsigned int i = 0; i < points.size() - 1; ++i) {
-			if(points[i].get(0) == points[i + 1].get(0)) {
-				TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
-				return polynomial<T>({T(nan())});
+		for (unsigned int i = 0; i < points.size(); ++i) {
+			for (unsigned int j = i + 1; j < points.size(); ++j) {
+				if(points[i].get(0) == points[j].get(0)) {
+					TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
+					return polynomial<T>({T(nan())});
+				}
 			}
 		}
 
-- 
2.43.0


From b79b86bc896358bd97801cc9e2b5e21bfe2e065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:21 +0000
Subject: [PATCH 120/147] fix: interpolate_grid of order zero divided by zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index 0cf6102..bb831e7 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -100,7 +100,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = order ? ((b - a) / real(order) * real(i) + a) : a;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From 021d840cd77277474ddd3c8e27daba7dced5a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 121/147] fix: the hermitian distance of a complex vector from
 itself was not zero

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 3c7be56..96b4d44 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -207,7 +207,7 @@ namespace theoretica {
 			complex<T> sum = 0;
 
 			for (size_t i = 0; i < v1.size(); ++i) {
-				const complex<T> diff = v1[i] - conjugate(v2[i]);
+				const complex<T> diff = v1[i] - v2[i];
 				sum += diff * diff.conjugate();
 			}
 
-- 
2.43.0


From a7b70cb66e4a2532909c9eb659d32a4b1fa09618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 122/147] fix: the Canberra distance was NaN when a pair of
 elements was null

---
 src/algebra/distance.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index 96b4d44..b950b06 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -312,8 +312,14 @@ namespace theoretica {
 
 			real sum = 0;
 
-			for (size_t i = 0; i < v1.size(); ++i)
-				sum += abs(v1[i] - v2[i]) / (abs(v1[i]) + abs(v2[i]));
+			for (size_t i = 0; i < v1.size(); ++i) {
+
+				const real den = abs(v1[i]) + abs(v2[i]);
+
+				// Elements which are both null do not contribute
+				if(den != 0)
+					sum += abs(v1[i] - v2[i]) / den;
+			}
 
 			return sum;
 		}
-- 
2.43.0


From 826ef30bf784d0bfddf893fd4e4771a175633cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 123/147] fix: fft did not signal an error when the size is not
 a power of 2

---
 src/signal/fft.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 5d6eefc..84e234d 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -38,6 +38,7 @@ namespace theoretica {
 
 			// Enforce power of 2 vector size
 			if (N != (unsigned int) (1 << log2N)) {
+				TH_MATH_ERROR("signal::fft", N, INVALID_ARGUMENT);
 				return algebra::vec_error(k);
 			}
 
-- 
2.43.0


From df1f2ce945d49453ad90f6622f5e7f882d4281a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 124/147] fix: ifft ignored the type of vector to return

---
 src/signal/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/fft.h b/src/signal/fft.h
index 84e234d..f8f498d 100644
--- a/src/signal/fft.h
+++ b/src/signal/fft.h
@@ -87,7 +87,7 @@ namespace theoretica {
 		/// @return The data in the time domain
 		template<typename ReturnVector = cvec, typename InputVector = cvec>
 		inline ReturnVector ifft(const InputVector& k) {
-			return fft(k, true);
+			return fft<ReturnVector>(k, true);
 		}
 	}
 }
-- 
2.43.0


From c3a75fde45204383a5cdcab88bc3e7a98a0a8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 125/147] fix: shuffle of an empty set divided by zero

---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..fc306b7 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -210,8 +210,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From 295ab74aa55b57852cc960f8a60828a6121061df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 126/147] fix: the linear congruential generator only returned
 zero for seeds multiple of its modulus

---
 src/pseudorandom/prng.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index fc306b7..7ba652e 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -122,12 +122,15 @@ namespace theoretica {
 			/// @return A standard linear congruential PRNG object
 			inline static PRNG linear_congruential(uint64_t seed = 1) {
 
+				const uint64_t m = ((uint64_t) 1 << 31) - 1;
+
+				seed %= m;
+
 				if(seed == 0)
 					seed = 1;
 
 				return PRNG(
-					randgen_congruential, seed,
-					{48271, 0, ((uint64_t) 1 << 31) - 1}
+					randgen_congruential, seed, {48271, 0, m}
 				);
 			}
 
-- 
2.43.0


From 90d02858b83d8993f3c29b5ab51b260602beb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 127/147] fix: the linear congruential generator divided by
 zero for a null modulus

---
 src/pseudorandom/pseudorandom.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pseudorandom/pseudorandom.h b/src/pseudorandom/pseudorandom.h
index 7916277..ac5f1bd 100644
--- a/src/pseudorandom/pseudorandom.h
+++ b/src/pseudorandom/pseudorandom.h
@@ -65,8 +65,8 @@ namespace theoretica {
 		const uint64_t c = state[1];
 		const uint64_t m = state[2];
 
-        if(a > m || c > m) {
-            TH_MATH_ERROR("randgen_congruential", max(a, c), INVALID_ARGUMENT);
+        if(m == 0 || a > m || c > m) {
+            TH_MATH_ERROR("randgen_congruential", m == 0 ? m : max(a, c), INVALID_ARGUMENT);
             return 0;
         }
 
-- 
2.43.0


From 795151b8ab0abbfa7bd15a6579484015c75da686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:00 +0000
Subject: [PATCH 128/147] fix: rand_gaussian_boxmuller computed the logarithm
 of zero

---
 src/pseudorandom/sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..9afbe08 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -248,7 +248,7 @@ namespace theoretica {
 		const real x = rand_uniform(0, 1, g);
 		const real y = rand_uniform(0, 1, g);
 
-		const real x_transf = sqrt(-2 * ln(x));
+		const real x_transf = sqrt(-2 * ln(1 - x));
 
 		const real u = x_transf * cos(TAU * y);
 		const real v = x_transf * sin(TAU * y);
-- 
2.43.0


From 91ae371028a5c45489abedc71ae009856168326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 129/147] fix: cosine_distance returned the similarity of the
 vectors instead of their distance

---
 src/algebra/distance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/distance.h b/src/algebra/distance.h
index b950b06..33a198a 100644
--- a/src/algebra/distance.h
+++ b/src/algebra/distance.h
@@ -348,7 +348,7 @@ namespace theoretica {
 				sum_sqr_y += square(v2[i]);
 			}
 
-			return product / sqrt(sum_sqr_x * sum_sqr_y);
+			return 1 - product / sqrt(sum_sqr_x * sum_sqr_y);
 		}
 
 
-- 
2.43.0


From a2d06bf5e85979074528410db2a3a1a3c10cef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 130/147] fix: the hit-or-miss integrals over a range of values
 not starting from zero counted points which are not under the function

---
 src/pseudorandom/montecarlo.h | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..ebfc8b2 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -164,25 +164,18 @@ namespace theoretica {
 		real a, real b, real c, real d,
 		PRNG& g, unsigned int N = 1000) {
 
-		int N_inside = 0;
+		unsigned int N_inside = 0;
 
 		for (unsigned int i = 0; i < N; ++i) {
 		
 			const real x_n = rand_uniform(a, b, g);
 			const real y_n = rand_uniform(c, d, g);
 
-			const real f_x = f(x_n);
-
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f(x_n) >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		return (c + (N_inside / static_cast<real>(N)) * (d - c)) * (b - a);
 	}
 
 
@@ -230,7 +223,7 @@ namespace theoretica {
 		real a, real b, real c, real d,
 		unsigned int N = 1000) {
 
-		int N_inside = 0;
+		unsigned int N_inside = 0;
 
 		for (unsigned int i = 0; i < N; ++i) {
 
@@ -239,18 +232,11 @@ namespace theoretica {
 			const real x_n = a + (b - a) * v[0];
 			const real y_n = c + (d - c) * v[1];
 
-			const real f_x = f(x_n);
-
-			if(f_x >= 0) {
-				if(f_x >= y_n)
-					N_inside++;
-			} else {
-				if(f_x < y_n)
-					N_inside--;
-			}
+			if(f(x_n) >= y_n)
+				N_inside++;
 		}
 
-		return (N_inside / static_cast<real>(N)) * (b - a) * (d - c);
+		return (c + (N_inside / static_cast<real>(N)) * (d - c)) * (b - a);
 	}
 
 
-- 
2.43.0


From 8ed835f9fa5685675650e1ba918de1f1885ee7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 131/147] fix: the factorials in discrete distributions
 overflowed 64 bits

---
 src/statistics/distributions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index 1121a78..c690127 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -100,7 +100,7 @@ namespace theoretica {
 		/// Poisson distribution
 		inline real poisson(unsigned int k, real lambda) {
 
-			return exp(-lambda) * pow(lambda, k) / (real) fact(k);
+			return exp(-lambda) * pow(lambda, k) / fact<real>(k);
 		}
 
 
@@ -119,7 +119,7 @@ namespace theoretica {
 		/// Binomial distribution function
 		inline real binomial(unsigned int nu, unsigned int n, real p) {
 
-			return binomial_coeff(n, nu) *
+			return binomial_coeff<real>(n, nu) *
 				pow(p, nu) * pow(1 - p, n - nu);
 		}
 
@@ -149,10 +149,10 @@ namespace theoretica {
 				return nan();
 			}
 
-			real res = fact(n);
+			real res = fact<real>(n);
 
 			for (unsigned int i = 0; i < k; ++i)
-				res *= pow(p[i], x[i]) / fact(x[i]);
+				res *= pow(p[i], x[i]) / fact<real>(x[i]);
 
 			return res;
 		}
@@ -458,7 +458,7 @@ namespace theoretica {
 			}
 
 			return pow(lambda, k) * pow(x, k - 1)
-					* exp(-lambda * x) / fact(k - 1);
+					* exp(-lambda * x) / fact<real>(k - 1);
 		}
 
 
-- 
2.43.0


From 06cd9f77bb666d40eee5a4bb16324eff0a47c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 132/147] fix: the Bernoulli distribution was not null for
 values other than 0 and 1

---
 src/statistics/distributions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index c690127..f17f0b6 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -80,6 +80,9 @@ namespace theoretica {
 		/// Bernoulli distribution
 		inline real bernoulli(unsigned int k, real p) {
 
+			if(k > 1)
+				return 0;
+
 			return pow(p, k) * pow(1 - p, 1 - k);
 		}
 
-- 
2.43.0


From 6e83e573e1e0e27fe90f3665a5c19d427a8b794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 133/147] fix: the Maxwell and Erlang densities were not null
 for negative numbers

---
 src/statistics/distributions.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index f17f0b6..c22f249 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -390,6 +390,9 @@ namespace theoretica {
 		/// Maxwell-Boltzmann distribution
 		inline real maxwell(real x, real a) {
 
+			if(x < 0)
+				return 0;
+
 			return (SQRT2 / SQRTPI) * square(x) * exp(-square(x / a) / 2.0) / cube(a);
 		}
 
@@ -460,6 +463,9 @@ namespace theoretica {
 				return nan();
 			}
 
+			if(x < 0)
+				return 0;
+
 			return pow(lambda, k) * pow(x, k - 1)
 					* exp(-lambda * x) / fact<real>(k - 1);
 		}
-- 
2.43.0


From e7b7f584f14992597a019d5bbc10ca5ed6c44002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 134/147] fix: the log-normal distribution was only normalized
 to 12 digits

---
 src/statistics/distributions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/distributions.h b/src/statistics/distributions.h
index c22f249..b0d336c 100644
--- a/src/statistics/distributions.h
+++ b/src/statistics/distributions.h
@@ -283,7 +283,7 @@ namespace theoretica {
 		/// Log-normal distribution
 		inline real log_normal(real x, real mu, real sigma) {
 
-			return 1.0 / (2.50662827463 * sigma * x) *
+			return 1.0 / (SQRT2 * SQRTPI * sigma * x) *
 				exp(-square(ln(x) - mu) / (2 * square(sigma)));
 		}
 
-- 
2.43.0


From 906bcf7e0a4149070a9e13e850bc6646947927d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 135/147] fix: associated Legendre polynomials of negative odd
 order multiplied a negative int by an unsigned integer

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..64ba83b 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -89,7 +89,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= pow(-1, m) * fact(l + m) / fact(l - m);
+			K *= pow(-1, m) * (fact<real>(l + m) / fact<real>(l - m));
 		}
 
 		for (int i = 0; i < m; ++i)
@@ -121,7 +121,7 @@ namespace theoretica {
 
 		if(m < 0) {
 			m = -m;
-			K *= fact(l + m) / fact(l - m);
+			K *= fact<real>(l + m) / fact<real>(l - m);
 		}
 
 		polynomial<real> L = legendre_polynomial(l);
-- 
2.43.0


From 7511aafd79630e3a43ece936d494e218ee4b6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 136/147] fix: assoc_legendre_polynomial_even returned a wrong
 polynomial for odd m

---
 src/polynomial/orthogonal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 64ba83b..05ed564 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -114,8 +114,10 @@ namespace theoretica {
 	// Associated Legendre polynomial
 	inline polynomial<real> assoc_legendre_polynomial_even(unsigned int l, int m) {
 
-		if(m % 2 != 0)
+		if(m % 2 != 0) {
 			TH_MATH_ERROR("assoc_legendre_polynomial_even", m, IMPOSSIBLE_OPERATION);
+			return polynomial<real>({nan()});
+		}
 
 		real K = 1;
 
-- 
2.43.0


From 8710f1ea29e5d33663a001148360d6d6f71cd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 137/147] fix: the Hermite normalization and weights overflowed
 64 bits for degrees over 16

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 05ed564..b3033e8 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -207,7 +207,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(pow(2.0, n) * fact<real>(n) * SQRTPI);
 	}
 
 
@@ -325,7 +325,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(pow(2.0, n - 1) * fact<real>(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From d4e8298792d8087686d2ebb97ba85b2e4e0f8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 138/147] fix: hermite_weights of no roots computed a
 polynomial of degree 2^32 - 1

---
 src/polynomial/orthogonal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index b3033e8..e474ae0 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -318,6 +318,10 @@ namespace theoretica {
 	inline std::vector<real> hermite_weights(const std::vector<real>& roots) {
 
 		const unsigned int n = roots.size();
+
+		if(n == 0)
+			return {};
+
 		const polynomial<real> H = hermite_polynomial(n - 1);
 
 		std::vector<real> weights;
-- 
2.43.0


From 8f0f343e12596b6d2d29ee50e46c44b83844d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:38 +0000
Subject: [PATCH 139/147] fix: legendre_roots returned the same root many
 times, as the starting points were too far from the roots

---
 src/polynomial/orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index e474ae0..f6f0913 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -262,7 +262,7 @@ namespace theoretica {
 
 		for (unsigned int i = 1; i <= n; ++i) {
 			roots.push_back(
-				root_newton(P, deriv(P), (2.0 / (n + 1)) * i - 1.0)
+				root_newton(P, deriv(P), -cos(PI * (i - 0.25) / (n + 0.5)))
 			);
 		}
 
-- 
2.43.0


From fa39832c79f914fd780dd1e2cf8dfa83076e4be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:40 +0000
Subject: [PATCH 140/147] fix: integral_legendre with fewer weights than nodes
 read past the end of the weights

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 9fe8c5f..e0e0387 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -336,6 +336,11 @@ namespace theoretica {
 		RealFunction f, real a, real b,
 		const std::vector<real>& x, const std::vector<real>& w) {
 
+		if(x.size() != w.size()) {
+			TH_MATH_ERROR("integral_legendre", x.size(), INVALID_ARGUMENT);
+			return nan();
+		}
+
 		const real mean = (b + a) / 2.0;
 		const real halfdiff = (b - a) / 2.0;
 
-- 
2.43.0


From 6d6f2d54bd5d57704f14d68173cc94b9ccfd181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 141/147] fix: math_exception could not be caught as
 std::exception, because of private inheritance

---
 src/core/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..501fb20 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -86,7 +86,7 @@ namespace theoretica {
 
 #if defined(THEORETICA_THROW_EXCEPTIONS) || defined(THEORETICA_ONLY_EXCEPTIONS)
 
-	class math_exception : std::exception {
+	class math_exception : public std::exception {
 
 	private:
 		MATH_ERRCODE err;
-- 
2.43.0


From e1dff3b326fed7c865571ed125248e20b9c4fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 142/147] fix: math_exception described OUT_OF_RANGE as an
 unknown error

---
 src/core/error.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/error.h b/src/core/error.h
index 501fb20..732a1e2 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -112,6 +112,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: return "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					return "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: return "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					return "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: return "The algorithm did not converge"; break;
@@ -166,6 +167,7 @@ namespace theoretica {
 				case DIV_BY_ZERO: err_str << "Division by zero"; break;
 				case OUT_OF_DOMAIN:
 					err_str << "An argument was out of the domain of the called function"; break;
+				case OUT_OF_RANGE: err_str << "The result would be out of range"; break;
 				case IMPOSSIBLE_OPERATION:
 					err_str << "A mathematically impossible operation was requested"; break;
 				case NO_ALGO_CONVERGENCE: err_str << "The algorithm did not converge"; break;
-- 
2.43.0


From 59a95343e92ff221079b7d7bfbe9fb3340f1d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:05 +0000
Subject: [PATCH 143/147] fix: eigenvector_inverse returned an empty vector on
 error instead of a vector of NaNs

---
 src/algebra/algebra.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index f29a288..41e2993 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -2439,14 +2439,16 @@ namespace theoretica {
 
 			if (!is_square(A)) {
 				TH_MATH_ERROR("eigenvector_inverse", is_square(A), INVALID_ARGUMENT);
-				Vector x;
-				return vec_error(x);
+				Vector err;
+				err.resize(x.size());
+				return vec_error(err);
 			}
 
 			if (A.rows() != x.size()) {
 				TH_MATH_ERROR("eigenvector_inverse", x.size(), INVALID_ARGUMENT);
-				Vector x;
-				return vec_error(x);
+				Vector err;
+				err.resize(x.size());
+				return vec_error(err);
 			}
 
 			Matrix LU = A;
-- 
2.43.0


From 89d7a68685c027f7ed440e614f32c27ef3bcb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:52 +0000
Subject: [PATCH 144/147] fix: multidual::extract wrote to unallocated dynamic
 arguments (multiroot_newton<0> crashed)

---
 src/autodiff/multidual.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index de26a71..14a6ccb 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -304,6 +304,9 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
+				x.resize(v.size());
+				J.resize(v.size(), v.size());
+
 				for (unsigned int i = 0; i < v.size(); ++i) {
 					
 					for (unsigned int j = 0; j < v.size(); ++j)
-- 
2.43.0


From 548ea56cfc8a0c0950fbfe8f7abf7a8d2f5bd75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:52 +0000
Subject: [PATCH 145/147] fix: autodiff::curl swapped size and value of the
 error vector

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 80a1e8e..06465d6 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -289,7 +289,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
-- 
2.43.0


From 346bead2288885f11d1a8ef24acd5eda7e57effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:52 +0000
Subject: [PATCH 146/147] fix: multivariate optimization returned an empty
 vector on error for dynamic vectors

---
 src/optimization/multi_extrema.h | 12 ++++++------
 src/optimization/multi_roots.h   |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b23fa1c..754325c 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -38,7 +38,7 @@ namespace theoretica {
 
 		if(gamma >= 0) {
 			TH_MATH_ERROR("multi_minimize_grad", gamma, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		vec<real, N> x = guess;
@@ -55,7 +55,7 @@ namespace theoretica {
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -84,7 +84,7 @@ namespace theoretica {
 
 		if(gamma >= 0) {
 			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		vec<real, N> x = guess;
@@ -101,7 +101,7 @@ namespace theoretica {
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -152,7 +152,7 @@ namespace theoretica {
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
@@ -203,7 +203,7 @@ namespace theoretica {
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
diff --git a/src/optimization/multi_roots.h b/src/optimization/multi_roots.h
index 20e55ee..1718aa2 100644
--- a/src/optimization/multi_roots.h
+++ b/src/optimization/multi_roots.h
@@ -58,7 +58,7 @@ namespace theoretica {
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_root_newton", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			return vec<real, N>(guess.size(), nan());
 		}
 
 		return x;
-- 
2.43.0


From 010f348ed847f39182bac31a52fa4af5390666e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:52 +0000
Subject: [PATCH 147/147] fix: slerp and bezier returned an empty vector on
 error for dynamic vectors

---
 src/interpolation/splines.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index c139472..44360f3 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -94,7 +94,7 @@ namespace theoretica {
 		// which would make the computation impossible
 		if(P1_l == 0 || P2_l == 0) {
 			TH_MATH_ERROR("slerp", P1_l ? P2_l : P1_l, IMPOSSIBLE_OPERATION);
-			return vec<real, N>(nan());
+			return vec<real, N>(P1.size(), nan());
 		}
 
 		// Angle between P1 and P2 (from the dot product)
@@ -104,7 +104,7 @@ namespace theoretica {
 		// Check that the sine of the angle is not zero
 		if(s == 0) {
 			TH_MATH_ERROR("slerp", s, DIV_BY_ZERO);
-			return vec<real, N>(nan());
+			return vec<real, N>(P1.size(), nan());
 		}
 
 		return (P1 * sin((1 - t) * omega) + P2 * sin(t * omega)) / s;
@@ -191,12 +191,12 @@ namespace theoretica {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(points.size() ? points[0].size() : N, nan());
 		}
 
 		if(t < 0 || t > 1) {
 			TH_MATH_ERROR("bezier", t, INVALID_ARGUMENT);
-			return vec<real, N>(nan());
+			return vec<real, N>(points.size() ? points[0].size() : N, nan());
 		}
 
 		for (int index = points.size(); index > 1; --index) {
-- 
2.43.0

