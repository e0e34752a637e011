From 57224e55cbaf54df16e8eaabecc4c06649e97838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 1/6] fix: isValid(blade) tests every component, as documented

---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..e6b25c3 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // test all elements
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From 7ff1e5bc157ff7e45d2148ba1eeb40ec65f53307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 2/6] fix: exp(BiVector) of nonzero angle with subnormal
 direction component

---
 include/g3func.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..ec00336 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -546,7 +546,10 @@ namespace g3
 				{ pairMagDirFrom(spinAngle) };
 			double const & mag = magdir.first;
 			BiVector const & dir = magdir.second;
-			if (isValid(dir))
+			// direction is defined for any nonzero angle size (testing if
+			// dir isValid() is not the same since it can have components
+			// that are subnormal, e.g. 1.e-308 relative to the largest one).
+			if (! (0. == mag))
 			{
 				spin = Spinor{ std::cos(mag), std::sin(mag)*dir };
 			}
-- 
2.43.0


From 84a7e29100a3853027a01e0687e3bafeb9651167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 3/6] fix: null<MultiVector>() is null in every grade

---
 include/g3const.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d035c36..4894eb6 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -222,6 +222,20 @@ namespace g3
 		return DirPlex{ null<Vector>(), null<BiVector>() };
 	}
 
+	//! Null value - specialization for MultiVector (all grades null)
+	template <>
+	inline  // NOTE: can't be constexpr since MultiVector has ctors
+	MultiVector
+	null<MultiVector>()
+	{
+		return MultiVector
+			{ null<Scalar>()
+			, null<Vector>()
+			, null<BiVector>()
+			, null<TriVector>()
+			};
+	}
+
 	//
 	// Zero values
 	//
-- 
2.43.0


From aee5f4d1f1e14a39b504556f6aae410c6423cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 4/6] fix: public headers compile when included on their own

---
 include/g3_private.hpp    | 7 +++++++
 include/g3opsAdd_same.hpp | 1 +
 include/g3opsSub_same.hpp | 1 +
 3 files changed, 9 insertions(+)

diff --git a/include/g3_private.hpp b/include/g3_private.hpp
index b8018dc..68a2595 100644
--- a/include/g3_private.hpp
+++ b/include/g3_private.hpp
@@ -35,6 +35,13 @@ Example:
 */
 
 
+#include <algorithm>
+#include <array>
+#include <cstddef>
+#include <iterator>
+#include <numeric>
+
+
 namespace engabra
 {
 
diff --git a/include/g3opsAdd_same.hpp b/include/g3opsAdd_same.hpp
index 914c440..1753d10 100644
--- a/include/g3opsAdd_same.hpp
+++ b/include/g3opsAdd_same.hpp
@@ -38,6 +38,7 @@
  */
 
 
+#include "g3traits.hpp"
 #include "g3type.hpp"
 #include "g3_private.hpp"
 
diff --git a/include/g3opsSub_same.hpp b/include/g3opsSub_same.hpp
index 49cfe88..fac97f1 100644
--- a/include/g3opsSub_same.hpp
+++ b/include/g3opsSub_same.hpp
@@ -38,6 +38,7 @@ Example:
 */
 
 
+#include "g3traits.hpp"
 #include "g3type.hpp"
 #include "g3_private.hpp"
 
-- 
2.43.0


From 3d7715c28389fedf689701a843d6bd9810dd7680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 5/6] fix: exp(MultiVector) evaluates the G3 exponential and no
 longer prints

The formula used was the one for the Cl(0,3) algebra (e.g. it gave 11.6
instead of -1 for the scalar part of exp(pi*e123)), and debug values were
inserted into std::cout on every call.
---
 include/g3func.hpp | 145 +++++++++------------------------------------
 1 file changed, 28 insertions(+), 117 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index ec00336..666c3b6 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -568,49 +568,16 @@ namespace g3
 		return { std::exp(someItem.theSca.theData[0]) * exp(someItem.theBiv) };
 	}
 
-namespace priv
-{
-
-	//! Evaluation of "sync(x)=sin(x)/x" - including limit case near zero
-	inline
-	double
-	sync
-		( double const & angle
-		)
-	{
-		double result{ g3::nan };
-
-		// use series expansion for sync function ((x-x^2/6+x^5/120)/x)
-		// residual (for alternating series) less than O(x^6),
-		// so to ~18 digits is about (1.e-3)^6.  Use 1.e-4 for safety
-		if (angle < 1.e-4)
-		{
-			// small angle: add from small to large
-			result = (sq(sq(angle))/120.  - sq(angle)/6.  + 1.);
-		}
-		else
-		{
-			// large angle: evaluate sync with std:: library functions
-			result = std::sin(angle) / angle;
-		}
-
-		return result;
-	}
-
-} // [priv]
 
-
-	/*! Exponential of general MultiVector element.
-	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
+	/*! \brief Exponential of general MultiVector element.
 	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * The argument is split into its commuting part, Z (Scalar+TriVector)
+	 * and its directed part, D (Vector+BiVector). Since Z commutes with
+	 * everything, exp(Z+D) = exp(Z)*exp(D). Since D*D is a ComPlex value,
+	 * w*w, the even and odd terms of the series for exp(D) sum to
+	 * \arg exp(D) = cosh(w) + (sinh(w)/w)*D
 	 *
+	 * All ComPlex valued functions are those of std::complex.
 	 */
 	inline
 	MultiVector
@@ -622,83 +589,27 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			// commuting part
+			std::complex<double> const zCom
+				{ someItem.theSca.theData[0], someItem.theTri.theData[0] };
+			std::complex<double> const zExp{ std::exp(zCom) };
+
+			// directed part - note D*D = -ampSq(D)
+			DirPlex const dplx{ someItem.theVec, someItem.theBiv };
+			ComPlex const dplxSq{ -ampSq(dplx) };
+			std::complex<double> const zMag
+				{ std::sqrt(static_cast<std::complex<double> >(dplxSq)) };
+
+			// odd series terms - with value one as limit for null (D*D==0) D
+			std::complex<double> zOdd{ 1., 0. };
+			if (! (0. == std::abs(zMag)))
+			{
+				zOdd = std::sinh(zMag) / zMag;
+			}
+
+			ComPlex const even{ ComPlex::from(zExp * std::cosh(zMag)) };
+			ComPlex const odd{ ComPlex::from(zExp * zOdd) };
+			result = even + odd * dplx;
 		}
 
 		return result;
-- 
2.43.0


From 048bfc161b32e41a67de22eab2d7ddfdd6455d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 6/6] fix: sqrtG2 of valid spinor with subnormal half angle
 component is not null

---
 include/g3func.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 666c3b6..dadb7b0 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -701,8 +701,19 @@ namespace g3
 			else
 			{
 				// use arbitrary default plane of e23 in case of -- ? TODO
-				G2Item const gangle{ logG2(genSpin, bivDirForImaginary) };
-				root = exp(.5 * gangle);
+				G2Item const halfLog
+					{ .5 * logG2(genSpin, bivDirForImaginary) };
+				// evaluate exp(halfLog) directly since (valid) small angle
+				// components can be subnormal, which exp() would reject
+				double const rootMag{ std::exp(halfLog.theSca.theData[0]) };
+				std::pair<double, BiVector> const magdir
+					{ pairMagDirFrom(halfLog.theBiv) };
+				double const & angle = magdir.first;
+				root = rootMag * Spinor{ std::cos(angle), zero<BiVector>() };
+				if (! (0. == angle))
+				{
+					root.theBiv = (rootMag * std::sin(angle)) * magdir.second;
+				}
 			}
 		}
 		return root;
-- 
2.43.0

