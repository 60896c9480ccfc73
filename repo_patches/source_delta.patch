From de0ac7b8033fb34141eac2342181a77fa81c1df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 1/7] fix: isValid() tests every component of a blade

The file documentation promises that all component values are checked,
but only the first one was - e.g. Vector{1., nan, 0.} was reported valid
(and e.g. exp(BiVector{1., nan, 0.}) returned a valid unit spinor).
---
 include/g3validity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/g3validity.hpp b/include/g3validity.hpp
index 99c3ef8..e6b25c3 100644
--- a/include/g3validity.hpp
+++ b/include/g3validity.hpp
@@ -121,7 +121,7 @@ namespace g3
 		( Blade const & blade
 		)
 	{
-		return isValid(blade.theData[0]); // test only first element for nan
+		return isValid(blade.theData); // test all elements
 	}
 
 	//! True if instance is not null - specialization for Spinor
-- 
2.43.0


From dacd59fb66f4200414acd1e49914f65288bbff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:40 +0000
Subject: [PATCH 2/7] fix: null<MultiVector>() populates all grades with nan

The generic template used MultiVector{ nan }, which only sets the scalar
grade and leaves vector, bivector and trivector grades as valid zeros.
---
 include/g3const.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/g3const.hpp b/include/g3const.hpp
index d035c36..80d0f62 100644
--- a/include/g3const.hpp
+++ b/include/g3const.hpp
@@ -222,6 +222,21 @@ namespace g3
 		return DirPlex{ null<Vector>(), null<BiVector>() };
 	}
 
+	//! Null value - specialization for MultiVector
+	template <>
+	inline  // NOTE: can't be constexpr since MultiVector has ctors
+	MultiVector
+	null<MultiVector>
+		()
+	{
+		return MultiVector
+			{ null<Scalar>()
+			, null<Vector>()
+			, null<BiVector>()
+			, null<TriVector>()
+			};
+	}
+
 	//
 	// Zero values
 	//
-- 
2.43.0


From 14f20c1625e71179026c13e4c21e67473be05abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 3/7] fix: public headers compile when included on their own

g3_private.hpp used std algorithms without including them and
g3ops{Add,Sub}_same.hpp used is::blade without g3traits.hpp, so that (e.g.)
including only g3func.hpp or g3publish.hpp failed to compile.
---
 include/g3_private.hpp    | 6 ++++++
 include/g3opsAdd_same.hpp | 1 +
 include/g3opsSub_same.hpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/include/g3_private.hpp b/include/g3_private.hpp
index b8018dc..658c0e4 100644
--- a/include/g3_private.hpp
+++ b/include/g3_private.hpp
@@ -35,6 +35,12 @@ Example:
 */
 
 
+#include <algorithm>
+#include <array>
+#include <iterator>
+#include <numeric>
+
+
 namespace engabra
 {
 
diff --git a/include/g3opsAdd_same.hpp b/include/g3opsAdd_same.hpp
index 914c440..1753d10 100644
--- a/include/g3opsAdd_same.hpp
+++ b/include/g3opsAdd_same.hpp
@@ -38,6 +38,7 @@
  */
 
 
+#include "g3traits.hpp"
 #include "g3type.hpp"
 #include "g3_private.hpp"
 
diff --git a/include/g3opsSub_same.hpp b/include/g3opsSub_same.hpp
index 49cfe88..fac97f1 100644
--- a/include/g3opsSub_same.hpp
+++ b/include/g3opsSub_same.hpp
@@ -38,6 +38,7 @@ Example:
 */
 
 
+#include "g3traits.hpp"
 #include "g3type.hpp"
 #include "g3_private.hpp"
 
-- 
2.43.0


From 4dd6ed45e74771bc5c0ef53909b4808e0ac92546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 4/7] fix: exp(MultiVector) evaluates the exponential series
 and prints nothing

The previous formula did not apply to this algebra (e.g. exp(I*pi) was not
-1) and evaluation wrote debug output to std::cout. Use the commuting
partition exp(C+D)=exp(C)*exp(D) with D*D complex instead.
---
 include/g3func.hpp | 134 ++++++++++++---------------------------------
 1 file changed, 36 insertions(+), 98 deletions(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index 773a99d..fcb981e 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -568,27 +568,27 @@ namespace g3
 namespace priv
 {
 
-	//! Evaluation of "sync(x)=sin(x)/x" - including limit case near zero
+	//! Evaluation of "sinh(z)/z" - including limit case near zero
 	inline
-	double
-	sync
-		( double const & angle
+	std::complex<double>
+	sinhOver
+		( std::complex<double> const & arg
 		)
 	{
-		double result{ g3::nan };
+		std::complex<double> result{ g3::nan, g3::nan };
 
-		// use series expansion for sync function ((x-x^2/6+x^5/120)/x)
-		// residual (for alternating series) less than O(x^6),
-		// so to ~18 digits is about (1.e-3)^6.  Use 1.e-4 for safety
-		if (angle < 1.e-4)
+		// use series expansion ((z+z^3/6+z^5/120)/z) for small arguments
+		// residual is less than O(z^6), so for 1.e-3 it is about 1.e-18
+		if (std::abs(arg) < 1.e-3)
 		{
-			// small angle: add from small to large
-			result = (sq(sq(angle))/120.  - sq(angle)/6.  + 1.);
+			// small argument: add from small to large
+			std::complex<double> const argSq{ arg * arg };
+			result = ((argSq*argSq)/120. + argSq/6. + 1.);
 		}
 		else
 		{
-			// large angle: evaluate sync with std:: library functions
-			result = std::sin(angle) / angle;
+			// large argument: evaluate with std:: library functions
+			result = std::sinh(arg) / arg;
 		}
 
 		return result;
@@ -599,15 +599,13 @@ namespace priv
 
 	/*! Exponential of general MultiVector element.
 	 *
-	 * Formula used is from:
-	 * \arg Dargys, Adolfas, Acus Arturas,
-	 * "Exponentials of general multivector (MV) in 3D Clifford algebras"
-	 * ArXiv:2104.01905v1, 18 Feb 2021
-	 * https://arxiv.org/pdf/2104.01905.pdf
-	 *
-* NOTE - ERROR - this paper seems to be wrong
-* For example; obvious in that b0, b123, do not reproduce (-1 == exp(I*pi))
+	 * The argument is partitioned as (C + D) with C the (commuting) ComPlex
+	 * constituent and D the DirPlex one. Since C commutes with everything,
+	 * \arg exp(C + D) = exp(C) * exp(D)
 	 *
+	 * The square of D is itself a ComPlex value, D*D = w*w, so that the
+	 * even and odd terms of the exponential series of D combine into
+	 * \arg exp(D) = cosh(w) + D * (sinh(w)/w)
 	 */
 	inline
 	MultiVector
@@ -619,83 +617,23 @@ namespace priv
 
 		if (isValid(someItem))
 		{
-			// NOTE: the algorithm [Dargys, Arturas] uses bivector
-			// decomposition with basis: E12, E23, E13
-			// This library uses: e23, e31, e12
-
-			// pull out components from input MV
-			double const a0  {  someItem[0] };
-			double const a1  {  someItem[1] };
-			double const a2  {  someItem[2] };
-			double const a3  {  someItem[3] };
-			double const a12 {  someItem[6] }; // e12
-			double const a13 { -someItem[5] }; // e31
-			double const a23 {  someItem[4] }; // e23
-			double const a123{  someItem[7] };
-
-			// evaluate scalar angles ([Dargys, Arturas] eqn 3.2)
-			double const a3m12{ a3 - a12 };
-			double const a3p12{ a3 + a12 };
-			double const a2m13{ a2 - a13 };
-			double const a2p13{ a2 + a13 };
-			double const a1m23{ a1 - a23 };
-			double const a1p23{ a1 + a23 };
-
-			double const apos{ sqrt(sq(a3m12) + sq(a2p13) + sq(a1m23)) };
-			double const aneg{ sqrt(sq(a3p12) + sq(a2m13) + sq(a1p23)) };
-
-std::cout << "apos: " << apos << std::endl;
-std::cout << "aneg: " << aneg << std::endl;
-
-			// evaluate result coefficients ([Dargys, Arturas] eqn 3.1)
-
-			// cosine function is well behaved including near zero
-			double const cospos{ std::cos(apos) }; // okay for 0==apos
-			double const cosneg{ std::cos(aneg) }; // okay for 0==aneg
-			// sync function (sin(x)/x) needs limiting case evaluation
-			double const syncpos{ priv::sync(apos) };
-			double const syncneg{ priv::sync(aneg) };
-
-std::cout << "cospos: " << cospos << std::endl;
-std::cout << "cosneg: " << cosneg << std::endl;
-
-std::cout << "syncpos: " << syncpos << std::endl;
-std::cout << "syncneg: " << syncneg << std::endl;
-
-			// leading coefficients
-			double const hea0{ .5 * std::exp(a0) }; // half * e(a0)
-			double const epa123{ std::exp( a123) }; // e(+a123)
-			double const ena123{ std::exp(-a123) }; // e(-a123)
-
-std::cout << "hea0  : " << hea0 << std::endl;
-std::cout << "epa123: " << epa123 << std::endl;
-std::cout << "ena123: " << ena123 << std::endl;
-std::cout << " sum  : " << epa123 + ena123 << std::endl;
-
-			// evaluate the output components
-
-			// Note the special case evaluations could be slightly more
-			// optimized, but simple code evaluation is preferred here.
-
-			double const b0  { epa123*cospos + ena123*cosneg };
-
-			double const b1{ epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg };
-			double const b2{ epa123*(a2p13)*syncpos + ena123*(a2m13)*syncneg };
-			double const b3{ epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg };
-
-			double const b12{-epa123*(a3m12)*syncpos + ena123*(a3p12)*syncneg};
-			double const b13{ epa123*(a2p13)*syncpos - ena123*(a2m13)*syncneg};
-			double const b23{-epa123*(a1m23)*syncpos + ena123*(a1p23)*syncneg};
-
-			double const b123{ epa123*cospos - ena123*cosneg };
-
-			// NOTE restore conventions on basis bivectors
-			// e23 :  b23
-			// e31 : -b13
-			// e12 :  b12
-			result = MultiVector{ b0, b1, b2, b3, b23, -b13, b12, b123 };
-			// apply overall scale factor
-			result = hea0 * result;
+			// partition argument into commuting and directed constituents
+			ComPlex const cplx{ someItem.theSca, someItem.theTri };
+			DirPlex const dplx{ someItem.theVec, someItem.theBiv };
+
+			// note that ampSq(D) = D*dirverse(D) = -D*D
+			ComPlex const dirSq{ -ampSq(dplx) };
+			std::complex<double> const root
+				{ std::sqrt(static_cast<std::complex<double> >(dirSq)) };
+
+			// commuting factor common to all terms
+			std::complex<double> const expCplx
+				{ std::exp(static_cast<std::complex<double> >(cplx)) };
+
+			ComPlex const even{ ComPlex::from(expCplx * std::cosh(root)) };
+			ComPlex const gain
+				{ ComPlex::from(expCplx * priv::sinhOver(root)) };
+			result = MultiVector{ even, gain * dplx };
 		}
 
 		return result;
-- 
2.43.0


From 342c55c5d803948922ae3d82839017ff542d8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 5/7] fix: amplitude() is the principal root for negative real
 squares of every type

---
 include/g3func.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/g3func.hpp b/include/g3func.hpp
index fcb981e..ddc4a03 100644
--- a/include/g3func.hpp
+++ b/include/g3func.hpp
@@ -421,8 +421,11 @@ namespace g3
 		)
 	{
 		ComPlex const cSq{ ampSq(item) };
+		// adding +0. makes a (negative) -0. imaginary part be +0. such that
+		// root of a negative real value is on the same side of branch cut
+		// for all types of argument.
 		std::complex<double> zSq
-			{ cSq.theSca.theData[0], cSq.theTri.theData[0] };
+			{ cSq.theSca.theData[0], cSq.theTri.theData[0] + 0. };
 		return ComPlex::from(std::sqrt(zSq));
 	}
 
-- 
2.43.0


From 0b06eaef4bc1921fc1fc175952b7894830de0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:42 +0000
Subject: [PATCH 6/7] fix: pass version and source identity to every compiler

The two macros were defined for GNU only, so the library did not build
with clang, which the project's workflow lists.
---
 src/CMakeLists.txt | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index f391841..771d6de 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -26,6 +26,14 @@ target_compile_options(
 		$<$<CXX_COMPILER_ID:MSVC>:${BUILD_FLAGS_FOR_VISUAL}>
 	)
 
+# identity values for source code (needed whatever the compiler)
+target_compile_definitions(
+	${${aProjName}LibName}
+	PRIVATE
+		Engabra_Project_Version="${aProjVersion}"
+		Engabra_Source_Identity="${aSourceIdentity}"
+	)
+
 target_include_directories(
 	${${aProjName}LibName}
 	PUBLIC
-- 
2.43.0


From 154e70bf6db807bea21e5b8f191c2b93866a0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 7/7] fix: write entities with the locale of the stream

Numbers are formatted in a string stream of their own, which had the
global locale whatever the stream that is written to was imbued with, so
that a stream could not read back what had been written to it.
---
 include/g3io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/g3io.hpp b/include/g3io.hpp
index 175d888..53ed967 100644
--- a/include/g3io.hpp
+++ b/include/g3io.hpp
@@ -269,6 +269,7 @@ namespace priv
 		)
 	{
 		std::ostringstream oss;
+		oss.imbue(ostrm.getloc()); // digits look as elsewhere in the stream
 		for (double const & elem : elems)
 		{
 			// using engabra::g3::io::operator<<() for fmt
-- 
2.43.0

