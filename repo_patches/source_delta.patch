From db20bfbad73cdf37567df3232cf8bfc69e30d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 01/37] fix: Mat3 coordinate-axis rotations keep a stale
 identity flag

rotate, rotatePre, rotated and rotatedPre (Coord, angle) left the cached
classification as it was, so a rotated identity still claimed to be the
identity and later products dropped the rotation.
---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..c0dfdd4 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -519,7 +519,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -614,7 +614,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -781,7 +781,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -873,7 +873,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From f1546e73e8bc98eeeb37745371781e92a0b0b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 02/37] fix: matrix products and transpositions keep stale
 classification flags

A product of two matrices that are both normal or both orthogonal, but not
orthonormal, is in general neither, and the transpose of such a matrix need
not be either (nor a TRS transform). Classify the result instead of
intersecting or copying the flags of the operands.
---
 libs/mathlib/include/impl/mat2.h | 10 ++++------
 libs/mathlib/include/impl/mat3.h | 22 ++++++++--------------
 libs/mathlib/include/impl/mat4.h |  7 +++----
 3 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..707bff1 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -103,8 +103,7 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	y.x = ta * m.y.x + tb * m.y.y;
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
-	flags &= m.flags;
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -249,8 +248,7 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -359,7 +357,7 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.x.y = y.x;
 	r.y.x = x.y;
 	r.y.y = y.y;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
@@ -536,7 +534,7 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index c0dfdd4..3c5f8e5 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -336,8 +336,7 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags &= m.flags;
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -448,9 +447,7 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-	flags &= m.flags;
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -543,9 +540,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-	flags &= m.flags;
-
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -663,8 +658,7 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -716,7 +710,7 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
 
     return r;
 }
@@ -808,7 +802,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
-    r.flags = flags & m.flags;
+    r.optimize();
 
     return r;
 }
@@ -890,7 +884,7 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.x = x.z;
 	r.z.y = y.z;
 	r.z.z = z.z;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
@@ -1084,7 +1078,7 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..51f9e35 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +913,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
@@ -1304,7 +1303,7 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = a.flags & b.flags;
+		dest.optimize();
 	}
 }
 
-- 
2.43.0


From f6557a37af6af7dd1401960831f72a689ae1fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 03/37] fix: small rotations and translations count as identity
 and are dropped

The identity tolerance of 0.001 (a squared error) classified a rotation by up
to 1.2 degrees or a translation by 0.03 as the identity, and products, rotate
and transform skip identity operands, so such steps had no effect. Allow for
rounding only.
---
 libs/mathlib/include/impl/mat2.h | 7 ++++++-
 libs/mathlib/include/impl/mat3.h | 7 ++++++-
 libs/mathlib/include/impl/mat4.h | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 707bff1..fb21fa9 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -9,7 +9,12 @@ template <class Real>
 const Mat2<Real> Mat2<Real>::One = Mat2<Real>(Real(1));
 
 template <class Real>
-const typename Mat2<Real>::Tolerance Mat2<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat2<Real>::Tolerance Mat2<Real>::DefaultTolerance = {
+	Real(0.001),
+	Real(0.001),
+	// Products skip identity operands, so this tolerates rounding only.
+	Real(256) * std::numeric_limits<Real>::epsilon() * std::numeric_limits<Real>::epsilon()
+};
 
 //
 //  Constructors
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 3c5f8e5..9dc5b89 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -9,7 +9,12 @@ template <class Real>
 const Mat3<Real> Mat3<Real>::One = Mat3<Real>(Real(1));
 
 template <class Real>
-const typename Mat3<Real>::Tolerance Mat3<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat3<Real>::Tolerance Mat3<Real>::DefaultTolerance = {
+	Real(0.001),
+	Real(0.001),
+	// Products skip identity operands, so this tolerates rounding only.
+	Real(256) * std::numeric_limits<Real>::epsilon() * std::numeric_limits<Real>::epsilon()
+};
 
 //
 //  Constructors
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 51f9e35..a5f6c4b 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -14,7 +14,12 @@ template <class Real>
 const Mat4<Real> Mat4<Real>::One = Mat4<Real>(Real(1));
 
 template <class Real>
-const typename Mat4<Real>::Tolerance Mat4<Real>::DefaultTolerance = { Real(0.001), Real(0.001), Real(0.001) };
+const typename Mat4<Real>::Tolerance Mat4<Real>::DefaultTolerance = {
+	Real(0.001),
+	Real(0.001),
+	// Products skip identity operands, so this tolerates rounding only.
+	Real(256) * std::numeric_limits<Real>::epsilon() * std::numeric_limits<Real>::epsilon()
+};
 
 //
 //  Constructors
-- 
2.43.0


From 2fa9988276cad3c345308768e5823e3e72537a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 04/37] fix: invert transposes matrices that are only roughly
 orthonormal

isOrthonormal() tolerates scales of up to about one percent, for which the
transpose is not the inverse; for Mat4 it also says nothing about the
projective row. Take the short cut only for TRS matrices that are orthonormal
up to rounding.
---
 libs/mathlib/include/impl/mat3.h  |  3 ++-
 libs/mathlib/include/impl/mat34.h | 13 ++-----------
 libs/mathlib/include/impl/mat4.h  | 12 ++++++------
 3 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 9dc5b89..1dbfb4b 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -669,7 +669,8 @@ Mat3<Real>& Mat3<Real>::transpose()
 template <class Real>
 Mat3<Real>& Mat3<Real>::invert()
 {
-	if (isOrthonormal())
+	// the transpose is the inverse up to rounding only if the matrix is orthonormal up to rounding
+	if (isOrthonormal() && normalError() <= DefaultTolerance.identity && orthogonalError() <= DefaultTolerance.identity)
 		return transpose();
 
 	Real det = determinant();
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..fd1545a 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -428,17 +428,8 @@ Mat34<Real>& Mat34<Real>::invert()
 {
 	if (isIdentity())
 		return *this;
-	if (isOrthonormal())
-	{
-		t = -t * rs;
-		rs.transpose();
-	}
-	else
-	{
-		//t = -t * rs;
-		rs.invert();
-		t = -(rs * t);
-	}
+	rs.invert();
+	t = -(rs * t);
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index a5f6c4b..5461cea 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -656,7 +656,8 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	// orthonormal up to rounding, not merely up to the tolerance of isOrthonormal()
+	if (isTrs() && isOrthonormal() && normalError() <= DefaultTolerance.identity && orthogonalError() <= DefaultTolerance.identity)
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -671,9 +672,7 @@ Mat4<Real>& Mat4<Real>::invert()
 		t.y = -ty;
 		t.z = -tz;
 
-		// flags unchanged by transposition
-
-		return *this;
+		return optimize();
 	}
 
 	Real CF00 = (z.z * t.w - z.w * t.z);
@@ -955,7 +954,8 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	// orthonormal up to rounding, not merely up to the tolerance of isOrthonormal()
+	if (isTrs() && isOrthonormal() && normalError() <= DefaultTolerance.identity && orthogonalError() <= DefaultTolerance.identity)
 	{
 		Mat4<Real> result;
 
@@ -979,7 +979,7 @@ Mat4<Real> Mat4<Real>::inversed() const
 		result.t.z = -(result.x.z * t.x + result.y.z * t.y + result.z.z * t.z);
 		result.t.w = Real(1);
 
-		result.flags = flags;
+		result.optimize();
 
 		return result;
 	}
-- 
2.43.0


From f32bfb371a1d7b65c1384571e5b2b224f668293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 05/37] fix: Mat4 scale and translate leave stale
 classification flags

Scaling amplifies the deviation from orthogonality, and translating a matrix
that is not TRS changes the length of its translation column.
---
 libs/mathlib/include/impl/mat4.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 5461cea..78fdbec 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -486,6 +486,8 @@ Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -501,12 +503,7 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.x *= coefficients.x;
 	t.y *= coefficients.y;
 	t.z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -559,6 +556,8 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal;
 	}
 	return *this;
 }
@@ -571,12 +570,7 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	x *= coefficients.x;
 	y *= coefficients.y;
 	z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
-- 
2.43.0


From 9cc2b83f1859885d2e9e3cef1716ffaec5b3c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 06/37] fix: real randAmplitude(from, to) never returns a
 negative value

rand() is never negative, so neither was the amplitude.
---
 libs/mathlib/include/functions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..32865e3 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -106,10 +106,8 @@ Real randAmplitude(Real f)
 template <class Real>
 Real randAmplitude(Real from, Real to)
 {
-	int r = ::rand();
-	return (r >= 0)
-		? (from + Real(r) * (to - from) / Real(RAND_MAX))
-		: -(from + Real(r) * (to - from) / Real(RAND_MAX));
+	Real r = randAmplitude(Real(1));
+	return (r >= Real(0)) ? from + r * (to - from) : -from + r * (to - from);
 }
 
 template <class Real>
-- 
2.43.0


From 76d15ef16d00e43de4591a569d2a3840445434ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 07/37] fix: random unit vectors only cover the positive
 quadrant or octant

---
 libs/mathlib/include/impl/vec2.h | 4 ++--
 libs/mathlib/include/impl/vec3.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 82dac3b..a88659f 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -531,8 +531,8 @@ Vec2<Real> Vec2<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
 
 		l = n.normalize();
 
diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..a8997e5 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -762,9 +762,9 @@ Vec3<Real> Vec3<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
-		n.z = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
+		n.z = randAmplitude(Real(1));
 
 		l = n.normalize();
 
-- 
2.43.0


From 67ac218d004146b57f7684bce80166a0eccf3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 08/37] fix: solvers and spline builders leak when an
 allocation fails

---
 libs/mathlib/include/common.h               |  1 +
 libs/mathlib/include/impl/linearequations.h | 31 ++++++-------
 libs/mathlib/include/impl/spline3.h         | 50 +++++++++------------
 3 files changed, 35 insertions(+), 47 deletions(-)

diff --git a/libs/mathlib/include/common.h b/libs/mathlib/include/common.h
index b63626b..4cab923 100644
--- a/libs/mathlib/include/common.h
+++ b/libs/mathlib/include/common.h
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
+#include <memory>
 
 #define MATHLIB_NS mathlib
 
diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..fa5e55b 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -80,9 +80,13 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		return solve(a, b, c, r, x, n);
 	}
 
-	Real* bb = new Real[n];
-	Real* u = new Real[n];
-	Real* z = new Real[n];
+	// Owned, so that nothing is lost when a later allocation fails
+	std::unique_ptr<Real[]> bbOwner(new Real[n]);
+	std::unique_ptr<Real[]> uOwner(new Real[n]);
+	std::unique_ptr<Real[]> zOwner(new Real[n]);
+	Real* bb = bbOwner.get();
+	Real* u = uOwner.get();
+	Real* z = zOwner.get();
 
 	Real gamma = -b[0]; // Avoid subtraction error in forming bb[1].
 	bb[0] = b[0] - gamma; // Set up the diagonal of the modified tridiagonal system.
@@ -111,10 +115,6 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		}
 	}
 	
-	delete [] z;
-	delete [] u;
-	delete [] bb;
-
 	return result;
 }
 
@@ -134,9 +134,13 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 	Real big,dum,pivinv;
 	
 	// The integer arrays ipiv, indxr, and indxc are used for bookkeeping on the pivoting.
-	indxc	= new int[n];
-	indxr	= new int[n];
-	ipiv	= new int[n];
+	// They are owned, so that nothing is lost when a later allocation fails.
+	std::unique_ptr<int[]> indxcOwner(new int[n]);
+	std::unique_ptr<int[]> indxrOwner(new int[n]);
+	std::unique_ptr<int[]> ipivOwner(new int[n]);
+	indxc	= indxcOwner.get();
+	indxr	= indxrOwner.get();
+	ipiv	= ipivOwner.get();
 	assert(indxc != NULL && indxr != NULL && ipiv != NULL);
 	
 	for (j = 0; j < n; j++)
@@ -194,9 +198,6 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 		if (a[icol*n+icol] == Real(0))
 		{
 			// Singular Matrix
-			delete [] indxc;
-			delete [] indxr;
-			delete [] ipiv;
 			return false;
 		}
 
@@ -239,10 +240,6 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 	}
 	
 	// And we are done.
-	delete[] indxc;
-	delete[] indxr;
-	delete[] ipiv;
-
 	return true;
 }
 
diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..c6703f7 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -485,10 +485,15 @@ bool SplineSolver3<Real>::naturalBezierSpline(int n, const Vec3<Real>* p1, Vec3<
 
 	n = n-1;
 
-	Real *a = new Real[n-1];
-	Real *b = new Real[n];
-	Real *c = new Real[n-1];
-	Vec3<Real> *r = new Vec3<Real>[n];
+	// Owned, so that nothing is lost when a later allocation fails
+	std::unique_ptr<Real[]> aOwner(new Real[n-1]);
+	std::unique_ptr<Real[]> bOwner(new Real[n]);
+	std::unique_ptr<Real[]> cOwner(new Real[n-1]);
+	std::unique_ptr<Vec3<Real>[]> rOwner(new Vec3<Real>[n]);
+	Real *a = aOwner.get();
+	Real *b = bOwner.get();
+	Real *c = cOwner.get();
+	Vec3<Real> *r = rOwner.get();
 	assert(a != nullptr && b != nullptr && c != nullptr && r != nullptr);
 
 	for (i = 0; i < n-1; i++)
@@ -511,10 +516,6 @@ bool SplineSolver3<Real>::naturalBezierSpline(int n, const Vec3<Real>* p1, Vec3<
 
 	if (!TriDiagonal<Real>::solve(a, b, c, r, p2, n))
 	{
-		delete [] a;
-		delete [] b;
-		delete [] c;
-		delete [] r;
 		return false;
 	}
 
@@ -525,11 +526,6 @@ bool SplineSolver3<Real>::naturalBezierSpline(int n, const Vec3<Real>* p1, Vec3<
 
 	p3[n-1]	= (p1[n] + p2[n-1]) / Real(2);
 
-	delete[] a;
-	delete[] b;
-	delete[] c;
-	delete[] r;
-
 	return true;
 }
 
@@ -550,10 +546,15 @@ bool SplineSolver3<Real>::bezierSpline(int n, const Vec3<Real>* p1, const Vec3<R
 
 	n = n-1;
 
-	Real *a = new Real[n-1];
-	Real *b = new Real[n];
-	Real *c = new Real[n-1];
-	Vec3<Real> *r = new Vec3<Real>[n];
+	// Owned, so that nothing is lost when a later allocation fails
+	std::unique_ptr<Real[]> aOwner(new Real[n-1]);
+	std::unique_ptr<Real[]> bOwner(new Real[n]);
+	std::unique_ptr<Real[]> cOwner(new Real[n-1]);
+	std::unique_ptr<Vec3<Real>[]> rOwner(new Vec3<Real>[n]);
+	Real *a = aOwner.get();
+	Real *b = bOwner.get();
+	Real *c = cOwner.get();
+	Vec3<Real> *r = rOwner.get();
 	assert(a != nullptr && b != nullptr && c != nullptr && r != nullptr);
 
 	for (i = 0; i < n-1; i++)
@@ -577,10 +578,6 @@ bool SplineSolver3<Real>::bezierSpline(int n, const Vec3<Real>* p1, const Vec3<R
 
 	if (!TriDiagonal<Real>::solve(a, b, c, r, p2, n))
 	{
-		delete [] a;
-		delete [] b;
-		delete [] c;
-		delete [] r;
 		return false;
 	}
 
@@ -591,11 +588,6 @@ bool SplineSolver3<Real>::bezierSpline(int n, const Vec3<Real>* p1, const Vec3<R
 
 	p3[n-1]	= p3end;
 
-	delete[] a;
-	delete[] b;
-	delete[] c;
-	delete[] r;
-
 	return true;
 }
 
@@ -606,7 +598,8 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 
 	int i;
 
-	Real *a = new Real[n * n];
+	std::unique_ptr<Real[]> aOwner(new Real[n * n]); // owned: the solver may run out of memory
+	Real *a = aOwner.get();
 	assert(a != nullptr);
 
 	i = n * n;
@@ -632,7 +625,6 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 
 	if (!GaussJordan<Real>::solve(a, n, p2))
 	{
-		delete [] a;
 		return false;
 	}
 
@@ -643,8 +635,6 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 
 	p3[n-1]	= p2[n-2] + p2[n-1] * Real(4) - p1[n-1] * Real(4);
 
-	delete[] a;
-
 	return true;
 }
 
-- 
2.43.0


From 339ac95a6099461eb0290888f66a93c3e043c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 09/37] fix: GaussJordan uses an uninitialised pivot index when
 no element is a number

---
 libs/mathlib/include/impl/linearequations.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index fa5e55b..ed69f22 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -150,6 +150,7 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 	{
 		// This is the main loop over the columns to be reduced.
 		big = Real(0);
+		irow = icol = -1;
 		for (j = 0; j < n; j++)
 		{
 			// This is the outer loop of the search for a pivot element.
@@ -170,6 +171,12 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			}
 		}
 		
+		if (icol < 0)
+		{
+			// No usable pivot: none of the remaining elements is a number
+			return false;
+		}
+
 		++(ipiv[icol]);
 		
 		//	We now have the pivot element, so we interchange rows, if needed, to put the pivot
-- 
2.43.0


From 8c39ae6e4a591fb5eb77dfab62471efc44f7827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:15 +0000
Subject: [PATCH 10/37] fix: named constants are zero until their unit's
 initialisers have run

---
 libs/mathlib/include/aabb2.h          |  2 +-
 libs/mathlib/include/aabb3.h          |  2 +-
 libs/mathlib/include/caabb2.h         |  2 +-
 libs/mathlib/include/caabb3.h         |  2 +-
 libs/mathlib/include/circle.h         |  2 +-
 libs/mathlib/include/colorhsv.h       |  2 +-
 libs/mathlib/include/colorrgb.h       |  2 +-
 libs/mathlib/include/colorrgba.h      |  2 +-
 libs/mathlib/include/impl/aabb2.h     |  2 +-
 libs/mathlib/include/impl/aabb3.h     |  2 +-
 libs/mathlib/include/impl/caabb2.h    |  4 ++--
 libs/mathlib/include/impl/caabb3.h    |  4 ++--
 libs/mathlib/include/impl/circle.h    |  5 ++---
 libs/mathlib/include/impl/colorhsv.h  |  2 +-
 libs/mathlib/include/impl/colorrgb.h  |  2 +-
 libs/mathlib/include/impl/colorrgba.h |  2 +-
 libs/mathlib/include/impl/mat2.h      | 12 ++++--------
 libs/mathlib/include/impl/mat3.h      | 14 +++++---------
 libs/mathlib/include/impl/mat34.h     |  7 +++----
 libs/mathlib/include/impl/mat4.h      | 25 ++++++++++++++-----------
 libs/mathlib/include/impl/plane.h     |  2 +-
 libs/mathlib/include/impl/quat.h      |  8 +++++++-
 libs/mathlib/include/impl/sphere.h    |  5 ++---
 libs/mathlib/include/impl/vec2.h      |  4 ++--
 libs/mathlib/include/impl/vec3.h      |  4 ++--
 libs/mathlib/include/impl/vec4.h      |  4 ++--
 libs/mathlib/include/mat2.h           |  2 +-
 libs/mathlib/include/mat3.h           |  2 +-
 libs/mathlib/include/mat34.h          |  4 ++--
 libs/mathlib/include/mat4.h           |  5 ++++-
 libs/mathlib/include/plane.h          |  2 +-
 libs/mathlib/include/quat.h           |  5 +++++
 libs/mathlib/include/sphere.h         |  2 +-
 libs/mathlib/include/vec2.h           |  4 ++--
 libs/mathlib/include/vec3.h           |  4 ++--
 libs/mathlib/include/vec4.h           |  4 ++--
 36 files changed, 82 insertions(+), 76 deletions(-)

diff --git a/libs/mathlib/include/aabb2.h b/libs/mathlib/include/aabb2.h
index 1155f88..cc0122b 100644
--- a/libs/mathlib/include/aabb2.h
+++ b/libs/mathlib/include/aabb2.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	AABB2();
-	AABB2(const Vec2<Real>& inf, const Vec2<Real>& sup);
+	constexpr AABB2(const Vec2<Real>& inf, const Vec2<Real>& sup);
 
 	// Setters
 	AABB2& set(const Vec2<Real>& point);
diff --git a/libs/mathlib/include/aabb3.h b/libs/mathlib/include/aabb3.h
index 6546c99..e98fbad 100644
--- a/libs/mathlib/include/aabb3.h
+++ b/libs/mathlib/include/aabb3.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	AABB3();
-	AABB3(const Vec3<Real>& inf, const Vec3<Real>& sup);
+	constexpr AABB3(const Vec3<Real>& inf, const Vec3<Real>& sup);
 
 	// Setters
 	AABB3& set(const Vec3<Real>& point);
diff --git a/libs/mathlib/include/caabb2.h b/libs/mathlib/include/caabb2.h
index c041fb6..3d08dee 100644
--- a/libs/mathlib/include/caabb2.h
+++ b/libs/mathlib/include/caabb2.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	CAABB2();
-	CAABB2(const Vec2<Real>& center, const Vec2<Real>& size);
+	constexpr CAABB2(const Vec2<Real>& center, const Vec2<Real>& size);
 
 	// Setters
 	CAABB2& set(const Vec2<Real>& point);
diff --git a/libs/mathlib/include/caabb3.h b/libs/mathlib/include/caabb3.h
index 355bae6..fe1d009 100644
--- a/libs/mathlib/include/caabb3.h
+++ b/libs/mathlib/include/caabb3.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	CAABB3();
-	CAABB3(const Vec3<Real>& center, const Vec3<Real>& size);
+	constexpr CAABB3(const Vec3<Real>& center, const Vec3<Real>& size);
 
 	// Setters
 	CAABB3& set(const Vec3<Real>& point);
diff --git a/libs/mathlib/include/circle.h b/libs/mathlib/include/circle.h
index 589470d..25b55b2 100644
--- a/libs/mathlib/include/circle.h
+++ b/libs/mathlib/include/circle.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	Circle();
-	Circle(const Vec2<Real>& center, Real radius);
+	constexpr Circle(const Vec2<Real>& center, Real radius);
 
 	// Setters
 	Circle& set(const Vec2<Real>& center, Real radius);
diff --git a/libs/mathlib/include/colorhsv.h b/libs/mathlib/include/colorhsv.h
index 8396885..c16bf64 100644
--- a/libs/mathlib/include/colorhsv.h
+++ b/libs/mathlib/include/colorhsv.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	ColorHSV();
-	ColorHSV(Real h, Real s, Real v);
+	constexpr ColorHSV(Real h, Real s, Real v);
 
 	// Create from
 	static ColorHSV fromInterp(const ColorHSV& a, const ColorHSV& b, Real ratio);
diff --git a/libs/mathlib/include/colorrgb.h b/libs/mathlib/include/colorrgb.h
index f3693d1..08fbed2 100644
--- a/libs/mathlib/include/colorrgb.h
+++ b/libs/mathlib/include/colorrgb.h
@@ -12,7 +12,7 @@ public:
 	// Constructors
 	ColorRGB();
 	explicit ColorRGB(Real k);
-	explicit ColorRGB(Real r, Real g, Real b);
+	constexpr explicit ColorRGB(Real r, Real g, Real b);
 	explicit ColorRGB(int r, int g, int b);
 
 	// Create from
diff --git a/libs/mathlib/include/colorrgba.h b/libs/mathlib/include/colorrgba.h
index 6bba296..9cc98ad 100644
--- a/libs/mathlib/include/colorrgba.h
+++ b/libs/mathlib/include/colorrgba.h
@@ -12,7 +12,7 @@ public:
 	// Constructors
 	ColorRGBA();
 	explicit ColorRGBA(Real k, Real a = Real(1));
-	explicit ColorRGBA(Real r, Real g, Real b, Real a = Real(1));
+	constexpr explicit ColorRGBA(Real r, Real g, Real b, Real a = Real(1));
 	explicit ColorRGBA(int r, int g, int b, int a = 255);
 
 	// Create from
diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..7b0c751 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -18,7 +18,7 @@ AABB2<Real>::AABB2()
 }
 
 template <class Real>
-AABB2<Real>::AABB2(const Vec2<Real>& _inf, const Vec2<Real>& _sup)
+constexpr AABB2<Real>::AABB2(const Vec2<Real>& _inf, const Vec2<Real>& _sup)
 : inf(_inf), sup(_sup)
 {
 }
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..deb2cc0 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -18,7 +18,7 @@ AABB3<Real>::AABB3()
 }
 
 template <class Real>
-AABB3<Real>::AABB3(const Vec3<Real>& _inf, const Vec3<Real>& _sup)
+constexpr AABB3<Real>::AABB3(const Vec3<Real>& _inf, const Vec3<Real>& _sup)
 : inf(_inf), sup(_sup)
 {
 }
diff --git a/libs/mathlib/include/impl/caabb2.h b/libs/mathlib/include/impl/caabb2.h
index fb9f8e8..dd158de 100644
--- a/libs/mathlib/include/impl/caabb2.h
+++ b/libs/mathlib/include/impl/caabb2.h
@@ -13,8 +13,8 @@ CAABB2<Real>::CAABB2()
 }
 
 template <class Real>
-CAABB2<Real>::CAABB2(const Vec2<Real>& _center, const Vec2<Real>& size)
-: center(_center), extents(size * Real(0.5))
+constexpr CAABB2<Real>::CAABB2(const Vec2<Real>& _center, const Vec2<Real>& size)
+: center(_center), extents(size.x * Real(0.5), size.y * Real(0.5))
 {
 }
 
diff --git a/libs/mathlib/include/impl/caabb3.h b/libs/mathlib/include/impl/caabb3.h
index 02c7fd7..272e717 100644
--- a/libs/mathlib/include/impl/caabb3.h
+++ b/libs/mathlib/include/impl/caabb3.h
@@ -13,8 +13,8 @@ CAABB3<Real>::CAABB3()
 }
 
 template <class Real>
-CAABB3<Real>::CAABB3(const Vec3<Real>& _center, const Vec3<Real>& size)
-: center(_center), extents(size * Real(0.5))
+constexpr CAABB3<Real>::CAABB3(const Vec3<Real>& _center, const Vec3<Real>& size)
+: center(_center), extents(size.x * Real(0.5), size.y * Real(0.5), size.z * Real(0.5))
 {
 }
 
diff --git a/libs/mathlib/include/impl/circle.h b/libs/mathlib/include/impl/circle.h
index 669651c..749009e 100644
--- a/libs/mathlib/include/impl/circle.h
+++ b/libs/mathlib/include/impl/circle.h
@@ -15,11 +15,10 @@ Circle<Real>::Circle()
 }
 
 template <class Real>
-Circle<Real>::Circle(const Vec2<Real>& p, Real r)
+constexpr Circle<Real>::Circle(const Vec2<Real>& p, Real r)
 	: center(p),
-	radius(r)
+	radius((assert(r >= Real(0)), r))
 {
-	assert(r >= Real(0));
 }
 
 
diff --git a/libs/mathlib/include/impl/colorhsv.h b/libs/mathlib/include/impl/colorhsv.h
index be02388..50ab98a 100644
--- a/libs/mathlib/include/impl/colorhsv.h
+++ b/libs/mathlib/include/impl/colorhsv.h
@@ -27,7 +27,7 @@ ColorHSV<Real>::ColorHSV()
 }
 
 template <class Real>
-ColorHSV<Real>::ColorHSV(Real ph, Real ps, Real pv)
+constexpr ColorHSV<Real>::ColorHSV(Real ph, Real ps, Real pv)
 	: h(ph), s(ps), v(pv)
 {
 }
diff --git a/libs/mathlib/include/impl/colorrgb.h b/libs/mathlib/include/impl/colorrgb.h
index 70787b1..2f10c4e 100644
--- a/libs/mathlib/include/impl/colorrgb.h
+++ b/libs/mathlib/include/impl/colorrgb.h
@@ -33,7 +33,7 @@ ColorRGB<Real>::ColorRGB(Real k)
 }
 
 template <class Real>
-ColorRGB<Real>::ColorRGB(Real pr, Real pg, Real pb)
+constexpr ColorRGB<Real>::ColorRGB(Real pr, Real pg, Real pb)
 	: r(pr), g(pg), b(pb)
 {
 }
diff --git a/libs/mathlib/include/impl/colorrgba.h b/libs/mathlib/include/impl/colorrgba.h
index ceead30..fd82c65 100644
--- a/libs/mathlib/include/impl/colorrgba.h
+++ b/libs/mathlib/include/impl/colorrgba.h
@@ -33,7 +33,7 @@ ColorRGBA<Real>::ColorRGBA(Real k, Real pa)
 }
 
 template <class Real>
-ColorRGBA<Real>::ColorRGBA(Real pr, Real pg, Real pb, Real pa)
+constexpr ColorRGBA<Real>::ColorRGBA(Real pr, Real pg, Real pb, Real pa)
 	: r(pr), g(pg), b(pb), a(pa)
 {
 }
diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index fb21fa9..7d12b85 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -27,15 +27,11 @@ Mat2<Real>::Mat2()
 }
 
 template <class Real>
-Mat2<Real>::Mat2(Real k)
+constexpr Mat2<Real>::Mat2(Real k)
+	: x(k, Real(0)),
+	y(Real(0), k),
+	flags(k == Real(1) ? Flags::Orthonormal | Flags::Identity : Flags::Orthogonal)
 {
-	x.x = k;		y.x = Real(0);
-	x.y = Real(0);	y.y = k;
-	flags = Flags::Orthogonal;
-	if (k == Real(1))
-	{
-		flags |= Flags::Normal | Flags::Identity;
-	}
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 1dbfb4b..d38dff4 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -27,16 +27,12 @@ Mat3<Real>::Mat3()
 }
 
 template <class Real>
-Mat3<Real>::Mat3(Real k)
+constexpr Mat3<Real>::Mat3(Real k)
+	: flags(k == Real(1) ? Flags::Orthonormal | Flags::Identity : Flags::Orthogonal),
+	x(k, Real(0), Real(0)),
+	y(Real(0), k, Real(0)),
+	z(Real(0), Real(0), k)
 {
-	x.x = k;		y.x = Real(0);	z.x = Real(0);
-	x.y = Real(0);	y.y = k;		z.y = Real(0);
-	x.z = Real(0);	y.z = Real(0);	z.z = k;
-	flags = Flags::Orthogonal;
-	if (k == Real(1))
-	{
-		flags |= Flags::Normal | Flags::Identity;
-	}
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index fd1545a..6f06ec2 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -18,16 +18,15 @@ Mat34<Real>::Mat34()
 }
 
 template <class Real>
-Mat34<Real>::Mat34(Real k)
+constexpr Mat34<Real>::Mat34(Real k)
 	: rs(k), t(Real(0))
 {
 }
 
 template <class Real>
-Mat34<Real>::Mat34(const Mat3<Real> &rs, const Vec3<Real> &t)
+constexpr Mat34<Real>::Mat34(const Mat3<Real> &rs, const Vec3<Real> &t)
+	: rs(rs), t(t)
 {
-	this->rs = rs;
-	this->t = t;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 78fdbec..637f367 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -7,7 +7,8 @@ const Mat4<Real> Mat4<Real>::Zero = Mat4<Real>(
 	Vec4<Real>(Real(0), Real(0), Real(0), Real(0)),
 	Vec4<Real>(Real(0), Real(0), Real(0), Real(0)),
 	Vec4<Real>(Real(0), Real(0), Real(0), Real(0)),
-	Vec4<Real>(Real(0), Real(0), Real(0), Real(0))
+	Vec4<Real>(Real(0), Real(0), Real(0), Real(0)),
+	Flags::Orthogonal
 );
 
 template <class Real>
@@ -32,17 +33,19 @@ Mat4<Real>::Mat4()
 }
 
 template <class Real>
-Mat4<Real>::Mat4(Real k)
+constexpr Mat4<Real>::Mat4(Real k)
+	: flags(k == Real(1) ? Flags::Orthonormal | Flags::Identity | Flags::Trs : Flags::Orthogonal),
+	x(k, Real(0), Real(0), Real(0)),
+	y(Real(0), k, Real(0), Real(0)),
+	z(Real(0), Real(0), k, Real(0)),
+	t(Real(0), Real(0), Real(0), Real(1))
+{
+}
+
+template <class Real>
+constexpr Mat4<Real>::Mat4(const Vec4<Real>& x, const Vec4<Real>& y, const Vec4<Real>& z, const Vec4<Real>& t, unsigned int flags)
+	: flags(flags), x(x), y(y), z(z), t(t)
 {
-	x.x = k;		y.x = Real(0);	z.x = Real(0);	t.x = Real(0);
-	x.y = Real(0);	y.y = k;		z.y = Real(0);	t.y = Real(0);
-	x.z = Real(0);	y.z = Real(0);	z.z = k;		t.z = Real(0);
-	x.w = Real(0);	y.w = Real(0);	z.w = Real(0);	t.w = Real(1);
-	flags = Flags::Orthogonal;
-	if (k == Real(1))
-	{
-		flags |= Flags::Normal | Flags::Identity | Flags::Trs;
-	}
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..a881ab8 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -19,7 +19,7 @@ Plane<Real>::Plane()
 }
 
 template <class Real>
-Plane<Real>::Plane(const Vec3<Real>& n, Real distance)
+constexpr Plane<Real>::Plane(const Vec3<Real>& n, Real distance)
 :	normal(n),
 	d(distance)
 {
diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..7c066ca 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -5,13 +5,19 @@ MATHLIB_NS_BEGIN
 const double DELTA = 1e-6f;
 
 template <class Real>
-const Quat<Real> Quat<Real>::One = Quat<Real>(0, 0, 0, 1, false);
+const Quat<Real> Quat<Real>::One = Quat<Real>(Exact(), Real(0), Real(0), Real(0), Real(1));
 
 template <class Real>
 Quat<Real>::Quat()
 {
 }
 
+template <class Real>
+constexpr Quat<Real>::Quat(Exact, Real px, Real py, Real pz, Real pw)
+:	x(px), y(py), z(pz), w(pw)
+{
+}
+
 template <class Real>
 Quat<Real>::Quat(Real px, Real py, Real pz, Real pw, bool autoNormalize)
 :	x(px), y(py), z(pz), w(pw)
diff --git a/libs/mathlib/include/impl/sphere.h b/libs/mathlib/include/impl/sphere.h
index a221d89..2f85620 100644
--- a/libs/mathlib/include/impl/sphere.h
+++ b/libs/mathlib/include/impl/sphere.h
@@ -15,11 +15,10 @@ Sphere<Real>::Sphere()
 }
 
 template <class Real>
-Sphere<Real>::Sphere(const Vec3<Real>& p, Real r)
+constexpr Sphere<Real>::Sphere(const Vec3<Real>& p, Real r)
 	: center(p),
-	radius(r)
+	radius((assert(r >= Real(0)), r))
 {
-	assert(r >= Real(0));
 }
 
 
diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index a88659f..c4db5d5 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -21,13 +21,13 @@ Vec2<Real>::Vec2()
 }
 
 template <class Real>
-Vec2<Real>::Vec2(Real k)
+constexpr Vec2<Real>::Vec2(Real k)
 	: x(k), y(k)
 {
 }
 
 template <class Real>
-Vec2<Real>::Vec2(Real px, Real py)
+constexpr Vec2<Real>::Vec2(Real px, Real py)
 	: x(px), y(py)
 {
 }
diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index a8997e5..f2f63a7 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -24,13 +24,13 @@ Vec3<Real>::Vec3()
 }
 
 template <class Real>
-Vec3<Real>::Vec3(Real k)
+constexpr Vec3<Real>::Vec3(Real k)
 	: x(k), y(k), z(k)
 {
 }
 
 template <class Real>
-Vec3<Real>::Vec3(Real px, Real py, Real pz)
+constexpr Vec3<Real>::Vec3(Real px, Real py, Real pz)
 	: x(px), y(py), z(pz)
 {
 }
diff --git a/libs/mathlib/include/impl/vec4.h b/libs/mathlib/include/impl/vec4.h
index 3f5c105..1d6cea8 100644
--- a/libs/mathlib/include/impl/vec4.h
+++ b/libs/mathlib/include/impl/vec4.h
@@ -36,13 +36,13 @@ Vec4<Real>::Vec4()
 }
 
 template <class Real>
-Vec4<Real>::Vec4(Real k)
+constexpr Vec4<Real>::Vec4(Real k)
 	: x(k), y(k), z(k), w(k)
 {
 }
 
 template <class Real>
-Vec4<Real>::Vec4(Real px, Real py, Real pz, Real pw)
+constexpr Vec4<Real>::Vec4(Real px, Real py, Real pz, Real pw)
 	: x(px), y(py), z(pz), w(pw)
 {
 }
diff --git a/libs/mathlib/include/mat2.h b/libs/mathlib/include/mat2.h
index 480abfa..cb5375e 100644
--- a/libs/mathlib/include/mat2.h
+++ b/libs/mathlib/include/mat2.h
@@ -12,7 +12,7 @@ public:
 public:
 	// Constructors
 	Mat2();
-	Mat2(Real k);
+	constexpr Mat2(Real k);
 	Mat2(const Vec2<Real>& x, const Vec2<Real>& y);
 
 	// Setters
diff --git a/libs/mathlib/include/mat3.h b/libs/mathlib/include/mat3.h
index 5f278a1..598ba35 100644
--- a/libs/mathlib/include/mat3.h
+++ b/libs/mathlib/include/mat3.h
@@ -12,7 +12,7 @@ public:
 public:
 	// Constructors
 	Mat3();
-	Mat3(Real k);
+	constexpr Mat3(Real k);
 	Mat3(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z);
 
 	// Setters
diff --git a/libs/mathlib/include/mat34.h b/libs/mathlib/include/mat34.h
index aeaf630..d6caedd 100644
--- a/libs/mathlib/include/mat34.h
+++ b/libs/mathlib/include/mat34.h
@@ -12,8 +12,8 @@ public:
 public:
 	// Constructors
 	Mat34();
-	Mat34(Real k);
-	Mat34(const Mat3<Real> &r, const Vec3<Real> &t = Vec3<Real>::Zero);
+	constexpr Mat34(Real k);
+	constexpr Mat34(const Mat3<Real> &r, const Vec3<Real> &t = Vec3<Real>::Zero);
 	Mat34(const Vec3<Real> &x, const Vec3<Real> &y, const Vec3<Real> &z, const Vec3<Real> &t);
 
 	// Setters
diff --git a/libs/mathlib/include/mat4.h b/libs/mathlib/include/mat4.h
index 1080d27..72d5482 100644
--- a/libs/mathlib/include/mat4.h
+++ b/libs/mathlib/include/mat4.h
@@ -12,7 +12,7 @@ public:
 public:
 	// Constructors
 	Mat4();
-	Mat4(Real k);
+	constexpr Mat4(Real k);
 	Mat4(const Mat3<Real>& m, const Vec3<Real>& t = Vec3<Real>::Zero);
 	Mat4(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z, const Vec3<Real>& t = Vec3<Real>::Zero);
 	Mat4(const Vec4<Real>& x, const Vec4<Real>& y, const Vec4<Real>& z, const Vec4<Real>& t = Vec4<Real>::OneW);
@@ -147,6 +147,9 @@ private:
 
 	unsigned int flags;
 
+	// Constant initialization, with the classification known beforehand
+	constexpr Mat4(const Vec4<Real>& x, const Vec4<Real>& y, const Vec4<Real>& z, const Vec4<Real>& t, unsigned int flags);
+
 public:
 	Vec4<Real> x;
 	Vec4<Real> y;
diff --git a/libs/mathlib/include/plane.h b/libs/mathlib/include/plane.h
index 809fdb8..fb1a425 100644
--- a/libs/mathlib/include/plane.h
+++ b/libs/mathlib/include/plane.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	Plane();
-	Plane(const Vec3<Real>& normal, Real distance);
+	constexpr Plane(const Vec3<Real>& normal, Real distance);
 
     // Create from
     Plane& set(const Vec3<Real>& normal, Real distance);
diff --git a/libs/mathlib/include/quat.h b/libs/mathlib/include/quat.h
index 41a46fd..beb0d05 100644
--- a/libs/mathlib/include/quat.h
+++ b/libs/mathlib/include/quat.h
@@ -78,6 +78,11 @@ public:
 	Real w;
 
     static const Quat One;
+
+private:
+	// Constant initialization, without normalizing
+	struct Exact {};
+	constexpr Quat(Exact, Real px, Real py, Real pz, Real pw);
 };
 
 MATHLIB_NS_END
diff --git a/libs/mathlib/include/sphere.h b/libs/mathlib/include/sphere.h
index 3203301..28fac7a 100644
--- a/libs/mathlib/include/sphere.h
+++ b/libs/mathlib/include/sphere.h
@@ -11,7 +11,7 @@ public:
 public:
 	// Constructors
 	Sphere();
-	Sphere(const Vec3<Real>& center, Real radius);
+	constexpr Sphere(const Vec3<Real>& center, Real radius);
 
 	// Setters
 	Sphere& set(const Vec3<Real>& center, Real radius);
diff --git a/libs/mathlib/include/vec2.h b/libs/mathlib/include/vec2.h
index 1fa0d62..75ab6b6 100644
--- a/libs/mathlib/include/vec2.h
+++ b/libs/mathlib/include/vec2.h
@@ -11,8 +11,8 @@ public:
 public:
 	// Constructors
 	Vec2();
-	explicit Vec2(Real k);
-	Vec2(Real x, Real y);
+	constexpr explicit Vec2(Real k);
+	constexpr Vec2(Real x, Real y);
 	Vec2(const Vec3<Real>& u, Coord drop = Coord::Z);
 
 	// Create from
diff --git a/libs/mathlib/include/vec3.h b/libs/mathlib/include/vec3.h
index 4df76b9..7f5f07f 100644
--- a/libs/mathlib/include/vec3.h
+++ b/libs/mathlib/include/vec3.h
@@ -11,8 +11,8 @@ public:
 public:
 	// Constructors
 	Vec3();
-	explicit Vec3(Real k);
-	Vec3(Real x, Real y, Real z);
+	constexpr explicit Vec3(Real k);
+	constexpr Vec3(Real x, Real y, Real z);
 	Vec3(const Vec2<Real>& u, Coord c = Coord::Z);
 
 	// Create from
diff --git a/libs/mathlib/include/vec4.h b/libs/mathlib/include/vec4.h
index 0b9c6a2..2c9a28b 100644
--- a/libs/mathlib/include/vec4.h
+++ b/libs/mathlib/include/vec4.h
@@ -11,8 +11,8 @@ public:
 public:
 	// Constructors
 	Vec4();
-	explicit Vec4(Real k);
-	Vec4(Real x, Real y, Real z, Real w = Real(1));
+	constexpr explicit Vec4(Real k);
+	constexpr Vec4(Real x, Real y, Real z, Real w = Real(1));
 	Vec4(const Vec3<Real>& u, Real w = Real(1));
 
 	// Setters
-- 
2.43.0


From a91ddc917dd970d48e104554bcac172ab2b3bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:41 +0000
Subject: [PATCH 11/37] fix: circular interpolation takes the long way for
 negative differences

clerp and clerpMaxAngle wrapped the difference with a sign-preserving fmod, so
differences below -PI went the long way round or past the target; the ratio of
clerpMaxAngle was the resulting angle over the difference (or 0/0) instead of
the part of the difference covered.
---
 libs/mathlib/include/interpolation.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..0ed8978 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,12 +195,12 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
-	Real angle = (delta >= 0)
-		? (from + ((delta > maxAngle) ? maxAngle : delta))
-		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
-	return angle;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
+	Real step = (delta >= 0)
+		? ((delta > maxAngle) ? maxAngle : delta)
+		: ((delta < -maxAngle) ? -maxAngle : delta);
+	ratio = (delta != Real(0)) ? step / delta : Real(1);
+	return from + step;
 }
 
 MATHLIB_NS_END
-- 
2.43.0


From 4080452a4813f4acb6a8a843d1e4256b7aa5a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 12/37] fix: Quat::slerpMaxAngle ignores its start and the
 shorter arc

It returned the (limited) difference rotation itself instead of applying it to
the start orientation, turned the long way when the quaternions were in opposite
hemispheres, and dropped differences below 0.002 radians.
---
 libs/mathlib/include/impl/quat.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 7c066ca..f62691a 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -235,11 +235,19 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 
 	Quat fromto = from.inverse() * to;
 
-	Vec3<Real> axis;
-	Real angle;
-	fromto.toAxisAngle(axis, angle);
+	// q and -q are the same orientation: take the shorter way
+	if (fromto.w < Real(0))
+		fromto = -fromto;
 
-	return set(axis, min(angle, maxAngle));
+	Vec3<Real> axis(fromto.x, fromto.y, fromto.z);
+	Real angle = Real(2) * atan2(axis.length(), fromto.w);
+
+	if (angle <= maxAngle)
+		return set(to);
+
+	Quat step;
+	step.set(axis, maxAngle);
+	return set(from * step);
 }
 
 template <class Real>
-- 
2.43.0


From 782b78e563a246404ea3c9e9a87919202762e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 13/37] fix: Vec3::slerp and slerpMaxAngle go wrong beyond 90
 degrees

The angle between the vectors was taken from its sine alone, so obtuse angles
were mistaken for acute ones and opposite vectors for equal ones.
---
 libs/mathlib/include/impl/vec3.h | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index f2f63a7..2c8e242 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -124,9 +124,10 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (sinAngle < Real(0.05) && cosAngle > Real(0))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +136,11 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, cosAngle);
+
+			// opposite vectors: any perpendicular axis will do
+			if (sinAngle < Real(0.0001))
+				n = u % ((MATHLIB_NS::abs(u.x) < lengthU * Real(0.5)) ? OneX : OneY);
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -170,21 +175,22 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		Real angle = asin(sinAngle);
+		Real angle = atan2(sinAngle, cosAngle);
 
-		if (angle == Real(0))
+		if (angle <= maxAngle)
 			return set(v);
 
-		Real actualAngle = (angle >= Real(0))
-			? ((angle > maxAngle) ? maxAngle : angle)
-			: ((angle < -maxAngle) ? -maxAngle : angle);
+		Real ratio = maxAngle / angle;
 
-		Real ratio = actualAngle / angle;
+		// opposite vectors: any perpendicular axis will do
+		if (sinAngle < Real(0.0001) && cosAngle < Real(0))
+			n = u % ((MATHLIB_NS::abs(u.x) < lengthU * Real(0.5)) ? OneX : OneY);
 
 		Quat<Real> q;
-		q.set(n, actualAngle);
+		q.set(n, maxAngle);
 
 		Vec3 w = q.rotated(u);
 
-- 
2.43.0


From e44b3f677900b7de5bd3b29876442d4fa0a512e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:56 +0000
Subject: [PATCH 14/37] fix: Quat operator/ multiplies by the divisor instead
 of its inverse

It also scaled the result by 1 / (w*w - x*x - y*y - z*z).
---
 libs/mathlib/include/impl/quat.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index f62691a..cee8faa 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -475,10 +475,9 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	// this * q^(-1)
+	Real s = Real(1) / (q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From 85a0a5af2809807e377c926142ea2c1f6a75c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 15/37] fix: normalise quaternions converted from matrices

Rounding in the matrix elements was amplified at every conversion, so a
matrix that follows a target with slerpMaxAngle, or is passed through
quaternions again and again, lost its orthonormality.
---
 libs/mathlib/include/impl/quat.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index cee8faa..7a07bb7 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -84,7 +84,8 @@ Quat<Real>& Quat<Real>::set(const Mat3<Real>& m)
 		y = (m.z.y + m.y.z) / s;
 		z = s / Real(4);
 	}
-	return *this;
+	// the elements carry rounding, which repeated conversions would amplify
+	return normalize();
 }
 
 template <class Real>
@@ -123,7 +124,8 @@ Quat<Real>& Quat<Real>::set(const Mat4<Real>& m)
 		y = (m.z.y + m.y.z) / s;
 		z = s / Real(4);
 	}
-	return *this;
+	// the elements carry rounding, which repeated conversions would amplify
+	return normalize();
 }
 
 template <class Real>
-- 
2.43.0


From 9270ede62d9df747e67c79228b6b95e25b6eaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 16/37] fix: classify the inverse of a 4x4 matrix of
 determinant one

Dividing by one skips the classification, so invert() left such a matrix
reporting itself uninitialised.
---
 libs/mathlib/include/impl/mat4.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 637f367..b0fb72a 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -714,7 +714,12 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	if (det == Real(0))
+		return set(Zero);
+
+	inv /= det;
+	inv.optimize();
+	return set(inv);
 }
 
 
-- 
2.43.0


From 77e3fa7b6747c3b903640875c332c2c02a3abc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 17/37] fix: ColorHSV::toRGB returns an uninitialised colour
 for hues just below zero

---
 libs/mathlib/include/impl/colorhsv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/colorhsv.h b/libs/mathlib/include/impl/colorhsv.h
index 50ab98a..bd2a9f9 100644
--- a/libs/mathlib/include/impl/colorhsv.h
+++ b/libs/mathlib/include/impl/colorhsv.h
@@ -121,7 +121,7 @@ ColorRGB<Real> ColorHSV<Real>::toRGB() const
 
     switch (i)
     {
-    case 0:
+    default: // rounded up to 6, same hue as 0
         rgb.r = v;
         rgb.g = p3;
         rgb.b = p1;
-- 
2.43.0


From 9d0247862151fa3fe980e52eec0c344b3309d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 18/37] fix: closed spline through two points is not smooth

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index c6703f7..63fa6bd 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -613,8 +613,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// The coefficients of both neighbours add up when they are the same point (n == 2)
+	a[0]        = Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1]  = Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From f9ec3a3866939c147a6cd52eef09c03bcfea3f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 19/37] fix: double precision frustum tests compare float
 distances

---
 libs/mathlib/include/impl/frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..77497b2 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,9 +85,9 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
-        if (distance > 0.0f)
+        if (distance > Real(0))
         {
 			return false;
         }
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 9f985aaface0830eb4766016463e19f2ff786d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 20/37] fix: AABB hits() judges where the slabs are entered and
 left together

A ray or line that starts within one of the slabs of the box, but outside of
the box, was never reported, and one that leaves a slab before it enters
another was reported as a hit.
---
 libs/mathlib/include/impl/aabb2.h | 41 ++++++++++++------------
 libs/mathlib/include/impl/aabb3.h | 53 +++++++++++++++----------------
 2 files changed, 46 insertions(+), 48 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index 7b0c751..2443b03 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -384,7 +384,8 @@ bool AABB2<Real>::contains(const AABB2<Real>& box) const
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
-    t = Real(0);
+    Real tnear = std::numeric_limits<Real>::lowest();
+    Real tfar = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -401,10 +402,8 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -422,19 +421,23 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
+    // Enters the box where it is within every slab, unless it leaves one of them before
+    if (tnear > tfar || tnear < Real(0))
+        return false;
+
+    t = tnear;
     return true;
 }
 
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
-    t = Real(0);
+    Real tnear = std::numeric_limits<Real>::lowest();
+    Real tfar = std::numeric_limits<Real>::max();
 
     Vec2<Real> delta = line.end - line.start;
 
@@ -453,10 +456,8 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
     if (delta.y == Real(0))
@@ -474,15 +475,15 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
-    if (t > Real(1))
+    // Enters the box where it is within every slab, unless it leaves one of them before
+    if (tnear > tfar || tnear < Real(0) || tnear > Real(1))
         return false;
-    
+
+    t = tnear;
     return true;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index deb2cc0..709e4cf 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -405,7 +405,8 @@ bool AABB3<Real>::contains(const AABB3<Real>& box) const
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
-    t = Real(0);
+    Real tnear = std::numeric_limits<Real>::lowest();
+    Real tfar = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -422,10 +423,8 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +442,8 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
     if (ray.direction.z == Real(0))
@@ -464,19 +461,23 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
+    // Enters the box where it is within every slab, unless it leaves one of them before
+    if (tnear > tfar || tnear < Real(0))
+        return false;
+
+    t = tnear;
     return true;
 }
 
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
-    t = Real(0);
+    Real tnear = std::numeric_limits<Real>::lowest();
+    Real tfar = std::numeric_limits<Real>::max();
 
     Vec3<Real> delta = line.end - line.start;
 
@@ -495,10 +496,8 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
     if (delta.y == Real(0))
@@ -516,10 +515,8 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
     if (delta.z == Real(0))
@@ -537,15 +534,15 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
-        t = std::max(t, tinf);
+        tnear = std::max(tnear, tinf);
+        tfar = std::min(tfar, tsup);
     }
 
-    if (t > Real(1))
+    // Enters the box where it is within every slab, unless it leaves one of them before
+    if (tnear > tfar || tnear < Real(0) || tnear > Real(1))
         return false;
-    
+
+    t = tnear;
     return true;
 }
 
-- 
2.43.0


From a7976f6dee9782a3cdcc931474a968191fd0476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 21/37] fix: Line3 and Ray3 distance() is zero on the line

A point exactly on the line was reported at its distance to the start.
---
 libs/mathlib/include/impl/line3.h | 6 ++----
 libs/mathlib/include/impl/ray3.h  | 8 ++++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..c2e06c8 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.normalize();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: ((point - start) % d).length();
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..f21ee07 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -46,11 +46,11 @@ template <class Real>
 Real Ray3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> northo = (point - start) % direction;
-	Vec3<Real> n = direction % northo;
-	Real l = n.normalize();
-	return (l == Real(0))
+	Real l = northo.length();
+	// Zero along the carrying line, unless the point is behind the start
+	return (l == Real(0) && direction * (point - start) <= Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: l;
 }
 
 template <class Real>
-- 
2.43.0


From 3e59baec7980e4e187876b9adac6107395c54767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 22/37] fix: Plane::project() along a direction takes the
 plane's distance into account

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index a881ab8..4100807 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * (distance(point) / f);
 
 	return true;
 }
-- 
2.43.0


From a7f555b0327237c8f1eed619ccc79f2b394ad78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:46 +0000
Subject: [PATCH 23/37] fix: GaussJordan picks pivots in its own precision

Elements of a double matrix were compared as floats: matrices of elements
beyond the range of float were solved without pivoting or reported singular.
---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index ed69f22..b655c8d 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -160,9 +160,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From 6ad284217377a4e1f109d06fe7660467697339bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 24/37] fix: TriDiagonal::solveCyclic() reports a singular
 matrix

A zero denominator in the Sherman-Morrison correction gave infinite results
and success.
---
 libs/mathlib/include/impl/linearequations.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index b655c8d..9fe95fd 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -107,7 +107,10 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			if (den == Real(0))
+				return false; // Singular matrix
+			Real fact = (x[0] + beta * x[n-1] / gamma) / den;
 
 			// Now get the solution vector x
 			for (int i = 0; i < n; i++)
-- 
2.43.0


From b2485aa856b6babefb6041ccccad1fab1529e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 25/37] fix: GaussJordan leaves the inverse of the matrix, as
 documented

The diagonal and the pivot column were overwritten after the row operations
instead of before, which reduced the matrix to the identity.
---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 9fe95fd..c7d6cce 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -213,9 +213,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -226,9 +226,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From 79035f5ed7621acdf81a770af05bb75b6b322294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 26/37] fix: Quat::set(from, via, to) does not compile

---
 libs/mathlib/include/impl/quat.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 7a07bb7..4cc651e 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -299,11 +299,14 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat lf = log(qni * from);
+	Quat lt = log(qni * to);
+
+	Quat tmp;
+	tmp.x = (lf.x + lt.x) * Real(-0.25);
+	tmp.y = (lf.y + lt.y) * Real(-0.25);
+	tmp.z = (lf.z + lt.z) * Real(-0.25);
+	tmp.w = (lf.w + lt.w) * Real(-0.25);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From 5c2171295f0f8f56376798ad4d0fad3b64fafc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:17 +0000
Subject: [PATCH 27/37] fix: Quat::set(from, to) of opposite directions gives
 no rotation

---
 libs/mathlib/include/impl/quat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 4cc651e..ded6ad0 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -162,10 +162,13 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	}
 	if (cost < Real(-0.99999))
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		// opposite directions: half a turn around any perpendicular axis
+		Vec3<Real> axis = from % ((MATHLIB_NS::abs(from.x) < Real(0.5)) ? Vec3<Real>::OneX : Vec3<Real>::OneY);
+		axis.normalize();
+		x = axis.x;
+		y = axis.y;
+		z = axis.z;
+		w = Real(0);
 		return *this;
 	}
 
-- 
2.43.0


From c4d9d7fcf4d5805b37704d5c85561601894f4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 28/37] fix: Quat::toAxisAngle asserts when rounding carries w
 beyond one

---
 libs/mathlib/include/impl/quat.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index ded6ad0..1174ac3 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -595,8 +595,7 @@ Quat<Real> Quat<Real>::inverse() const
 template <class Real>
 void Quat<Real>::toAxisAngle(Vec3<Real> &axis, Real &angle) const
 {
-	assert(w >= Real(-1) && w <= Real(1));
-
+	// rounding can carry w beyond one: that is no rotation
 	Real s2 = Real(1) - w * w;
 	Real len = (Real)(x * x + y * y + z * z);
     if (len > Real(DELTA) && s2 > Real(0))
-- 
2.43.0


From e4d00986464943a5ab81673048047218222579e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 29/37] fix: Quat::log is inaccurate near a whole turn and for
 small angles

---
 libs/mathlib/include/impl/quat.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 1174ac3..47af2de 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -640,8 +640,9 @@ Quat<CastReturnType> Quat<Real>::cast() const
 template <class Real>
 Quat<Real> Quat<Real>::log(const Quat &q)
 {
-	Real a = acos(q.w);
-	Real sina = sin(a);
+	// near a whole turn w alone does not tell the angle
+	Real sina = sqrt(q.x * q.x + q.y * q.y + q.z * q.z);
+	Real a = atan2(sina, q.w);
 
 	Quat ret;
 	ret.w = Real(0);
-- 
2.43.0


From a5fba640ea2b289fdae3767bdf9128fd2cbf5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 30/37] fix: Mat*::transform of a vector onto itself reads what
 it has overwritten

---
 libs/mathlib/include/impl/mat2.h  |  5 +++--
 libs/mathlib/include/impl/mat3.h  |  7 ++++---
 libs/mathlib/include/impl/mat34.h |  7 ++++---
 libs/mathlib/include/impl/mat4.h  | 32 +++++++++++++++++--------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 7d12b85..e78de10 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -489,8 +489,9 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	const Vec2<Real> v = src; // dest may be the same vector
+	dest.x = v.x * x.x + v.y * y.x;
+	dest.y = v.x * x.y + v.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index d38dff4..e3f7356 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1028,9 +1028,10 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> v = src; // dest may be the same vector
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 6f06ec2..7cea910 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -546,9 +546,10 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	const Vec3<Real> v = src; // dest may be the same vector
+	dest.x = v.x * rs.x.x + v.y * rs.y.x + v.z * rs.z.x + t.x;
+	dest.y = v.x * rs.x.y + v.y * rs.y.y + v.z * rs.z.y + t.y;
+	dest.z = v.x * rs.x.z + v.y * rs.y.z + v.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b0fb72a..e5aac81 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1152,9 +1152,10 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	const Vec3<Real> v = src; // dest may be the same vector
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x + t.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y + t.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1183,10 +1184,11 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	const Vec4<Real> v = src; // dest may be the same vector
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x + v.w * t.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y + v.w * t.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z + v.w * t.z;
+	dest.w = v.x * x.w + v.y * y.w + v.z * z.w + v.w * t.w;
 }
 
 template <class Real>
@@ -1215,9 +1217,10 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> v = src; // dest may be the same vector
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
 }
 
 template <class Real>
@@ -1246,10 +1249,11 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	const Vec4<Real> v = src; // dest may be the same vector
+	dest.x = v.x * x.x + v.y * y.x + v.z * z.x;
+	dest.y = v.x * x.y + v.y * y.y + v.z * z.y;
+	dest.z = v.x * x.z + v.y * y.z + v.z * z.z;
+	dest.w = v.x * x.w + v.y * y.w + v.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From d1711b7285131b189d94485e1b9d2985a38af000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 31/37] fix: a matrix multiplied, rotated or transformed by
 itself reads what it has overwritten

---
 libs/mathlib/include/impl/mat2.h  | 2 ++
 libs/mathlib/include/impl/mat3.h  | 8 ++++++++
 libs/mathlib/include/impl/mat34.h | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index e78de10..7d10fac 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -99,6 +99,8 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (&m == this)
+		return *this *= Mat2(m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y;
 	x.x = ta * m.x.x + tb * m.x.y;
 	y.x = ta * m.y.x + tb * m.y.y;
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index e3f7356..db35702 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -327,6 +327,8 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (&m == this)
+		return *this *= Mat3(m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y, tg = x.z, th = y.z;
 	x.x = ta * m.x.x + tb * m.x.y + z.x * m.x.z;
 	y.x = ta * m.y.x + tb * m.y.y + z.x * m.y.z;
@@ -436,6 +438,9 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (&m == this)
+		return rotate(Mat3(m));
+
 	Real x_x = x.x, y_x = y.x, z_x = z.x, x_y = x.y, y_y = y.y, z_y = z.y;
 
 	x.x = m.x.x * x_x + m.y.x * x_y + m.z.x * x.z;
@@ -529,6 +534,9 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (&m == this)
+		return rotatePre(Mat3(m));
+
 	Real x_x = x.x, x_y = x.y, x_z = x.z, y_x = y.x, y_y = y.y, y_z = y.z;
 
 	x.x = x_x * m.x.x + y_x * m.x.y + z.x * m.x.z;
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 7cea910..269a257 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -341,8 +341,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat3<Real>& m)
 {
 	// r * v = m * (rs * v + t)
 	//       = (m * rs) * v + (m * t)
+	t = m * t; // before m changes, if it is a part of this matrix
 	rs.rotate(m);
-	t = m * t;
 	return *this;
 }
 
-- 
2.43.0


From f6b1bedb904d75b5a9f4d13a1df7a2932d058bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 32/37] fix: Mat*::set with the matrix's own columns in another
 order loses a column

---
 libs/mathlib/include/impl/mat2.h  |  3 ++-
 libs/mathlib/include/impl/mat3.h  |  5 +++--
 libs/mathlib/include/impl/mat34.h | 14 +++++++++-----
 libs/mathlib/include/impl/mat4.h  |  7 ++++---
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 7d10fac..c7db91b 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -206,8 +206,9 @@ Mat2<Real>& Mat2<Real>::set(const Mat2<Real>& m)
 template <class Real>
 Mat2<Real>& Mat2<Real>::set(const Vec2<Real>& x, const Vec2<Real>& y)
 {
+	const Vec2<Real> newY = y; // the columns may be those of this matrix
 	this->x = x;
-	this->y = y;
+	this->y = newY;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index db35702..af6c617 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -96,9 +96,10 @@ Mat3<Real>& Mat3<Real>::set(const Quat<Real>& q)
 template <class Real>
 Mat3<Real>& Mat3<Real>::set(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z)
 {
+	const Vec3<Real> newY = y, newZ = z; // the columns may be those of this matrix
 	this->x = x;
-	this->y = y;
-	this->z = z;
+	this->y = newY;
+	this->z = newZ;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 269a257..1d254ff 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -63,8 +63,8 @@ Mat34<Real>& Mat34<Real>::set(const Mat34& m)
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Mat3<Real> &rs, const Vec3<Real> &t)
 {
+	this->t = t; // before the columns change, of which it may be one
 	this->rs = rs;
-	this->t = t;
 	return *this;
 }
 
@@ -72,8 +72,9 @@ template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Vec3<Real> &x, const Vec3<Real> &y,
                               const Vec3<Real> &z, const Vec3<Real> &t)
 {
+	const Vec3<Real> newT = t; // may be one of the columns
 	this->rs.set(x, y, z);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
@@ -88,24 +89,27 @@ Mat34<Real>& Mat34<Real>::set(Coord ecoord, const Vec3<Real>& exact, Coord acoor
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Vec3<Real> &axis, Real angle, const Vec3<Real>& t)
 {
+	const Vec3<Real> newT = t; // may be one of the columns
 	this->rs.set(axis, angle);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(Coord axis, Real angle, const Vec3<Real>& t)
 {
+	const Vec3<Real> newT = t; // may be one of the columns
 	this->rs.set(axis, angle);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Quat<Real> &q, const Vec3<Real>& t)
 {
+	const Vec3<Real> newT = t; // may be one of the columns
 	this->rs.set(q);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index e5aac81..9944edd 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -135,10 +135,11 @@ Mat4<Real>& Mat4<Real>::set(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Vec4<Real>& x, const Vec4<Real>& y, const Vec4<Real>& z, const Vec4<Real>& t)
 {
+	const Vec4<Real> newY = y, newZ = z, newT = t; // the columns may be those of this matrix
 	this->x.set(x);
-	this->y.set(y);
-	this->z.set(z);
-	this->t.set(t);
+	this->y.set(newY);
+	this->z.set(newZ);
+	this->t.set(newT);
 	return optimize();
 }
 
-- 
2.43.0


From 6abcada1d2822955e6d44252b7626c995a12e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 33/37] fix: Mat*::scale by a column of the matrix itself reads
 what it has overwritten

---
 libs/mathlib/include/impl/mat2.h  | 5 +++--
 libs/mathlib/include/impl/mat3.h  | 7 ++++---
 libs/mathlib/include/impl/mat34.h | 9 +++++----
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index c7db91b..bcdd10f 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -243,8 +243,9 @@ Mat2<Real>& Mat2<Real>::slerpMaxAngle(const Mat2& a, const Mat2& b, Real maxAngl
 template <class Real>
 Mat2<Real>& Mat2<Real>::scale(const Vec2<Real>& coefficients)
 {
-	x *= coefficients.x;
-	y *= coefficients.y;
+	const Vec2<Real> k = coefficients; // may be one of the columns
+	x *= k.x;
+	y *= k.y;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index af6c617..ca59c84 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -424,9 +424,10 @@ bool Mat3<Real>::operator!=(const Mat3 &m) const
 template <class Real>
 Mat3<Real>& Mat3<Real>::scale(const Vec3<Real>& coefficients)
 {
-	x *= coefficients.x;
-	y *= coefficients.y;
-	z *= coefficients.z;
+	const Vec3<Real> k = coefficients; // may be one of the columns
+	x *= k.x;
+	y *= k.y;
+	z *= k.z;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 1d254ff..a0f7d4f 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -333,10 +333,11 @@ Mat34<Real>& Mat34<Real>::scale(const Vec3<Real>& coefficients)
 {
 	// r * v = scale * (rs * v + t)
 	//       = (scale * rs) * v + (scale * t)
-	rs.scale(coefficients);
-	t.x *= coefficients.x;
-	t.y *= coefficients.y;
-	t.z *= coefficients.z;
+	const Vec3<Real> k = coefficients; // may be one of the columns
+	rs.scale(k);
+	t.x *= k.x;
+	t.y *= k.y;
+	t.z *= k.z;
 	return *this;
 }
 
-- 
2.43.0


From 65cd9df7ccb36d697e83a760f995d1adb6dd9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 34/37] fix: AABB and CAABB moved by or set from their own
 corners read what they have overwritten

---
 libs/mathlib/include/impl/aabb2.h  | 13 ++++++++-----
 libs/mathlib/include/impl/aabb3.h  | 13 ++++++++-----
 libs/mathlib/include/impl/caabb2.h |  3 ++-
 libs/mathlib/include/impl/caabb3.h |  3 ++-
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index 2443b03..8fce991 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -38,8 +38,9 @@ AABB2<Real>& AABB2<Real>::set(const Vec2<Real>& point)
 template <class Real>
 AABB2<Real>& AABB2<Real>::set(const Vec2<Real>& inf, const Vec2<Real>& sup)
 {
+	const Vec2<Real> newSup = sup; // may be a corner of this box
 	this->inf = inf;
-    this->sup = sup;
+	this->sup = newSup;
 	return *this;
 }
 
@@ -204,16 +205,18 @@ AABB2<Real> AABB2<Real>::fromUnion(const AABB2<Real>& a, const AABB2<Real>& b)
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator+= (const Vec2<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec2<Real> d = t; // may be a corner of this box
+	inf += d;
+	sup += d;
 	return *this;
 }
 
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator-= (const Vec2<Real>& t)
 {
-	inf -= t;
-    sup -= t;
+	const Vec2<Real> d = t; // may be a corner of this box
+	inf -= d;
+	sup -= d;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 709e4cf..273094a 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -38,8 +38,9 @@ AABB3<Real>& AABB3<Real>::set(const Vec3<Real>& point)
 template <class Real>
 AABB3<Real>& AABB3<Real>::set(const Vec3<Real>& inf, const Vec3<Real>& sup)
 {
+	const Vec3<Real> newSup = sup; // may be a corner of this box
 	this->inf = inf;
-    this->sup = sup;
+	this->sup = newSup;
 	return *this;
 }
 
@@ -216,16 +217,18 @@ AABB3<Real> AABB3<Real>::fromUnion(const AABB3<Real>& a, const AABB3<Real>& b)
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator+= (const Vec3<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec3<Real> d = t; // may be a corner of this box
+	inf += d;
+	sup += d;
 	return *this;
 }
 
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator-= (const Vec3<Real>& t)
 {
-    inf -= t;
-    sup -= t;
+	const Vec3<Real> d = t; // may be a corner of this box
+	inf -= d;
+	sup -= d;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/caabb2.h b/libs/mathlib/include/impl/caabb2.h
index dd158de..76b1141 100644
--- a/libs/mathlib/include/impl/caabb2.h
+++ b/libs/mathlib/include/impl/caabb2.h
@@ -34,8 +34,9 @@ CAABB2<Real>& CAABB2<Real>::set(const Vec2<Real>& point)
 template <class Real>
 CAABB2<Real>& CAABB2<Real>::set(const Vec2<Real>& center, const Vec2<Real>& size)
 {
+	const Vec2<Real> newExtents = size * Real(0.5); // the size may be a part of this box
 	this->center = center;
-	this->extents = size * Real(0.5);
+	this->extents = newExtents;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/caabb3.h b/libs/mathlib/include/impl/caabb3.h
index 272e717..438f107 100644
--- a/libs/mathlib/include/impl/caabb3.h
+++ b/libs/mathlib/include/impl/caabb3.h
@@ -34,8 +34,9 @@ CAABB3<Real>& CAABB3<Real>::set(const Vec3<Real>& point)
 template <class Real>
 CAABB3<Real>& CAABB3<Real>::set(const Vec3<Real>& center, const Vec3<Real>& size)
 {
+	const Vec3<Real> newExtents = size * Real(0.5); // the size may be a part of this box
 	this->center = center;
-	this->extents = size * Real(0.5);
+	this->extents = newExtents;
 	return *this;
 }
 
-- 
2.43.0


From 7be32452048cd98e00d88e445e266561d39df682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 35/37] fix: Plane::set from a point that is its own normal
 uses the new normal as the point

---
 libs/mathlib/include/impl/plane.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 4100807..e8e3f28 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -39,8 +39,9 @@ Plane<Real>& Plane<Real>::set(const Vec3<Real>& normal, Real distance)
 template <class Real>
 Plane<Real>& Plane<Real>::set(const Vec3<Real>& point, const Vec3<Real>& normal)
 {
-    this->normal = normal.normalized();
-    this->d = this->normal * point;
+    const Vec3<Real> n = normal.normalized();
+    this->d = n * point; // before the normal changes, which may be the point
+    this->normal = n;
     return *this;
 }
 
-- 
2.43.0


From ddb585603cd0bcb952474f67b056293a2fa0f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 36/37] fix: spline segments split into or set from themselves
 read what they have overwritten

---
 libs/mathlib/include/impl/spline3.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 63fa6bd..cc23cb0 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -23,10 +23,8 @@ HermiteSplineSegment3<Real>::HermiteSplineSegment3(const Vec3<Real>& p1, const V
 template <class Real>
 void HermiteSplineSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p4, const Vec3<Real>& r1, const Vec3<Real>& r4)
 {
-	P1 = p1;
-	P4 = p4;
-	R1 = r1;
-	R4 = r4;
+	// the points and tangents may be those of this segment
+	*this = HermiteSplineSegment3(p1, p4, r1, r4);
 }
 
 template <class Real>
@@ -160,10 +158,8 @@ BezierSegment3<Real>::BezierSegment3(const Vec3<Real>& p1, const Vec3<Real>& p2,
 template <class Real>
 void BezierSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p2, const Vec3<Real>& p3, const Vec3<Real>& p4)
 {
-	P1 = p1;
-	P2 = p2;
-	P3 = p3;
-	P4 = p4;
+	// the points may be those of this segment
+	*this = BezierSegment3(p1, p2, p3, p4);
 }
 
 template <class Real>
@@ -290,6 +286,9 @@ void BezierSegment3<Real>::split(Real a, BezierSegment3 &start, BezierSegment3 &
 	Real ca2 = ca * ca;
 	Real ca3 = ca * ca2;
 
+	// either part may replace this segment
+	const Vec3<Real> P1 = this->P1, P2 = this->P2, P3 = this->P3, P4 = this->P4;
+
 	start.P1	= P1;
 	start.P2	= P1 * ca	+ P2 * a;
 	start.P3	= P1 * ca2	+ P2 * (Real(2)*a*ca)	+ P3 * a2;
-- 
2.43.0


From 9bbbce9227bc087a8c85b8b4e4ee655dd73571c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 37/37] fix: Quartic and Quintic interpolation modes have float
 precision in double

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 0ed8978..2f71a96 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0

