From f5da17b2a82143a746dacd0a567ab7285ebacbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:26 +0000
Subject: [PATCH 001/101] fix: Bernstein polynomial of index 2..degree-1
 skipped recursion levels

---
 src/LNLib/Algorithm/Polynomials.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Polynomials.cpp b/src/LNLib/Algorithm/Polynomials.cpp
index 124a398..b9fc014 100644
--- a/src/LNLib/Algorithm/Polynomials.cpp
+++ b/src/LNLib/Algorithm/Polynomials.cpp
@@ -49,7 +49,7 @@ double Polynomials::Bernstein(int index, int degree, double paramT)
 	temp[degree - index] = 1.0;
 	double t1 = 1.0 - paramT;
 
-	for (int k = index; k <= degree; k++)
+	for (int k = 1; k <= degree; k++)
 	{
 		for (int j = degree; j >= k; j--)
 		{
-- 
2.43.0


From b4caaaef38f235e77b9192c93902d65d2e7a5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:26 +0000
Subject: [PATCH 002/101] fix: quadratic arc point divided every control point
 by the first weight

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..fb3fb51 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -29,9 +29,9 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	double w0 = startPoint.GetW();
 	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX() / w1, middlePoint.GetWY() / w1, middlePoint.GetWZ() / w1);
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX() / w2, endPoint.GetWY() / w2, endPoint.GetWZ() / w2);
 
 	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
-- 
2.43.0


From f681b1941d4db0e1c98dfb9d3d6390af5c3915e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:38 +0000
Subject: [PATCH 003/101] fix: corner cutting at the right end of an unclamped
 curve used the wrong knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..5ee6a0a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -543,7 +543,7 @@ LNLib::XYZ LNLib::NurbsCurve::GetPointOnCurveByCornerCut(const LN_NurbsCurve& cu
 	}
 
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, paramT);
-	int originMultiplicity = Polynomials::GetKnotMultiplicity(knotVector, paramT);
+	int originMultiplicity = MathUtils::IsAlmostEqualTo(paramT, knotVector[knotSpanIndex + 1]) ? 0 : Polynomials::GetKnotMultiplicity(knotVector, paramT);
 
 	int times = degree - originMultiplicity;
 	std::vector<XYZW> temp(times + 1);
-- 
2.43.0


From a4e565141ef7a148229e1e9f366fa59c4ee84cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:38 +0000
Subject: [PATCH 004/101] fix: curvature, torsion and normal took unit speed at
 one parameter for arc-length parametrization

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 42 +++++--------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 5ee6a0a..5808855 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -313,10 +313,6 @@ double LNLib::NurbsCurve::Curvature(const LN_NurbsCurve& curve, double paramT)
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ d1 = derivatives[1];
 	XYZ d2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(d1.Length(), 1.0))
-	{
-		return d2.Length();
-	}
 	double numerator = d1.CrossProduct(d2).Length();
 	double denominator = pow(d1.Length(), 3);
 	return numerator / denominator;
@@ -333,29 +329,14 @@ LNLib::XYZ LNLib::NurbsCurve::Normal(const LN_NurbsCurve& curve, CurveNormal nor
 	std::vector<XYZ> derivatives = ComputeRationalCurveDerivatives(curve, 2, paramT);
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
+	XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
+	if (normalType == CurveNormal::Binormal)
 	{
-		XYZ curveNormal = der2 / der2.Length();
-		if (normalType == CurveNormal::Normal)
-		{
-			return curveNormal;
-		}
-		else
-		{
-			return tangent.CrossProduct(curveNormal);
-		}
+		return b;
 	}
 	else
 	{
-		XYZ b = tangent.CrossProduct(der2) / (tangent.CrossProduct(der2).Length());
-		if (normalType == CurveNormal::Binormal)
-		{
-			return b;
-		}
-		else
-		{
-			return b.Normalize().CrossProduct(tangent.Normalize());
-		}
+		return b.Normalize().CrossProduct(tangent.Normalize());
 	}
 }
 
@@ -431,18 +412,9 @@ double LNLib::NurbsCurve::Torsion(const LN_NurbsCurve& curve, double paramT)
 	XYZ tangent = derivatives[1];
 	XYZ der2 = derivatives[2];
 	XYZ der3 = derivatives[3];
-	if (MathUtils::IsAlmostEqualTo(tangent.Length(), 1.0))
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = der2.DotProduct(der2);
-		return numerator / denominator;
-	}
-	else
-	{
-		double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
-		double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
-		return numerator / denominator;
-	}
+	double numerator = (tangent.CrossProduct(der2)).DotProduct(der3);
+	double denominator = (tangent.CrossProduct(der2).DotProduct(tangent.CrossProduct(der2)));
+	return numerator / denominator;
 }
 
 int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot, int times, LN_NurbsCurve& result)
-- 
2.43.0


From 1dd97ec6805a6dfd3bdb0b023a68b0890286d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:38 +0000
Subject: [PATCH 005/101] fix: projected normals of a closed curve wrote out of
 bounds and were not perpendicular to the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 5808855..9eecea1 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -382,19 +382,19 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
 		{
-			XYZ Ti1 = ComputeRationalCurveDerivatives(curve, 1, knotVector[i + 1])[1].Normalize();
-			XYZ bi = Baver[i + 1] + Ti1;
+			XYZ Ti = ComputeRationalCurveDerivatives(curve, 1, knotVector[i])[1].Normalize();
+			XYZ bi = Baver[i + 1] - (Baver[i + 1].DotProduct(Ti)) * Ti;
 			Baver[i] = bi.Normalize();
 		}
 
 		for (int i = 1; i <= m - 1; i++)
 		{
-			Blist[i] = 0.5 * (Blist[i] + Baver[i]);
+			Blist[i] = (0.5 * (Blist[i] + Baver[i])).Normalize();
 		}
 	}
 	return Blist;
-- 
2.43.0


From 1d05acb21aeb9193530a35c177ac8efb7b88f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:49 +0000
Subject: [PATCH 006/101] fix: knot insertion beyond full multiplicity inserted
 one knot too few and left the result empty

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9eecea1..2a7e231 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -430,10 +430,11 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 
 	if (originMultiplicity + times > degree + 1)
 	{
-		times = degree - 1 - originMultiplicity;
+		times = degree - originMultiplicity;
 	}
 	if (times <= 0)
 	{
+		result = curve;
 		return 0;
 	}
 	
-- 
2.43.0


From f9a37b2b9dfcd90903684a38db5bb892dfca2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:49 +0000
Subject: [PATCH 007/101] fix: Bezier decomposition never advanced past an
 interior knot of full multiplicity

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2a7e231..1cbf499 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -691,17 +691,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 				}
 			}
 
-			nb++;
-			if (b < m)
-			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
+		}
 
-				a = b;
-				b += 1;
+		nb++;
+		if (b < m)
+		{
+			for (int i = degree - multi; i <= degree; i++)
+			{
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From a3e4e227594f64b65f6ce472b911a578ad02775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:49 +0000
Subject: [PATCH 008/101] fix: curve knot removal mixed original with updated
 control points and dropped too many knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 31 +++++++++++++------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1cbf499..468cbe5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -729,14 +729,6 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 
 	std::vector<double> restKnotVector = knotVector;
 	int m = n + degree + 1;
-	for (int k = r + 1; k <= m; k++)
-	{
-		restKnotVector[k - times] = restKnotVector[k];
-	}
-	for (int i = 0; i < times; i++)
-	{
-		restKnotVector.pop_back();
-	}
 
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	std::vector<XYZW> temp(2 * degree + 1);
@@ -745,21 +737,21 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	for (t = 0; t < times; t++)
 	{
 		int off = first - 1;
-		temp[0] = controlPoints[off];
-		temp[last + 1 - off] = controlPoints[last + 1];
+		temp[0] = updatedControlPoints[off];
+		temp[last + 1 - off] = updatedControlPoints[last + 1];
 		int i = first;
 		int j = last;
 		int ii = 1;
 		int jj = last - off;
 		bool remflag = false;
 
-		while (j - i >= t)
+		while (j - i > t)
 		{
 			double alphai = (removeKnot - knotVector[i]) / (knotVector[i + order + t] - knotVector[i]);
 			double alphaj = (removeKnot - knotVector[j - t]) / (knotVector[j + order] - knotVector[j - t]);
 
-			temp[ii] = (controlPoints[i] - (1.0 - alphai) * temp[ii - 1]) / alphai;
-			temp[jj] = (controlPoints[j] - alphaj * temp[jj + 1]) / (1.0 - alphaj);
+			temp[ii] = (updatedControlPoints[i] - (1.0 - alphai) * temp[ii - 1]) / alphai;
+			temp[jj] = (updatedControlPoints[j] - alphaj * temp[jj + 1]) / (1.0 - alphaj);
 
 			i = i + 1;
 			ii = ii + 1;
@@ -778,7 +770,7 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		else
 		{
 			double alphai = (removeKnot - knotVector[i]) / (knotVector[i + order + t] - knotVector[i]);
-			if (MathUtils::IsLessThanOrEqual(controlPoints[i].Distance(alphai * temp[ii + t + 1] + (1.0 - alphai) * temp[ii - 1]), tol))
+			if (MathUtils::IsLessThanOrEqual(updatedControlPoints[i].Distance(alphai * temp[ii + t + 1] + (1.0 - alphai) * temp[ii - 1]), tol))
 			{
 				remflag = true;
 			}
@@ -809,6 +801,15 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		return false;
 	}
 
+	for (int k = r + 1; k <= m; k++)
+	{
+		restKnotVector[k - t] = restKnotVector[k];
+	}
+	for (int i = 0; i < t; i++)
+	{
+		restKnotVector.pop_back();
+	}
+
 	int j = (2 * r - s - degree) / 2;
 	int i = j;
 
@@ -826,7 +827,7 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 
 	for (int k = i + 1; k <= n; k++)
 	{
-		updatedControlPoints[j] = controlPoints[k];
+		updatedControlPoints[j] = updatedControlPoints[k];
 		j = j + 1;
 	}
 	for (int i = 0; i < t; i++)
-- 
2.43.0


From 102acfcd998c6fdd6033e0be15d0f8a82f8a5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:49 +0000
Subject: [PATCH 009/101] fix: degree elevation sized its result by counting
 repeated interior knots

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 468cbe5..fa72386 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -911,7 +911,14 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 
 	int startIdx = degree + 1;
 	int endIdx = static_cast<int>(knotVector.size()) - (degree + 1);
-	int uniqueCount = endIdx - startIdx;
+	int uniqueCount = 0;
+	for (int i = startIdx; i < endIdx; i++)
+	{
+		if (!MathUtils::IsAlmostEqualTo(knotVector[i], knotVector[i - 1]))
+		{
+			uniqueCount++;
+		}
+	}
 	int nh = n + (uniqueCount + 1) * times;
 
 	int moresize = nh + 1;
-- 
2.43.0


From 8dfee77d970c33ac31043207915628b3f2b7a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:49 +0000
Subject: [PATCH 010/101] fix: reducing the degree of a linear curve read out
 of bounds

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index fa72386..b0cfe0d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1084,7 +1084,7 @@ bool LNLib::NurbsCurve::ReduceDegree(const LN_NurbsCurve& curve, LN_NurbsCurve&
 
 	int size = controlPoints.size();
 	bool isBezier = ValidationUtils::IsValidBezier(degree, size);
-	if (!isBezier) return false;
+	if (!isBezier || !ValidationUtils::IsValidDegreeReduction(degree)) return false;
 
 	int r = floor((degree - 1) / 2);
 	std::vector<XYZW> updatedControlPoints(degree);
-- 
2.43.0


From 40a9b60a3333014cf7be296a7528acfe68d695db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:49 +0000
Subject: [PATCH 011/101] fix: curve knot removal ran out of bounds for absent
 knots, end knots and excessive counts

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b0cfe0d..8a22e9c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -726,6 +726,11 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 
 	int first = r - degree;
 	int last = r - s;
+	times = std::min(times, s);
+	if (times == 0 || first < times || last + times > n)
+	{
+		return false;
+	}
 
 	std::vector<double> restKnotVector = knotVector;
 	int m = n + degree + 1;
-- 
2.43.0


From 3b3c51aa1fbfdc0a1a105718aa603f07e9ad3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:58 +0000
Subject: [PATCH 012/101] fix: keep removing a knot that is only approximately
 removable, as before

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8a22e9c..9b386a6 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -781,7 +781,9 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 			}
 		}
 
-		if (!remflag)
+		// Not removable within tolerance: approximate by dropping the middle control point and keeping the right side.
+		bool isApproximate = !remflag && t == 0 && (degree - s) % 2 == 0;
+		if (!remflag && !isApproximate)
 		{
 			break;
 		}
@@ -792,13 +794,21 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		while (j - i > t)
 		{
 			updatedControlPoints[i] = temp[i - off];
-			updatedControlPoints[j] = temp[j - off];
+			if (!isApproximate)
+			{
+				updatedControlPoints[j] = temp[j - off];
+			}
 			i = i + 1;
 			j = j - 1;
 		}
 
 		first = first - 1;
 		last = last + 1;
+		if (isApproximate)
+		{
+			t = 1;
+			break;
+		}
 	}
 
 	if (t == 0)
-- 
2.43.0


From 7c5337c72aa327740e24f549ba14a8ee89802575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:20 +0000
Subject: [PATCH 013/101] fix: Bezier decomposition at an interior knot of
 multiplicity degree + 1

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9b386a6..89b9b3f 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -696,7 +696,7 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 		nb++;
 		if (b < m)
 		{
-			for (int i = degree - multi; i <= degree; i++)
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
 			{
 				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
-- 
2.43.0


From 3988b20d3e8b6901bfeeae88515a84dab78ddde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:10 +0000
Subject: [PATCH 014/101] fix: removing excessive knots changed the curve at
 knots that are not removable

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 89b9b3f..9f8f1a2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -708,8 +708,10 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 	return beziers;
 }
 
-bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot, int times, LN_NurbsCurve& result)
+static bool RemoveKnotCore(const LNLib::LN_NurbsCurve& curve, double removeKnot, int times, bool allowApproximate, LNLib::LN_NurbsCurve& result)
 {
+	using namespace LNLib;
+
 	int degree = curve.Degree;
 	const auto& knotVector = curve.KnotVector;
 	const auto& controlPoints = curve.ControlPoints;
@@ -782,7 +784,7 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		}
 
 		// Not removable within tolerance: approximate by dropping the middle control point and keeping the right side.
-		bool isApproximate = !remflag && t == 0 && (degree - s) % 2 == 0;
+		bool isApproximate = allowApproximate && !remflag && t == 0 && (degree - s) % 2 == 0;
 		if (!remflag && !isApproximate)
 		{
 			break;
@@ -855,6 +857,11 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	return true;
 }
 
+bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot, int times, LN_NurbsCurve& result)
+{
+	return RemoveKnotCore(curve, removeKnot, times, true, result);
+}
+
 void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_NurbsCurve& result)
 {
 	result = curve;
@@ -870,7 +877,7 @@ void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_Nurb
 			if (currentMultiplicity <= 1) continue;
 
 			LN_NurbsCurve tempResult;
-			if (NurbsCurve::RemoveKnot(result, u, 1, tempResult))
+			if (RemoveKnotCore(result, u, 1, false, tempResult))
 			{
 				result = tempResult;
 				changed = true;
-- 
2.43.0


From 537a5ca9768dcf376d099c8fd1925a6b7c96665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:40 +0000
Subject: [PATCH 015/101] fix: extracting a part of a curve returned a knot
 vector and control points that do not belong together

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 28 ++++++++-----------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 9f8f1a2..433a8c3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1600,27 +1600,17 @@ void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParamete
 	VALIDATE_ARGUMENT(MathUtils::IsLessThan(startParameter, endParameter), "endParameter", "startParameter must less than endParameter.");
 
 	LN_NurbsCurve tempCurve = curve;
-
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(tempCurve, endParameter, left, right))
+	{
+		tempCurve = left;
 	}
-
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	if (SplitAt(tempCurve, startParameter, left, right))
+	{
+		tempCurve = right;
 	}
-
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = tempCurve;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From c74a653c7ca959c7cd5def502acb257c39603d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:16 +0000
Subject: [PATCH 016/101] fix: rational reparametrization truncated the new
 weights to integers

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 433a8c3..d56fa8e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1496,7 +1496,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
-- 
2.43.0


From 61f92f5ef8a620df06620329619f7bbb655971b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:16 +0000
Subject: [PATCH 017/101] fix: IsClosed reported open clamped curves with a
 repeating control polygon as closed

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d56fa8e..e41b9a7 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1206,6 +1206,7 @@ bool LNLib::NurbsCurve::IsClosed(const LN_NurbsCurve& curve)
 	double distance = startPoint.Distance(endPoint);
 	bool isMatch = MathUtils::IsAlmostEqualTo(distance, 0.0);
 	if (isMatch) return true;
+	if (IsClamp(curve)) return false;
 
 	std::vector<XYZW> controlPoints = curve.ControlPoints;
 	int n = controlPoints.size() - 1;
-- 
2.43.0


From 1418748bc49a40625d4ea6d0af23ca3c955bce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:16 +0000
Subject: [PATCH 018/101] fix: knot insertion at the right end of an unclamped
 curve changed the curve

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e41b9a7..8629e3d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -438,6 +438,12 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 		return 0;
 	}
 	
+	// At the right end of an unclamped curve the span lies before the knot, so its occurrences are not part of the span.
+	if (!MathUtils::IsAlmostEqualTo(knotVector[knotSpanIndex], insertKnot))
+	{
+		originMultiplicity = 0;
+	}
+
 	std::vector<double> insertedKnotVector(knotVector.size() + times);
 	for (int i = 0; i <= knotSpanIndex; i++)
 	{
-- 
2.43.0


From a3a3343ead512d5faa549ec51050998b03046bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:59 +0000
Subject: [PATCH 019/101] fix: clamping a curve assumed simple knots at the
 domain ends and moved the end point of some curves

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 43 +++++++++++--------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8629e3d..6ffa7b4 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3560,36 +3560,29 @@ void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve&
 	int upMulti = Polynomials::GetKnotMultiplicity(knotVector, up);
 	int umpMulti = Polynomials::GetKnotMultiplicity(knotVector, ump);
 	
-	LN_NurbsCurve tc;
-	int t1 = InsertKnot(curve, up, degree + 1 - upMulti, tc);
-	LN_NurbsCurve temp;
-	temp = tc;
-	int t2 = InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
-
-	std::vector<double> kv = tc.KnotVector;
-	std::vector<XYZW> cps = tc.ControlPoints;
-	knotVector.resize(kv.size() - t1 - t2, 0.0);
-	controlPoints.resize(knotVector.size() - degree - 1);
-	for (int i = knotVector.size() - 1; i >= 0; i--)
-	{
-		knotVector[i] = kv[i + degree];
-		if (i < controlPoints.size())
-		{
-			controlPoints[i] = cps[i + degree];
-		}
+	LN_NurbsCurve tc = curve;
+	if (upMulti < degree + 1)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, up, degree + 1 - upMulti, tc);
+	}
+	if (umpMulti < degree + 1)
+	{
+		LN_NurbsCurve temp = tc;
+		InsertKnot(temp, ump, degree + 1 - umpMulti, tc);
 	}
 
+	const std::vector<double>& kv = tc.KnotVector;
+	int startIndex = 0;
+	while (!MathUtils::IsAlmostEqualTo(kv[startIndex], up)) startIndex++;
+	int endIndex = kv.size() - 1;
+	while (!MathUtils::IsAlmostEqualTo(kv[endIndex], ump)) endIndex--;
+	knotVector.assign(kv.begin() + startIndex, kv.begin() + endIndex + 1);
+	controlPoints.assign(tc.ControlPoints.begin() + startIndex, tc.ControlPoints.begin() + endIndex - degree);
+
 	result.Degree = tc.Degree;
 	result.KnotVector = knotVector;
 	result.ControlPoints = controlPoints;
-
-	bool isClosed = IsClosed(curve);
-	bool isNowClosed = IsClosed(result);
-	if (isClosed && !isNowClosed)
-	{
-		controlPoints[controlPoints.size() - 1] = controlPoints[0];
-		result.ControlPoints = controlPoints;
-	}
 }
 
 bool LNLib::NurbsCurve::IsPeriodic(const LN_NurbsCurve& curve)
-- 
2.43.0


From 68e1c95ed1bb2091d7955601d77477dfd77aa007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:22 +0000
Subject: [PATCH 020/101] fix: elliptical arcs used the tangents of a circle

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 6ffa7b4..fda8af4 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1827,7 +1827,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = -sin(startRad) * nX + cos(startRad) * nY;
+	XYZ T0 = (-xRadius * sin(startRad) * nX + yRadius * cos(startRad) * nY).Normalize();
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1837,7 +1837,7 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = -sin(angle) * nX + cos(angle) * nY;
+		XYZ T2 = (-xRadius * sin(angle) * nX + yRadius * cos(angle) * nY).Normalize();
 
 		double param0, param2 = 0.0;
 		XYZ P1;
-- 
2.43.0


From 3de02eba870b3c9d939dfa1d43829db951f11e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:22 +0000
Subject: [PATCH 021/101] fix: splitting a conic arc never returned the new
 weight and treated every project point as infinite

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 17 +++++++++++++----
 src/LNLib/include/NurbsCurve.h          |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index fda8af4..2db023e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1927,12 +1927,21 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
-	insertPointAtStartSide = start + projectPoint;
-	insertPointAtEndSide = end + projectPoint;
+	if (projectPointWeight == 0.0)
+	{
+		// The project point is at infinity.
+		insertPointAtStartSide = start + projectPoint;
+		insertPointAtEndSide = end + projectPoint;
+	}
+	else
+	{
+		insertPointAtStartSide = (start + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+		insertPointAtEndSide = (end + projectPointWeight * projectPoint) / (1.0 + projectPointWeight);
+	}
 	splitPoint = (insertPointAtStartSide + insertPointAtEndSide) / 2.0;
-	insertWeight = std::sqrt(1 + projectPointWeight) / 2.0;
+	insertWeight = std::sqrt((1.0 + projectPointWeight) / 2.0);
 }
 
 bool LNLib::NurbsCurve::CreateOpenConic(const XYZ& start, const XYZ& startTangent, const XYZ& end, const XYZ& endTangent, const XYZ& pointOnConic, LN_NurbsCurve& curve)
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From 4fc3b386a59386fe022c90909cf56632a9912031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:01 +0000
Subject: [PATCH 022/101] fix: flat elliptical arcs were refused because their
 end tangents are almost parallel

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2db023e..df02fa3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1827,7 +1827,6 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 	XYZ nX = const_cast<XYZ&>(xAxis).Normalize();
 	XYZ nY = const_cast<XYZ&>(yAxis).Normalize();
 	XYZ P0 = center + xRadius * cos(startRad) * nX + yRadius * sin(startRad) * nY;
-	XYZ T0 = (-xRadius * sin(startRad) * nX + yRadius * cos(startRad) * nY).Normalize();
 
 	controlPoints[0] = XYZW(P0, 1);
 	int index = 0;
@@ -1837,19 +1836,12 @@ bool LNLib::NurbsCurve::CreateArc(const XYZ& center, const XYZ& xAxis, const XYZ
 		angle += dtheta;
 		XYZ P2 = center + xRadius * cos(angle) * nX + yRadius * sin(angle) * nY;
 		controlPoints[index + 2] = XYZW(P2, 1);
-		XYZ T2 = (-xRadius * sin(angle) * nX + yRadius * cos(angle) * nY).Normalize();
 
-		double param0, param2 = 0.0;
-		XYZ P1;
-		CurveCurveIntersectionType type = Intersection::ComputeRays(P0, T0, P2, T2, param0, param2, P1);
-		if (type != CurveCurveIntersectionType::Intersecting) return false;
+		// The end tangents of the segment meet above the middle of its angle.
+		double middle = angle - dtheta / 2.0;
+		XYZ P1 = center + (xRadius * cos(middle) / w1) * nX + (yRadius * sin(middle) / w1) * nY;
 		controlPoints[index + 1] = XYZW(P1, w1);
 		index = index + 2;
-		if (i < narcs)
-		{
-			P0 = P2;
-			T0 = T2;
-		}
 	}
 
 	int j = 2 * narcs + 1;
-- 
2.43.0


From a3664ce8ffd6a0e2c95e1ed1cafdffc4a1a9b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:54 +0000
Subject: [PATCH 023/101] fix: Bessel tangents swapped the weights of the two
 chords and divided by the empty one

---
 src/LNLib/Algorithm/Interpolation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..5f00700 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -405,14 +405,14 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
 			double a = w2 / (w1 + w2);
-			tangents[i] = a * (dP[i - 1] / du[i - 1]) + (1 - a) * (dP[i] / du[i]);
+			tangents[i] = (1 - a) * (dP[i - 1] / du[i - 1]) + a * (dP[i] / du[i]);
 		}
 	}
 
-- 
2.43.0


From 8cce4795f22ddf8765675fbf5cd3a79cb1fc8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:54 +0000
Subject: [PATCH 024/101] fix: interpolation with tangents of degree two and
 three built knot vectors that make the system singular

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index df02fa3..7f960e3 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2130,8 +2130,8 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 		}
 		for (int i = 0; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i + 1] = (uk[i] + uk[i + 1]) / 2.0;
+			knotVector[degree + 2 * i + 2] = uk[i + 1];
 		}
 	}
 	else if (degree == 3)
@@ -2141,15 +2141,11 @@ void LNLib::NurbsCurve::GlobalInterpolation(int degree, const std::vector<XYZ>&
 			knotVector[i] = 0.0;
 			knotVector[knotVector.size() - 1 - i] = 1.0;
 		}
-		knotVector[4] = uk[1];
-		knotVector[5] = uk[1];
-		for (int i = 1; i < size - 2; ++i)
+		for (int i = 1; i < size - 1; ++i)
 		{
-			knotVector[degree + 2 * i] = uk[i + 1];
-			knotVector[degree + 2 * i + 1] = uk[i + 1];
+			knotVector[degree + 2 * i - 1] = uk[i];
+			knotVector[degree + 2 * i] = uk[i];
 		}
-		knotVector[knotVector.size() - 6] = uk[size - 2];
-		knotVector[knotVector.size() - 5] = uk[size - 2];
 	}
 	else
 	{
-- 
2.43.0


From 523c61af63f035b00f5c43e99097a9149c78fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:54 +0000
Subject: [PATCH 025/101] fix: local cubic interpolation used simple uniform
 knots and missed the through points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 7f960e3..d957202 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2268,10 +2268,14 @@ bool LNLib::NurbsCurve::CubicLocalInterpolation(const std::vector<XYZ>& throughP
 		knotVector[knotVector.size() - 1 - i] = 1.0;
 	}
 
-	double step = 1.0 / (numCtrlPts - degree);
-	for (int i = 1; i <= numCtrlPts - degree - 1; ++i)
+	double accumulated = 0.0;
+	for (int i = 1; i < size - 1; ++i)
 	{
-		knotVector[degree + i] = i * step;
+		accumulated += chordLengths[i - 1];
+		for (int j = 0; j < degree; ++j)
+		{
+			knotVector[degree * i + 1 + j] = accumulated / totalLength;
+		}
 	}
 
 	curve.Degree = degree;
-- 
2.43.0


From 6aa2fa38c8c28059d6019200813a4877a5b719b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:50 +0000
Subject: [PATCH 026/101] fix: least squares approximation with two control
 points wrote out of bounds

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index d957202..b2199c1 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2305,6 +2305,14 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 		knotVector[degree + j] = (1 - a) * uk[i - 1] + a * uk[i];
 	}
 
+	if (n == 1)
+	{
+		curve.Degree = degree;
+		curve.KnotVector = knotVector;
+		curve.ControlPoints = { XYZW(throughPoints[0], 1), XYZW(throughPoints[m], 1) };
+		return true;
+	}
+
 	std::vector<int> start(n - 1);
 	std::vector<int> end(n - 1);
 	std::vector<int> index(m - 1);
-- 
2.43.0


From 2e8b468293b7cc5bcb8a4284334d05ac33dbf4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:35 +0000
Subject: [PATCH 027/101] fix: weighted least squares approximation applied the
 weights twice to the data

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b2199c1..c78068e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2517,7 +2517,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 				}
 			}
 			W_vec[mu_idx] = wp;
-			S[mu_idx] = wp * throughPoints[i];
+			S[mu_idx] = throughPoints[i];
 			mu_idx++;
 		}
 		else if (MathUtils::IsLessThan(wp, 0.0)) {
@@ -2549,7 +2549,7 @@ bool LNLib::NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(
 					}
 				}
 				W_vec[mu_idx] = wt;
-				S[mu_idx] = wt * tangentVec;
+				S[mu_idx] = tangentVec;
 				mu_idx++;
 			}
 			else if (MathUtils::IsLessThan(wt, 0.0)) {
-- 
2.43.0


From c792901fafd06a4752cf7c22879e79f9547b618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:35 +0000
Subject: [PATCH 028/101] fix: error bounded approximation of degree one
 elevated by zero degrees and was refused

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c78068e..a442a35 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2930,8 +2930,11 @@ void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::v
 	tc.KnotVector = knotVector;
 	tc.ControlPoints = controlPoints;
 
-	LN_NurbsCurve newtc;
-	ElevateDegree(tc, degree - 1, newtc);
+	LN_NurbsCurve newtc = tc;
+	if (degree > 1)
+	{
+		ElevateDegree(tc, degree - 1, newtc);
+	}
 	RemoveKnotsByGivenBound(newtc, uk, errors, maxError, result);
 }
 
-- 
2.43.0


From a1d39e10ebf45d2be4ced8a055b1325ef1692f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:28 +0000
Subject: [PATCH 029/101] fix: fitting a conic segment computed the weights
 from the chord instead of the end tangents

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a442a35..5df1ebc 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2985,10 +2985,11 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 			return false;	
 		}
 		double wi = 0.0;
-		if (CreateOneConicArc(startPoint, V, R, V1, throughPoints[i], dummy, wi))
+		if (!CreateOneConicArc(startPoint, startTangent, endPoint, endTangent, throughPoints[i], dummy, wi))
 		{
-			s = s + wi / (1 + wi);
+			return false;
 		}
+		s = s + wi / (1 + wi);
 	}
 	
 	s = s / (endPointIndex - startPointIndex - 1);
-- 
2.43.0


From c0a3df4c0955e4ab4425be820b931ab15317e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:00 +0000
Subject: [PATCH 030/101] fix: point inversion could end at a parameter that is
 farther away than its start value

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 5df1ebc..f5ada9a 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1319,11 +1319,6 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		double deltaT = f / df;
 		double newT = paramT - deltaT;
 
-		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
-			paramT = newT;
-			break;
-		}
-
 		if (!isClosed) {
 			newT = std::max(minParam, std::min(maxParam, newT));
 		}
@@ -1334,8 +1329,16 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		}
 
 		paramT = newT;
+
+		if (std::abs(deltaT * Ct.Length()) < Constants::DistanceEpsilon) {
+			break;
+		}
 	}
 
+	// The iteration may leave the closest point where the curve has a corner, ends, or is farthest from the given point.
+	if (GetPointOnCurve(curve, bestT).Distance(givenPoint) < GetPointOnCurve(curve, paramT).Distance(givenPoint)) {
+		return bestT;
+	}
 	return paramT;
 }
 
-- 
2.43.0


From da8ba8de03ec5f764fa83a80578c75752f3cfe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 031/101] fix: adaptive Simpson length used the integer
 absolute value and stopped after one subdivision

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index f5ada9a..8eab0b8 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -53,7 +53,7 @@ namespace LNLib
 
 		double differ = left + right - simpson;
 		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance, 0.0))
 		{
 			length = left + right + differ / 15.0;
 		}
-- 
2.43.0


From 6a33610ed00f2f1d222dde4eecaa45b014a3d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:02 +0000
Subject: [PATCH 032/101] fix: length of a linear curve that runs back and
 forth was the distance of its end points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 8eab0b8..130048b 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3806,9 +3806,17 @@ double LNLib::NurbsCurve::ApproximateLength(const LN_NurbsCurve& curve, Integrat
 	if (isLinear)
 	{
 		std::vector<XYZW> controlPoints = curve.ControlPoints;
-		XYZ startPoint = controlPoints[0].ToXYZ(true);
-		XYZ endPoint = controlPoints[controlPoints.size() - 1].ToXYZ(true);
-		return startPoint.Distance(endPoint);
+		double chordLength = controlPoints[0].ToXYZ(true).Distance(controlPoints[controlPoints.size() - 1].ToXYZ(true));
+		double polygonLength = 0.0;
+		for (int i = 1; i < controlPoints.size(); i++)
+		{
+			polygonLength += controlPoints[i - 1].ToXYZ(true).Distance(controlPoints[i].ToXYZ(true));
+		}
+		// A linear curve that runs back and forth is longer than its chord.
+		if (curve.Degree == 1 || MathUtils::IsAlmostEqualTo(polygonLength, chordLength))
+		{
+			return polygonLength;
+		}
 	}
 
 	if (curve.Degree == 1 && !isLinear)
-- 
2.43.0


From 6d5020886c98e784f1234c71092c07897af3402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:38 +0000
Subject: [PATCH 033/101] fix: bisection for the parameter at a length recursed
 without end when the approximated lengths jump

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 130048b..1455450 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -67,6 +67,10 @@ namespace LNLib
 	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type)
 	{
 		double middle = (start + end) / 2.0;
+		if (MathUtils::IsAlmostEqualTo(start, end))
+		{
+			return middle;
+		}
 
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
-- 
2.43.0


From a3d4f224c08bef9945df52f9011c62eaf5701990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 034/101] fix: surface bounding box was cut by a box of a few
 sampled points and read knots out of range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 29 +--------------------
 1 file changed, 1 insertion(+), 28 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..390be71 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -348,34 +348,7 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		}
 	}
 
-	LN_BoundingBox3d box1;
-	for (int i = 0; i < surface.KnotVectorU.size() - 1; i++)
-	{
-		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
-		{
-			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
-
-			XYZ pt = GetPointOnSurface(surface, UV(u,v));
-			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-			box1.MinPoint.Y() = std::min(box1.MinPoint.Y(), pt.Y());
-			box1.MinPoint.Z() = std::min(box1.MinPoint.Z(), pt.Z());
-
-			box1.MaxPoint.X() = std::max(box1.MaxPoint.X(), pt.X());
-			box1.MaxPoint.Y() = std::max(box1.MaxPoint.Y(), pt.Y());
-			box1.MaxPoint.Z() = std::max(box1.MaxPoint.Z(), pt.Z());
-		}
-	}
-
-	LN_BoundingBox3d result;
-	result.MinPoint.X() = std::max(box0.MinPoint.X(), box1.MinPoint.X());
-	result.MinPoint.Y() = std::max(box0.MinPoint.Y(), box1.MinPoint.Y());
-	result.MinPoint.Z() = std::max(box0.MinPoint.Z(), box1.MinPoint.Z());
-
-	result.MaxPoint.X() = std::min(box0.MaxPoint.X(), box1.MaxPoint.X());
-	result.MaxPoint.Y() = std::min(box0.MaxPoint.Y(), box1.MaxPoint.Y());
-	result.MaxPoint.Z() = std::min(box0.MaxPoint.Z(), box1.MaxPoint.Z());
-	return result;
+	return box0;
 }
 
 LNLib::LN_OrientedBoundingBox3d LNLib::NurbsSurface::GetOrientedBoundingBox(const LN_NurbsSurface& surface)
-- 
2.43.0


From ede36c66eb8a87c0c15ec147d3633bf2d503e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 035/101] fix: principal and absolute surface curvatures used
 the integer absolute value

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 390be71..39c4a88 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
-- 
2.43.0


From d701eee89b2c250ab068b32436cb397b1158c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 036/101] fix: surface derivatives of an order above one of the
 degrees were refused instead of being zero

---
 src/LNLib/include/BsplineSurface.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..0aa80a2 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -106,13 +106,12 @@ namespace LNLib
 			std::vector<std::vector<T>> derivatives(derivative + 1, std::vector<T>(derivative + 1));
 
 			int uSpanIndex = Polynomials::GetKnotSpanIndex(degreeU, knotVectorU, uv.GetU());
-			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, derivative, knotVectorU, uv.GetU());
+			int du = std::min(derivative, degreeU);
+			std::vector<std::vector<double>> Nu = Polynomials::BasisFunctionsDerivatives(uSpanIndex, degreeU, du, knotVectorU, uv.GetU());
 
 			int vSpanIndex = Polynomials::GetKnotSpanIndex(degreeV, knotVectorV, uv.GetV());
-			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, derivative, knotVectorV, uv.GetV());
-
-			int du = std::min(derivative, degreeU);
 			int dv = std::min(derivative, degreeV);
+			std::vector<std::vector<double>> Nv = Polynomials::BasisFunctionsDerivatives(vSpanIndex, degreeV, dv, knotVectorV, uv.GetV());
 
 			std::vector<T> temp(degreeV + 1);
 
-- 
2.43.0


From 1fc6ef163580d70a5cd45846191af0157fec7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 037/101] fix: derivative control points of a surface used a
 constant knot vector and left out rows and columns

---
 src/LNLib/include/BsplineSurface.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 0aa80a2..5cc853b 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -238,12 +238,13 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
-			for (int k = 0; k < du; k++)
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
+			for (int k = 0; k <= du; k++)
 			{
 				for (int i = 0; i <= rangeU - k; i++)
 				{
 					int dd = std::min(derivative - k, dv);
+					if (dd == 0) continue;
 
 					LN_BsplineCurve<T> bsplineCurve;
 					bsplineCurve.Degree = degreeV;
@@ -253,7 +254,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From 6cca96a858b27f92b6d7d100a342e9398fa007d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 038/101] fix: non-uniform scaling of a surface dropped the
 weights from the scaled control points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 39c4a88..555bd9f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1965,7 +1965,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -1987,7 +1987,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From a48f007edee2a5b8aa3b4b620f107b5d683a5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 039/101] fix: swapping a surface in place lost one knot vector
 and degree

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 555bd9f..e8a8804 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -436,11 +436,11 @@ void LNLib::NurbsSurface::Swap(const LN_NurbsSurface& surface, LN_NurbsSurface&
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
 	std::vector<std::vector<XYZW>> transposedControlPoints;
-	MathUtils::Transpose(surface.ControlPoints, transposedControlPoints);
-	result.DegreeU = surface.DegreeV;
-	result.DegreeV = surface.DegreeU;
-	result.KnotVectorU = surface.KnotVectorV;
-	result.KnotVectorV = surface.KnotVectorU;
+	MathUtils::Transpose(controlPoints, transposedControlPoints);
+	result.DegreeU = degreeV;
+	result.DegreeV = degreeU;
+	result.KnotVectorU = knotVectorV;
+	result.KnotVectorV = knotVectorU;
 	result.ControlPoints = transposedControlPoints;
 }
 
-- 
2.43.0


From 337d336e3bd75421702220f850113ba9565c8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 040/101] fix: reversing a surface left knot vectors empty,
 added empty rows or reversed one direction only

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e8a8804..d42ee85 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -452,8 +452,7 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
-	result.DegreeU = degreeU;
-	result.DegreeV = degreeV;
+	result = surface;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -502,17 +501,19 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 	else if (direction == SurfaceDirection::VDirection)
 	{
 		int size = controlPoints.size();
-		std::vector<std::vector<XYZW>> newControlPoints(size);
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-			newControlPoints.emplace_back(controlPoints[i]);
 		}
-		result.ControlPoints = newControlPoints;
+		result.ControlPoints = controlPoints;
 	}
 	else
 	{
 		std::reverse(controlPoints.begin(), controlPoints.end());
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		result.ControlPoints = controlPoints;
 	}
 
-- 
2.43.0


From 7dd800e00ac2fd4f9763a663cccc6fbe25eb2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:23 +0000
Subject: [PATCH 041/101] fix: reparametrizing a surface did nothing when one
 direction already had the wanted range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d42ee85..a117535 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1615,7 +1615,7 @@ void LNLib::NurbsSurface::Reparametrize(const LN_NurbsSurface& surface, double m
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 
-	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) ||
+	if ((MathUtils::IsAlmostEqualTo(minU, knotVectorU[0]) && MathUtils::IsAlmostEqualTo(maxU, knotVectorU[knotVectorU.size() - 1])) &&
 		(MathUtils::IsAlmostEqualTo(minV, knotVectorV[0]) && MathUtils::IsAlmostEqualTo(maxV, knotVectorV[knotVectorV.size() - 1])))
 	{
 		result = surface;
-- 
2.43.0


From 4b91c0f7c4ce2b074dcc2bd7a4125df802878fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:54 +0000
Subject: [PATCH 042/101] fix: removing a surface knot that only some rows can
 lose produced rows of different lengths

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 68 +++++++++++++--------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a117535..6d8cdb4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -946,50 +946,64 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 	}
 	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 
+	std::vector<std::vector<XYZW>> lines;
+	if (isUDirection)
+	{
+		MathUtils::Transpose(controlPoints, lines);
+	}
+	else
+	{
+		lines = controlPoints;
+	}
+	int degree = isUDirection ? degreeU : degreeV;
+	std::vector<double> knotVector = isUDirection ? knotVectorU : knotVectorV;
+
 	std::vector<double> tempKnotVector;
 	std::vector<std::vector<XYZW>> tempControlPoints;
 
 	result = surface;
 
-	if (isUDirection)
+	// Every row (column) must lose the same number of knots.
+	bool isCommon = false;
+	while (!isCommon)
 	{
-		std::vector<std::vector<XYZW>> transposedControlPoints;
-		MathUtils::Transpose(controlPoints, transposedControlPoints);
-
-		for (int i = 0; i < transposedControlPoints.size(); i++)
+		isCommon = true;
+		tempControlPoints.clear();
+		for (int i = 0; i < lines.size(); i++)
 		{
 			LN_NurbsCurve tc;
-			tc.Degree = degreeU;
-			tc.KnotVector = knotVectorU;
-			tc.ControlPoints = transposedControlPoints[i];
+			tc.Degree = degree;
+			tc.KnotVector = knotVector;
+			tc.ControlPoints = lines[i];
 
 			LN_NurbsCurve newtc;
-
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc))
+			{
+				return;
+			}
+			int removed = knotVector.size() - newtc.KnotVector.size();
+			if (removed < times)
+			{
+				times = removed;
+				isCommon = i == 0;
+			}
+			if (!isCommon)
+			{
+				break;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
+	}
+
+	if (isUDirection)
+	{
 		result.KnotVectorU = tempKnotVector;
-		result.KnotVectorV = knotVectorV;
-		std::vector<std::vector<XYZW>> updatedControlPoints;
-		MathUtils::Transpose(tempControlPoints, updatedControlPoints);
-		result.ControlPoints = updatedControlPoints;
+		result.ControlPoints.clear();
+		MathUtils::Transpose(tempControlPoints, result.ControlPoints);
 	}
 	else
 	{
-		for (int i = 0; i < controlPoints.size(); i++)
-		{
-			LN_NurbsCurve tc;
-			tc.Degree = degreeV;
-			tc.KnotVector = knotVectorV;
-			tc.ControlPoints = controlPoints[i];
-
-			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
-			tempControlPoints.emplace_back(newtc.ControlPoints);
-			tempKnotVector = newtc.KnotVector;
-		}
-		result.KnotVectorU = knotVectorU;
 		result.KnotVectorV = tempKnotVector;
 		result.ControlPoints = tempControlPoints;
 	}
-- 
2.43.0


From eaf0956736c4c7df9b5c6a206e72d37ff27e1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:12 +0000
Subject: [PATCH 043/101] Revert "fix: surface bounding box was cut by a box of
 a few sampled points and read knots out of range"

This reverts commit a3d4f224c08bef9945df52f9011c62eaf5701990.
---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 6d8cdb4..a56d203 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -348,7 +348,34 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		}
 	}
 
-	return box0;
+	LN_BoundingBox3d box1;
+	for (int i = 0; i < surface.KnotVectorU.size() - 1; i++)
+	{
+		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
+		{
+			double u = surface.KnotVectorU[i];
+			double v = surface.KnotVectorV[i];
+
+			XYZ pt = GetPointOnSurface(surface, UV(u,v));
+			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
+			box1.MinPoint.Y() = std::min(box1.MinPoint.Y(), pt.Y());
+			box1.MinPoint.Z() = std::min(box1.MinPoint.Z(), pt.Z());
+
+			box1.MaxPoint.X() = std::max(box1.MaxPoint.X(), pt.X());
+			box1.MaxPoint.Y() = std::max(box1.MaxPoint.Y(), pt.Y());
+			box1.MaxPoint.Z() = std::max(box1.MaxPoint.Z(), pt.Z());
+		}
+	}
+
+	LN_BoundingBox3d result;
+	result.MinPoint.X() = std::max(box0.MinPoint.X(), box1.MinPoint.X());
+	result.MinPoint.Y() = std::max(box0.MinPoint.Y(), box1.MinPoint.Y());
+	result.MinPoint.Z() = std::max(box0.MinPoint.Z(), box1.MinPoint.Z());
+
+	result.MaxPoint.X() = std::min(box0.MaxPoint.X(), box1.MaxPoint.X());
+	result.MaxPoint.Y() = std::min(box0.MaxPoint.Y(), box1.MaxPoint.Y());
+	result.MaxPoint.Z() = std::min(box0.MaxPoint.Z(), box1.MaxPoint.Z());
+	return result;
 }
 
 LNLib::LN_OrientedBoundingBox3d LNLib::NurbsSurface::GetOrientedBoundingBox(const LN_NurbsSurface& surface)
-- 
2.43.0


From c1eb85200e200676fe412b4c4ec8a25db3e6fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:12 +0000
Subject: [PATCH 044/101] fix: surface bounding box paired the wrong knots and
 read the v knots out of range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a56d203..1063ee4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -354,7 +354,7 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From 01b56d68b12a59391fbec49e397d5a061fde28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:29 +0000
Subject: [PATCH 045/101] fix: revolving about an axis that is not a unit
 vector distorted the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 1063ee4..43cf783 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1934,7 +1934,7 @@ bool LNLib::NurbsSurface::CreateRevolvedSurface(const XYZ& origin, const XYZ& ax
 		X = p - O;
 
 		r = X.Normalize().Length();
-		Y = axis.CrossProduct(X);
+		Y = axis.CrossProduct(X) / axis.Length();
 
 		if (MathUtils::IsGreaterThan(r, 0.0))
 		{
-- 
2.43.0


From 47435840c80c742ffb6903be655a824187d94a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:29 +0000
Subject: [PATCH 046/101] fix: Coons surface ran its left and right curves
 against the bottom and top ones and missed them

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 43cf783..d367245 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3147,8 +3147,8 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 
 	{
 		LN_NurbsCurve tc;
-		NurbsCurve::Reverse(nurbs[2], tc);
-		nurbs[2] = tc;
+		NurbsCurve::Reverse(nurbs[0], tc);
+		nurbs[0] = tc;
 	}
 
 	{
@@ -3165,10 +3165,10 @@ void LNLib::NurbsSurface::CreateCoonsSurface(const LN_NurbsCurve& leftCurve, con
 		nurbs[i] = tc;
 	}
 
-	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
-	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
-	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
-	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP00 = NurbsCurve::GetPointOnCurve(nurbs[0], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 0));
+	bool isP01 = NurbsCurve::GetPointOnCurve(nurbs[2], 0).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[1], 1));
+	bool isP10 = NurbsCurve::GetPointOnCurve(nurbs[0], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 0));
+	bool isP11 = NurbsCurve::GetPointOnCurve(nurbs[2], 1).IsAlmostEqualTo(NurbsCurve::GetPointOnCurve(nurbs[3], 1));
 
 	VALIDATE_ARGUMENT(isP00 & isP01 & isP10 & isP11, "Curves", "Four Corners must be connected.");
 
-- 
2.43.0


From aef97563e04e935def092837dc24716677c09049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:59 +0000
Subject: [PATCH 047/101] fix: surface interpolation mixed up its two
 directions and missed the points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d367245..74605f0 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2177,7 +2177,7 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
-	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
+	Interpolation::GetSurfaceMeshParameterization(throughPoints, vl, uk);
 
 	std::vector<double> knotVectorU = Interpolation::AverageKnotVector(degreeU, uk);
 	std::vector<double> knotVectorV = Interpolation::AverageKnotVector(degreeV, vl);
@@ -2233,12 +2233,12 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	}
 
 	auto result = MathUtils::SolveLinearSystem(A, right);
-	std::vector<std::vector<XYZW>> controlPoints(rows, std::vector<XYZW>(cols));
+	std::vector<std::vector<XYZW>> controlPoints(cols, std::vector<XYZW>(rows));
 	for (int i = 0; i < rows; ++i) {
 		for (int j = 0; j < cols; ++j) {
 			int idx = i * cols + j;
 			XYZ pt(result[idx][0], result[idx][1], result[idx][2]);
-			controlPoints[i][j] = XYZW(pt, 1.0);
+			controlPoints[j][i] = XYZW(pt, 1.0);
 		}
 	}
 
@@ -3000,9 +3000,7 @@ void LNLib::NurbsSurface::CreateGordonSurface(const std::vector<LN_NurbsCurve>&
 	int degreeU = std::min(columns - 1, degree_u_max);
 	int degreeV = std::min(rows - 1, degree_v_max);
 	GlobalInterpolation(intersectionPoints, degreeU, degreeV, ts);
-	MathUtils::Transpose(ts.ControlPoints, transposedControlPoints);
-	LN_NurbsSurface interpolatedSurface;
-	Swap(ts, interpolatedSurface);
+	LN_NurbsSurface interpolatedSurface = ts;
 
 	{
 		int lsu_degreeU = loftSurfaceU.DegreeU;
-- 
2.43.0


From f4496c90c523f9494b361e4fb90407e0b2cd1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:59 +0000
Subject: [PATCH 048/101] fix: surface approximation returned its control net
 transposed against its knots

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 74605f0..d31baac 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2512,14 +2512,11 @@ bool LNLib::NurbsSurface::GlobalApproximation(
 		}
 	}
 
-	std::vector<std::vector<XYZ>> surfaceControlPoints;
-	MathUtils::Transpose(finalControlPoints, surfaceControlPoints);
-
 	surface.DegreeU = degreeU;
 	surface.DegreeV = degreeV;
 	surface.KnotVectorU = knotVectorU;
 	surface.KnotVectorV = knotVectorV;
-	surface.ControlPoints = ControlPointsUtils::ToXYZW(surfaceControlPoints);
+	surface.ControlPoints = ControlPointsUtils::ToXYZW(finalControlPoints);
 	return true;
 }
 
-- 
2.43.0


From cb869caabfef81abd8a0443f41a16b63161305ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:59 +0000
Subject: [PATCH 049/101] fix: surface mesh parametrization added to what its
 output vectors held

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index 5f00700..62a48be 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -268,8 +268,8 @@ bool LNLib::Interpolation::GetSurfaceMeshParameterization(const std::vector<std:
 	int m = throughPoints[0].size();
 
 	std::vector<double> cds(std::max(n, m), 0.0);
-	paramsU.resize(n, 0.0);
-	paramsV.resize(m, 0.0);
+	paramsU.assign(n, 0.0);
+	paramsV.assign(m, 0.0);
 
 	int num = m;
 
-- 
2.43.0


From b5b87f7eaf66471c077e87066f64c945d3b73396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:27 +0000
Subject: [PATCH 050/101] fix: lofting sections with different knots read
 control points out of range

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d31baac..60dcbd5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2648,10 +2648,26 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			current.KnotVector = tc.KnotVector;
 			current.ControlPoints = tc.ControlPoints;
 		}
-		curvesControlPoints[k] = current.ControlPoints;
 		internals[k] = current;
 	}
 
+	std::vector<std::vector<double>> knotVectors(size);
+	for (int k = 0; k < size; k++)
+	{
+		knotVectors[k] = internals[k].KnotVector;
+	}
+	auto insertElements = KnotVectorUtils::GetInsertedKnotElements(knotVectors);
+	for (int k = 0; k < size; k++)
+	{
+		if (insertElements[k].size() > 0)
+		{
+			LN_NurbsCurve tc;
+			NurbsCurve::RefineKnotVector(internals[k], insertElements[k], tc);
+			internals[k] = tc;
+		}
+		curvesControlPoints[k] = internals[k].ControlPoints;
+	}
+
 	int degreeU = degree_max;
 	int degreeV = degree_max;
 
-- 
2.43.0


From 9732c64e773ea7f56e68ae5d91073b8aa792eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:27 +0000
Subject: [PATCH 051/101] fix: lofting sections that share a control point gave
 parameters that are not numbers

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 60dcbd5..86d57b4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2683,6 +2683,7 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 			std::vector<XYZW> current = curvesControlPoints[k];
 			int n = current.size() - 1;
 			double sum = 0.0;
+			int count = 0;
 			for (int i = 0; i <= n; i++)
 			{
 				double delta = curvesControlPoints[k][i].ToXYZ(true).Distance(curvesControlPoints[k - 1][i].ToXYZ(true));
@@ -2694,10 +2695,15 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 				}
 
 				double di = Interpolation::GetTotalChordLength(tempPoints);
+				if (MathUtils::IsAlmostEqualTo(di, 0.0))
+				{
+					continue;
+				}
 				sum += delta / di;
+				count++;
 			}
 
-			vl[k] = vl[k - 1] + (1.0 / (n + 1)) * sum;
+			vl[k] = vl[k - 1] + sum / count;
 		}
 	}
 	else
-- 
2.43.0


From ba0f543cc02643e7d3da80c36ff21ec143b5024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:12 +0000
Subject: [PATCH 052/101] fix: a loft over sections with different weights did
 not contain them

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 86d57b4..b795974 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2717,21 +2717,21 @@ void LNLib::NurbsSurface::CreateLoftSurface(const std::vector<LN_NurbsCurve>& se
 	for (int c = 0; c < column; c++)
 	{
 		std::vector<XYZ> temp(size);
-		std::vector<double> weightCache(size);
+		std::vector<XYZ> weights(size);
 		for (int k = 0; k < size; k++)
 		{
 			XYZW cp = curvesControlPoints[k][c];
-			double w = cp.GetW();
-			weightCache[k] = w;
-			temp[k] = XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w);
+			temp[k] = XYZ(cp.GetWX(), cp.GetWY(), cp.GetWZ());
+			weights[k] = XYZ(cp.GetW(), 0.0, 0.0);
 		}
 		LN_NurbsCurve tc;
 		NurbsCurve::GlobalInterpolation(degreeV, temp, tc, vl);
+		LN_NurbsCurve wc;
+		NurbsCurve::GlobalInterpolation(degreeV, weights, wc, vl);
 		for (int i = 0; i < tc.ControlPoints.size(); i++)
 		{
 			XYZW cp = tc.ControlPoints[i];
-			double w = cp.GetW();
-			tc.ControlPoints[i] = XYZW(XYZ(cp.GetWX() / w, cp.GetWY() / w, cp.GetWZ() / w), weightCache[i]);
+			tc.ControlPoints[i] = XYZW(cp.GetWX(), cp.GetWY(), cp.GetWZ(), wc.ControlPoints[i].GetWX());
 		}
 		controlPoints.emplace_back(tc.ControlPoints);
 	}
-- 
2.43.0


From c87cfb44107119ed9180ea5c08fc5cacd1573d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:47 +0000
Subject: [PATCH 053/101] fix: sweeping by length put the last section at the
 start, or wrote past the sections, when the steps did not add up exactly

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b795974..d847cd3 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2869,10 +2869,11 @@ void LNLib::NurbsSurface::CreateSweepSurface(const LN_NurbsCurve& profile, const
 	std::vector<double> segments(nsect);
 	segments[0] = 0.0;
 	std::vector<double> params = NurbsCurve::GetParamsOnCurve(path, stepLength);
-	for (int i = 0; i < params.size(); i++)
+	for (int i = 0; i < params.size() && i + 1 < nsect; i++)
 	{
 		segments[i + 1] = params[i];
 	}
+	segments[nsect - 1] = 1.0;
 
 	std::vector<XYZ> Bv = NurbsCurve::ProjectNormal(path);
 	const std::vector<XYZW>& profileControlPoints = profile.ControlPoints;
-- 
2.43.0


From 61b6d537ebb738b062097f6c2991000bfbfee47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:31 +0000
Subject: [PATCH 054/101] fix: no orthogonal vector for directions like
 (1,-1,1), on which normals along a curve and sweeps never ended

---
 src/LNLib/Mathematics/Math/XYZ.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Mathematics/Math/XYZ.cpp b/src/LNLib/Mathematics/Math/XYZ.cpp
index f555bfa..92f4bec 100644
--- a/src/LNLib/Mathematics/Math/XYZ.cpp
+++ b/src/LNLib/Mathematics/Math/XYZ.cpp
@@ -176,6 +176,10 @@ XYZ LNLib::XYZ::CreateRandomOrthogonal(const XYZ& xyz)
 	XYZ current = xyz;
 	XYZ normal = current.Normalize();
 	XYZ tangent = normal.CrossProduct(XYZ(-normal.GetZ(), normal.GetX(), normal.GetY()));
+	if (tangent.IsZero())
+	{
+		tangent = normal.CrossProduct(XYZ(1, 0, 0)).Normalize();
+	}
 	XYZ bitangent = normal.CrossProduct(tangent);
 
 	std::random_device rd;
-- 
2.43.0


From 45f3a5b0ed950ce91742086388fc4797badcd9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:04 +0000
Subject: [PATCH 055/101] fix: local surface interpolation kept only the data
 points as control points and mixed up its directions, missing the points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 44 +++++++++------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d847cd3..213c435 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -78,10 +78,14 @@ namespace LNLib
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
-		ind.reserve(size);
-		for (int i = 0; i < size; ++i)
+		int last = 3 * (size - 1);
+		for (int i = 0; i <= last; ++i)
 		{
-			ind.push_back(3 * i);
+			// the joints between the patches are not control points: their knots are double.
+			if (i % 3 != 0 || i == 0 || i == last)
+			{
+				ind.push_back(i);
+			}
 		}
 		return ind;
 	}
@@ -2332,16 +2336,6 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 	}
 	vb[m] = 1.0;
 
-	std::vector<double> rowTotalLen(row);
-	std::vector<double> colTotalLen(column);
-	for (int i = 0; i < row; ++i) {
-		rowTotalLen[i] = Interpolation::GetTotalChordLength(throughPoints[i]);
-	}
-	for (int j = 0; j < column; ++j) {
-		auto col = MathUtils::GetColumn(throughPoints, j);
-		colTotalLen[j] = Interpolation::GetTotalChordLength(col);
-	}
-
 	std::vector<std::vector<XYZ>> bezierControlPoints(3 * row - 2, std::vector<XYZ>(3 * column - 2, XYZ(0, 0, 0)));
 
 	for (int i = 0; i < row; i++)
@@ -2349,7 +2343,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		std::vector<XYZ> T;
 		for (int l = 0; l <= m; l++)
 		{
-			T.emplace_back(td[i][l][1]);
+			T.emplace_back(td[i][l][0]);
 		}
 
 		std::vector<XYZ> temp(3 * column - 2, XYZ(0, 0, 0));
@@ -2359,9 +2353,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = vb[j + 1] - vb[j];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
-			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
+			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j + 1];
 		}
 		bezierControlPoints[3 * i] = temp;
 	}
@@ -2372,7 +2366,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		std::vector<XYZ> T;
 		for (int k = 0; k <= n; k++)
 		{
-			T.emplace_back(td[k][j][0]);
+			T.emplace_back(td[k][j][1]);
 		}
 
 		std::vector<XYZ> temp(3 * row - 2, XYZ(0, 0, 0));
@@ -2382,9 +2376,9 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = ub[i + 1] - ub[i];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
-			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
+			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i + 1];
 		}
 		for (int i = 0; i < static_cast<int>(temp.size()); i++)
 		{
@@ -2399,8 +2393,8 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		{
 			double bl = (vb[l] - vb[l - 1]) / ((vb[l] - vb[l - 1]) + (vb[l + 1] - vb[l]));
 
-			XYZ dvukl = (1 - ak) * (td[k][l][1] - td[k - 1][l][1]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][1] - td[k][l][1]) / (ub[k + 1] - ub[k]);
-			XYZ duvkl = (1 - bl) * (td[k][l][0] - td[k][l - 1][0]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][0] - td[k][l][0]) / (vb[l + 1] - vb[l]);
+			XYZ dvukl = (1 - ak) * (td[k][l][0] - td[k - 1][l][0]) / (ub[k] - ub[k - 1]) + ak * (td[k + 1][l][0] - td[k][l][0]) / (ub[k + 1] - ub[k]);
+			XYZ duvkl = (1 - bl) * (td[k][l][1] - td[k][l - 1][1]) / (vb[l] - vb[l - 1]) + bl * (td[k][l + 1][1] - td[k][l][1]) / (vb[l + 1] - vb[l]);
 
 			td[k][l][2] = (ak * duvkl + bl * dvukl) / (ak + bl);
 		}
@@ -2439,15 +2433,15 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 
 	knotVectorU.resize(nu + degreeU + 1);
 	for (int i = 0; i <= degreeU; ++i) knotVectorU[i] = 0.0;
-	for (int i = 1; i < nu - degreeU; ++i) {
-		knotVectorU[degreeU + i] = ub[i];
+	for (int i = 1; i < n; ++i) {
+		knotVectorU[degreeU + 2 * i - 1] = knotVectorU[degreeU + 2 * i] = ub[i];
 	}
 	for (int i = nu; i < static_cast<int>(knotVectorU.size()); ++i) knotVectorU[i] = 1.0;
 
 	knotVectorV.resize(nv + degreeV + 1);
 	for (int i = 0; i <= degreeV; ++i) knotVectorV[i] = 0.0;
-	for (int i = 1; i < nv - degreeV; ++i) {
-		knotVectorV[degreeV + i] = vb[i];
+	for (int i = 1; i < m; ++i) {
+		knotVectorV[degreeV + 2 * i - 1] = knotVectorV[degreeV + 2 * i] = vb[i];
 	}
 	for (int i = nv; i < static_cast<int>(knotVectorV.size()); ++i) knotVectorV[i] = 1.0;
 
-- 
2.43.0


From f8b5b6f0d682e306fc8cae88dfc21e52bb75e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:15 +0000
Subject: [PATCH 056/101] fix: surface point inversion missed the last edges,
 left the domain and stopped away from the nearest point

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 401 ++++++++------------
 1 file changed, 153 insertions(+), 248 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 213c435..5e7884a 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -75,6 +75,140 @@ namespace LNLib
 		}
 	};
 
+	// The nearest tessellated point first, then every tessellated point that is nearer than its neighbors.
+	static std::vector<UV> GetInitialParams(const LN_NurbsSurface& surface, const XYZ& givenPoint)
+	{
+		std::vector<XYZ> tessellatedPoints;
+		std::vector<UV> correspondingKnots;
+		NurbsSurface::EquallyTessellate(surface, tessellatedPoints, correspondingKnots);
+
+		int size = tessellatedPoints.size();
+		int numV = 1;
+		while (numV < size && correspondingKnots[numV].GetU() == correspondingKnots[0].GetU())
+		{
+			numV++;
+		}
+		int numU = size / numV;
+
+		std::vector<double> distSq(size);
+		for (int i = 0; i < size; i++)
+		{
+			distSq[i] = (givenPoint - tessellatedPoints[i]).SqrLength();
+		}
+
+		int nearest = std::min_element(distSq.begin(), distSq.end()) - distSq.begin();
+		std::vector<UV> result;
+		result.emplace_back(correspondingKnots[nearest]);
+		for (int i = 0; i < numU; i++)
+		{
+			for (int j = 0; j < numV; j++)
+			{
+				int index = i * numV + j;
+				if (index == nearest) continue;
+				if ((i == 0 || distSq[index] < distSq[index - numV]) &&
+					(j == 0 || distSq[index] < distSq[index - 1]) &&
+					(i == numU - 1 || distSq[index] <= distSq[index + numV]) &&
+					(j == numV - 1 || distSq[index] <= distSq[index + 1]))
+				{
+					result.emplace_back(correspondingKnots[index]);
+				}
+			}
+		}
+		return result;
+	}
+
+	// Keep the parameter in the range: wrap around if closed, otherwise stop at the bound.
+	static double LimitParam(double param, double min, double max, bool isClosed)
+	{
+		double range = max - min;
+		if (isClosed && param < min && param >= min - range) param += range;
+		if (isClosed && param > max && param <= max + range) param -= range;
+		return std::max(min, std::min(max, param));
+	}
+
+	// Newton iterations that never leave the domain and never increase the distance.
+	static UV RefineParam(const LN_NurbsSurface& surface, const XYZ& givenPoint, const UV& guess, bool isClosedU, bool isClosedV)
+	{
+		double minU = surface.KnotVectorU.front();
+		double maxU = surface.KnotVectorU.back();
+		double minV = surface.KnotVectorV.front();
+		double maxV = surface.KnotVectorV.back();
+
+		UV param = guess;
+		int maxIterations = 100;
+		for (int iter = 0; iter < maxIterations; ++iter)
+		{
+			std::vector<std::vector<XYZ>> derivatives = NurbsSurface::ComputeRationalSurfaceDerivatives(surface, 2, param);
+			XYZ Su = derivatives[1][0];
+			XYZ Sv = derivatives[0][1];
+
+			XYZ diff = derivatives[0][0] - givenPoint;
+			double currentDist = diff.Length();
+			if (MathUtils::IsAlmostEqualTo(currentDist, 0.0))
+			{
+				break;
+			}
+
+			double K0 = Su.DotProduct(diff);
+			double K1 = Sv.DotProduct(diff);
+			double E = Su.DotProduct(Su);
+			double F = Su.DotProduct(Sv);
+			double G = Sv.DotProduct(Sv);
+			double J00 = E + diff.DotProduct(derivatives[2][0]);
+			double J01 = F + diff.DotProduct(derivatives[1][1]);
+			double J11 = G + diff.DotProduct(derivatives[0][2]);
+			if (J00 <= 0.0) J00 = E;
+			if (J11 <= 0.0) J11 = G;
+			if (J00 * J11 - J01 * J01 <= 0.0)
+			{
+				J00 = E; J01 = F; J11 = G;
+			}
+
+			double u = param.GetU();
+			double v = param.GetV();
+			double determinant = J00 * J11 - J01 * J01;
+			double stepU = J00 > 0.0 ? -K0 / J00 : 0.0;
+			double stepV = J11 > 0.0 ? -K1 / J11 : 0.0;
+
+			// both parameters, then each alone: the distance may be stationary along a bound or a knot.
+			std::vector<UV> steps;
+			if (determinant > 0.0)
+			{
+				double deltaU = (J01 * K1 - J11 * K0) / determinant;
+				double deltaV = (J01 * K0 - J00 * K1) / determinant;
+				bool isLeavingU = !isClosedU && ((u <= minU && deltaU < 0.0) || (u >= maxU && deltaU > 0.0));
+				bool isLeavingV = !isClosedV && ((v <= minV && deltaV < 0.0) || (v >= maxV && deltaV > 0.0));
+				if (!isLeavingU && !isLeavingV) steps.emplace_back(UV(deltaU, deltaV));
+			}
+			steps.emplace_back(UV(stepU, 0.0));
+			steps.emplace_back(UV(0.0, stepV));
+
+			bool isMoved = false;
+			double moved = 0.0;
+			for (int i = 0; i < steps.size() && !isMoved; i++)
+			{
+				double factor = 1.0;
+				for (int j = 0; j < 20 && !isMoved; j++)
+				{
+					UV next(LimitParam(u + steps[i].GetU() * factor, minU, maxU, isClosedU), LimitParam(v + steps[i].GetV() * factor, minV, maxV, isClosedV));
+					XYZ point = NurbsSurface::GetPointOnSurface(surface, next);
+					if (point.Distance(givenPoint) < currentDist)
+					{
+						isMoved = true;
+						moved = point.Distance(derivatives[0][0]);
+						param = next;
+					}
+					factor *= 0.5;
+				}
+			}
+			if (!isMoved || moved < Constants::DoubleEpsilon * Constants::DistanceEpsilon)
+			{
+				break;
+			}
+		}
+		return param;
+	}
+
 	std::vector<int> GetIndex(int size)
 	{
 		std::vector<int> ind;
@@ -1174,11 +1308,8 @@ bool LNLib::NurbsSurface::ReduceDegree(const LN_NurbsSurface& surface, bool isUD
 
 void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std::vector<XYZ>& tessellatedPoints, std::vector<UV>& correspondingKnots)
 {
-	int degreeU = surface.DegreeU;
-	int degreeV = surface.DegreeV;
 	std::vector<double> knotVectorU = surface.KnotVectorU;
 	std::vector<double> knotVectorV = surface.KnotVectorV;
-	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
 	std::vector<double> uniqueKvU = knotVectorU;
 	uniqueKvU.erase(unique(uniqueKvU.begin(), uniqueKvU.end()), uniqueKvU.end());
@@ -1201,6 +1332,7 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 			tessellatedU.emplace_back(u);
 		}
 	}
+	tessellatedU.emplace_back(uniqueKvU[sizeU - 1]);
 	std::vector<double> tessellatedV;
 	for (int i = 0; i < sizeV - 1; i++)
 	{
@@ -1213,6 +1345,7 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 			tessellatedV.emplace_back(v);
 		}
 	}
+	tessellatedV.emplace_back(uniqueKvV[sizeV - 1]);
 
 	for (int i = 0; i < tessellatedU.size(); i++)
 	{
@@ -1223,9 +1356,6 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 			tessellatedPoints.emplace_back(GetPointOnSurface(surface, uv));
 		}
 	}
-
-	correspondingKnots.emplace_back(UV(knotVectorU[knotVectorU.size() - 1], knotVectorV[knotVectorV.size() - 1]));
-	tessellatedPoints.emplace_back(const_cast<XYZW&>(controlPoints[controlPoints.size() - 1][controlPoints[0].size() - 1]).ToXYZ(true));
 }
 
 bool LNLib::NurbsSurface::IsClosed(const LN_NurbsSurface& surface, bool isUDirection)
@@ -1284,263 +1414,38 @@ bool LNLib::NurbsSurface::IsClosed(const LN_NurbsSurface& surface, bool isUDirec
 
 LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface, const XYZ& givenPoint)
 {
-	int degreeU = surface.DegreeU;
-	int degreeV = surface.DegreeV;
-	std::vector<double> knotVectorU = surface.KnotVectorU;
-	std::vector<double> knotVectorV = surface.KnotVectorV;
-	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
-
-	double minU = knotVectorU[0];
-	double maxU = knotVectorU[knotVectorU.size() - 1];
-	double minV = knotVectorV[0];
-	double maxV = knotVectorV[knotVectorV.size() - 1];
+	std::vector<UV> initialGuesses = GetInitialParams(surface, givenPoint);
 
 	bool isClosedU = IsClosed(surface, true);
 	bool isClosedV = IsClosed(surface, false);
 
-	std::vector<XYZ> tessellatedPoints;
-	std::vector<UV> correspondingKnots;
-	EquallyTessellate(surface, tessellatedPoints, correspondingKnots);
-
-	double minDistanceSquared = std::numeric_limits<double>::max();
-	UV bestParam(Constants::DoubleEpsilon, Constants::DoubleEpsilon);
-
-	for (int i = 0; i < tessellatedPoints.size() - 1; ++i)
+	double minDistance = std::numeric_limits<double>::max();
+	UV bestParam = initialGuesses[0];
+	for (const UV& guess : initialGuesses)
 	{
-		const XYZ& P0 = tessellatedPoints[i];
-		const XYZ& P1 = tessellatedPoints[i + 1];
-		const UV& UV0 = correspondingKnots[i];
-		const UV& UV1 = correspondingKnots[i + 1];
-
-		XYZ seg = P1 - P0;
-		double segLenSq = seg.DotProduct(seg);
-		double t = 0.5;
-
-		if (MathUtils::IsGreaterThan(segLenSq, 0.0))
-		{
-			t = (givenPoint - P0).DotProduct(seg) / segLenSq;
-			t = std::max(0.0, std::min(1.0, t));
-		}
-
-		XYZ projectPoint = P0 + seg * t;
-		UV projectParam = UV0 + (UV1 - UV0) * t;
-
-		double distSq = (givenPoint - projectPoint).SqrLength();
-		if (distSq < minDistanceSquared)
+		UV param = RefineParam(surface, givenPoint, guess, isClosedU, isClosedV);
+		double distance = GetPointOnSurface(surface, param).Distance(givenPoint);
+		if (distance < minDistance)
 		{
-			minDistanceSquared = distSq;
-			bestParam = projectParam;
+			minDistance = distance;
+			bestParam = param;
 		}
 	}
-
-	UV param = bestParam;
-	int maxIterations = 20;
-
-	for (int iter = 0; iter < maxIterations; ++iter)
-	{
-		
-		std::vector<std::vector<XYZ>> derivatives = ComputeRationalSurfaceDerivatives(surface, 2, param);
-
-		XYZ S = derivatives[0][0]; 
-		XYZ Su = derivatives[1][0];
-		XYZ Sv = derivatives[0][1];
-		XYZ Suu = derivatives[2][0];
-		XYZ Svv = derivatives[0][2];
-		XYZ Suv = derivatives[1][1];
-
-		XYZ diff = S - givenPoint;
-		double currentDist = diff.Length();
-
-		if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-			return param;
-		}
-
-		
-		double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
-		double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
-		double J10 = J01;
-		double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
-
-		double K0 = Su.DotProduct(diff);
-		double K1 = Sv.DotProduct(diff);
-
-		double determinant = J00 * J11 - J01 * J10;
-
-		if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
-			break;
-		}
-
-		double deltaU = (J10 * K1 - J11 * K0) / determinant;
-		double deltaV = (J01 * K0 - J00 * K1) / determinant;
-
-		double newU = param.GetU() + deltaU;
-		double newV = param.GetV() + deltaV;
-
-		XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-		if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-			param = UV(newU, newV);
-			break;
-		}
-
-		if (isClosedU) {
-			double rangeU = maxU - minU;
-			while (newU < minU) newU += rangeU;
-			while (newU > maxU) newU -= rangeU;
-		}
-		if (isClosedV) {
-			double rangeV = maxV - minV;
-			while (newV < minV) newV += rangeV;
-			while (newV > maxV) newV -= rangeV;
-		}
-
-		if (!isClosedU) {
-			newU = std::max(minU, std::min(maxU, newU));
-		}
-		if (!isClosedV) {
-			newV = std::max(minV, std::min(maxV, newV));
-		}
-
-		param = UV(newU, newV);
-	}
-
-	return param;
+	return bestParam;
 }
 
 std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_NurbsSurface& surface, const XYZ& givenPoint)
 {
-	int degreeU = surface.DegreeU;
-	int degreeV = surface.DegreeV;
-	std::vector<double> knotVectorU = surface.KnotVectorU;
-	std::vector<double> knotVectorV = surface.KnotVectorV;
-	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
-
-	double minU = knotVectorU[0];
-	double maxU = knotVectorU[knotVectorU.size() - 1];
-	double minV = knotVectorV[0];
-	double maxV = knotVectorV[knotVectorV.size() - 1];
+	double rangeU = surface.KnotVectorU.back() - surface.KnotVectorU.front();
+	double rangeV = surface.KnotVectorV.back() - surface.KnotVectorV.front();
 
 	bool isClosedU = IsClosed(surface, true);
 	bool isClosedV = IsClosed(surface, false);
 
-	std::vector<XYZ> tessellatedPoints;
-	std::vector<UV> correspondingKnots;
-	EquallyTessellate(surface, tessellatedPoints, correspondingKnots);
-
-	std::vector<double> uniqueKvU = knotVectorU;
-	uniqueKvU.erase(std::unique(uniqueKvU.begin(), uniqueKvU.end()), uniqueKvU.end());
-	int sizeU = uniqueKvU.size();
-
-	std::vector<double> uniqueKvV = knotVectorV;
-	uniqueKvV.erase(std::unique(uniqueKvV.begin(), uniqueKvV.end()), uniqueKvV.end());
-	int sizeV = uniqueKvV.size();
-
-	int intervals = 100;
-	int numU = (sizeU - 1) * intervals; 
-	int numV = (sizeV - 1) * intervals; 
-
-	std::vector<double> distSq(tessellatedPoints.size());
-	for (size_t i = 0; i < tessellatedPoints.size(); ++i)
-	{
-		distSq[i] = (givenPoint - tessellatedPoints[i]).SqrLength();
-	}
-
-	std::vector<UV> initialGuesses;
-
-	for (int i = 1; i < numU - 1; ++i)
-	{
-		for (int j = 1; j < numV - 1; ++j)
-		{
-			int idx = i * numV + j;
-			int idxUp = (i - 1) * numV + j;
-			int idxDown = (i + 1) * numV + j;
-			int idxLeft = i * numV + (j - 1);
-			int idxRight = i * numV + (j + 1);
-
-			if (MathUtils::IsLessThan(distSq[idx],distSq[idxUp]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxDown]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxLeft]) &&
-				MathUtils::IsLessThan(distSq[idx],distSq[idxRight]))
-			{
-				initialGuesses.push_back(correspondingKnots[idx]);
-			}
-		}
-	}
-
-	if (!tessellatedPoints.empty()) {
-		initialGuesses.push_back(correspondingKnots.back());
-	}
-
 	std::vector<UV> result;
-	int maxIterations = 20;
-
-	for (const UV& guess : initialGuesses)
+	for (const UV& guess : GetInitialParams(surface, givenPoint))
 	{
-		UV param = guess;
-
-		for (int iter = 0; iter < maxIterations; ++iter)
-		{
-			std::vector<std::vector<XYZ>> derivatives = ComputeRationalSurfaceDerivatives(surface, 2, param);
-
-			XYZ S = derivatives[0][0];
-			XYZ Su = derivatives[1][0];
-			XYZ Sv = derivatives[0][1];
-			XYZ Suu = derivatives[2][0];
-			XYZ Svv = derivatives[0][2];
-			XYZ Suv = derivatives[1][1];
-
-			XYZ diff = S - givenPoint;
-			double currentDist = diff.Length();
-
-			if (MathUtils::IsAlmostEqualTo(currentDist, 0.0)) {
-				break;
-			}
-
-			double J00 = Su.DotProduct(Su) + diff.DotProduct(Suu);
-			double J01 = Su.DotProduct(Sv) + diff.DotProduct(Suv);
-			double J10 = J01;
-			double J11 = Sv.DotProduct(Sv) + diff.DotProduct(Svv);
-
-			double K0 = Su.DotProduct(diff);
-			double K1 = Sv.DotProduct(diff);
-
-			double determinant = J00 * J11 - J01 * J10;
-
-			if (MathUtils::IsAlmostEqualTo(std::abs(determinant), 0.0)) {
-				break;
-			}
-
-			double deltaU = (J10 * K1 - J11 * K0) / determinant;
-			double deltaV = (J01 * K0 - J00 * K1) / determinant;
-
-			double newU = param.GetU() + deltaU;
-			double newV = param.GetV() + deltaV;
-
-			XYZ deltaWorld = Su * deltaU + Sv * deltaV;
-			if (MathUtils::IsAlmostEqualTo(deltaWorld.Length(), 0.0)) {
-				param = UV(newU, newV);
-				break;
-			}
-
-			if (isClosedU) {
-				double rangeU = maxU - minU;
-				while (MathUtils::IsLessThan(newU, minU)) newU += rangeU;
-				while (MathUtils::IsGreaterThan(newU, maxU)) newU -= rangeU;
-			}
-			else {
-				newU = std::max(minU, std::min(maxU, newU));
-			}
-
-			if (isClosedV) {
-				double rangeV = maxV - minV;
-				while (newV < minV) newV += rangeV;
-				while (newV > maxV) newV -= rangeV;
-			}
-			else {
-				newV = std::max(minV, std::min(maxV, newV));
-			}
-
-			param = UV(newU, newV);
-		}
+		UV param = RefineParam(surface, givenPoint, guess, isClosedU, isClosedV);
 
 		bool isDuplicate = false;
 		for (const UV& existingUV : result)
@@ -1548,10 +1453,10 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 			double diffU = std::abs(existingUV.GetU() - param.GetU());
 			double diffV = std::abs(existingUV.GetV() - param.GetV());
 
-			if (isClosedU) diffU = std::min(diffU, std::abs(diffU - (maxU - minU)));
-			if (isClosedV) diffV = std::min(diffV, std::abs(diffV - (maxV - minV)));
+			if (isClosedU) diffU = std::min(diffU, std::abs(diffU - rangeU));
+			if (isClosedV) diffV = std::min(diffV, std::abs(diffV - rangeV));
 
-			if (MathUtils::IsAlmostEqualTo(diffU,0.0) && 
+			if (MathUtils::IsAlmostEqualTo(diffU, 0.0) &&
 				MathUtils::IsAlmostEqualTo(diffV, 0.0))
 			{
 				isDuplicate = true;
-- 
2.43.0


From 4c3f08e4c43e7fd1eac87ac8e50875daee386c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:45 +0000
Subject: [PATCH 057/101] fix: surface area sampled across knots, taking the
 wrong side at creases, and could be NaN where degenerate

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 155 ++++++++++----------
 1 file changed, 75 insertions(+), 80 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 5e7884a..3479da5 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -59,7 +59,7 @@ namespace LNLib
 			double E = Su.DotProduct(Su);
 			double F = Su.DotProduct(Sv);
 			double G = Sv.DotProduct(Sv);
-			double ds = std::sqrt(E * G - F * F);
+			double ds = std::sqrt(std::max(0.0, E * G - F * F));
 			return ds;
 		}
 	};
@@ -3330,16 +3330,8 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 	LN_NurbsSurface reSurface;
 	Reparametrize(surface, 0.0, 1.0, 0.0, 1.0, reSurface);
 
-	int degreeU = reSurface.DegreeU;
-	int degreeV = reSurface.DegreeV;
-	std::vector<double> knotVectorU = reSurface.KnotVectorU;
-	std::vector<double> knotVectorV = reSurface.KnotVectorV;
-	std::vector<std::vector<XYZW>> controlPoints = reSurface.ControlPoints;
-
-	double startU = knotVectorU[0];
-	double endU = knotVectorU[knotVectorU.size() - 1];
-	double startV = knotVectorV[0];
-	double endV = knotVectorV[knotVectorV.size() - 1];
+	// knots are only crossed between Bezier patches: the integrand may jump there.
+	std::vector<LN_NurbsSurface> bezierSurfaces = DecomposeToBeziers(reSurface);
 
 	double area = 0.0;
 	switch (type)
@@ -3357,7 +3349,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 					double E = Su.DotProduct(Su);
 					double F = Su.DotProduct(Sv);
 					double G = Sv.DotProduct(Sv);
-					double ds = std::sqrt(E * G - F * F);
+					double ds = std::sqrt(std::max(0.0, E * G - F * F));
 					return ds;
 				}
 			}function;
@@ -3368,62 +3360,67 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 				double u1, u2, v1, v2;
 				double area;
 			};
-			UVA init;
-			init.u1 = 0;
-			init.u2 = 1;
-			init.v1 = 0;
-			init.v2 = 1;
-			init.area = Integrator::Simpson(function, (void*)&reSurface, init.u1, init.u2, init.v1, init.v2);
-			std::vector<UVA> stack(1, init);
-
-			while(!stack.empty())
-			{
-				UVA uva = stack.back();
-				stack.pop_back();
-
-				// Bisect uv into 4 parts.
-				double du = uva.u2 - uva.u1;
-				double dv = uva.v2 - uva.v1;
-				double hdu = 0.5 * du;
-				double hdv = 0.5 * dv;
-				UVA uva1, uva2, uva3, uva4;
-				uva1.u1 = uva.u1;
-				uva1.u2 = uva.u1 + hdu;
-				uva1.v1 = uva.v1;
-				uva1.v2 = uva.v1 + hdv;
-				uva1.area = Integrator::Simpson(function, (void*)&reSurface, uva1.u1, uva1.u2, uva1.v1, uva1.v2);
-				uva2.u1 = uva.u1 + hdu;
-				uva2.u2 = uva.u2;
-				uva2.v1 = uva.v1;
-				uva2.v2 = uva.v1 + hdv;
-				uva2.area = Integrator::Simpson(function, (void*)&reSurface, uva2.u1, uva2.u2, uva2.v1, uva2.v2);
-				uva3.u1 = uva.u1;
-				uva3.u2 = uva.u1 + hdu;
-				uva3.v1 = uva.v1 + hdv;
-				uva3.v2 = uva.v2;
-				uva3.area = Integrator::Simpson(function, (void*)&reSurface, uva3.u1, uva3.u2, uva3.v1, uva3.v2);
-				uva4.u1 = uva.u1 + hdu;
-				uva4.u2 = uva.u2;
-				uva4.v1 = uva.v1 + hdv;
-				uva4.v2 = uva.v2;
-				uva4.area = Integrator::Simpson(function, (void*)&reSurface, uva4.u1, uva4.u2, uva4.v1, uva4.v2);
-
-				// sum area
-				double areaNew = uva1.area + uva2.area + uva3.area + uva4.area;
-
-				// The error is tolerated.
-				if(std::fabs(areaNew - uva.area) < Constants::DistanceEpsilon)
-				{
-					// Accumulate to the final area.
-					area += areaNew;
-				}
-				else
+			for (int i = 0; i < bezierSurfaces.size(); i++)
+			{
+				LN_NurbsSurface& bezierSurface = bezierSurfaces[i];
+
+				UVA init;
+				init.u1 = bezierSurface.KnotVectorU.front();
+				init.u2 = bezierSurface.KnotVectorU.back();
+				init.v1 = bezierSurface.KnotVectorV.front();
+				init.v2 = bezierSurface.KnotVectorV.back();
+				init.area = Integrator::Simpson(function, (void*)&bezierSurface, init.u1, init.u2, init.v1, init.v2);
+				std::vector<UVA> stack(1, init);
+
+				while(!stack.empty())
 				{
-					// Continue bisections.
-					stack.push_back(uva1);
-					stack.push_back(uva2);
-					stack.push_back(uva3);
-					stack.push_back(uva4);
+					UVA uva = stack.back();
+					stack.pop_back();
+
+					// Bisect uv into 4 parts.
+					double du = uva.u2 - uva.u1;
+					double dv = uva.v2 - uva.v1;
+					double hdu = 0.5 * du;
+					double hdv = 0.5 * dv;
+					UVA uva1, uva2, uva3, uva4;
+					uva1.u1 = uva.u1;
+					uva1.u2 = uva.u1 + hdu;
+					uva1.v1 = uva.v1;
+					uva1.v2 = uva.v1 + hdv;
+					uva1.area = Integrator::Simpson(function, (void*)&bezierSurface, uva1.u1, uva1.u2, uva1.v1, uva1.v2);
+					uva2.u1 = uva.u1 + hdu;
+					uva2.u2 = uva.u2;
+					uva2.v1 = uva.v1;
+					uva2.v2 = uva.v1 + hdv;
+					uva2.area = Integrator::Simpson(function, (void*)&bezierSurface, uva2.u1, uva2.u2, uva2.v1, uva2.v2);
+					uva3.u1 = uva.u1;
+					uva3.u2 = uva.u1 + hdu;
+					uva3.v1 = uva.v1 + hdv;
+					uva3.v2 = uva.v2;
+					uva3.area = Integrator::Simpson(function, (void*)&bezierSurface, uva3.u1, uva3.u2, uva3.v1, uva3.v2);
+					uva4.u1 = uva.u1 + hdu;
+					uva4.u2 = uva.u2;
+					uva4.v1 = uva.v1 + hdv;
+					uva4.v2 = uva.v2;
+					uva4.area = Integrator::Simpson(function, (void*)&bezierSurface, uva4.u1, uva4.u2, uva4.v1, uva4.v2);
+
+					// sum area
+					double areaNew = uva1.area + uva2.area + uva3.area + uva4.area;
+
+					// The error is tolerated.
+					if(std::fabs(areaNew - uva.area) < Constants::DistanceEpsilon)
+					{
+						// Accumulate to the final area.
+						area += areaNew + (areaNew - uva.area) / 15.0;
+					}
+					else
+					{
+						// Continue bisections.
+						stack.push_back(uva1);
+						stack.push_back(uva2);
+						stack.push_back(uva3);
+						stack.push_back(uva4);
+					}
 				}
 			}
 
@@ -3431,7 +3428,6 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 		}
 		case IntegratorType::GaussLegendre:
 		{
-			std::vector<LN_NurbsSurface> bezierSurfaces = DecomposeToBeziers(reSurface);
 			for (int i = 0; i < bezierSurfaces.size(); i++)
 			{
 				LN_NurbsSurface bezierSurface = bezierSurfaces[i];
@@ -3460,7 +3456,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 						double E = Su.DotProduct(Su);
 						double F = Su.DotProduct(Sv);
 						double G = Sv.DotProduct(Sv);
-						double ds = std::sqrt(E * G - F * F);
+						double ds = std::sqrt(std::max(0.0, E * G - F * F));
 						bArea += Integrator::GaussLegendreWeights[i] * Integrator::GaussLegendreWeights[j] * ds;
 					}
 				}
@@ -3473,19 +3469,18 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 		{
 			std::vector<double> series = Integrator::ChebyshevSeries();
 			AreaWrapperFunction function;
-			AreaData data(reSurface, series);
 
-			for (int i = degreeU; i < controlPoints.size(); i++) 
+			for (int i = 0; i < bezierSurfaces.size(); i++)
 			{
-				data.CurrentKnotU = knotVectorU[i];
-				data.NextKnotU = knotVectorU[i + 1];
-				for (int j = degreeV; j < controlPoints[0].size(); j++) 
-				{
-					data.CurrentKnotV = knotVectorV[j];
-					data.NextKnotV = knotVectorV[j + 1];
-					
-					area += Integrator::ClenshawCurtisQuadrature2(function, (void*)&data, data.CurrentKnotV, data.NextKnotV, series);
-				}
+				const LN_NurbsSurface& bezierSurface = bezierSurfaces[i];
+
+				AreaData data(bezierSurface, series);
+				data.CurrentKnotU = bezierSurface.KnotVectorU.front();
+				data.NextKnotU = bezierSurface.KnotVectorU.back();
+				data.CurrentKnotV = bezierSurface.KnotVectorV.front();
+				data.NextKnotV = bezierSurface.KnotVectorV.back();
+
+				area += Integrator::ClenshawCurtisQuadrature2(function, (void*)&data, data.CurrentKnotV, data.NextKnotV, series);
 			}
 			break;
 		}
-- 
2.43.0


From 674fa7b212f06dcbdf786d2de04a67a4e439877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 058/101] fix: tessellation took a span with an inflection in
 its middle for a straight line

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 1455450..29ad614 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -111,6 +111,12 @@ namespace LNLib
 		XYZ chordMid = (p0 + p2) * 0.5;
 		double deviation = p1.Distance(chordMid);
 
+		// an inflection may pass through the middle of the chord.
+		double quarter = (start + mid) * 0.5;
+		double threeQuarter = (mid + end) * 0.5;
+		deviation = std::max(deviation, NurbsCurve::GetPointOnCurve(curve, quarter).Distance((p0 + p1) * 0.5));
+		deviation = std::max(deviation, NurbsCurve::GetPointOnCurve(curve, threeQuarter).Distance((p1 + p2) * 0.5));
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(deviation,0.0)) {
 			parameters.emplace_back(mid);
 		}
-- 
2.43.0


From 858b844d59774f5b6fc989d87dd1ac650033656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 059/101] fix: triangulation sampled [0,1] instead of the
 domain of the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 3479da5..eaca893 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3820,12 +3820,17 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		std::vector<std::vector<XYZ>> points(resolutionU, std::vector<XYZ>(resolutionV));
 		std::vector<std::vector<UV>> uvs(resolutionU, std::vector<UV>(resolutionV));
 
+		double umin = surface.KnotVectorU.front();
+		double umax = surface.KnotVectorU.back();
+		double vmin = surface.KnotVectorV.front();
+		double vmax = surface.KnotVectorV.back();
+
 		for (int i = 0; i < resolutionU; ++i)
 		{
-			double u = (double)i / (resolutionU - 1);
+			double u = i == resolutionU - 1 ? umax : umin + (umax - umin) * i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
-				double v = (double)j / (resolutionV - 1);
+				double v = j == resolutionV - 1 ? vmax : vmin + (vmax - vmin) * j / (resolutionV - 1);
 				points[i][j] = GetPointOnSurface(surface, UV(u, v));
 				uvs[i][j] = { u, v };
 			}
-- 
2.43.0


From d5bee7a7f79f8afa058349d880cc8834deea2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 060/101] fix: Delaunay triangulation left out the last two
 edges of the surface

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 27 +++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index eaca893..376a963 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3518,12 +3518,12 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 
 		for (int i = 0; i < samplesU; i++)
 		{
-			double u = umin + i * uInterval;
+			double u = i == samplesU - 1 ? umax : umin + i * uInterval;
 			us[i] = u;
 		}
 		for (int j = 0; j < samplesV; j++)
 		{
-			double v = vmin + j * vInterval;
+			double v = j == samplesV - 1 ? vmax : vmin + j * vInterval;
 			vs[j] = v;
 		}
 
@@ -3670,7 +3670,7 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		iterMin = min_element(area.begin(), area.end());
 		double minArea = *min_element(iterMin->begin(), iterMin->end());
 		double areaRange = maxArea - minArea;
-		if (MathUtils::IsAlmostEqualTo(curvatureRange, 0.0))
+		if (MathUtils::IsAlmostEqualTo(areaRange, 0.0))
 		{
 			area = std::vector<std::vector<double>>(samplesU - 1, std::vector<double>(samplesV - 1, 0.0));
 		}
@@ -3754,6 +3754,17 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 			}
 		}
 
+		for (int i = 0; i < samplesU; i++)
+		{
+			newU.emplace_back(us[i]);
+			newV.emplace_back(vs[samplesV - 1]);
+		}
+		for (int j = 0; j < samplesV - 1; j++)
+		{
+			newU.emplace_back(us[samplesU - 1]);
+			newV.emplace_back(vs[j]);
+		}
+
 #pragma region Delaunay Triangulation
 		std::vector<double> usList;
 		usList.insert(usList.end(), newU.begin(), newU.end());
@@ -3772,7 +3783,7 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 
 		double vLength0 = surfacePoints[0][0].Distance(surfacePoints[0][column - 1]);
 		double vLength1 = surfacePoints[row / 2][0].Distance(surfacePoints[row / 2][column - 1]);
-		double vLength2 = surfacePoints[row - 1][column - 1].Distance(surfacePoints[row - 1][column - 1]);
+		double vLength2 = surfacePoints[row - 1][0].Distance(surfacePoints[row - 1][column - 1]);
 		double vLength = std::max({ vLength0, vLength1, vLength2 });
 
 		double uCoeff = uLength / (umax - umin);
@@ -3787,10 +3798,10 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 			vValues[i] = vsList[i] * vCoeff;
 		}
 
-		float uMin = usList[0] * uCoeff;
-		float uMax = usList[usList.size() - 1] * uCoeff;
-		float vMin = vsList[0] * vCoeff;
-		float vMax = vsList[vsList.size() - 1] * vCoeff;
+		float uMin = umin * uCoeff;
+		float uMax = umax * uCoeff;
+		float vMin = vmin * vCoeff;
+		float vMax = vmax * vCoeff;
 
 		VoronoiDiagramGenerator vdg;
 		vdg.setGenerateVoronoi(true);
-- 
2.43.0


From 51565c6bba7a987d0195b5efc82cd248be6c9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:18 +0000
Subject: [PATCH 061/101] fix: Delaunay triangulation of a closed surface
 collapsed the closed direction

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 31 +++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 376a963..e2328cf 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3776,15 +3776,28 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		row = surfacePoints.size();
 		column = surfacePoints[0].size();
 
-		double uLength0 = surfacePoints[0][0].Distance(surfacePoints[row - 1][0]);
-		double uLength1 = surfacePoints[0][column / 2].Distance(surfacePoints[row - 1][column / 2]);
-		double uLength2 = surfacePoints[0][column - 1].Distance(surfacePoints[row - 1][column - 1]);
-		double uLength = std::max({ uLength0, uLength1, uLength2 });
-
-		double vLength0 = surfacePoints[0][0].Distance(surfacePoints[0][column - 1]);
-		double vLength1 = surfacePoints[row / 2][0].Distance(surfacePoints[row / 2][column - 1]);
-		double vLength2 = surfacePoints[row - 1][0].Distance(surfacePoints[row - 1][column - 1]);
-		double vLength = std::max({ vLength0, vLength1, vLength2 });
+		// measured along the surface: the ends of a closed one coincide.
+		double uLength = 0.0;
+		for (int j : { 0, column / 2, column - 1 })
+		{
+			double length = 0.0;
+			for (int i = 1; i < row; i++)
+			{
+				length += surfacePoints[i - 1][j].Distance(surfacePoints[i][j]);
+			}
+			uLength = std::max(uLength, length);
+		}
+
+		double vLength = 0.0;
+		for (int i : { 0, row / 2, row - 1 })
+		{
+			double length = 0.0;
+			for (int j = 1; j < column; j++)
+			{
+				length += surfacePoints[i][j - 1].Distance(surfacePoints[i][j]);
+			}
+			vLength = std::max(vLength, length);
+		}
 
 		double uCoeff = uLength / (umax - umin);
 		double vCoeff = vLength / (vmax - vmin);
-- 
2.43.0


From a42176291d0eea21726a02b44fab4f38f8c24968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:22 +0000
Subject: [PATCH 062/101] fix: a second diagram of a generator still held the
 triangles of the first

---
 src/LNLib/Algorithm/Voronoi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..7b67d4c 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -116,6 +116,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 {
 	cleanup();
 	cleanupEdges();
+	triangles.clear();
 	int i;
 
 	minDistanceBetweenSites = minDist;
-- 
2.43.0


From 726b887f44c5263deba2b0163831d4659643a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 063/101] fix: volume derivatives combine the rows along v and
 exist beyond the degree

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..e0b7e31 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -223,13 +223,13 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 	double w = uvw.GetW();
 
 	int uspan = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, u);
-	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, derivative, kvU, u);
+	std::vector<std::vector<double>> Nu = LNLib::Polynomials::BasisFunctionsDerivatives(uspan, degreeU, du, kvU, u);
 
 	int vspan = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, v);
-	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, derivative, kvV, v);
+	std::vector<std::vector<double>> Nv = LNLib::Polynomials::BasisFunctionsDerivatives(vspan, degreeV, dv, kvV, v);
 
 	int wspan = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, w);
-	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, derivative, kvW, w);
+	std::vector<std::vector<double>> Nw = LNLib::Polynomials::BasisFunctionsDerivatives(wspan, degreeW, dw, kvW, w);
 
 	for (int a = 0; a <= du; ++a)
 	{
@@ -249,7 +249,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From 4b3892664115aec136c212d41e8af87e69872728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 064/101] fix: Extract returns the surface, at the ends of the
 range too and with its net in the order of its knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 46 +++++++++++------------
 src/LNLib/include/NurbsVolume.h           |  2 +-
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e0b7e31..d238cbe 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -670,7 +670,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
@@ -718,12 +718,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
+
+		newDegreeU = degreeV;
+		newDegreeV = degreeW;
+		newKvU = kvV;
+		newKvV = kvW;
 	}
 	else if (direction == VolumeDirection::V)
 	{
@@ -764,20 +764,20 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				Pwc[i] = controlPoints[i][k - s];
 			}
 
-			std::vector<std::vector<LNLib::XYZW>> tempPwc(Pwc.size());
-			for (size_t i = 0; i < Pwc.size(); ++i) {
-				tempPwc[i].resize(Pwc[i].size());
-				for (size_t j = 0; j < Pwc[i].size(); ++j) {
-					tempPwc[i][j] = Pwc[i][j];
-				}
-			}
-			Pwc = tempPwc;
+		}
 
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
+		std::vector<std::vector<LNLib::XYZW>> tempPwc(Pwc[0].size(), std::vector<LNLib::XYZW>(Pwc.size()));
+		for (size_t i = 0; i < Pwc.size(); ++i) {
+			for (size_t j = 0; j < Pwc[i].size(); ++j) {
+				tempPwc[j][i] = Pwc[i][j];
+			}
 		}
+		Pwc = tempPwc;
+
+		newDegreeU = degreeW;
+		newDegreeV = degreeU;
+		newKvU = kvW;
+		newKvV = kvU;
 	}
 	else if (direction == VolumeDirection::W)
 	{
@@ -826,12 +826,12 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
+
+		newDegreeU = degreeU;
+		newDegreeV = degreeV;
+		newKvU = kvU;
+		newKvV = kvV;
 	}
 
 	surface.DegreeU = newDegreeU;
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From aaaf50e9bf921c99415938f9d159c11339a7a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 065/101] fix: inserting, refining and elevating a volume give
 as many control points as the knots need

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index d238cbe..a7ea066 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -397,6 +397,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				newKvU = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints.resize(iControlPoints.size(), std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 				for (int i = 0; i < iControlPoints.size(); i++)
 				{
 					newControlPoints[i][col][sep] = iControlPoints[i];
@@ -434,6 +435,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				newKvV = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row].resize(iControlPoints.size(), std::vector<LNLib::XYZW>(l + 1));
 				for (int j = 0; j < iControlPoints.size(); j++)
 				{
 					newControlPoints[row][j][sep] = iControlPoints[j];
@@ -471,6 +473,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 				newKvW = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row][col].resize(iControlPoints.size());
 				for (int k = 0; k < iControlPoints.size(); k++)
 				{
 					newControlPoints[row][col][k] = iControlPoints[k];
@@ -865,7 +868,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
@@ -906,6 +909,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 				newKvU = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints.resize(iControlPoints.size(), std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 				for (int i = 0; i < iControlPoints.size(); i++)
 				{
 					newControlPoints[i][col][sep] = iControlPoints[i];
@@ -943,6 +947,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 				newKvV = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row].resize(iControlPoints.size(), std::vector<LNLib::XYZW>(l + 1));
 				for (int j = 0; j < iControlPoints.size(); j++)
 				{
 					newControlPoints[row][j][sep] = iControlPoints[j];
@@ -980,6 +985,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 				newKvW = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row][col].resize(iControlPoints.size());
 				for (int k = 0; k < iControlPoints.size(); k++)
 				{
 					newControlPoints[row][col][k] = iControlPoints[k];
@@ -1043,6 +1049,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 				newkvU = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints.resize(iControlPoints.size(), std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 				for (int i = 0; i < iControlPoints.size(); i++)
 				{
 					newControlPoints[i][col][sep] = iControlPoints[i];
@@ -1093,6 +1100,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 				newkvV = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row].resize(iControlPoints.size(), std::vector<LNLib::XYZW>(l + 1));
 				for (int j = 0; j < iControlPoints.size(); j++)
 				{
 					newControlPoints[row][j][sep] = iControlPoints[j];
@@ -1143,6 +1151,7 @@ void LNLib::NurbsVolume::ElevateDegree(const LN_NurbsVolume& volume, int times,
 				newkvW = resultCurve.KnotVector;
 				std::vector<LNLib::XYZW> iControlPoints = resultCurve.ControlPoints;
 
+				newControlPoints[row][col].resize(iControlPoints.size());
 				for (int k = 0; k < iControlPoints.size(); k++)
 				{
 					newControlPoints[row][col][k] = iControlPoints[k];
-- 
2.43.0


From 76002177990ef14ecf2061e3bbf61f6681e5c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 066/101] fix: volumes can be reversed along v and w

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index a7ea066..8e6b656 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1434,7 +1434,7 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 	int m = controlPoints[0].size() - 1;
 	int l = controlPoints[0][0].size() - 1;
 
-	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
+	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
@@ -1445,7 +1445,6 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvS = kvV;
 		std::vector<double> kvT = kvW;
 
-		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 
 		std::vector<double> kvR;
 
-- 
2.43.0


From 5d0771cb1e0d497dd59b19b9b41d90c8c2306fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:39 +0000
Subject: [PATCH 067/101] fix: directions of a volume are swapped in whichever
 order they are given

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 8e6b656..3e47670 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1562,6 +1562,16 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 
 void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection direction, VolumeDirection swap, LN_NurbsVolume& result)
 {
+	if (direction == swap)
+	{
+		result = volume;
+		return;
+	}
+	if (static_cast<int>(direction) > static_cast<int>(swap))
+	{
+		std::swap(direction, swap);
+	}
+
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
 	int degreeW = volume.DegreeW;
-- 
2.43.0


From a50df90df87769ce417a19a34d64dec8fa54bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:20 +0000
Subject: [PATCH 068/101] fix: infinite values are ordered by the tolerant
 comparisons

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..cfa32d3 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -53,12 +53,14 @@ bool LNLib::MathUtils::IsAlmostEqualTo(double a, double b, double tolerance)
 bool LNLib::MathUtils::IsGreaterThan(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a > b;
     return (a - b) > tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
 }
 
 bool LNLib::MathUtils::IsGreaterThanOrEqual(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a >= b;
     double eps = tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
     return (a - b) >= -eps;
 }
@@ -66,12 +68,14 @@ bool LNLib::MathUtils::IsGreaterThanOrEqual(double a, double b, double tolerance
 bool LNLib::MathUtils::IsLessThan(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a < b;
     return (b - a) > tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
 }
 
 bool LNLib::MathUtils::IsLessThanOrEqual(double a, double b, double tolerance)
 {
     if (IsNaN(a) || IsNaN(b)) return false;
+    if (IsInfinite(a) || IsInfinite(b)) return a <= b;
     double eps = tolerance * (1.0 + std::max(std::abs(a), std::abs(b)));
     return (a - b) <= eps;
 }
-- 
2.43.0


From 19929d1eb9d29be008b3d0088719df4414c5e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:20 +0000
Subject: [PATCH 069/101] fix: inverting a singular matrix is refused

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index cfa32d3..01e5bef 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -215,7 +215,12 @@ bool LNLib::MathUtils::MakeInverse(const std::vector<std::vector<double>>& matri
         m.row(i) = Eigen::VectorXd::Map(&matrix[i][0], matrix[i].size());
     }
 
-    auto result = m.inverse();
+    Eigen::FullPivLU<Eigen::MatrixXd> lu(m);
+    if (!lu.isInvertible())
+    {
+        return false;
+    }
+    Eigen::MatrixXd result = lu.inverse();
     inverse.resize(row);
     for (int k = 0; k < row; k++)
     {
-- 
2.43.0


From 686f3c7752101bd08287c40ba2588a3a62abb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:20 +0000
Subject: [PATCH 070/101] fix: a matrix whose off-diagonal elements cancel is
 not the identity or a translation

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..0d1fde6 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -14,6 +14,7 @@
 #include "MathUtils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstring>
 
 using namespace LNLib;
@@ -363,10 +364,10 @@ bool LNLib::Matrix4d::IsIdentity()
 		return false;
 	}
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
+	double sum = std::abs(m_matrix4d[0][1]) + std::abs(m_matrix4d[0][2]) + std::abs(m_matrix4d[0][3]) +
+		         std::abs(m_matrix4d[1][0]) + std::abs(m_matrix4d[1][2]) + std::abs(m_matrix4d[1][3]) +
+		         std::abs(m_matrix4d[2][0]) + std::abs(m_matrix4d[2][1]) + std::abs(m_matrix4d[2][3]) +
+		         std::abs(m_matrix4d[3][0]) + std::abs(m_matrix4d[3][1]) + std::abs(m_matrix4d[3][2]);
 	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
 	if (!c4)
 	{
@@ -388,10 +389,10 @@ bool LNLib::Matrix4d::IsTranslation()
 	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
 	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
+	double sum = std::abs(m_matrix4d[0][1]) + std::abs(m_matrix4d[0][2]) +
+				 std::abs(m_matrix4d[1][0]) + std::abs(m_matrix4d[1][2]) +
+				 std::abs(m_matrix4d[2][0]) + std::abs(m_matrix4d[2][1]) +
+				 std::abs(m_matrix4d[3][0]) + std::abs(m_matrix4d[3][1]) + std::abs(m_matrix4d[3][2]);
 
 	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
 	return c1 && c2 && c3 && c4;
-- 
2.43.0


From c2e0e8b23954eaef4ac468d555604a38db18055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 071/101] fix: transposing replaces what the result held before

---
 src/LNLib/include/MathUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/include/MathUtils.h b/src/LNLib/include/MathUtils.h
index 4d5afb9..103d15a 100644
--- a/src/LNLib/include/MathUtils.h
+++ b/src/LNLib/include/MathUtils.h
@@ -59,6 +59,7 @@ namespace LNLib
 		template<typename T>
 		static void Transpose(const std::vector<std::vector<T>>& matrix, std::vector<std::vector<T>>& transposed)
 		{
+			transposed.clear();
 			std::vector<T> temp;
 
 			for (int i = 0; i < matrix[0].size(); i++)
-- 
2.43.0


From c12f5c5ba4fcc47ddd764463dd1d843f112356d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 072/101] fix: octrees of points far from the origin or close
 together find every neighbour

---
 src/LNLib/Algorithm/Octree/Octree.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..6e59535 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -57,7 +57,7 @@ bool LNLib::Overlaps(const LNLib::XYZ& query, double radius, LNLib::Octant* octa
     double zDiff = std::max(az - octant->Extent, 0.0);
 
     LNLib::XYZ diff(xDiff, yDiff, zDiff);
-    return  MathUtils::IsLessThan(diff.SqrLength(),(radius * radius));
+    return  MathUtils::IsLessThanOrEqual(diff.Length(), radius);
 }
 
 bool LNLib::Contains(const LNLib::XYZ& query, double radius, LNLib::Octant* octant) {
@@ -89,9 +89,9 @@ LNLib::Octant* OctreeRecursiveBuild(LNLib::Octant* root, const std::vector<LNLib
         for (int pointIdx : pointIndices) {
             const LNLib::XYZ& pointDb = db[pointIdx];
             int mortonCode = 0;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.X(),center.X())) mortonCode |= 1;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.Y(),center.Y())) mortonCode |= 2;
-            if (LNLib::MathUtils::IsGreaterThan(pointDb.Z(),center.Z())) mortonCode |= 4;
+            if (pointDb.X() > center.X()) mortonCode |= 1;
+            if (pointDb.Y() > center.Y()) mortonCode |= 2;
+            if (pointDb.Z() > center.Z()) mortonCode |= 4;
             childrenPointIndices[mortonCode].push_back(pointIdx);
         }
 
@@ -125,13 +125,13 @@ LNLib::Octant* LNLib::OctreeConstruction(const std::vector<LNLib::XYZ>& db, int
 
     for (const auto& p : db) {
 
-        if (LNLib::MathUtils::IsLessThan(p.X(),dbMin.X())) dbMin.X() = p.X();
-        if (LNLib::MathUtils::IsLessThan(p.Y(),dbMin.Y())) dbMin.Y() = p.Y();
-        if (LNLib::MathUtils::IsLessThan(p.Z(),dbMin.Z())) dbMin.Z() = p.Z();
+        if (p.X() < dbMin.X()) dbMin.X() = p.X();
+        if (p.Y() < dbMin.Y()) dbMin.Y() = p.Y();
+        if (p.Z() < dbMin.Z()) dbMin.Z() = p.Z();
 
-        if (LNLib::MathUtils::IsGreaterThan(p.X(),dbMax.X())) dbMax.X() = p.X();
-        if (LNLib::MathUtils::IsGreaterThan(p.Y(),dbMax.Y())) dbMax.Y() = p.Y();
-        if (LNLib::MathUtils::IsGreaterThan(p.Z(),dbMax.Z())) dbMax.Z() = p.Z();
+        if (p.X() > dbMax.X()) dbMax.X() = p.X();
+        if (p.Y() > dbMax.Y()) dbMax.Y() = p.Y();
+        if (p.Z() > dbMax.Z()) dbMax.Z() = p.Z();
     }
 
     double dbExtent = std::max({ dbMax.X() - dbMin.X(),
-- 
2.43.0


From daf81698863e97e909ea18693c0b204234b66c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 073/101] fix: whether rays are parallel does not depend on the
 length of their vectors

---
 src/LNLib/Algorithm/Intersection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Intersection.cpp b/src/LNLib/Algorithm/Intersection.cpp
index b5feed5..1b1a05b 100644
--- a/src/LNLib/Algorithm/Intersection.cpp
+++ b/src/LNLib/Algorithm/Intersection.cpp
@@ -43,9 +43,9 @@ CurveCurveIntersectionType Intersection::ComputeRays(
 
     double denom = a * c - b * b;
 
-    if (MathUtils::IsAlmostEqualTo(std::abs(denom), 0.0)) {
+    if (MathUtils::IsAlmostEqualTo(std::abs(denom) / (a * c), 0.0)) {
         XYZ w = point1 - point0;
-        if (MathUtils::IsAlmostEqualTo(w.CrossProduct(vector0).Length(), 0.0)) {
+        if (MathUtils::IsAlmostEqualTo(w.CrossProduct(vector0).Length() / vector0.Length(), 0.0)) {
             param0 = param1 = 0.0;
             intersectPoint = point0;
             return CurveCurveIntersectionType::Coincident;
-- 
2.43.0


From 0ab1ee290a5c66ccaebd0b25c4f4cfaf8b3bb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 074/101] fix: the intersection of a line and a plane does not
 depend on the length of their vectors

---
 src/LNLib/Algorithm/Intersection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Algorithm/Intersection.cpp b/src/LNLib/Algorithm/Intersection.cpp
index 1b1a05b..f6b63aa 100644
--- a/src/LNLib/Algorithm/Intersection.cpp
+++ b/src/LNLib/Algorithm/Intersection.cpp
@@ -78,10 +78,12 @@ LinePlaneIntersectionType LNLib::Intersection::ComputeLineAndPlane(
 	const XYZ& lineDirection,
 	XYZ& intersectPoint)
 {
-	double denom = lineDirection.DotProduct(normal);
+	XYZ unitNormal = XYZ(normal).Normalize();
+	XYZ unitDirection = XYZ(lineDirection).Normalize();
+	double denom = unitDirection.DotProduct(unitNormal);
 
 	XYZ P0Q = pointOnLine - pointOnPlane;
-	double numer = -P0Q.DotProduct(normal);
+	double numer = -P0Q.DotProduct(unitNormal);
 
 	if (MathUtils::IsAlmostEqualTo(std::abs(denom),0.0)) {
 		if (MathUtils::IsAlmostEqualTo(std::abs(numer), 0.0)) {
@@ -94,6 +96,6 @@ LinePlaneIntersectionType LNLib::Intersection::ComputeLineAndPlane(
 	}
 
 	double t = numer / denom;
-	intersectPoint = pointOnLine + t * lineDirection;
+	intersectPoint = pointOnLine + t * unitDirection;
 	return LinePlaneIntersectionType::Intersecting;
 }
-- 
2.43.0


From 31ad1e635223536d1e14340e951fdaed17b8c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 075/101] fix: points are projected to short segments

---
 src/LNLib/Algorithm/Projection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Projection.cpp b/src/LNLib/Algorithm/Projection.cpp
index cfb0b9f..0039b41 100644
--- a/src/LNLib/Algorithm/Projection.cpp
+++ b/src/LNLib/Algorithm/Projection.cpp
@@ -27,7 +27,7 @@ bool LNLib::Projection::PointToLine(const XYZ& start, const XYZ& end, const XYZ&
     XYZ direction = end - start;
     double lenSqr = direction.DotProduct(direction);
 
-    if (MathUtils::IsAlmostEqualTo(lenSqr, 0.0)) {
+    if (direction.IsZero()) {
         return false;
     }
 
-- 
2.43.0


From 2176a3bb947d2b25bcbfe115268de46e868a1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 076/101] fix: knots are inserted at the midpoints of short
 spans as well

Spans of at most DoubleEpsilon were never chosen, so that a knot vector
without a wider span was read at index -1.
---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..68443bb 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -26,12 +26,12 @@ namespace LNLib
 		}
 		else
 		{
-			double standard = Constants::DoubleEpsilon;
+			double standard = 0.0;
 			int index = -1;
 			for (int i = 0; i < unqiueKnotVector.size() - 1; i++)
 			{
 				double delta = unqiueKnotVector[i + 1] - unqiueKnotVector[i];
-				if (MathUtils::IsGreaterThan(delta, standard))
+				if (delta > standard * (1 + Constants::DoubleEpsilon))
 				{
 					standard = delta;
 					index = i;
@@ -269,6 +269,8 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElements(int insertKn
 	std::vector<double> unqiueKnotVector = knotVector;
 	unqiueKnotVector.erase(std::unique(unqiueKnotVector.begin(), unqiueKnotVector.end()), unqiueKnotVector.end());
 
+	VALIDATE_ARGUMENT(unqiueKnotVector.size() > 1, "knotVector", "KnotVector must have at least one span.");
+
 	std::vector<double> insert;
 	InsertMidKnotCore(unqiueKnotVector, insert, insertKnotsNumber);
 	std::sort(insert.begin(), insert.end());
-- 
2.43.0


From 7c8b1d9ab378080bbbb89b88a5851733f60406d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:15 +0000
Subject: [PATCH 077/101] fix: a knot vector of one repeated knot is not
 uniform, and is not read past its end

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 68443bb..8a7dbab 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -290,6 +290,10 @@ bool LNLib::KnotVectorUtils::IsUniform(const std::vector<double>& knotVector)
 		double key = it->first;
 		knots.emplace_back(key);
 	}
+	if (knots.size() == 1)
+	{
+		return false;
+	}
 	std::sort(knots.begin(), knots.end());
 	if (map[knots[0]] != map[knots[knots.size() - 1]])
 	{
-- 
2.43.0


From 49828d2088608d9fd611853600c62e8f8a5b90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:08 +0000
Subject: [PATCH 078/101] fix: the knots to insert for a range take its
 interior knots into account

The multiplicity of the range's ends was only counted when they were the
ends of the knot vector, so an interior knot was raised beyond degree + 1.
---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 8a7dbab..8ece55c 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -87,9 +87,6 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		if (MathUtils::IsAlmostEqualTo(k, startParam)) {
 			++startMulti;
 		}
-		else {
-			break; 
-		}
 	}
 
 	if (startMulti < degree + 1) { 
@@ -104,9 +101,6 @@ std::vector<double> LNLib::KnotVectorUtils::GetInsertedKnotElement(
 		if (MathUtils::IsAlmostEqualTo(*it, endParam)) {
 			++endMulti;
 		}
-		else {
-			break;
-		}
 	}
 
 	if (endMulti < degree + 1) {
-- 
2.43.0


From b4ccd95fc48d754c8f766eb5ac764a335312a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 079/101] fix: moving a control point or its weight uses that
 point's rational basis function

The first basis function of the span was used instead, whichever control
point was modified, so that the curve did not move by the given distance.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 29ad614..833d0ea 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -126,6 +126,24 @@ namespace LNLib
 		}
 	}
 
+	double RationalBasisFunction(const LN_NurbsCurve& curve, int index, double paramT)
+	{
+		int degree = curve.Degree;
+		int spanIndex = Polynomials::GetKnotSpanIndex(degree, curve.KnotVector, paramT);
+		if (index < spanIndex - degree || index > spanIndex)
+		{
+			return 0.0;
+		}
+		double basis[Constants::NURBSMaxDegree + 1];
+		Polynomials::BasisFunctions(spanIndex, degree, curve.KnotVector, paramT, basis);
+		double sum = 0.0;
+		for (int i = 0; i <= degree; i++)
+		{
+			sum += basis[i] * curve.ControlPoints[spanIndex - degree + i].GetW();
+		}
+		return basis[index - spanIndex + degree] * curve.ControlPoints[index].GetW() / sum;
+	}
+
 	void OffsetByTillerAndHanson(const LN_NurbsCurve& curve, double offset, LN_NurbsCurve& result)
 	{
 		int degree = curve.Degree;
@@ -3227,11 +3245,8 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	VALIDATE_ARGUMENT(!moveDirection.IsZero(), "moveDirection", "MoveDirection must not be zero vector.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance,0.0), "moveDistance", "MoveDistance must not be zero.")
 
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	if (MathUtils::IsLessThanOrEqual(Rkp, 0.0))
 	{
 		return false;
 	}
@@ -3260,10 +3275,8 @@ void LNLib::NurbsCurve::WeightModification(const LN_NurbsCurve& curve, double pa
 	XYZ point = GetPointOnCurve(curve, parameter);
 	XYZ movePoint = const_cast<XYZW&>(controlPoints[moveIndex]).ToXYZ(true);
 	double distance =  point.Distance(movePoint);
-	int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, parameter);
-	double basis[Constants::NURBSMaxDegree + 1];
-	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
-	double Rkp = basis[0];
+	double Rkp = RationalBasisFunction(curve, moveIndex, parameter);
+	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(Rkp, 0.0), "moveIndex", "The control point must influence the curve at the parameter.");
 	double coefficient = 1 + moveDistance / (Rkp * (distance - moveDistance));
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	updatedControlPoints[moveIndex] = XYZW(movePoint, updatedControlPoints[moveIndex].GetW() * coefficient);
-- 
2.43.0


From 2eb9648ea19e975353cf2213e6bd4121b53543cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 080/101] fix: warping by a distance that is not an integer

The unqualified abs rounds to an integer, so distances below 1 did nothing.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 833d0ea..ff2c03c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3388,7 +3388,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
-- 
2.43.0


From f8788ccf85464edfe7ab5658cac1cc01b72d93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 081/101] fix: constraint-based modification of rational curves

The constraints were set up with polynomial basis functions, so that a curve
with different weights did not meet them.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index ff2c03c..994b161 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3501,9 +3501,29 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	{
 		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, ur[Dr[i]]);
 		std::vector<std::vector<double>> ders = Polynomials::BasisFunctionsDerivatives(spanIndex, degree, Dk[i], knotVector, ur[Dr[i]]);
+		// Derivatives of the rational basis functions.
+		std::vector<double> wders(Dk[i] + 1);
+		for (int k = 0; k <= Dk[i] && k < ders.size(); k++)
+		{
+			for (int j = 0; j <= degree; j++)
+			{
+				ders[k][j] *= controlPoints[spanIndex - degree + j].GetW();
+				wders[k] += ders[k][j];
+			}
+		}
 		for (int j = 0; j <= degree; j++)
 		{
-			B[i][spanIndex - degree + j] = ders[Dk[i]][j];
+			std::vector<double> rders(Dk[i] + 1);
+			for (int k = 0; k <= Dk[i]; k++)
+			{
+				rders[k] = k < ders.size() ? ders[k][j] : 0.0;
+				for (int l = 1; l <= k; l++)
+				{
+					rders[k] -= MathUtils::Binomial(k, l) * wders[l] * rders[k - l];
+				}
+				rders[k] /= wders[0];
+			}
+			B[i][spanIndex - degree + j] = rders[Dk[i]];
 		}
 	}
 
-- 
2.43.0


From 517c3b6287976dcea5da3aa6847a2233559dfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 082/101] fix: constraints that cannot be met are refused

The inverse of a singular matrix was used, or an empty matrix was read.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 994b161..b64e492 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3558,6 +3558,7 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	}
 
 	map.resize(n);
+	VALIDATE_ARGUMENT(n > 0, "fixedControlPointIndices", "At least one control point must be free to move.");
 
 	std::vector<std::vector<double>> Bopt(D.size(), std::vector<double>(n));
 	for (int j = 0; j < n; j++)
@@ -3572,7 +3573,8 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	MathUtils::Transpose(Bopt, Bt);
 	std::vector<std::vector<double>> BoptBt = MathUtils::MatrixMultiply(Bopt, Bt);
 	std::vector<std::vector<double>> BBt;
-	MathUtils::MakeInverse(BoptBt, BBt);
+	bool isIndependent = MathUtils::MakeInverse(BoptBt, BBt);
+	VALIDATE_ARGUMENT(isIndependent, "derivativeConstraints", "Constraints must be independent for the control points that are not fixed.");
 
 	auto A = MathUtils::MatrixMultiply(Bt, BBt);
 	std::vector<std::vector<double>> dD(D.size(), std::vector<double>(3));
-- 
2.43.0


From 92a7faab1898a01f8f0d03d146ddac3c5ee17c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:48 +0000
Subject: [PATCH 083/101] fix: constraint indices out of range are refused

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b64e492..75aa189 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3489,6 +3489,15 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	VALIDATE_ARGUMENT(derivativeConstraints.size() > 0, "derivativeConstraints", "DerivativeConstraints size must be greater than zero.");
 	VALIDATE_ARGUMENT(appliedIndices.size() == derivativeConstraints.size(), "appliedIndices", "AppliedIndices size must be equal to derivativeConstraints size.");
 	VALIDATE_ARGUMENT(appliedDegree.size() == appliedIndices.size(), "appliedDegree", "AppliedDegree size must be equal to appliedIndices size.");
+	for (int i = 0; i < appliedIndices.size(); i++)
+	{
+		VALIDATE_ARGUMENT(appliedIndices[i] >= 0 && appliedIndices[i] < constraintParams.size(), "appliedIndices", "Each index must be in [0, constraintParams.size()).");
+		VALIDATE_ARGUMENT(appliedDegree[i] >= 0, "appliedDegree", "Each degree must be greater than or equal zero.");
+	}
+	for (int i = 0; i < fixedControlPointIndices.size(); i++)
+	{
+		VALIDATE_ARGUMENT(fixedControlPointIndices[i] >= 0 && fixedControlPointIndices[i] < controlPoints.size(), "fixedControlPointIndices", "Each index must be in [0, controlPoints.size()).");
+	}
 
 	std::vector<double> ur = constraintParams;
 	std::vector<XYZ> D = derivativeConstraints;
-- 
2.43.0


From baac829fddd1cac428ac2655cefe04be22ac2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:48 +0000
Subject: [PATCH 084/101] fix: a surface without columns of control points is
 refused

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 src/LNLib/include/BsplineSurface.h          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index e2328cf..2fd23d1 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -239,7 +239,7 @@ void  LNLib::NurbsSurface::Check(const LN_NurbsSurface& surface)
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidKnotVector(knotVectorU), "knotVectorU", "KnotVector must be a nondecreasing sequence of real numbers.");
 	VALIDATE_ARGUMENT(knotVectorV.size() > 0, "knotVectorV", "KnotVector size must be greater than zero.");
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidKnotVector(knotVectorV), "knotVectorV", "KnotVector must be a nondecreasing sequence of real numbers.");
-	VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contain one point at least.");
+	VALIDATE_ARGUMENT(controlPoints.size() > 0 && controlPoints[0].size() > 0, "controlPoints", "ControlPoints must contain one point at least.");
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
 	VALIDATE_ARGUMENT(ValidationUtils::IsValidNurbs(degreeV, knotVectorV.size(), controlPoints[0].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
 }
diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 5cc853b..6d1abf1 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -41,7 +41,7 @@ namespace LNLib
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidKnotVector(knotVectorU), "knotVectorU", "KnotVector must be a nondecreasing sequence of real numbers.");
 			VALIDATE_ARGUMENT(knotVectorV.size() > 0, "knotVectorV", "KnotVector size must be greater than zero.");
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidKnotVector(knotVectorV), "knotVectorV", "KnotVector must be a nondecreasing sequence of real numbers.");
-			VALIDATE_ARGUMENT(controlPoints.size() > 0, "controlPoints", "ControlPoints must contains one point at least.");
+			VALIDATE_ARGUMENT(controlPoints.size() > 0 && controlPoints[0].size() > 0, "controlPoints", "ControlPoints must contains one point at least.");
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeU, knotVectorU.size(), controlPoints.size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
 			VALIDATE_ARGUMENT(ValidationUtils::IsValidBspline(degreeV, knotVectorV.size(), controlPoints[0].size()), "controlPoints", "Arguments must be fit: m = n + p + 1");
 		}
-- 
2.43.0


From 0ba2c6249735c0e2b367b0475abf6fcd15799960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:41 +0000
Subject: [PATCH 085/101] fix: neighbor weights need a neighbor

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 75aa189..404ec06 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3293,7 +3293,7 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(parameter, knotVector[0], knotVector[knotVector.size() - 1]);
-	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, controlPoints.size() - 1);
+	VALIDATE_ARGUMENT_RANGE(moveIndex, 0, (int)controlPoints.size() - 2);
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(moveDistance, 0.0), "moveDistance", "MoveDistance must not be zero.");
 	VALIDATE_ARGUMENT(!MathUtils::IsAlmostEqualTo(scale, 0.0), "scale", "Scale must not be zero.");
 
-- 
2.43.0


From 1dfd6af941499b82be67ec82fe06fb8dcf6297bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:09 +0000
Subject: [PATCH 086/101] fix: knot removal within a given bound keeps within
 the bound

RemoveKnotsByGivenBound checked only a window of the parameters (wrong at the
first span and after a removal), used the error formula of keeping the left
control point while the removal keeps the right one, and went on as if a knot
was removed when RemoveKnot had refused. It now looks at every parameter,
recomputes the bounds after each removal, and removes the knot whatever its
deviation, which the bound has already admitted.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 218 +++++-------------------
 1 file changed, 44 insertions(+), 174 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 404ec06..da646f2 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -742,7 +742,7 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 	return beziers;
 }
 
-static bool RemoveKnotCore(const LNLib::LN_NurbsCurve& curve, double removeKnot, int times, bool allowApproximate, LNLib::LN_NurbsCurve& result)
+static bool RemoveKnotCore(const LNLib::LN_NurbsCurve& curve, double removeKnot, int times, double tol, bool allowApproximate, LNLib::LN_NurbsCurve& result)
 {
 	using namespace LNLib;
 
@@ -753,7 +753,6 @@ static bool RemoveKnotCore(const LNLib::LN_NurbsCurve& curve, double removeKnot,
 	VALIDATE_ARGUMENT_RANGE(removeKnot, knotVector[0], knotVector[knotVector.size() - 1]);
 	VALIDATE_ARGUMENT(times > 0, "times", "Times must be greater than zero.");
 
-	double tol = ValidationUtils::ComputeCurveModifyTolerance(controlPoints);
 	int n = controlPoints.size() - 1;
 
 	int order = degree + 1;
@@ -893,7 +892,7 @@ static bool RemoveKnotCore(const LNLib::LN_NurbsCurve& curve, double removeKnot,
 
 bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot, int times, LN_NurbsCurve& result)
 {
-	return RemoveKnotCore(curve, removeKnot, times, true, result);
+	return RemoveKnotCore(curve, removeKnot, times, ValidationUtils::ComputeCurveModifyTolerance(curve.ControlPoints), true, result);
 }
 
 void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_NurbsCurve& result)
@@ -911,7 +910,7 @@ void LNLib::NurbsCurve::RemoveExcessiveKnots(const LN_NurbsCurve& curve, LN_Nurb
 			if (currentMultiplicity <= 1) continue;
 
 			LN_NurbsCurve tempResult;
-			if (RemoveKnotCore(result, u, 1, false, tempResult))
+			if (RemoveKnotCore(result, u, 1, ValidationUtils::ComputeCurveModifyTolerance(result.ControlPoints), false, tempResult))
 			{
 				result = tempResult;
 				changed = true;
@@ -2727,207 +2726,78 @@ double LNLib::NurbsCurve::ComputerRemoveKnotErrorBound(const LN_NurbsCurve& curv
 void LNLib::NurbsCurve::RemoveKnotsByGivenBound(const LN_NurbsCurve& curve, const std::vector<double> params, std::vector<double>& errors, double maxError, LN_NurbsCurve& result)
 {
 	int degree = curve.Degree;
-	std::vector<double> knotVector = curve.KnotVector;
-	std::vector<XYZW> controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT(params.size() > 0, "params", "Params size must be greater than zero.");
 	VALIDATE_ARGUMENT(params.size() == errors.size(), "errors", "Errors size must be equal to params size.");
 	VALIDATE_ARGUMENT(MathUtils::IsGreaterThan(maxError,0.0), "maxError", "Maxerror must be greater than zero.");
 
-	int knotSize = knotVector.size();
-	std::vector<double> Br(knotSize, Constants::MaxDistance);
-	std::vector<int> S(knotSize, 0);
-	std::vector<int> Nl(knotSize);
-	std::vector<int> Nr(knotSize, params.size() - 1);
-
-	std::vector<double> uk = params;
-	int ukSize = uk.size();
-	std::vector<double> NewError(ukSize);
+	int ukSize = params.size();
 	std::vector<double> temp(ukSize);
+	std::vector<double> keptKnots;
 
-	int i, BrMinIndex = 0;
-	int r, s, Rstart, Rend, k;
-	double BrMin, u;
-
-	int controlPointsSize = controlPoints.size();
-	int n = controlPointsSize - 1;
-	s = 1;
-	for (int i = degree + 1; i < controlPointsSize; i++)
+	LN_NurbsCurve current = curve;
+	while (true)
 	{
-		if (MathUtils::IsLessThan(knotVector[i],knotVector[i + 1]))
+		int n = current.ControlPoints.size() - 1;
+		if (n <= degree)
 		{
-			Br[i] = ComputerRemoveKnotErrorBound(curve, i);
-			S[i] = Polynomials::GetKnotMultiplicity(knotVector, knotVector[i]);
-			s = 1;
-		}
-		else {
-			Br[i] = Constants::MaxDistance;
-			S[i] = 1;
-			s++;
+			break;
 		}
-	}
 
-	Nl[0] = 0;
-	for (int i = 0; i < ukSize; i++)
-	{
-		int spanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, uk[i]);
-		if (!Nl[spanIndex])
-		{
-			Nl[spanIndex] = i;
-		}
-		if (i + 1 < ukSize)
+		// The interior knot whose removal has the smallest bound, among those not already kept.
+		int r = -1;
+		double Br = Constants::MaxDistance;
+		for (int i = degree + 1; i <= n; i++)
 		{
-			Nr[spanIndex] = i + 1;
-		}
-	}
-
-	std::vector<double> tempU = knotVector;
-	std::vector<XYZW> tempCP = controlPoints;
-
-	std::vector<double> updatedKnotVector;
-	std::vector<XYZW> updatedControlPoints;
-
-	while (1)
-	{
-		double minStandard = Constants::MaxDistance;
-		for (int i = 0; i < Br.size(); i++)
-		{
-			if (MathUtils::IsLessThan(Br[i],minStandard))
+			double u = current.KnotVector[i];
+			if (!MathUtils::IsLessThan(u, current.KnotVector[i + 1]) ||
+				std::find(keptKnots.begin(), keptKnots.end(), u) != keptKnots.end())
+			{
+				continue;
+			}
+			double bound = ComputerRemoveKnotErrorBound(current, i);
+			if (bound < Br)
 			{
-				BrMinIndex = i;
-				minStandard = Br[i];
+				Br = bound;
+				r = i;
 			}
 		}
-		BrMin = Br[BrMinIndex];
-
-		if (BrMin == Constants::MaxDistance)
+		if (r < 0)
 		{
-			updatedKnotVector = tempU;
-			updatedControlPoints = tempCP;
 			break;
 		}
-		r = BrMinIndex;
-		s = S[BrMinIndex];
 
-		Rstart = std::max(r - degree, degree + 1);
-		Rend = std::min(r + degree - S[r + degree] + 1, n);
-		Rstart = Nl[Rstart];
-		Rend = Nr[Rend];
+		const auto& U = current.KnotVector;
+		double removeKnot = U[r];
+		int s = Polynomials::GetKnotMultiplicity(U, removeKnot);
+		int basisIndex = r - (degree + s + 1) / 2;
+		double factor = Br;
+		if ((degree + s) % 2 != 0)
+		{
+			factor *= (removeKnot - U[basisIndex]) / (U[basisIndex + degree + 1] - U[basisIndex]);
+		}
 
 		bool removable = true;
-		for (i = Rstart; i <= Rend; i++)
+		for (int i = 0; i < ukSize && removable; i++)
 		{
-			double a;
-			if ((degree + s) % 2)
-			{
-				u = uk[i];
-				k = (degree + s + 1) / 2;
-				a = tempU[r] - tempU[r - k + 1];
-				a /= tempU[r - k + degree + 2] - tempU[r - k + 1];
-				NewError[i] = (1.0 - a) * Br[r] * Polynomials::OneBasisFunction(r - k + 1, degree, tempU, u);
-			}
-			else
-			{
-				u = uk[i];
-				k = (degree + s) / 2;
-				NewError[i] = Br[r] * Polynomials::OneBasisFunction(r - k, degree, tempU, u);
-			}
-			temp[i] = NewError[i] + errors[i];
-			if (MathUtils::IsGreaterThan(temp[i],maxError))
-			{
-				removable = false;
-				Br[r] = Constants::MaxDistance;
-				updatedKnotVector = tempU;
-				updatedControlPoints = tempCP;
-				break;
-			}
+			temp[i] = errors[i] + factor * Polynomials::OneBasisFunction(basisIndex, degree, U, params[i]);
+			removable = !MathUtils::IsGreaterThan(temp[i], maxError);
 		}
 
-		if (removable)
+		LN_NurbsCurve removed;
+		if (removable && RemoveKnotCore(current, removeKnot, 1, Constants::MaxDistance, false, removed))
 		{
-			LN_NurbsCurve tc;
-			tc.Degree = degree;
-			tc.KnotVector = tempU;
-			tc.ControlPoints = tempCP;
-
-			LN_NurbsCurve newtc;
-			RemoveKnot(tc, tempU[r], 1, newtc);
-			std::vector<double> tempNewU = newtc.KnotVector;
-			std::vector<XYZW> tempNewCP = newtc.ControlPoints;
-
-			controlPointsSize = tempNewCP.size();
-			for (int i = Rstart; i <= Rend; i++)
-			{
-				errors[i] = temp[i];
-			}
-
-			if (controlPointsSize <= degree + 1)
-			{
-				updatedKnotVector = tempU;
-				updatedControlPoints = tempCP;
-				break;
-			}
-
-			Rstart = Nl[r - degree - 1];
-			Rend = Nr[r - S[r]];
-			int spanIndex = 0;
-			int oldspanIndex = -1;
-			for (int k = Rstart; k <= Rend; k++)
-			{
-				spanIndex = Polynomials::GetKnotSpanIndex(degree, tempNewU, uk[k]);
-				if (spanIndex != oldspanIndex)
-				{
-					Nl[spanIndex] = k;
-				}
-				if (k + 1 < ukSize)
-				{
-					Nr[spanIndex] = k + 1;
-				}
-				oldspanIndex = spanIndex;
-			}
-			for (int k = r - S[r] + 1; k < Nl.size() - 1; k++) {
-				Nl[k] = Nl[k + 1];
-				Nr[k] = Nr[k + 1];
-			}
-			Nl.resize(Nl.size() - 1);
-			Nr.resize(Nr.size() - 1);
-
-			Rstart = std::max(r - degree, degree + 1);
-			Rend = std::min(r + degree - S[r] + 1, controlPointsSize);
-			s = S[Rstart];
-			for (i = Rstart; i <= Rend; i++)
-			{
-				if (MathUtils::IsLessThan(tempNewU[i],tempNewU[i + 1]))
-				{
-					Br[i] = ComputerRemoveKnotErrorBound(newtc, i);
-					S[i] = s;
-					s = 1;
-				}
-				else {
-					Br[i] = Constants::MaxDistance;
-					S[i] = 1;
-					s++;
-				}
-			}
-			for (int i = Rend + 1; i < Br.size() - 1; i++)
-			{
-				Br[i] = Br[i + 1];
-				S[i] = S[i + 1];
-			}
-			Br.resize(Br.size() - 1);
-
-			tempU = tempNewU;
-			tempCP = tempNewCP;
+			errors = temp;
+			current = removed;
+			keptKnots.clear();
 		}
 		else
 		{
-			Br[r] = Constants::MaxDistance;
+			keptKnots.emplace_back(removeKnot);
 		}
 	}
 
-	result.Degree = degree;
-	result.KnotVector = updatedKnotVector;
-	result.ControlPoints = updatedControlPoints;
+	result = current;
 }
 
 void LNLib::NurbsCurve::GlobalApproximationByErrorBound(int degree, const std::vector<XYZ>& throughPoints, double maxError, LN_NurbsCurve& result)
-- 
2.43.0


From d13d46ae62efa145803a3e4a9d4beae69b8b50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:31 +0000
Subject: [PATCH 087/101] fix: a parameter within tolerance of a knot is taken
 for the knot

Multiplicities are counted with a tolerance, spans without. Splitting a curve or
volume one unit in the last place below a knot gave halves with too few knots,
and inserting a knot into a surface there moved the surface. Splitting,
extracting, removing and surface insertion now take the knot itself.
---
 src/LNLib/Algorithm/KnotVectorUtils.cpp     | 12 ++++++++++++
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     |  2 ++
 src/LNLib/Geometry/Surface/NurbsSurface.cpp |  1 +
 src/LNLib/Geometry/Volume/NurbsVolume.cpp   |  7 +++++++
 src/LNLib/include/KnotVectorUtils.h         |  5 +++++
 5 files changed, 27 insertions(+)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 8ece55c..9662fd9 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -54,6 +54,18 @@ int LNLib::KnotVectorUtils::GetContinuity(int degree, const std::vector<double>&
 	return degree - multi;
 }
 
+double LNLib::KnotVectorUtils::SnapToKnot(const std::vector<double>& knotVector, double parameter)
+{
+	for (int i = 0; i < knotVector.size(); i++)
+	{
+		if (MathUtils::IsAlmostEqualTo(parameter, knotVector[i]))
+		{
+			return knotVector[i];
+		}
+	}
+	return parameter;
+}
+
 std::vector<double> LNLib::KnotVectorUtils::Rescale(const std::vector<double>& knotVector, double min, double max)
 {
 	double originMin = knotVector[0];
diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index da646f2..be5cdc9 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -755,6 +755,7 @@ static bool RemoveKnotCore(const LNLib::LN_NurbsCurve& curve, double removeKnot,
 
 	int n = controlPoints.size() - 1;
 
+	removeKnot = KnotVectorUtils::SnapToKnot(knotVector, removeKnot);
 	int order = degree + 1;
 	int s = Polynomials::GetKnotMultiplicity(knotVector, removeKnot);
 	int r = Polynomials::GetKnotSpanIndex(degree, knotVector, removeKnot);
@@ -1592,6 +1593,7 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 		return false;
 	}
 
+	parameter = KnotVectorUtils::SnapToKnot(knotVector, parameter);
 	int multi = Polynomials::GetKnotMultiplicity(knotVector, parameter);
 	std::vector<double> insert(degree + 1 - multi, parameter);
 	left = curve;
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 2fd23d1..49bb1ce 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -703,6 +703,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 
 	int degree = isUDirection ? surface.DegreeU : surface.DegreeV;
 	std::vector<double> knotVector = isUDirection ? surface.KnotVectorU : surface.KnotVectorV;
+	insertKnot = KnotVectorUtils::SnapToKnot(knotVector, insertKnot);
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3e47670..ac01f85 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -13,6 +13,7 @@
 #include "XYZ.h"
 #include "XYZW.h"
 #include "Polynomials.h"
+#include "KnotVectorUtils.h"
 #include "MathUtils.h"
 #include "NurbsCurve.h"
 
@@ -511,6 +512,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 			return true;
 		}
 
+		parameter = LNLib::KnotVectorUtils::SnapToKnot(kvU, parameter);
 		k = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, parameter);
 		s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 		rr = degreeU - s;
@@ -557,6 +559,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 			return true;
 		}
 
+		parameter = LNLib::KnotVectorUtils::SnapToKnot(kvV, parameter);
 		k = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, parameter);
 		s = LNLib::Polynomials::GetKnotMultiplicity(kvV, parameter);
 		rr = degreeV - s;
@@ -613,6 +616,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 			return true;
 		}
 
+		parameter = LNLib::KnotVectorUtils::SnapToKnot(kvW, parameter);
 		k = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, parameter);
 		s = LNLib::Polynomials::GetKnotMultiplicity(kvW, parameter);
 		rr = degreeW - s;
@@ -704,6 +708,7 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 		}
 		else
 		{
+			parameter = LNLib::KnotVectorUtils::SnapToKnot(kvU, parameter);
 			k = LNLib::Polynomials::GetKnotSpanIndex(degreeU, kvU, parameter);
 			s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			rr = degreeU - s;
@@ -746,6 +751,7 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 		}
 		else
 		{
+			parameter = LNLib::KnotVectorUtils::SnapToKnot(kvV, parameter);
 			k = LNLib::Polynomials::GetKnotSpanIndex(degreeV, kvV, parameter);
 			s = LNLib::Polynomials::GetKnotMultiplicity(kvV, parameter);
 			rr = degreeV - s;
@@ -806,6 +812,7 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 		}
 		else
 		{
+			parameter = LNLib::KnotVectorUtils::SnapToKnot(kvW, parameter);
 			k = LNLib::Polynomials::GetKnotSpanIndex(degreeW, kvW, parameter);
 			s = LNLib::Polynomials::GetKnotMultiplicity(kvW, parameter);
 			rr = degreeW - s;
diff --git a/src/LNLib/include/KnotVectorUtils.h b/src/LNLib/include/KnotVectorUtils.h
index 5573034..b3de1cb 100644
--- a/src/LNLib/include/KnotVectorUtils.h
+++ b/src/LNLib/include/KnotVectorUtils.h
@@ -29,6 +29,11 @@ namespace LNLib
 		/// </summary>
 		static int GetContinuity(int degree, const std::vector<double>& knotVector, double knot);
 
+		/// <summary>
+		/// A parameter within tolerance of a knot stands for that knot: get the knot, or the parameter itself.
+		/// </summary>
+		static double SnapToKnot(const std::vector<double>& knotVector, double parameter);
+
 		static std::vector<double> Rescale(const std::vector<double>& knotVector, double min, double max);
 
 		/// <summary>
-- 
2.43.0


From d7918361ba7f4e48dd6d4554a6a3a2ca63c53e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:01 +0000
Subject: [PATCH 088/101] fix: curve tessellation ends at the end of the curve

A parameter within the relative tolerance of the last knot replaced it, so the
last point of the tessellation was visibly off the end of curves with a short
last span.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index be5cdc9..eb77c01 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -4127,7 +4127,10 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::Tessellate(const LN_NurbsCurve& curve
 		}
 	}
 
-	if (parameters.empty() || !MathUtils::IsAlmostEqualTo(parameters.back(), u_end)) {
+	if (parameters.size() > 1 && MathUtils::IsAlmostEqualTo(parameters.back(), u_end)) {
+		parameters.back() = u_end;
+	}
+	else {
 		parameters.emplace_back(u_end);
 	}
 
-- 
2.43.0


From fea208ff30eb582e50c98d151f7b860d324ee334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 089/101] fix: point inversion on curves does not depend on the
 parametrization

The Newton iterations stopped where the derivative of the squared distance was
below an absolute tolerance, so points of a curve over a long parameter range
were not found. The step is limited to the range, so that wrapping around a
closed curve ends.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index eb77c01..61fbbb0 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1340,11 +1340,11 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		double f = Ct.DotProduct(diff);
 		double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
 
-		if (std::abs(df) < Constants::DoubleEpsilon) {
+		if (std::abs(df) <= Constants::DoubleEpsilon * Ct.SqrLength()) {
 			break;
 		}
 
-		double deltaT = f / df;
+		double deltaT = std::max(minParam - maxParam, std::min(maxParam - minParam, f / df));
 		double newT = paramT - deltaT;
 
 		if (!isClosed) {
@@ -1440,11 +1440,11 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			double f = Ct.DotProduct(diff);
 			double df = Ct.DotProduct(Ct) + diff.DotProduct(Ctt);
 
-			if (MathUtils::IsAlmostEqualTo(std::abs(df), 0.0)) {
+			if (std::abs(df) <= Constants::DoubleEpsilon * Ct.SqrLength()) {
 				break;
 			}
 
-			double deltaT = f / df;
+			double deltaT = std::max(minParam - maxParam, std::min(maxParam - minParam, f / df));
 			double newT = paramT - deltaT;
 
 			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
-- 
2.43.0


From e8377107eee761fdc9c6f49f27b0c44aa4ab0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:36 +0000
Subject: [PATCH 090/101] fix: inserting a knot at the end of the domain leaves
 a surface as it is

Its multiplicity there is greater than the degree, which led to vectors of
negative size. Curves already come back unchanged.
---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 49bb1ce..7250931 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -707,7 +707,7 @@ void LNLib::NurbsSurface::InsertKnot(const LN_NurbsSurface& surface, double inse
 	int knotSpanIndex = Polynomials::GetKnotSpanIndex(degree, knotVector, insertKnot);
 	int multiplicity = Polynomials::GetKnotMultiplicity(knotVector, insertKnot);
 
-	if (multiplicity == degree)
+	if (multiplicity >= degree)
 	{
 		result = surface;
 		return;
-- 
2.43.0


From ae09485a5a29037d70f658e890ff10e396ddf9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 091/101] fix: the C interface compiles with gcc and clang too

---
 dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp | 1 +
 dotnet/CAPI/src/Matrix4d_CAPI.cpp        | 2 +-
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp      | 1 +
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp    | 1 +
 4 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
index f32a8c0..5910756 100644
--- a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
+++ b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
@@ -10,6 +10,7 @@
 
 #include "KnotVectorUtils_CAPI.h"
 #include "KnotVectorUtils.h"
+#include <cstring>
 #include <vector>
 #include <map>
 
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index da1c9cc..83845af 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -35,7 +35,7 @@ Matrix4d_C LNLIB_MATRIX_create()
 }
 Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_y, XYZ_C basis_z, XYZ_C origin)
 {
-	return FromMatrix4d(LNLib::Matrix4d::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
+	return FromMatrix4d(LNLib::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
 }
 
 Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector)
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..add7a70 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -12,6 +12,7 @@
 #include "NurbsCurve.h"
 #include "LNLibDefinitions.h"
 #include "Matrix4d.h"
+#include <algorithm>
 #include <vector>
 #include <thread>
 
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..c4095f6 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -12,6 +12,7 @@
 #include "NurbsSurface.h"
 #include "NurbsCurve_CAPI.h"
 #include "LNLibDefinitions.h"
+#include <algorithm>
 #include <vector>
 #include <thread>
 
-- 
2.43.0


From d91d9c97378dba801fb6e33d58df6ba85fdfa16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 092/101] fix: the C interface returns the power to Bezier
 matrix it computed

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From 9b83022fbefaa1878a7f7ab9e671ae3431ef0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 093/101] fix: removing knots within a bound works through the
 C interface

---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index add7a70..850bcf7 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -176,7 +176,7 @@ void LNLIB_NURBSCUR_remove_knots_by_given_bound(LN_NurbsCurve_C curve, const dou
 {
 	std::vector<double> ps(params_count);
 	for (int i = 0; i < params_count; ++i) ps[i] = params[i];
-	std::vector<double> errs;
+	std::vector<double> errs(params_count, 0.0);
 	LN_NurbsCurve result;
 	NurbsCurve::RemoveKnotsByGivenBound(FromCAPI(curve), ps, errs, maxError, result);
 	for (size_t i = 0; i < errs.size(); ++i) {
-- 
2.43.0


From 269baebcbd7a421a2c1a6d9d1f82c1fc3752d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 094/101] fix: curves and surfaces returned together by the C
 interface do not share their data

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 16 +++++++++++++---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   |  6 +++---
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 21 ++++++++++++++++-----
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index d7f97c4..232ccb6 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -17,6 +17,8 @@
  #include "LNObject_CAPI.h"
 
 #ifdef __cplusplus
+#include <deque>
+#include <vector>
 extern "C" {
 #endif
 
@@ -264,10 +266,18 @@ inline LNLib::LN_NurbsCurve FromCAPI(LN_NurbsCurve_C c) {
     return s;
 }
 
-inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s) {
-    static thread_local std::vector<double> g_knot_buffer;
+// Curves returned together by one call need a slot each.
+inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s, std::size_t slot = 0) {
+    static thread_local std::deque<std::vector<double>> g_knot_buffers;
     static thread_local std::vector<LNLib::XYZW> g_cp_2d_buffer;
-    static thread_local std::vector<XYZW_C> g_cp_flat_buffer;
+    static thread_local std::deque<std::vector<XYZW_C>> g_cp_flat_buffers;
+
+    if (g_knot_buffers.size() <= slot) {
+        g_knot_buffers.resize(slot + 1);
+        g_cp_flat_buffers.resize(slot + 1);
+    }
+    std::vector<double>& g_knot_buffer = g_knot_buffers[slot];
+    std::vector<XYZW_C>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 
     g_knot_buffer = s.KnotVector;
     g_cp_2d_buffer = s.ControlPoints;
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 850bcf7..f0c0b63 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -301,8 +301,8 @@ int LNLIB_NURBSCUR_split_at(
 	LN_NurbsCurve left, right;
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
-		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		*out_left = ToCAPI(left, 0);
+		*out_right = ToCAPI(right, 1);
 	}
 	return ok ? 1 : 0;
 }
@@ -339,7 +339,7 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
 	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
+		out_segments[i] = ToCAPI(segments[i], i);
 	}
 	return n;
 }
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index c4095f6..9be2def 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -13,15 +13,16 @@
 #include "NurbsCurve_CAPI.h"
 #include "LNLibDefinitions.h"
 #include <algorithm>
+#include <deque>
 #include <vector>
 #include <thread>
 
 using namespace LNLib;
 
-static thread_local std::vector<double> g_knot_u_buffer;
-static thread_local std::vector<double> g_knot_v_buffer;
+static thread_local std::deque<std::vector<double>> g_knot_u_buffers;
+static thread_local std::deque<std::vector<double>> g_knot_v_buffers;
 static thread_local std::vector<std::vector<XYZW>> g_cp_2d_buffer;
-static thread_local std::vector<XYZW> g_cp_flat_buffer;
+static thread_local std::deque<std::vector<XYZW>> g_cp_flat_buffers;
 static thread_local std::vector<LN_NurbsSurface> g_surface_buffer;
 static thread_local std::vector<XYZ> g_xyz_buffer;
 static thread_local std::vector<UV> g_uv_buffer;
@@ -42,7 +43,17 @@ static LN_NurbsSurface FromCAPI(LN_NurbsSurface_C c) {
 	return s;
 }
 
-static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s) {
+// Surfaces returned together by one call need a slot each.
+static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s, std::size_t slot = 0) {
+	if (g_knot_u_buffers.size() <= slot) {
+		g_knot_u_buffers.resize(slot + 1);
+		g_knot_v_buffers.resize(slot + 1);
+		g_cp_flat_buffers.resize(slot + 1);
+	}
+	std::vector<double>& g_knot_u_buffer = g_knot_u_buffers[slot];
+	std::vector<double>& g_knot_v_buffer = g_knot_v_buffers[slot];
+	std::vector<XYZW>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
+
 	g_knot_u_buffer = s.KnotVectorU;
 	g_knot_v_buffer = s.KnotVectorV;
 	g_cp_2d_buffer = s.ControlPoints;
@@ -158,7 +169,7 @@ int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurfa
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
 	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
+		out_patches[i] = ToCAPI(patches[i], i);
 	}
 	return n;
 }
-- 
2.43.0


From 3c978fdfcb4c8fb4415d6f07c54438014bc72def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 095/101] fix: weighted least squares through the C interface
 takes as many points as there are

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 1 +
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   | 3 ++-
 dotnet/PInvoke/src/NurbsCurve.cs      | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index 232ccb6..1603e90 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -149,6 +149,7 @@ extern "C" {
         int degree,
         const XYZ_C* points,
         const double* point_weights,
+        int point_count,
         const XYZ_C* tangents,
         const int* tangent_indices,
         const double* tangent_weights,
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index f0c0b63..834a465 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -142,6 +142,7 @@ int LNLIB_NURBSCUR_weighted_constrained_least_squares(
 	int degree,
 	const XYZ_C* points,
 	const double* point_weights,
+	int point_count,
 	const XYZ_C* tangents,
 	const int* tangent_indices,
 	const double* tangent_weights,
@@ -151,7 +152,7 @@ int LNLIB_NURBSCUR_weighted_constrained_least_squares(
 	std::vector<XYZ> pts, tans;
 	std::vector<double> pws, tws;
 	std::vector<int> tidx;
-	for (int i = 0; i < control_point_count; ++i) {
+	for (int i = 0; i < point_count; ++i) {
 		pts.push_back(ToXYZ(points[i]));
 		pws.push_back(point_weights[i]);
 	}
diff --git a/dotnet/PInvoke/src/NurbsCurve.cs b/dotnet/PInvoke/src/NurbsCurve.cs
index 3b32123..7f528ac 100644
--- a/dotnet/PInvoke/src/NurbsCurve.cs
+++ b/dotnet/PInvoke/src/NurbsCurve.cs
@@ -260,6 +260,7 @@ namespace LNLibSharp
             int degree,
             [In] XYZ[] points,
             [In] double[] point_weights,
+            int point_count,
             [In] XYZ[] tangents,
             [In] int[] tangent_indices,
             [In] double[] tangent_weights,
-- 
2.43.0


From 9463f8651d0fe39d2fa2cae0b20b6082cd380bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 096/101] fix: the .NET bindings name the functions the C
 interface exports

---
 dotnet/PInvoke/src/UV.cs  | 4 ++--
 dotnet/PInvoke/src/XYZ.cs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dotnet/PInvoke/src/UV.cs b/dotnet/PInvoke/src/UV.cs
index b051a1a..8291981 100644
--- a/dotnet/PInvoke/src/UV.cs
+++ b/dotnet/PInvoke/src/UV.cs
@@ -21,7 +21,7 @@ namespace LNLibSharp
 
     public static partial class LNLibUV
     {
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UVreate")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_create")]
         public static extern UV Create(double u, double v);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_get_u")]
@@ -66,7 +66,7 @@ namespace LNLibSharp
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_dot_product")]
         public static extern double DotProduct(UV a, UV b);
 
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UVross_product")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_cross_product")]
         public static extern double CrossProduct(UV a, UV b);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_distance")]
diff --git a/dotnet/PInvoke/src/XYZ.cs b/dotnet/PInvoke/src/XYZ.cs
index 9f4bac8..f28ae24 100644
--- a/dotnet/PInvoke/src/XYZ.cs
+++ b/dotnet/PInvoke/src/XYZ.cs
@@ -21,7 +21,7 @@ namespace LNLibSharp
 
     public static partial class LNLibXYZ
     {
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZreate")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_create")]
         public static extern XYZ Create(double x, double y, double z);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_get_x")]
@@ -75,7 +75,7 @@ namespace LNLibSharp
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_dot_product")]
         public static extern double DotProduct(XYZ a, XYZ b);
 
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZross_product")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_cross_product")]
         public static extern XYZ CrossProduct(XYZ a, XYZ b);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_distance")]
@@ -87,7 +87,7 @@ namespace LNLibSharp
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_divide")]
         public static extern XYZ Divide(XYZ xyz, double scalar);
 
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZreate_random_orthogonal")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_create_random_orthogonal")]
         public static extern XYZ CreateRandomOrthogonal(XYZ xyz);
     }
 }
\ No newline at end of file
-- 
2.43.0


From cac99df5773a3604e34808a700a7c217bb55a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 097/101] fix: the C interface takes the origin and axis of a
 rotation as the .NET bindings pass them

---
 dotnet/CAPI/include/Matrix4d_CAPI.h | 2 +-
 dotnet/CAPI/src/Matrix4d_CAPI.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dotnet/CAPI/include/Matrix4d_CAPI.h b/dotnet/CAPI/include/Matrix4d_CAPI.h
index 12009d3..307b164 100644
--- a/dotnet/CAPI/include/Matrix4d_CAPI.h
+++ b/dotnet/CAPI/include/Matrix4d_CAPI.h
@@ -25,7 +25,7 @@ LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_reflection(XYZ_C normal);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_reflection_by_distance(XYZ_C normal, double distance_from_origin);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_rotation(XYZ_C axis, double rad);
-LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(const XYZ_C& origin, const XYZ_C& axis, double rad);
+LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(XYZ_C origin, XYZ_C axis, double rad);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_scale(XYZ_C scale);
 
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index 83845af..18a0936 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -48,7 +48,7 @@ Matrix4d_C LNLIB_MATRIX_create_rotation(XYZ_C axis, double rad)
 	return FromMatrix4d(LNLib::Matrix4d::CreateRotation(ToXYZ(axis), rad));
 }
 
-Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(const XYZ_C& origin, const XYZ_C& axis, double rad)
+Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(XYZ_C origin, XYZ_C axis, double rad)
 {
 	return FromMatrix4d(LNLib::Matrix4d::CreateRotationAtPoint(ToXYZ(origin), ToXYZ(axis), rad));
 }
-- 
2.43.0


From 4c0316a9aa03d5ae5aaa4ecc5a1c97699bc4c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 098/101] fix: a merged curve has its joint as a knot of
 multiplicity degree

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 61fbbb0..351a66d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1696,7 +1696,8 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 		return false;
 	}
 
-	int size = tempL.ControlPoints.size() + tempR.ControlPoints.size();
+	// The joint is a knot of multiplicity degree, so the common point appears once, with the weight it has on the left.
+	int size = tempL.ControlPoints.size() + tempR.ControlPoints.size() - 1;
 	std::vector<XYZW> controlPoints;
 	controlPoints.reserve(size);
 	int ksize = size + degree + 1;
@@ -1705,14 +1706,15 @@ bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& ri
 	{
 		controlPoints.emplace_back(tempL.ControlPoints[i]);
 	}
-	for (int i = 0; i < tempR.ControlPoints.size(); i++)
+	double scale = tempL.ControlPoints.back().GetW() / tempR.ControlPoints[0].GetW();
+	for (int i = 1; i < tempR.ControlPoints.size(); i++)
 	{
-		controlPoints.emplace_back(tempR.ControlPoints[i]);
+		controlPoints.emplace_back(scale * tempR.ControlPoints[i]);
 	}
 
 	std::vector<double> knotVector;
 	knotVector.reserve(ksize);
-	for (int i = 0; i < tempL.KnotVector.size(); i++)
+	for (int i = 0; i < tempL.KnotVector.size() - 1; i++)
 	{
 		knotVector.emplace_back(tempL.KnotVector[i]);
 	}
-- 
2.43.0


From f545c6b3bbc980ce77cd88359d8fe3f8a3988fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:39 +0000
Subject: [PATCH 099/101] fix: degree elevation of a curve with a knot of full
 multiplicity stays within its arrays

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 351a66d..bedca66 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1010,6 +1010,11 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 		r = degree - mul;
 
 		int lbz = oldr > 0 ? floor((oldr + 2) / 2) : 1;
+		if (oldr < 0 && a != degree)
+		{
+			// A knot of multiplicity degree + 1 does not share its point with the previous segment.
+			lbz = 0;
+		}
 		int rbz = r > 0 ? floor(ph - (r + 1) / 2) : ph;
 
 		if (r > 0)
@@ -1107,7 +1112,7 @@ void LNLib::NurbsCurve::ElevateDegree(const LN_NurbsCurve& curve, int times, LN_
 			{
 				bpts[j] = nextbpts[j];
 			}
-			for (int j = r; j <= degree; j++)
+			for (int j = std::max(r, 0); j <= degree; j++)
 			{
 				bpts[j] = controlPoints[b - degree + j];
 			}
-- 
2.43.0


From 83ce02363c5a949f8cd4063395690648f9a723de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:53 +0000
Subject: [PATCH 100/101] fix: every parameter found for a point on a closed
 curve lies in the domain

The iteration wrapped parameters with a relative tolerance that is wider than
the one of the range check, and left the last step unwrapped, so the search
threw out_of_range or returned a parameter outside the domain.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index bedca66..208cef7 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1452,21 +1452,20 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			double deltaT = std::max(minParam - maxParam, std::min(maxParam - minParam, f / df));
 			double newT = paramT - deltaT;
 
-			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
-				paramT = newT;
-				break;
-			}
-
 			if (!isClosed) {
 				newT = std::max(minParam, std::min(maxParam, newT));
 			}
 			else {
 				double range = maxParam - minParam;
-				while (MathUtils::IsLessThan(newT, minParam)) newT += range;
-				while (MathUtils::IsGreaterThan(newT, maxParam)) newT -= range;
+				while (newT < minParam) newT += range;
+				while (newT > maxParam) newT -= range;
 			}
 
 			paramT = newT;
+
+			if (MathUtils::IsAlmostEqualTo(std::abs(deltaT * Ct.Length()), 0.0)) {
+				break;
+			}
 		}
 
 		bool isDuplicate = false;
-- 
2.43.0


From 0844c5c1a4adee947c64ed07c7ca0a8b518a586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:47 +0000
Subject: [PATCH 101/101] fix: BezierSurface::Check compiles

It copied the two-dimensional control net into a one-dimensional list, so no
program that calls it could be built.
---
 src/LNLib/include/BezierSurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/include/BezierSurface.h b/src/LNLib/include/BezierSurface.h
index 8c44c70..d779e1d 100644
--- a/src/LNLib/include/BezierSurface.h
+++ b/src/LNLib/include/BezierSurface.h
@@ -30,7 +30,7 @@ namespace LNLib {
 		{
 			int degreeU = surface.DegreeU;
 			int degreeV = surface.DegreeV;
-			std::vector<T> controlPoints = surface.ControlPoints;
+			std::vector<std::vector<T>> controlPoints = surface.ControlPoints;
 
 			VALIDATE_ARGUMENT(degreeU > 0, "degreeU", "Degree must be greater than zero.");
 			VALIDATE_ARGUMENT(degreeV > 0, "degreeV", "Degree must be greater than zero.");
-- 
2.43.0

