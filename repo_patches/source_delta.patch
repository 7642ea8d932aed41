From 6e4baafa48f247037641e6da2983303b8f54318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 01/75] fix: NurbsVolume::Extract returns its surface to the
 caller

The output parameter was taken by value, so the extracted surface was lost.
---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 src/LNLib/include/NurbsVolume.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 3ed0070..6593440 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -670,7 +670,7 @@ bool LNLib::NurbsVolume::SplitAt(const LN_NurbsVolume& volume, double parameter,
 	return true;
 }
 
-bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface)
+bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface)
 {
 	int degreeU = volume.DegreeU;
 	int degreeV = volume.DegreeV;
diff --git a/src/LNLib/include/NurbsVolume.h b/src/LNLib/include/NurbsVolume.h
index 1230ec1..2da659a 100644
--- a/src/LNLib/include/NurbsVolume.h
+++ b/src/LNLib/include/NurbsVolume.h
@@ -37,7 +37,7 @@ namespace LNLib
 
         static bool SplitAt(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LN_NurbsVolume& first, LN_NurbsVolume& second);
 
-        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface surface);
+        static bool Extract(const LN_NurbsVolume& volume, double parameter, VolumeDirection direction, LNLib::LN_NurbsSurface& surface);
 
         static void RefineKnotVector(const LN_NurbsVolume& volume, const std::vector<double>& insertKnotElements, VolumeDirection direction, LN_NurbsVolume& result);
 
-- 
2.43.0


From 4c657a2f5f0b6afa22e17736c07900fe925dafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 02/75] fix: NurbsCurve::SplitArc returns the inserted weight
 to the caller

insertWeight is an output but was taken by value.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 src/LNLib/include/NurbsCurve.h          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index e63ba68..fcf9b5e 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1926,7 +1926,7 @@ bool LNLib::NurbsCurve::CreateOneConicArc(const XYZ& start, const XYZ& startTang
 	return false;
 }
 
-void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight)
+void LNLib::NurbsCurve::SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight)
 {
 	insertPointAtStartSide = start + projectPoint;
 	insertPointAtEndSide = end + projectPoint;
diff --git a/src/LNLib/include/NurbsCurve.h b/src/LNLib/include/NurbsCurve.h
index 62f28d9..f256034 100644
--- a/src/LNLib/include/NurbsCurve.h
+++ b/src/LNLib/include/NurbsCurve.h
@@ -209,7 +209,7 @@ namespace LNLib
 		/// The NURBS Book 2nd Edition Page317
 		/// Split arc.
 		/// </summary>
-		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double insertWeight);
+		static void SplitArc(const XYZ& start, const XYZ& projectPoint, double projectPointWeight, const XYZ& end, XYZ& insertPointAtStartSide, XYZ& splitPoint, XYZ& insertPointAtEndSide, double& insertWeight);
 
 		/// <summary>
 		/// The NURBS Book 2nd Edition Page317
-- 
2.43.0


From 6f2f5995e9201e439b69427868947ac28cd34a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 03/75] fix: NurbsCurve::InsertKnot fills the result when
 nothing is inserted

Returning 0 left the caller's result untouched.
---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index fcf9b5e..c8a3578 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -462,6 +462,7 @@ int LNLib::NurbsCurve::InsertKnot(const LN_NurbsCurve& curve, double insertKnot,
 	}
 	if (times <= 0)
 	{
+		result = curve;
 		return 0;
 	}
 	
-- 
2.43.0


From bd4afdc6b170a9e1e49ade26088d3d6ecfb31240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 04/75] fix: list outputs start empty instead of keeping the
 caller's previous contents

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp     | 3 +++
 src/LNLib/Geometry/Curve/BezierCurve.cpp    | 2 ++
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     | 5 +++++
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 +++
 src/LNLib/include/MathUtils.h               | 1 +
 5 files changed, 14 insertions(+)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index 9d8c456..da5da76 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -148,6 +148,9 @@ void LNLib::KnotVectorUtils::GetInsertedKnotElement(const std::vector<double>& k
 	std::map<double, int> map0 = GetKnotMultiplicityMap(knotVector0);
 	std::map<double, int> map1 = GetKnotMultiplicityMap(knotVector1);
 
+	insertElements0.clear();
+	insertElements1.clear();
+
 	for (auto it = map0.begin(); it != map0.end(); ++it)
 	{
 		double key0 = it->first;
diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index 443de54..ac917a8 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -38,6 +38,8 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 
 bool LNLib::BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(const XYZ& startPoint, const XYZ& startTangent, const XYZ& endPoint, const XYZ& endTangent, std::vector<XYZW>& controlPoints)
 {
+	controlPoints.clear();
+
 	XYZ chord = (endPoint - startPoint).Normalize();
 	XYZ nST = const_cast<XYZ&>(startTangent).Normalize();
 	XYZ nET = const_cast<XYZ&>(endTangent).Normalize();
diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c8a3578..392d424 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1172,6 +1172,9 @@ void LNLib::NurbsCurve::EquallyTessellate(const LN_NurbsCurve& curve, std::vecto
 	const auto& knotVector = curve.KnotVector;
 	const auto& controlPoints = curve.ControlPoints;
 
+	tessellatedPoints.clear();
+	correspondingKnots.clear();
+
 	std::vector<double> uniqueKv = knotVector;
 	uniqueKv.erase(unique(uniqueKv.begin(), uniqueKv.end()), uniqueKv.end());
 	int size = uniqueKv.size();
@@ -2936,6 +2939,7 @@ bool LNLib::NurbsCurve::FitWithConic(const std::vector<XYZ>& throughPoints, int
 
 	XYZ startPoint = throughPoints[startPointIndex];
 	XYZ endPoint = throughPoints[endPointIndex];
+	middleControlPoints.clear();
 	if (endPointIndex - startPointIndex == 1)
 	{
 		return BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(startPoint, startTangent, endPoint, endTangent, middleControlPoints);
@@ -3017,6 +3021,7 @@ bool LNLib::NurbsCurve::FitWithCubic(const std::vector<XYZ>& throughPoints, int
 	XYZ endPoint = throughPoints[endPointIndex];
 	double alpha = 0.0;
 	double beta = 0.0;
+	middleControlPoints.clear();
 	if (endPointIndex - startPointIndex == 1)
 	{
 		XYZ Dks(0, 0, 0);
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 73ab061..67f66ac 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1161,6 +1161,9 @@ void LNLib::NurbsSurface::EquallyTessellate(const LN_NurbsSurface& surface, std:
 	std::vector<double> knotVectorV = surface.KnotVectorV;
 	std::vector<std::vector<XYZW>> controlPoints = surface.ControlPoints;
 
+	tessellatedPoints.clear();
+	correspondingKnots.clear();
+
 	std::vector<double> uniqueKvU = knotVectorU;
 	uniqueKvU.erase(unique(uniqueKvU.begin(), uniqueKvU.end()), uniqueKvU.end());
 	int sizeU = uniqueKvU.size();
diff --git a/src/LNLib/include/MathUtils.h b/src/LNLib/include/MathUtils.h
index 4d5afb9..9bc7afa 100644
--- a/src/LNLib/include/MathUtils.h
+++ b/src/LNLib/include/MathUtils.h
@@ -60,6 +60,7 @@ namespace LNLib
 		static void Transpose(const std::vector<std::vector<T>>& matrix, std::vector<std::vector<T>>& transposed)
 		{
 			std::vector<T> temp;
+			transposed.clear();
 
 			for (int i = 0; i < matrix[0].size(); i++)
 			{
-- 
2.43.0


From 9a72da8dbda6d955d519a3a4b8b1909bbf658b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 05/75] fix: NurbsSurface::Reverse yields a complete surface
 for every direction

Reversing one direction left the other knot vector of the result unset, V
reversal doubled the rows with empty ones, and All did not reverse along V.
---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 67f66ac..bebde5c 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -481,6 +481,8 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
+	result.KnotVectorU = knotVectorU;
+	result.KnotVectorV = knotVectorV;
 
 	if (direction == SurfaceDirection::All || direction == SurfaceDirection::UDirection)
 	{
@@ -533,13 +535,17 @@ void LNLib::NurbsSurface::Reverse(const LN_NurbsSurface& surface, SurfaceDirecti
 		for (int i = 0; i < size; i++)
 		{
 			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
-			newControlPoints.emplace_back(controlPoints[i]);
+			newControlPoints[i] = controlPoints[i];
 		}
 		result.ControlPoints = newControlPoints;
 	}
 	else
 	{
 		std::reverse(controlPoints.begin(), controlPoints.end());
+		for (int i = 0; i < controlPoints.size(); i++)
+		{
+			std::reverse(controlPoints[i].begin(), controlPoints[i].end());
+		}
 		result.ControlPoints = controlPoints;
 	}
 
-- 
2.43.0


From 43be9f92e677cbf0179bf5074f1b727a068742a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 06/75] fix: NurbsVolume::Swap handles every pair of directions

Only (U,V), (U,W) and (V,W) were handled; the symmetric pairs and a direction
with itself left the result untouched.
---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 6593440..1d79485 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1569,7 +1569,12 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 	int v = controlPoints[0].size();
 	int w = controlPoints[0][0].size();
 
-	if (direction == VolumeDirection::U && swap == VolumeDirection::V)
+	if (direction == swap)
+	{
+		result = volume;
+	}
+	else if ((direction == VolumeDirection::U && swap == VolumeDirection::V) ||
+		(direction == VolumeDirection::V && swap == VolumeDirection::U))
 	{
 		result.DegreeU = degreeV;
 		result.DegreeV = degreeU;
@@ -1595,7 +1600,8 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
-	else if (direction == VolumeDirection::U && swap == VolumeDirection::W)
+	else if ((direction == VolumeDirection::U && swap == VolumeDirection::W) ||
+		(direction == VolumeDirection::W && swap == VolumeDirection::U))
 	{
 		result.DegreeU = degreeW;
 		result.DegreeV = degreeV;
@@ -1619,7 +1625,8 @@ void LNLib::NurbsVolume::Swap(const LN_NurbsVolume& volume, VolumeDirection dire
 
 		result.ControlPoints = newContrlPoints;
 	}
-	else if (direction == VolumeDirection::V && swap == VolumeDirection::W)
+	else if ((direction == VolumeDirection::V && swap == VolumeDirection::W) ||
+		(direction == VolumeDirection::W && swap == VolumeDirection::V))
 	{
 		result.DegreeU = degreeU;
 		result.DegreeV = degreeW;
-- 
2.43.0


From b6ee50d0ac9ecb1de0fb29b005dad02eaa274fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 07/75] fix: NurbsSurface::MakeCornerFilletSurface sets the
 knot vectors of its Bezier patch

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index bebde5c..2713128 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2150,6 +2150,8 @@ void LNLib::NurbsSurface::MakeCornerFilletSurface(const LN_NurbsCurve& arc, LN_N
 
 	surface.DegreeU = 4;
 	surface.DegreeV = 2;
+	surface.KnotVectorU = { 0,0,0,0,0,1,1,1,1,1 };
+	surface.KnotVectorV = { 0,0,0,1,1,1 };
 	surface.ControlPoints = controlPoints;
 }
 
-- 
2.43.0


From cdc1a30ab86e4cc266bf271efbd6bf7396be95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:53 +0000
Subject: [PATCH 08/75] fix: BsplineSurface::ComputeFirstOrderDerivative does
 not add to the caller's previous values

---
 src/LNLib/include/BsplineSurface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 4c669da..25687fc 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -180,6 +180,7 @@ namespace LNLib
 				int dd = std::min(1, dv);
 				for (int l = 0; l <= dd; l++)
 				{
+					derivatives[k][l] = T();
 					for (int s = 0; s <= degreeV; s++)
 					{
 						derivatives[k][l] += Nv[l][s] * temp[s];
-- 
2.43.0


From a7983d2c26e948bc355729eb4da2a98451689db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:17 +0000
Subject: [PATCH 09/75] fix: surface, volume and bounding box records have no
 undefined members after construction

---
 src/LNLib/include/LNObject.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LNLib/include/LNObject.h b/src/LNLib/include/LNObject.h
index e565541..aa10372 100644
--- a/src/LNLib/include/LNObject.h
+++ b/src/LNLib/include/LNObject.h
@@ -27,8 +27,8 @@ namespace LNLib
 	template <typename T>
 	struct LN_BezierSurface
 	{
-		int DegreeU;
-		int DegreeV;
+		int DegreeU = 1;
+		int DegreeV = 1;
 		std::vector<std::vector<T>> ControlPoints;
 	};
 
@@ -45,8 +45,8 @@ namespace LNLib
 	template <typename T>
 	struct LN_BsplineSurface
 	{
-		int DegreeU;
-		int DegreeV;
+		int DegreeU = 1;
+		int DegreeV = 1;
 		std::vector<double> KnotVectorU;
 		std::vector<double> KnotVectorV;
 		std::vector<std::vector<T>> ControlPoints;
@@ -57,9 +57,9 @@ namespace LNLib
 	template <typename T>
 	struct LN_BsplineVolume
 	{
-		int DegreeU;
-		int DegreeV;
-		int DegreeW;
+		int DegreeU = 1;
+		int DegreeV = 1;
+		int DegreeW = 1;
 
 		std::vector<double> KnotVectorU;
 		std::vector<double> KnotVectorV;
@@ -104,7 +104,7 @@ namespace LNLib
 
 		XYZ Center;        
 		XYZ Axes[3];
-		double HalfExtents[3];
+		double HalfExtents[3] = { 0.0, 0.0, 0.0 };
 	};
 }
 
-- 
2.43.0


From e07e775edafbe9971f64b8335a8c04653b403092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:17 +0000
Subject: [PATCH 10/75] fix: AreaData initialises the V knots too

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 2713128..f2a4872 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -46,7 +46,7 @@ namespace LNLib
 		const std::vector<double>& Series;
 
 		AreaData(const LN_NurbsSurface& surface, const std::vector<double>& series) :
-			Surface(surface), Series(series), ParameterV(0.0), CurrentKnotU(0.0), NextKnotU(1.0) {}
+			Surface(surface), Series(series), ParameterV(0.0), CurrentKnotU(0.0), NextKnotU(1.0), CurrentKnotV(0.0), NextKnotV(1.0) {}
 	};
 	class AreaCoreFunction : public IntegrationFunction
 	{
-- 
2.43.0


From 30a095df77775a46e2a5e3283f018a38b3472bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:51 +0000
Subject: [PATCH 11/75] fix: VoronoiDiagramGenerator frees the last block of
 its memory list

---
 src/LNLib/Algorithm/Voronoi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index d769c19..ecb4df6 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -714,7 +714,7 @@ void LNLib::VoronoiDiagramGenerator::cleanup()
 	}
 	allMemoryList = 0;
 
-	if (current != 0 && current->memory != 0)
+	if (current != 0)
 	{
 		free(current->memory);
 		delete current;
-- 
2.43.0


From a79991ff3af1e6c4588ce2368cb5c67b814093f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:51 +0000
Subject: [PATCH 12/75] fix: VoronoiDiagramGenerator deletes every edge of its
 edge lists

---
 src/LNLib/Algorithm/Voronoi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index ecb4df6..07046e6 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -743,7 +743,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 	GraphEdge* geCurrent = 0, * gePrev = 0;
 	geCurrent = gePrev = allEdges;
 
-	while (geCurrent != 0 && geCurrent->next != 0)
+	while (geCurrent != 0)
 	{
 		gePrev = geCurrent;
 		geCurrent = geCurrent->next;
@@ -754,7 +754,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 
 	geCurrent = gePrev = delaunayEdges;
 
-	while (geCurrent != 0 && geCurrent->next != 0)
+	while (geCurrent != 0)
 	{
 		gePrev = geCurrent;
 		geCurrent = geCurrent->next;
-- 
2.43.0


From f1d74d45359742ebc6e594f3cbb3ae2bdb7314f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:51 +0000
Subject: [PATCH 13/75] fix: VoronoiDiagramGenerator::generateVertexLinks
 releases its work arrays

---
 src/LNLib/Algorithm/Voronoi.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 07046e6..6402ba3 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -1283,11 +1283,11 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 	{
 		if (count3vertices != 0)
 		{
-			delete[] count3vertices;
+			free(count3vertices);
 		}
 		if (count1vertices != 0)
 		{
-			delete[] count1vertices;
+			free(count1vertices);
 		}
 		return;
 	}
@@ -1455,6 +1455,9 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 			}
 		}
 	}
+
+	free(count1vertices);
+	free(count3vertices);
 }
 
 bool LNLib::VoronoiDiagramGenerator::getNextVertexPair(float& x1, float& y1, float& x2, float& y2)
-- 
2.43.0


From 8d3c480b0554d5e6d93b92f54beee8905b377414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:51 +0000
Subject: [PATCH 14/75] fix: VoronoiDiagramGenerator::generateVertexLinks
 leaves the walk at an unexpected link count

---
 src/LNLib/Algorithm/Voronoi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 6402ba3..7840473 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -1424,6 +1424,10 @@ void LNLib::VoronoiDiagramGenerator::generateVertexLinks()
 					}
 
 				}
+				else
+				{
+					break;//this is an error, and shouldn't happen
+				}
 			}
 			if (currentVertex < 0 || currentVertex >= sizeOfVertexLinks)
 			{
-- 
2.43.0


From 9753175516a9c96f4b05cd10ea7804adb64d4d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:51 +0000
Subject: [PATCH 15/75] fix: VoronoiDiagramGenerator starts every run without
 the previous run's triangles and with defined counters

---
 src/LNLib/Algorithm/Voronoi.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 7840473..c36f8e5 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -38,6 +38,9 @@ LNLib::VoronoiDiagramGenerator::VoronoiDiagramGenerator()
 {
 	siteidx = 0;
 	sites = 0;
+	ntry = 0;
+	totalsearch = 0;
+	total_alloc = 0;
 
 	allMemoryList = new LNLib::FreeNodeArrayList;
 	allMemoryList->memory = 0;
@@ -116,6 +119,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 {
 	cleanup();
 	cleanupEdges();
+	triangles.clear();
 	int i;
 
 	minDistanceBetweenSites = minDist;
-- 
2.43.0


From 36fe8e7637815ddc86c7b9eaede9f21bc3186437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:51 +0000
Subject: [PATCH 16/75] fix: objects owning raw memory
 (VoronoiDiagramGenerator, Octant) cannot be copied

---
 src/LNLib/include/Octree.h  | 2 ++
 src/LNLib/include/Voronoi.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/LNLib/include/Octree.h b/src/LNLib/include/Octree.h
index 71dc343..06859b5 100644
--- a/src/LNLib/include/Octree.h
+++ b/src/LNLib/include/Octree.h
@@ -25,6 +25,8 @@ namespace LNLib
 
         Octant(LNLib::XYZ center, double extent, std::vector<int> indices, bool isLeaf);
         ~Octant();
+        Octant(const Octant&) = delete;
+        Octant& operator=(const Octant&) = delete;
     };
 
 
diff --git a/src/LNLib/include/Voronoi.h b/src/LNLib/include/Voronoi.h
index c26131e..087255d 100644
--- a/src/LNLib/include/Voronoi.h
+++ b/src/LNLib/include/Voronoi.h
@@ -122,6 +122,8 @@ namespace LNLib
 	public:
 		VoronoiDiagramGenerator();
 		~VoronoiDiagramGenerator();
+		VoronoiDiagramGenerator(const VoronoiDiagramGenerator&) = delete;
+		VoronoiDiagramGenerator& operator=(const VoronoiDiagramGenerator&) = delete;
 
 		bool generateVoronoi(float* xValues, float* yValues, int numPoints,
 			float minX, float maxX, float minY, float maxY, float minDist, bool genVectorInfo = true);
-- 
2.43.0


From e996a3fac19f9464cdf45e5dee25922dd3980df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:10 +0000
Subject: [PATCH 17/75] fix: VoronoiDiagramGenerator has no undefined members
 after construction

---
 src/LNLib/include/Voronoi.h | 40 ++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/LNLib/include/Voronoi.h b/src/LNLib/include/Voronoi.h
index 087255d..ae1bb1e 100644
--- a/src/LNLib/include/Voronoi.h
+++ b/src/LNLib/include/Voronoi.h
@@ -271,32 +271,32 @@ namespace LNLib
 		bool		genVoronoi;
 
 		struct		Freelist	hfl;
-		struct		Halfedge* ELleftend, * ELrightend;
-		int 		ELhashsize;
+		struct		Halfedge* ELleftend = nullptr, * ELrightend = nullptr;
+		int 		ELhashsize = 0;
 
-		int			triangulate, sorted, plot, debug;
-		float		xmin, xmax, ymin, ymax, deltax, deltay;
+		int			triangulate = 0, sorted = 0, plot = 0, debug = 0;
+		float		xmin = 0, xmax = 0, ymin = 0, ymax = 0, deltax = 0, deltay = 0;
 
 		struct		Site* sites;
-		int			nsites;
+		int			nsites = 0;
 		int			siteidx;
-		int			sqrt_nsites;
-		int			nvertices;
+		int			sqrt_nsites = 0;
+		int			nvertices = 0;
 		struct 		Freelist sfl;
-		struct		Site* bottomsite;
+		struct		Site* bottomsite = nullptr;
 
-		int			nedges;
+		int			nedges = 0;
 		struct		Freelist efl;
-		int			PQhashsize;
+		int			PQhashsize = 0;
 		struct		Halfedge* PQhash;
-		int			PQcount;
-		int			PQmin;
+		int			PQcount = 0;
+		int			PQmin = 0;
 
 		int			ntry, totalsearch;
-		float		pxmin, pxmax, pymin, pymax, cradius;
+		float		pxmin = 0, pxmax = 0, pymin = 0, pymax = 0, cradius = 0;
 		int			total_alloc;
 
-		float		borderMinX, borderMaxX, borderMinY, borderMaxY;
+		float		borderMinX = 0, borderMaxX = 0, borderMinY = 0, borderMaxY = 0;
 
 		FreeNodeArrayList* allMemoryList;
 		FreeNodeArrayList* currentMemoryBlock;
@@ -308,18 +308,18 @@ namespace LNLib
 		GraphEdge* iteratorDelaunayEdges;
 
 		Point3* vertexLinks; //lists all the vectors that each vector is directly connected to	
-		long		sizeOfVertexLinks;
+		long		sizeOfVertexLinks = 0;
 
 		Site** vertices;
-		long		sizeOfVertices;
+		long		sizeOfVertices = 0;
 
 		VertexLink* finalVertexLinks;
-		long 		sizeOfFinalVertexLinks;
-		long		currentVertexLink;
+		long 		sizeOfFinalVertexLinks = 0;
+		long		currentVertexLink = 0;
 
 		PointVDG* finalVertices;
-		long		sizeOfFinalVertices;
-		long 		currentVertex;
+		long		sizeOfFinalVertices = 0;
+		long 		currentVertex = 0;
 
 		float		minDistanceBetweenSites;
 	};
-- 
2.43.0


From ed4436489c2df330fdab3e04397347c8804d1e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:17 +0000
Subject: [PATCH 18/75] fix: NurbsVolume::Extract sets degrees and knots at the
 ends of the range and in the order of the control net

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 1d79485..8246545 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -691,6 +691,11 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 
 	if (direction == VolumeDirection::U)
 	{
+		newDegreeU = degreeV;
+		newDegreeV = degreeW;
+		newKvU = kvV;
+		newKvV = kvW;
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(parameter, kvU[0]))
 		{
 			Pwc = controlPoints[0];
@@ -718,15 +723,15 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				s = LNLib::Polynomials::GetKnotMultiplicity(kvU, parameter);
 			}
 			Pwc = controlPoints[k - s];
-
-			newDegreeU = degreeV;
-			newDegreeV = degreeW;
-			newKvU = kvV;
-			newKvV = kvW;
 		}
 	}
 	else if (direction == VolumeDirection::V)
 	{
+		newDegreeU = degreeU;
+		newDegreeV = degreeW;
+		newKvU = kvU;
+		newKvV = kvW;
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(parameter, kvV[0]))
 		{
 			Pwc.resize(controlPoints.size());
@@ -772,15 +777,15 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 				}
 			}
 			Pwc = tempPwc;
-
-			newDegreeU = degreeW;
-			newDegreeV = degreeU;
-			newKvU = kvW;
-			newKvV = kvU;
 		}
 	}
 	else if (direction == VolumeDirection::W)
 	{
+		newDegreeU = degreeU;
+		newDegreeV = degreeV;
+		newKvU = kvU;
+		newKvV = kvV;
+
 		if (LNLib::MathUtils::IsAlmostEqualTo(parameter, kvW[0]))
 		{
 			Pwc.resize(controlPoints.size());
@@ -826,11 +831,6 @@ bool LNLib::NurbsVolume::Extract(const LN_NurbsVolume& volume, double parameter,
 					Pwc[i][j] = controlPoints[i][j][k - s];
 				}
 			}
-
-			newDegreeU = degreeU;
-			newDegreeV = degreeV;
-			newKvU = kvU;
-			newKvV = kvV;
 		}
 	}
 
-- 
2.43.0


From 7368b6232011ccf0f4834c4bfb93c2d95a6b9305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:55 +0000
Subject: [PATCH 19/75] fix: parameter range validation rejects NaN

---
 src/LNLib/include/LNLibExceptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/include/LNLibExceptions.h b/src/LNLib/include/LNLibExceptions.h
index f38ab0d..19f3756 100644
--- a/src/LNLib/include/LNLibExceptions.h
+++ b/src/LNLib/include/LNLibExceptions.h
@@ -19,8 +19,8 @@
 	}
 
 #define VALIDATE_ARGUMENT_RANGE(arg, min, max)\
-	if(((arg)<(min) && std::fabs((arg)-(min))>Constants::DoubleEpsilon) || \
-	  ((arg)>(max) && std::fabs((arg)-(max))>Constants::DoubleEpsilon)){\
+	if(!((arg)>=(min) || std::fabs((arg)-(min))<=Constants::DoubleEpsilon) || \
+	  !((arg)<=(max) || std::fabs((arg)-(max))<=Constants::DoubleEpsilon)){\
 		throw std::out_of_range("Argument is out of range["#min","#max"]\r\nParameter name: "#arg);\
 	}
 
-- 
2.43.0


From 51ef6f9a5fcee621ac48263d5047162c7acd07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:15 +0000
Subject: [PATCH 20/75] fix: NurbsVolume::RefineKnotVector sizes the net for
 all inserted knots

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 8246545..5b93af1 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -865,7 +865,7 @@ void LNLib::NurbsVolume::RefineKnotVector(const LN_NurbsVolume& volume, const st
 
 	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
 
-	int times = insertKnotElements.size() - 1;
+	int times = insertKnotElements.size();
 	if (direction == VolumeDirection::U)
 	{
 		newControlPoints.resize(n + times + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-- 
2.43.0


From 311bc3ca83afb74a51187d05a15c5639913e2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:15 +0000
Subject: [PATCH 21/75] fix: NurbsVolume::Reverse sizes the control net for
 every direction

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 5b93af1..e824073 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -1425,7 +1425,7 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 	int m = controlPoints[0].size() - 1;
 	int l = controlPoints[0][0].size() - 1;
 
-	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints;
+	std::vector<std::vector<std::vector<LNLib::XYZW>>> newControlPoints(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
 
 	result.DegreeU = degreeU;
 	result.DegreeV = degreeV;
@@ -1436,8 +1436,6 @@ void LNLib::NurbsVolume::Reverse(const LN_NurbsVolume& volume, VolumeDirection d
 		std::vector<double> kvS = kvV;
 		std::vector<double> kvT = kvW;
 
-		newControlPoints.resize(n + 1, std::vector<std::vector<LNLib::XYZW>>(m + 1, std::vector<LNLib::XYZW>(l + 1)));
-
 		std::vector<double> kvR;
 
 		for (int sep = 0; sep <= l; sep++)
-- 
2.43.0


From 80623c9b12166047ce8c3870e9be71e8b3ff23ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:30 +0000
Subject: [PATCH 22/75] fix: NurbsVolume::InsertKnot keeps the net in step with
 the knots actually inserted

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index e824073..5b5a4de 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -404,6 +404,7 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		newControlPoints.resize(newKvU.size() - degreeU - 1);
 		result.KnotVectorU = newKvU;
 		result.ControlPoints = newControlPoints;
 	}
@@ -441,6 +442,10 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		for (int row = 0; row <= n; row++)
+		{
+			newControlPoints[row].resize(newKvV.size() - degreeV - 1);
+		}
 		result.KnotVectorV = newKvV;
 		result.ControlPoints = newControlPoints;
 	}
@@ -478,6 +483,13 @@ void LNLib::NurbsVolume::InsertKnot(const LN_NurbsVolume& volume, double insertK
 			}
 		}
 
+		for (int row = 0; row <= n; row++)
+		{
+			for (int col = 0; col <= m; col++)
+			{
+				newControlPoints[row][col].resize(newKvW.size() - degreeW - 1);
+			}
+		}
 		result.KnotVectorW = newKvW;
 		result.ControlPoints = newControlPoints;
 	}
-- 
2.43.0


From b915e6c28f97101a36922093d4f7f7bd665afe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 23/75] fix: NurbsSurface::Swap works in place

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f2a4872..f1ddc7d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -464,10 +464,10 @@ void LNLib::NurbsSurface::Swap(const LN_NurbsSurface& surface, LN_NurbsSurface&
 
 	std::vector<std::vector<XYZW>> transposedControlPoints;
 	MathUtils::Transpose(surface.ControlPoints, transposedControlPoints);
-	result.DegreeU = surface.DegreeV;
-	result.DegreeV = surface.DegreeU;
-	result.KnotVectorU = surface.KnotVectorV;
-	result.KnotVectorV = surface.KnotVectorU;
+	result.DegreeU = degreeV;
+	result.DegreeV = degreeU;
+	result.KnotVectorU = knotVectorV;
+	result.KnotVectorV = knotVectorU;
 	result.ControlPoints = transposedControlPoints;
 }
 
-- 
2.43.0


From 1534686b021d6b4b4da8454e622c5de785714341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 24/75] fix: NurbsCurve::ToClampCurve tests the input for
 closedness before storing the result

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 392d424..54dda71 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3584,11 +3584,12 @@ void LNLib::NurbsCurve::ToClampCurve(const LN_NurbsCurve& curve, LN_NurbsCurve&
 		}
 	}
 
+	bool isClosed = IsClosed(curve);
+
 	result.Degree = tc.Degree;
 	result.KnotVector = knotVector;
 	result.ControlPoints = controlPoints;
 
-	bool isClosed = IsClosed(curve);
 	bool isNowClosed = IsClosed(result);
 	if (isClosed && !isNowClosed)
 	{
-- 
2.43.0


From 0d4381ca64b88afda809e5606a1aa9d28edf47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:48 +0000
Subject: [PATCH 25/75] fix: wrap closed parameters in one step so that a huge
 or non-finite Newton step cannot hang

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp     |  8 ++++----
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 16 ++++++++--------
 src/LNLib/Geometry/Volume/NurbsVolume.cpp   | 13 +++++++------
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 54dda71..a45bb1c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1322,8 +1322,8 @@ double LNLib::NurbsCurve::GetParamOnCurve(const LN_NurbsCurve& curve, const XYZ&
 		}
 		else {
 			double range = maxParam - minParam;
-			while (newT < minParam) newT += range;
-			while (newT > maxParam) newT -= range;
+			if (newT < minParam) newT = maxParam - std::fmod(minParam - newT, range);
+			if (newT > maxParam) newT = minParam + std::fmod(newT - maxParam, range);
 		}
 
 		paramT = newT;
@@ -1419,8 +1419,8 @@ std::vector<double> LNLib::NurbsCurve::GetAllParamsOnCurve(const LN_NurbsCurve&
 			}
 			else {
 				double range = maxParam - minParam;
-				while (MathUtils::IsLessThan(newT, minParam)) newT += range;
-				while (MathUtils::IsGreaterThan(newT, maxParam)) newT -= range;
+				if (MathUtils::IsLessThan(newT, minParam)) newT = maxParam - std::fmod(minParam - newT, range);
+				if (MathUtils::IsGreaterThan(newT, maxParam)) newT = minParam + std::fmod(newT - maxParam, range);
 			}
 
 			paramT = newT;
diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index f1ddc7d..b8f11b4 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1374,13 +1374,13 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurface(const LN_NurbsSurface& surface,
 
 		if (isClosedU) {
 			double rangeU = maxU - minU;
-			while (newU < minU) newU += rangeU;
-			while (newU > maxU) newU -= rangeU;
+			if (newU < minU) newU = maxU - std::fmod(minU - newU, rangeU);
+			if (newU > maxU) newU = minU + std::fmod(newU - maxU, rangeU);
 		}
 		if (isClosedV) {
 			double rangeV = maxV - minV;
-			while (newV < minV) newV += rangeV;
-			while (newV > maxV) newV -= rangeV;
+			if (newV < minV) newV = maxV - std::fmod(minV - newV, rangeV);
+			if (newV > maxV) newV = minV + std::fmod(newV - maxV, rangeV);
 		}
 
 		if (!isClosedU) {
@@ -1513,8 +1513,8 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 
 			if (isClosedU) {
 				double rangeU = maxU - minU;
-				while (MathUtils::IsLessThan(newU, minU)) newU += rangeU;
-				while (MathUtils::IsGreaterThan(newU, maxU)) newU -= rangeU;
+				if (MathUtils::IsLessThan(newU, minU)) newU = maxU - std::fmod(minU - newU, rangeU);
+				if (MathUtils::IsGreaterThan(newU, maxU)) newU = minU + std::fmod(newU - maxU, rangeU);
 			}
 			else {
 				newU = std::max(minU, std::min(maxU, newU));
@@ -1522,8 +1522,8 @@ std::vector<LNLib::UV> LNLib::NurbsSurface::GetAllParamsOnSurface(const LN_Nurbs
 
 			if (isClosedV) {
 				double rangeV = maxV - minV;
-				while (newV < minV) newV += rangeV;
-				while (newV > maxV) newV -= rangeV;
+				if (newV < minV) newV = maxV - std::fmod(minV - newV, rangeV);
+				if (newV > maxV) newV = minV + std::fmod(newV - maxV, rangeV);
 			}
 			else {
 				newV = std::max(minV, std::min(maxV, newV));
diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 5b5a4de..1a035d4 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -16,6 +16,7 @@
 #include "MathUtils.h"
 #include "NurbsCurve.h"
 
+#include <cmath>
 #include <algorithm>
 
 LNLib::LN_NurbsCurve LNLib::NurbsVolume::GetIsoCurve(const LN_NurbsVolume& volume, UVW uvw)
@@ -1390,8 +1391,8 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 		if (isClosedU) {
 			double range = maxU - minU;
-			while (newU < minU) newU += range;
-			while (newU > maxU) newU -= range;
+			if (newU < minU) newU = maxU - std::fmod(minU - newU, range);
+			if (newU > maxU) newU = minU + std::fmod(newU - maxU, range);
 		}
 		else {
 			newU = std::max(minU, std::min(maxU, newU));
@@ -1399,8 +1400,8 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 		if (isClosedV) {
 			double range = maxV - minV;
-			while (newV < minV) newV += range;
-			while (newV > maxV) newV -= range;
+			if (newV < minV) newV = maxV - std::fmod(minV - newV, range);
+			if (newV > maxV) newV = minV + std::fmod(newV - maxV, range);
 		}
 		else {
 			newV = std::max(minV, std::min(maxV, newV));
@@ -1408,8 +1409,8 @@ LNLib::UVW LNLib::NurbsVolume::GetParamOnVolume(const LN_NurbsVolume& volume, co
 
 		if (isClosedW) {
 			double range = maxW - minW;
-			while (newW < minW) newW += range;
-			while (newW > maxW) newW -= range;
+			if (newW < minW) newW = maxW - std::fmod(minW - newW, range);
+			if (newW > maxW) newW = minW + std::fmod(newW - maxW, range);
 		}
 		else {
 			newW = std::max(minW, std::min(maxW, newW));
-- 
2.43.0


From 257fd7eada54230535586fc280788c7445f64e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 26/75] fix: cap the Newton iteration of the cubic equation
 solver

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index ec6dca1..82b06e1 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -126,7 +126,8 @@ double LNLib::MathUtils::ComputerCubicEquationsWithOneVariable(double cubic, dou
     double result;
     double initial = 0.001;
     result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
-    while(MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon))
+    const int maxIterations = 1000;
+    for (int i = 0; i < maxIterations && MathUtils::IsGreaterThan(std::abs(result-initial),Constants::DoubleEpsilon); i++)
     {
         initial = result;
         result = initial - ((cubic * std::pow(initial,3) + quadratic * std::pow(initial, 2) + linear * initial + constant) / (3 * cubic * std::pow(initial, 2) + 2 * quadratic * initial + linear));
-- 
2.43.0


From c9264bdde7f803306a0f11c49fd944cb64cbf477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 27/75] fix: decompose curves with knots of full multiplicity
 without hanging

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a45bb1c..4b4722c 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -719,17 +719,18 @@ std::vector<LNLib::LN_NurbsCurve> LNLib::NurbsCurve::DecomposeToBeziers(const LN
 				}
 			}
 
-			nb++;
-			if (b < m)
-			{
-				for (int i = degree - multi; i <= degree; i++)
-				{
-					beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
-				}
+		}
 
-				a = b;
-				b += 1;
+		nb++;
+		if (b < m)
+		{
+			for (int i = std::max(0, degree - multi); i <= degree; i++)
+			{
+				beziers[nb].ControlPoints[i] = controlPoints[b - degree + i];
 			}
+
+			a = b;
+			b += 1;
 		}
 	}
 	return beziers;
-- 
2.43.0


From 943f1d4b6163f5d60d02af21f1baf9bb0ec6084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 28/75] fix: stop dividing a curve by length when no further
 parameter is found

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 4b4722c..68c583d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -4140,8 +4140,10 @@ std::vector<double> LNLib::NurbsCurve::GetParamsOnCurve(const LN_NurbsCurve& cur
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
 		bool isSplited = SplitAt(curve, param, left, right);
-		if (!isSplited) continue;
-		param = GetParamOnCurve(right, givenLength, type);
+		if (!isSplited) break;
+		double next = GetParamOnCurve(right, givenLength, type);
+		if (!MathUtils::IsGreaterThan(next, param)) break;
+		param = next;
 	}
 	return result;
 }
-- 
2.43.0


From 233d3844b9c1a12d83440d781d3cafe4639750e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 29/75] fix: bound the recursion depth of the length
 integration and of the length search

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 68c583d..6ee0c01 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -44,7 +44,7 @@ namespace LNLib
 		}
 	};
 
-	double CalculateLengthBySimpson(FirstDerivativeLengthFunction function, const LN_NurbsCurve& curve, double start, double end, double simpson, double tolearance)
+	double CalculateLengthBySimpson(FirstDerivativeLengthFunction function, const LN_NurbsCurve& curve, double start, double end, double simpson, double tolearance, int depth = 0)
 	{
 		double length = 0.0;
 		double m = (start + end) / 2.0;
@@ -52,21 +52,24 @@ namespace LNLib
 		double right = Integrator::Simpson(function, (void*)& curve, m, end);
 
 		double differ = left + right - simpson;
-		if (MathUtils::IsAlmostEqualTo(differ, 0.0) || 
+		const int maxDepth = 30;
+		if (depth >= maxDepth || MathUtils::IsAlmostEqualTo(differ, 0.0) || 
 			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
 		else
 		{
-			length = CalculateLengthBySimpson(function, curve, start, m, left, tolearance / 2.0) + CalculateLengthBySimpson(function, curve, m, end, right, tolearance / 2.0);
+			length = CalculateLengthBySimpson(function, curve, start, m, left, tolearance / 2.0, depth + 1) + CalculateLengthBySimpson(function, curve, m, end, right, tolearance / 2.0, depth + 1);
 		}
 		return length;
 	}
 
-	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type)
+	double GetParamByLength(const LN_NurbsCurve& curve, double start, double end, double givenLength, IntegratorType type, int depth = 0)
 	{
 		double middle = (start + end) / 2.0;
+		const int maxDepth = 100;
+		if (depth >= maxDepth) return middle;
 
 		LN_NurbsCurve left;
 		LN_NurbsCurve right;
@@ -80,12 +83,12 @@ namespace LNLib
 		else if (MathUtils::IsGreaterThan(length, givenLength, Constants::DistanceEpsilon))
 		{
 			end = middle;
-			return GetParamByLength(curve, start, end, givenLength, type);
+			return GetParamByLength(curve, start, end, givenLength, type, depth + 1);
 		}
 		else if (MathUtils::IsLessThan(length, givenLength, Constants::DistanceEpsilon))
 		{
 			start = middle;
-			return GetParamByLength(curve, start, end, givenLength, type);
+			return GetParamByLength(curve, start, end, givenLength, type, depth + 1);
 		}
 		return middle;
 	}
-- 
2.43.0


From 53c9107c30571fb7fae12ddb6fe458e70d4be0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 30/75] fix: bound the subdivision depth of the Simpson area

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index b8f11b4..d08abbe 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3446,8 +3446,11 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 			{
 				double u1, u2, v1, v2;
 				double area;
+				int depth;
 			};
+			const int maxDepth = 10;
 			UVA init;
+			init.depth = 0;
 			init.u1 = 0;
 			init.u2 = 1;
 			init.v1 = 0;
@@ -3466,6 +3469,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 				double hdu = 0.5 * du;
 				double hdv = 0.5 * dv;
 				UVA uva1, uva2, uva3, uva4;
+				uva1.depth = uva2.depth = uva3.depth = uva4.depth = uva.depth + 1;
 				uva1.u1 = uva.u1;
 				uva1.u2 = uva.u1 + hdu;
 				uva1.v1 = uva.v1;
@@ -3491,7 +3495,7 @@ double LNLib::NurbsSurface::ApproximateArea(const LN_NurbsSurface& surface, Inte
 				double areaNew = uva1.area + uva2.area + uva3.area + uva4.area;
 
 				// The error is tolerated.
-				if(std::fabs(areaNew - uva.area) < Constants::DistanceEpsilon)
+				if(uva.depth >= maxDepth || std::fabs(areaNew - uva.area) < Constants::DistanceEpsilon)
 				{
 					// Accumulate to the final area.
 					area += areaNew;
-- 
2.43.0


From b3eaa581065d780673820b9d2bd97b8b00978422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 31/75] fix: stop inserting middle knots when no span is left

---
 src/LNLib/Algorithm/KnotVectorUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/KnotVectorUtils.cpp b/src/LNLib/Algorithm/KnotVectorUtils.cpp
index da5da76..0c4b4f1 100644
--- a/src/LNLib/Algorithm/KnotVectorUtils.cpp
+++ b/src/LNLib/Algorithm/KnotVectorUtils.cpp
@@ -20,7 +20,7 @@ namespace LNLib
 {
 	void InsertMidKnotCore(std::vector<double>& unqiueKnotVector, std::vector<double>& insert, int limitNumber)
 	{
-		if (insert.size() == limitNumber)
+		if ((int)insert.size() >= limitNumber)
 		{
 			return;
 		}
@@ -37,6 +37,10 @@ namespace LNLib
 					index = i;
 				}
 			}
+			if (index < 0)
+			{
+				return;
+			}
 			double current = unqiueKnotVector[index] + standard / 2.0;
 			unqiueKnotVector.emplace_back(current);
 			std::sort(unqiueKnotVector.begin(), unqiueKnotVector.end());
-- 
2.43.0


From 522ac923725d33783c30b3c9591577b18142f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:45 +0000
Subject: [PATCH 32/75] fix: stop the octree subdivision at zero extent
 whatever the requested minimum

---
 src/LNLib/Algorithm/Octree/Octree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Algorithm/Octree/Octree.cpp b/src/LNLib/Algorithm/Octree/Octree.cpp
index 4c3c33b..8e66226 100644
--- a/src/LNLib/Algorithm/Octree/Octree.cpp
+++ b/src/LNLib/Algorithm/Octree/Octree.cpp
@@ -79,7 +79,7 @@ LNLib::Octant* OctreeRecursiveBuild(LNLib::Octant* root, const std::vector<LNLib
         root = new LNLib::Octant(center, extent, pointIndices, true);
     }
 
-    if ((int)pointIndices.size() <= leafSize || extent <= minExtent) {
+    if ((int)pointIndices.size() <= leafSize || !(extent > std::max(minExtent, 0.0))) {
         root->IsLeaf = true;
     }
     else {
-- 
2.43.0


From 0bdca1c0a459f228a1b963642dee6a656ede0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:58 +0000
Subject: [PATCH 33/75] fix: bound the number of attempts of ProjectNormal

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 6ee0c01..3a0397d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -375,7 +375,8 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	XYZ T0 = ComputeRationalCurveDerivatives(curve, 1, v0)[1].Normalize();
 
 	bool flag = true;
-	while (flag)
+	const int maxAttempts = 100;
+	for (int attempt = 0; flag && attempt < maxAttempts; attempt++)
 	{
 		bool needReCal = false;
 		Blist[0] = XYZ::CreateRandomOrthogonal(T0);
-- 
2.43.0


From 4eb28b080928fd675c1cae6f271f914d7fe174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:58 +0000
Subject: [PATCH 34/75] fix: size the averaged binormals of a closed curve for
 the last index

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3a0397d..2856eb1 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -405,7 +405,7 @@ std::vector<LNLib::XYZ> LNLib::NurbsCurve::ProjectNormal(const LN_NurbsCurve& cu
 	{
 		Blist[m] = Blist[0];
 
-		std::vector<XYZ> Baver(m);
+		std::vector<XYZ> Baver(size);
 		Baver[m] = Blist[0];
 
 		for (int i = m - 1; i >= 1; i--)
-- 
2.43.0


From 4e82a432f48b4270fcdf402ef9f5a9e820642886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 35/75] fix: bounding box of a surface samples every knot pair

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index d08abbe..8ade12f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -354,7 +354,7 @@ LNLib::LN_BoundingBox3d LNLib::NurbsSurface::GetBoundingBox(const LN_NurbsSurfac
 		for (int j = 0; j < surface.KnotVectorV.size() - 1; j++)
 		{
 			double u = surface.KnotVectorU[i];
-			double v = surface.KnotVectorV[i];
+			double v = surface.KnotVectorV[j];
 
 			XYZ pt = GetPointOnSurface(surface, UV(u,v));
 			box1.MinPoint.X() = std::min(box1.MinPoint.X(), pt.X());
-- 
2.43.0


From db5161ab68babda79d4c769bb5641952ad02dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 36/75] fix: point on a quadratic arc divides each control
 point by its own weight

---
 src/LNLib/Geometry/Curve/BezierCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/BezierCurve.cpp b/src/LNLib/Geometry/Curve/BezierCurve.cpp
index ac917a8..0f27120 100644
--- a/src/LNLib/Geometry/Curve/BezierCurve.cpp
+++ b/src/LNLib/Geometry/Curve/BezierCurve.cpp
@@ -29,9 +29,9 @@ XYZ LNLib::BezierCurve::GetPointOnQuadraticArc(const XYZW& startPoint, const XYZ
 	double w0 = startPoint.GetW();
 	XYZ P0 = XYZ(startPoint.GetWX()/w0, startPoint.GetWY()/w0, startPoint.GetWZ()/w0);
 	double w1 = middlePoint.GetW();
-	XYZ P1 = XYZ(middlePoint.GetWX() / w0, middlePoint.GetWY() / w0, middlePoint.GetWZ() / w0);
+	XYZ P1 = XYZ(middlePoint.GetWX() / w1, middlePoint.GetWY() / w1, middlePoint.GetWZ() / w1);
 	double w2 = endPoint.GetW();
-	XYZ P2 = XYZ(endPoint.GetWX() / w0, endPoint.GetWY() / w0, endPoint.GetWZ() / w0);
+	XYZ P2 = XYZ(endPoint.GetWX() / w2, endPoint.GetWY() / w2, endPoint.GetWZ() / w2);
 
 	return  ((1 - paramT) * (1 - paramT) * w0 * P0 + 2 * paramT * (1 - paramT) * w1 * P1 + paramT * paramT * w2 * P2) / ((1 - paramT) * (1 - paramT) * w0 + 2 * paramT * (1 - paramT) * w1 + paramT * paramT * w2);
 }
-- 
2.43.0


From 88831991045de7e28f3fb49504610702c3f9b3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 37/75] fix: volume derivatives sum the U partial sums in V

---
 src/LNLib/Geometry/Volume/NurbsVolume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Volume/NurbsVolume.cpp b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
index 1a035d4..c30699d 100644
--- a/src/LNLib/Geometry/Volume/NurbsVolume.cpp
+++ b/src/LNLib/Geometry/Volume/NurbsVolume.cpp
@@ -250,7 +250,7 @@ std::vector<std::vector<std::vector<LNLib::XYZ>>> LNLib::NurbsVolume::ComputeVol
 				}
 				for (int y = 0; y <= degreeV; ++y)
 				{
-					temp2[z] += Nv[b][y] * temp2[y];
+					temp2[z] += Nv[b][y] * temp1[y];
 				}
 			}
 			int ddc = std::min(derivative - a - b, dw);
-- 
2.43.0


From 28e1cca9a80dbccbeecfb0e99a704185ff3433bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 38/75] fix: mixed derivative control points of a B-spline
 surface use its V knots

---
 src/LNLib/include/BsplineSurface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/include/BsplineSurface.h b/src/LNLib/include/BsplineSurface.h
index 25687fc..6af5ca4 100644
--- a/src/LNLib/include/BsplineSurface.h
+++ b/src/LNLib/include/BsplineSurface.h
@@ -240,7 +240,7 @@ namespace LNLib
 					}
 				}
 			}
-			std::vector<double> tempKv(knotVectorV.size(), minSpanIndexV);
+			std::vector<double> tempKv(knotVectorV.begin() + minSpanIndexV, knotVectorV.end());
 			for (int k = 0; k < du; k++)
 			{
 				for (int i = 0; i <= rangeU - k; i++)
@@ -255,7 +255,7 @@ namespace LNLib
 					std::vector<std::vector<T>> temp = BsplineCurve::ComputeControlPointsOfDerivatives(bsplineCurve, dd, 0, rangeV);
 					for (int l = 1; l <= dd; l++)
 					{
-						for (int j = 0; j < rangeV - l; j++)
+						for (int j = 0; j <= rangeV - l; j++)
 						{
 							PKL[k][l][i][j] = temp[l][j];
 						}
-- 
2.43.0


From eafac436dac1e2ad4ee5b2e5c5fb60c7e7489a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 39/75] fix: absolute values of reals in curves are not
 truncated to integers

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2856eb1..303de69 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -54,7 +54,7 @@ namespace LNLib
 		double differ = left + right - simpson;
 		const int maxDepth = 30;
 		if (depth >= maxDepth || MathUtils::IsAlmostEqualTo(differ, 0.0) || 
-			MathUtils::IsLessThan(abs(differ) / 15.0, tolearance))
+			MathUtils::IsLessThan(std::abs(differ) / 15.0, tolearance))
 		{
 			length = left + right + differ / 15.0;
 		}
@@ -1501,7 +1501,7 @@ void LNLib::NurbsCurve::Reparametrize(const LN_NurbsCurve& curve, double alpha,
 			double lambda = updatedKnotVector[i + j] * gamma - alpha;
 			temp = temp * lambda;
 		}
-		double newW = abs(controlPoints[i].GetW() * temp);
+		double newW = std::abs(controlPoints[i].GetW() * temp);
 		updatedControlPoints[i] = XYZW(const_cast<XYZW&>(controlPoints[i]).ToXYZ(true), newW);
 	}
 
@@ -3314,8 +3314,8 @@ bool LNLib::NurbsCurve::NeighborWeightsModification(const LN_NurbsCurve& curve,
 	double abk = D.Distance(movePoint2) / controlLegLength;
 	double abk1 = C.Distance(movePoint1) / controlLegLength;
 
-	if (MathUtils::IsLessThan(abs(ak), 0.0) || MathUtils::IsLessThan(abs(ak1), 0.0) ||
-		MathUtils::IsLessThan(abs(abk), 0.0) || MathUtils::IsLessThan(abs(abk1), 0.0))
+	if (MathUtils::IsLessThan(std::abs(ak), 0.0) || MathUtils::IsLessThan(std::abs(ak1), 0.0) ||
+		MathUtils::IsLessThan(std::abs(abk), 0.0) || MathUtils::IsLessThan(std::abs(abk1), 0.0))
 	{
 		return false;
 	}
@@ -3359,7 +3359,7 @@ void LNLib::NurbsCurve::Warping(const LN_NurbsCurve& curve, const std::vector<do
 	{
 		double weight = temp[i].GetW();
 		XYZ currentPoint = temp[i].ToXYZ(true);
-		XYZ newPoint = currentPoint + warpShape[i] * abs(warpDistance) * W.Normalize();
+		XYZ newPoint = currentPoint + warpShape[i] * std::abs(warpDistance) * W.Normalize();
 		resultControlPoints.emplace_back(XYZW(newPoint, weight));
 	}
 	
-- 
2.43.0


From 9bf128498e8bb43d2a501c1a968994f8f497106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 40/75] fix: absolute values of reals in surfaces are not
 truncated to integers

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 8ade12f..fe834ed 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -290,8 +290,8 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 
 	double K = (L * N - M * M) / denominator;
 	double H = (E * N + G * L - 2 * F * M) / (2 * denominator);
-	double k1 = H + std::sqrt(abs(H * H - K));
-	double k2 = H - std::sqrt(abs(H * H - K));
+	double k1 = H + std::sqrt(std::abs(H * H - K));
+	double k2 = H - std::sqrt(std::abs(H * H - K));
 
 	if (curvature == SurfaceCurvature::Gauss)
 	{
@@ -311,7 +311,7 @@ double LNLib::NurbsSurface::Curvature(const LN_NurbsSurface& surface, SurfaceCur
 	}
 	else if (curvature == SurfaceCurvature::Abs)
 	{
-		return abs(k1) + abs(k2);
+		return std::abs(k1) + std::abs(k2);
 	}
 	else if (curvature == SurfaceCurvature::Rms)
 	{
@@ -1611,7 +1611,7 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		double a2 = (c1 * c1 * s2 - c1 * c2 * s1 - c1 * F * s3 + c2 * E * s3 - E * s2 + F * s1)/(c1 * c1 * G - 2 * c1 * c2 * F + c2 * c2 * E - E * G + F * F);
 
 		double curvature = (L * a1 * a1 + 2 * M * a1* a2 + N * a2 * a2)/(E * a1 * a1 + 2 * F * a1 * a2 + G * a2 * a2);
-		double radius = 1 / abs(curvature);
+		double radius = 1 / std::abs(curvature);
 
 		XYZ m = p0 + radius * normal;
 		XYZ q = givenPoint + (m - givenPoint) * (1 - radius / (m.Distance(givenPoint)));
@@ -1628,8 +1628,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 		u0 = ut;
 		v0 = vt;
 
-		bool condition1 = MathUtils::IsLessThanOrEqual(abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(abs(deltaV), Constants::DoubleEpsilon);
-		bool condition2 = MathUtils::IsLessThanOrEqual((abs(deltaU) * abs(deltaU) + abs(deltaV) * abs(deltaV)), Constants::DoubleEpsilon);
+		bool condition1 = MathUtils::IsLessThanOrEqual(std::abs(deltaU), Constants::DoubleEpsilon) && MathUtils::IsLessThanOrEqual(std::abs(deltaV), Constants::DoubleEpsilon);
+		bool condition2 = MathUtils::IsLessThanOrEqual((std::abs(deltaU) * std::abs(deltaU) + std::abs(deltaV) * std::abs(deltaV)), Constants::DoubleEpsilon);
 
 		if (condition1 || condition2)
 		{
-- 
2.43.0


From 5df218b0735d25aa74d09eb321fc2f46f02017d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 41/75] fix: grid tessellation samples the surface's own
 parameter domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index fe834ed..44f3959 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3910,10 +3910,10 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 
 		for (int i = 0; i < resolutionU; ++i)
 		{
-			double u = (double)i / (resolutionU - 1);
+			double u = surface.KnotVectorU[0] + (surface.KnotVectorU.back() - surface.KnotVectorU[0]) * i / (resolutionU - 1);
 			for (int j = 0; j < resolutionV; ++j)
 			{
-				double v = (double)j / (resolutionV - 1);
+				double v = surface.KnotVectorV[0] + (surface.KnotVectorV.back() - surface.KnotVectorV[0]) * j / (resolutionV - 1);
 				points[i][j] = GetPointOnSurface(surface, UV(u, v));
 				uvs[i][j] = { u, v };
 			}
-- 
2.43.0


From ee544d6606f7aa351d25b58f2fad7142088d0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 42/75] fix: geometric strain algorithm starts in the middle of
 the domain

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 44f3959..2447294 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -1568,8 +1568,8 @@ LNLib::UV LNLib::NurbsSurface::GetParamOnSurfaceByGSA(const LN_NurbsSurface& sur
 	double minV = knotVectorV[0];
 	double maxV = knotVectorV[knotVectorV.size() - 1];
 
-	double u0 = (maxU - minU) * 0.5;
-	double v0 = (maxV - minV) * 0.5;
+	double u0 = (minU + maxU) * 0.5;
+	double v0 = (minV + maxV) * 0.5;
 
 	int counter = 0;
 
-- 
2.43.0


From 8a4de82b121f990e36d7484ce1a84f53bc227178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 43/75] fix: adaptive tessellation guards the area range it
 divides by

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 2447294..bac4703 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3758,7 +3758,7 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 		iterMin = min_element(area.begin(), area.end());
 		double minArea = *min_element(iterMin->begin(), iterMin->end());
 		double areaRange = maxArea - minArea;
-		if (MathUtils::IsAlmostEqualTo(curvatureRange, 0.0))
+		if (MathUtils::IsAlmostEqualTo(areaRange, 0.0))
 		{
 			area = std::vector<std::vector<double>>(samplesU - 1, std::vector<double>(samplesV - 1, 0.0));
 		}
-- 
2.43.0


From ad98ddc5552da68f9e43e9082cbb3feedb5a1de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:51 +0000
Subject: [PATCH 44/75] fix: adaptive tessellation measures the far V edge

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index bac4703..7286d1d 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -3860,7 +3860,7 @@ LNLib::LN_Mesh LNLib::NurbsSurface::Triangulate(const LN_NurbsSurface& surface,
 
 		double vLength0 = surfacePoints[0][0].Distance(surfacePoints[0][column - 1]);
 		double vLength1 = surfacePoints[row / 2][0].Distance(surfacePoints[row / 2][column - 1]);
-		double vLength2 = surfacePoints[row - 1][column - 1].Distance(surfacePoints[row - 1][column - 1]);
+		double vLength2 = surfacePoints[row - 1][0].Distance(surfacePoints[row - 1][column - 1]);
 		double vLength = std::max({ vLength0, vLength1, vLength2 });
 
 		double uCoeff = uLength / (umax - umin);
-- 
2.43.0


From 02c54f47173d0cb70e9de6d493d49aec1d3a28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:19 +0000
Subject: [PATCH 45/75] fix: RemoveKnot drops as many knots as control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 303de69..c6e652d 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -759,17 +759,6 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 	int first = r - degree;
 	int last = r - s;
 
-	std::vector<double> restKnotVector = knotVector;
-	int m = n + degree + 1;
-	for (int k = r + 1; k <= m; k++)
-	{
-		restKnotVector[k - times] = restKnotVector[k];
-	}
-	for (int i = 0; i < times; i++)
-	{
-		restKnotVector.pop_back();
-	}
-
 	std::vector<XYZW> updatedControlPoints = controlPoints;
 	std::vector<XYZW> temp(2 * degree + 1);
 
@@ -841,6 +830,17 @@ bool LNLib::NurbsCurve::RemoveKnot(const LN_NurbsCurve& curve, double removeKnot
 		return false;
 	}
 
+	std::vector<double> restKnotVector = knotVector;
+	int m = n + degree + 1;
+	for (int k = r + 1; k <= m; k++)
+	{
+		restKnotVector[k - t] = restKnotVector[k];
+	}
+	for (int i = 0; i < t; i++)
+	{
+		restKnotVector.pop_back();
+	}
+
 	int j = (2 * r - s - degree) / 2;
 	int i = j;
 
-- 
2.43.0


From 5d1d1dbc13a46463f47e75528f8b3469a4faeed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:50 +0000
Subject: [PATCH 46/75] fix: a surface knot that cannot be removed from every
 row is kept

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 7286d1d..cae15e1 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -997,7 +997,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 
 			LN_NurbsCurve newtc;
 
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				newtc.KnotVector.size() + times != tc.KnotVector.size())
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
@@ -1017,7 +1021,11 @@ void LNLib::NurbsSurface::RemoveKnot(const LN_NurbsSurface& surface, double remo
 			tc.ControlPoints = controlPoints[i];
 
 			LN_NurbsCurve newtc;
-			NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc);
+			if (!NurbsCurve::RemoveKnot(tc, removeKnot, times, newtc) ||
+				newtc.KnotVector.size() + times != tc.KnotVector.size())
+			{
+				return;
+			}
 			tempControlPoints.emplace_back(newtc.ControlPoints);
 			tempKnotVector = newtc.KnotVector;
 		}
-- 
2.43.0


From 87453cc1ae170dfc51151d32bf4e86cff768c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:50 +0000
Subject: [PATCH 47/75] fix: RemoveKnotsByGivenBound keeps a knot that could
 not be removed

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index c6e652d..57b7e82 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2819,7 +2819,13 @@ void LNLib::NurbsCurve::RemoveKnotsByGivenBound(const LN_NurbsCurve& curve, cons
 			tc.ControlPoints = tempCP;
 
 			LN_NurbsCurve newtc;
-			RemoveKnot(tc, tempU[r], 1, newtc);
+			if (!RemoveKnot(tc, tempU[r], 1, newtc))
+			{
+				Br[r] = Constants::MaxDistance;
+				updatedKnotVector = tempU;
+				updatedControlPoints = tempCP;
+				continue;
+			}
 			std::vector<double> tempNewU = newtc.KnotVector;
 			std::vector<XYZW> tempNewCP = newtc.ControlPoints;
 
-- 
2.43.0


From e31227e8a0deb70e0d46041b918b7ee0cc5cc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 48/75] fix: NonUniformScaling keeps the weighting of its
 control points

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index cae15e1..4d54222 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2009,7 +2009,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double y = current.GetWY() / weight;
 				double z = current.GetWZ() / weight;
 
-				row.emplace_back(XYZW(x * xFactor, y * yFactor, z * zFactor, weight));
+				row.emplace_back(XYZW(XYZ(x * xFactor, y * yFactor, z * zFactor), weight));
 			}
 			result.emplace_back(row);
 		}
@@ -2031,7 +2031,7 @@ std::vector<std::vector<LNLib::XYZW>> LNLib::NurbsSurface::NonUniformScaling(con
 				double newY = y * yFactor + (1 - yFactor) * referencePoint[1];
 				double newZ = z * zFactor + (1 - zFactor) * referencePoint[2];
 
-				row.emplace_back(XYZW(newX, newY, newZ, weight));
+				row.emplace_back(XYZW(XYZ(newX, newY, newZ), weight));
 			}
 			result.emplace_back(row);
 		}
-- 
2.43.0


From 7665c453f9765ba85d2a3346d24e21eedebb6161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 49/75] fix: MakeInverse reports a singular matrix

---
 src/LNLib/Mathematics/Utils/MathUtils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Mathematics/Utils/MathUtils.cpp b/src/LNLib/Mathematics/Utils/MathUtils.cpp
index 82b06e1..68e6aa1 100644
--- a/src/LNLib/Mathematics/Utils/MathUtils.cpp
+++ b/src/LNLib/Mathematics/Utils/MathUtils.cpp
@@ -212,7 +212,12 @@ bool LNLib::MathUtils::MakeInverse(const std::vector<std::vector<double>>& matri
         m.row(i) = Eigen::VectorXd::Map(&matrix[i][0], matrix[i].size());
     }
 
-    auto result = m.inverse();
+    Eigen::FullPivLU<Eigen::MatrixXd> lu(m);
+    if (!lu.isInvertible())
+    {
+        return false;
+    }
+    Eigen::MatrixXd result = lu.inverse();
     inverse.resize(row);
     for (int k = 0; k < row; k++)
     {
-- 
2.43.0


From 637fe6252d2ee2e4d09032640220f51e118f23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:59 +0000
Subject: [PATCH 50/75] fix: ConstraintBasedModification rejects constraints
 that cannot be met independently

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 57b7e82..3f68bd5 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3529,7 +3529,8 @@ void LNLib::NurbsCurve::ConstraintBasedModification(const LN_NurbsCurve& curve,
 	MathUtils::Transpose(Bopt, Bt);
 	std::vector<std::vector<double>> BoptBt = MathUtils::MatrixMultiply(Bopt, Bt);
 	std::vector<std::vector<double>> BBt;
-	MathUtils::MakeInverse(BoptBt, BBt);
+	bool isInvertible = MathUtils::MakeInverse(BoptBt, BBt);
+	VALIDATE_ARGUMENT(isInvertible, "derivativeConstraints", "Constraints must be independent of each other.");
 
 	auto A = MathUtils::MatrixMultiply(Bt, BBt);
 	std::vector<std::vector<double>> dD(D.size(), std::vector<double>(3));
-- 
2.43.0


From 89cf0e294b1c675d3ee4e0379134ef2a913e6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:42 +0000
Subject: [PATCH 51/75] fix: Extend keeps the curve when the extension arc
 cannot be built

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 3f68bd5..2468162 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3951,7 +3951,7 @@ void LNLib::NurbsCurve::Extend(const LN_NurbsCurve& curve, double delta, bool is
 				endRad = atan2(y, x);
 			}
 
-			CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend);
+			if (!CreateArc(center, xAxis, yAxis, startRad, endRad, radius, radius, extend)) return;
 			isFromStart ? Merge(extend, curve, result) : Merge(curve, extend, result);
 			break;
 		}
-- 
2.43.0


From 10ecc8066367c6f1f9690a0665be7c31946f5374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:42 +0000
Subject: [PATCH 52/75] fix: GlobalInterpolation rejects points that have no
 parametrization

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 4d54222..65f1e85 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2181,7 +2181,8 @@ void LNLib::NurbsSurface::GlobalInterpolation(
 	VALIDATE_ARGUMENT(rows > degreeV, "throughPoints", "Row size must be greater than degreeV.");
 
 	std::vector<double> uk, vl;
-	Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
+	bool hasParameters = Interpolation::GetSurfaceMeshParameterization(throughPoints, uk, vl);
+	VALIDATE_ARGUMENT(hasParameters, "throughPoints", "ThroughPoints must not coincide along a whole direction.");
 
 	std::vector<double> knotVectorU = Interpolation::AverageKnotVector(degreeU, uk);
 	std::vector<double> knotVectorV = Interpolation::AverageKnotVector(degreeV, vl);
-- 
2.43.0


From f60cc83f48a26a86e55bc7e80322d60986b6a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:42 +0000
Subject: [PATCH 53/75] fix: MakeCornerFilletSurface rejects arcs whose middle
 does not project onto the chord

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 65f1e85..a3ad868 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2047,7 +2047,8 @@ void LNLib::NurbsSurface::MakeCornerFilletSurface(const LN_NurbsCurve& arc, LN_N
 
 	double chordLength = c2_start.Distance(c2_end);
 	XYZ projectPoint;
-	Projection::PointToLine(c2_start, c2_end, c2_half, projectPoint);
+	bool isProjected = Projection::PointToLine(c2_start, c2_end, c2_half, projectPoint);
+	VALIDATE_ARGUMENT(isProjected, "arc", "Arc must have distinct end points.");
 	double archHeight = c2_half.Distance(projectPoint);
 	double radius = (pow(chordLength / 2.0, 2) + pow(archHeight, 2)) / (2 * archHeight);
 	double radius2 = radius * radius;
-- 
2.43.0


From 905d5cb44b75a384c653ab0728082b2cb96759d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:42 +0000
Subject: [PATCH 54/75] fix: VoronoiDiagramGenerator reports that it could not
 be set up

---
 src/LNLib/Algorithm/Voronoi.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index c36f8e5..61ab768 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -210,9 +210,7 @@ bool LNLib::VoronoiDiagramGenerator::generateVoronoi(float* xValues, float* yVal
 	borderMaxY = maxY;
 
 	siteidx = 0;
-	voronoi(genVertexInfo); //uncomment
-
-	return true;
+	return voronoi(genVertexInfo);
 }
 
 bool LNLib::VoronoiDiagramGenerator::ELinitialize()
@@ -1033,7 +1031,10 @@ bool LNLib::VoronoiDiagramGenerator::voronoi(bool genVertexInfo)
 	struct Halfedge* lbnd, * rbnd, * llbnd, * rrbnd, * bisector;
 	struct Edge* e;
 
-	PQinitialize();
+	if (!PQinitialize())
+	{
+		return false;
+	}
 	bottomsite = nextone();
 	bool retval = ELinitialize();
 
-- 
2.43.0


From 6436e93206d424abfa48dac0a43802eac6aab4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 55/75] fix: Offset(TillerAndHanson) keeps the shared point of
 legs that have no single intersection

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 2468162..a4bf662 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -177,7 +177,8 @@ namespace LNLib
 			CurveCurveIntersectionType type = Intersection::ComputeRays(currentP0, currentP1 - currentP0, nextP1, nextP0 - nextP1, param0, param1, result);
 			if (type != CurveCurveIntersectionType::Intersecting)
 			{
-				return;
+				newControlPoints.emplace_back(XYZW(currentP1, 1));
+				continue;
 			}
 			newControlPoints.emplace_back(XYZW(result, 1));
 		}
-- 
2.43.0


From 0554f6cb29c98e0fdfce78d422f3cb87f525093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:58 +0000
Subject: [PATCH 56/75] fix: VoronoiDiagramGenerator leaves no pointer to
 released memory in its members

cleanupEdges() and reset() freed the edge lists and the memory list but left
iteratorEdges, iteratorDelaunayEdges and currentMemoryBlock pointing into them,
so getNext()/getNextDelaunay() after reset() or after a second generateVoronoi()
read freed memory.
---
 src/LNLib/Algorithm/Voronoi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LNLib/Algorithm/Voronoi.cpp b/src/LNLib/Algorithm/Voronoi.cpp
index 61ab768..b18b798 100644
--- a/src/LNLib/Algorithm/Voronoi.cpp
+++ b/src/LNLib/Algorithm/Voronoi.cpp
@@ -92,6 +92,7 @@ void LNLib::VoronoiDiagramGenerator::reset()
 		free(finalVertexLinks);
 
 	allMemoryList = 0;
+	currentMemoryBlock = 0;
 	finalVertices = 0;
 	vertexLinks = 0;
 	vertices = 0;
@@ -753,6 +754,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 	}
 
 	allEdges = 0;
+	iteratorEdges = 0;
 
 	geCurrent = gePrev = delaunayEdges;
 
@@ -764,6 +766,7 @@ void LNLib::VoronoiDiagramGenerator::cleanupEdges()
 	}
 
 	delaunayEdges = 0;
+	iteratorDelaunayEdges = 0;
 }
 
 void LNLib::VoronoiDiagramGenerator::pushGraphEdge(float x1, float y1, float x2, float y2)
-- 
2.43.0


From 3a2530b4c15049375bc47b6e0be23dd2dd4af25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 57/75] fix: KnotVectorUtils C API uses std::memcpy without
 including <cstring>

---
 dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
index f32a8c0..340f237 100644
--- a/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
+++ b/dotnet/CAPI/src/KnotVectorUtils_CAPI.cpp
@@ -12,6 +12,7 @@
 #include "KnotVectorUtils.h"
 #include <vector>
 #include <map>
+#include <cstring>
 
 int LNLIB_KV_get_continuity(
 	int degree,
-- 
2.43.0


From 03679667adb372a99f4a9f66ee6d5f84c62b5a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 58/75] fix: Matrix4d C API names the constructor as if it were
 a member

---
 dotnet/CAPI/src/Matrix4d_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index da1c9cc..83845af 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -35,7 +35,7 @@ Matrix4d_C LNLIB_MATRIX_create()
 }
 Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_y, XYZ_C basis_z, XYZ_C origin)
 {
-	return FromMatrix4d(LNLib::Matrix4d::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
+	return FromMatrix4d(LNLib::Matrix4d(ToXYZ(basis_x), ToXYZ(basis_y), ToXYZ(basis_z), ToXYZ(origin)));
 }
 
 Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector)
-- 
2.43.0


From 3f6868dab6feb2e834594cdb33af502791f54b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 59/75] fix: LNLIB_POLY_power_to_bezier_matrix copies the
 computed matrix, not the unset output pointer

---
 dotnet/CAPI/src/Polynomials_CAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/CAPI/src/Polynomials_CAPI.cpp b/dotnet/CAPI/src/Polynomials_CAPI.cpp
index 3d26db0..3fe72f9 100644
--- a/dotnet/CAPI/src/Polynomials_CAPI.cpp
+++ b/dotnet/CAPI/src/Polynomials_CAPI.cpp
@@ -306,7 +306,7 @@ void LNLIB_POLY_power_to_bezier_matrix(
 
 	for (int i = 0; i < n; ++i) {
 		for (int j = 0; j < n; ++j) {
-			flat[i * n + j] = out_matrix[i][j];
+			flat[i * n + j] = result[i][j];
 		}
 	}
 
-- 
2.43.0


From 13792b38c0da5aa8aef60c0e3137887b5795218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 60/75] fix: LNLIB_MATRIX_create_rotation_at_point takes its
 points by value, as the .NET declaration passes them

---
 dotnet/CAPI/include/Matrix4d_CAPI.h | 2 +-
 dotnet/CAPI/src/Matrix4d_CAPI.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dotnet/CAPI/include/Matrix4d_CAPI.h b/dotnet/CAPI/include/Matrix4d_CAPI.h
index 12009d3..307b164 100644
--- a/dotnet/CAPI/include/Matrix4d_CAPI.h
+++ b/dotnet/CAPI/include/Matrix4d_CAPI.h
@@ -25,7 +25,7 @@ LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_from_xyz(XYZ_C basis_x, XYZ_C basis_
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_reflection(XYZ_C normal);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_reflection_by_distance(XYZ_C normal, double distance_from_origin);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_rotation(XYZ_C axis, double rad);
-LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(const XYZ_C& origin, const XYZ_C& axis, double rad);
+LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(XYZ_C origin, XYZ_C axis, double rad);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_translation(XYZ_C vector);
 LNLIB_EXPORT Matrix4d_C LNLIB_MATRIX_create_scale(XYZ_C scale);
 
diff --git a/dotnet/CAPI/src/Matrix4d_CAPI.cpp b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
index 83845af..18a0936 100644
--- a/dotnet/CAPI/src/Matrix4d_CAPI.cpp
+++ b/dotnet/CAPI/src/Matrix4d_CAPI.cpp
@@ -48,7 +48,7 @@ Matrix4d_C LNLIB_MATRIX_create_rotation(XYZ_C axis, double rad)
 	return FromMatrix4d(LNLib::Matrix4d::CreateRotation(ToXYZ(axis), rad));
 }
 
-Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(const XYZ_C& origin, const XYZ_C& axis, double rad)
+Matrix4d_C LNLIB_MATRIX_create_rotation_at_point(XYZ_C origin, XYZ_C axis, double rad)
 {
 	return FromMatrix4d(LNLib::Matrix4d::CreateRotationAtPoint(ToXYZ(origin), ToXYZ(axis), rad));
 }
-- 
2.43.0


From 4f5a1ce403bfec41e697cb4338a45d2665d575d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 61/75] fix: .NET HornerUV passes uv by reference, as
 LNLIB_POLY_horner_uv expects a pointer

---
 dotnet/PInvoke/src/Polynomials.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/PInvoke/src/Polynomials.cs b/dotnet/PInvoke/src/Polynomials.cs
index f7f9b3e..4804bb6 100644
--- a/dotnet/PInvoke/src/Polynomials.cs
+++ b/dotnet/PInvoke/src/Polynomials.cs
@@ -40,7 +40,7 @@ namespace LNLibSharp
             int degree_u,
             int degree_v,
             [In] double[] coefficients,
-            UV uv,
+            in UV uv,
             [Out] double[] out_horner);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_POLY_get_knot_multiplicity")]
-- 
2.43.0


From e441cf4cfb893de2240eb56516dd6fd4d539b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 62/75] fix: .NET UV.Create names the exported LNLIB_UV_create

---
 dotnet/PInvoke/src/UV.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dotnet/PInvoke/src/UV.cs b/dotnet/PInvoke/src/UV.cs
index b051a1a..e96ce5a 100644
--- a/dotnet/PInvoke/src/UV.cs
+++ b/dotnet/PInvoke/src/UV.cs
@@ -21,7 +21,7 @@ namespace LNLibSharp
 
     public static partial class LNLibUV
     {
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UVreate")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_create")]
         public static extern UV Create(double u, double v);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_get_u")]
-- 
2.43.0


From 97f8912e701f30e8d3304cde834372bafae5d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 63/75] fix: Python SplitArc returns the insert weight instead
 of taking it as an input

---
 python/src/Construct/NurbsCurve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/Construct/NurbsCurve.cpp b/python/src/Construct/NurbsCurve.cpp
index 1426ac7..9eb41fb 100644
--- a/python/src/Construct/NurbsCurve.cpp
+++ b/python/src/Construct/NurbsCurve.cpp
@@ -128,10 +128,11 @@ void cstrNurbsCurve(py::module_&m)
         bool ret = LNLib::NurbsCurve::CreateOneConicArc(start, startTangent, end, endTangent, pointOnConic, projectPoint, projectPointWeight);
         return py::make_tuple(ret, projectPoint, projectPointWeight);
             })
-        .def_static("SplitArc", [](const LNLib::XYZ& start, const LNLib::XYZ& projectPoint, double projectPointWeight, const LNLib::XYZ& end, double insertWeight) {
+        .def_static("SplitArc", [](const LNLib::XYZ& start, const LNLib::XYZ& projectPoint, double projectPointWeight, const LNLib::XYZ& end) {
         LNLib::XYZ insertPointAtStartSide, splitPoint, insertPointAtEndSide;
+        double insertWeight = 0.0;
         LNLib::NurbsCurve::SplitArc(start, projectPoint, projectPointWeight, end, insertPointAtStartSide, splitPoint, insertPointAtEndSide, insertWeight);
-        return py::make_tuple(insertPointAtStartSide, splitPoint, insertPointAtEndSide);
+        return py::make_tuple(insertPointAtStartSide, splitPoint, insertPointAtEndSide, insertWeight);
             })
         .def_static("CreateOpenConic", [](const LNLib::XYZ& start, const LNLib::XYZ& startTangent, const LNLib::XYZ& end, const LNLib::XYZ& endTangent, const LNLib::XYZ& pointOnConic) {
         LNLib::LN_NurbsCurve result;
-- 
2.43.0


From b35ba3a478dadd17f8c0001659d9e930b0f3036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 64/75] fix: curves handed out together by the C API get
 buffers of their own

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h | 14 +++++++++++---
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp   |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index d7f97c4..7f8dc3c 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -15,6 +15,7 @@
  #include "Matrix4d_CAPI.h"
  #include "LNEnums_CAPI.h"
  #include "LNObject_CAPI.h"
+ #include <deque>
 
 #ifdef __cplusplus
 extern "C" {
@@ -264,10 +265,17 @@ inline LNLib::LN_NurbsCurve FromCAPI(LN_NurbsCurve_C c) {
     return s;
 }
 
-inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s) {
-    static thread_local std::vector<double> g_knot_buffer;
+// Results handed out by one call need a slot each: a slot is reused by the next call.
+inline LN_NurbsCurve_C ToCAPI(const LNLib::LN_NurbsCurve& s, size_t slot = 0) {
+    static thread_local std::deque<std::vector<double>> g_knot_buffers;
     static thread_local std::vector<LNLib::XYZW> g_cp_2d_buffer;
-    static thread_local std::vector<XYZW_C> g_cp_flat_buffer;
+    static thread_local std::deque<std::vector<XYZW_C>> g_cp_flat_buffers;
+    if (g_knot_buffers.size() <= slot) {
+        g_knot_buffers.resize(slot + 1);
+        g_cp_flat_buffers.resize(slot + 1);
+    }
+    std::vector<double>& g_knot_buffer = g_knot_buffers[slot];
+    std::vector<XYZW_C>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 
     g_knot_buffer = s.KnotVector;
     g_cp_2d_buffer = s.ControlPoints;
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 883b6b2..5a592ad 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -301,7 +301,7 @@ int LNLIB_NURBSCUR_split_at(
 	bool ok = NurbsCurve::SplitAt(FromCAPI(curve), param_t, left, right);
 	if (ok) {
 		*out_left = ToCAPI(left);
-		*out_right = ToCAPI(right);
+		*out_right = ToCAPI(right, 1);
 	}
 	return ok ? 1 : 0;
 }
@@ -338,7 +338,7 @@ int LNLIB_NURBSCUR_decompose_to_beziers(
 	auto segments = NurbsCurve::DecomposeToBeziers(FromCAPI(curve));
 	int n = std::min(static_cast<int>(segments.size()), max_segments);
 	for (int i = 0; i < n; ++i) {
-		out_segments[i] = ToCAPI(segments[i]);
+		out_segments[i] = ToCAPI(segments[i], i);
 	}
 	return n;
 }
-- 
2.43.0


From f4d4353ac8489ab67cbdff61774dab4889e64b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 65/75] fix: surfaces handed out together by the C API get
 buffers of their own

---
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index 4805100..a961551 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -13,14 +13,15 @@
 #include "NurbsCurve_CAPI.h"
 #include "LNLibDefinitions.h"
 #include <vector>
+#include <deque>
 #include <thread>
 
 using namespace LNLib;
 
-static thread_local std::vector<double> g_knot_u_buffer;
-static thread_local std::vector<double> g_knot_v_buffer;
+static thread_local std::deque<std::vector<double>> g_knot_u_buffers;
+static thread_local std::deque<std::vector<double>> g_knot_v_buffers;
 static thread_local std::vector<std::vector<XYZW>> g_cp_2d_buffer;
-static thread_local std::vector<XYZW> g_cp_flat_buffer;
+static thread_local std::deque<std::vector<XYZW>> g_cp_flat_buffers;
 static thread_local std::vector<LN_NurbsSurface> g_surface_buffer;
 static thread_local std::vector<XYZ> g_xyz_buffer;
 static thread_local std::vector<UV> g_uv_buffer;
@@ -41,7 +42,16 @@ static LN_NurbsSurface FromCAPI(LN_NurbsSurface_C c) {
 	return s;
 }
 
-static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s) {
+// Results handed out by one call need a slot each: a slot is reused by the next call.
+static LN_NurbsSurface_C ToCAPI(const LN_NurbsSurface& s, size_t slot = 0) {
+	if (g_knot_u_buffers.size() <= slot) {
+		g_knot_u_buffers.resize(slot + 1);
+		g_knot_v_buffers.resize(slot + 1);
+		g_cp_flat_buffers.resize(slot + 1);
+	}
+	std::vector<double>& g_knot_u_buffer = g_knot_u_buffers[slot];
+	std::vector<double>& g_knot_v_buffer = g_knot_v_buffers[slot];
+	std::vector<XYZW>& g_cp_flat_buffer = g_cp_flat_buffers[slot];
 	g_knot_u_buffer = s.KnotVectorU;
 	g_knot_v_buffer = s.KnotVectorV;
 	g_cp_2d_buffer = s.ControlPoints;
@@ -157,7 +167,7 @@ int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurfa
 	auto patches = NurbsSurface::DecomposeToBeziers(FromCAPI(surface));
 	int n = std::min(static_cast<int>(patches.size()), max_patches);
 	for (int i = 0; i < n; ++i) {
-		out_patches[i] = ToCAPI(patches[i]);
+		out_patches[i] = ToCAPI(patches[i], i);
 	}
 	return n;
 }
-- 
2.43.0


From a7b10dac73cf3aa3fe0e5ceb57469ee20fc9e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:21 +0000
Subject: [PATCH 66/75] fix: equally_tessellate tells how many points it wrote

---
 dotnet/CAPI/include/NurbsCurve_CAPI.h   | 2 +-
 dotnet/CAPI/include/NurbsSurface_CAPI.h | 2 +-
 dotnet/CAPI/src/NurbsCurve_CAPI.cpp     | 3 ++-
 dotnet/CAPI/src/NurbsSurface_CAPI.cpp   | 3 ++-
 dotnet/PInvoke/src/NurbsCurve.cs        | 2 +-
 dotnet/PInvoke/src/NurbsSurface.cs      | 2 +-
 6 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/dotnet/CAPI/include/NurbsCurve_CAPI.h b/dotnet/CAPI/include/NurbsCurve_CAPI.h
index 7f8dc3c..307905a 100644
--- a/dotnet/CAPI/include/NurbsCurve_CAPI.h
+++ b/dotnet/CAPI/include/NurbsCurve_CAPI.h
@@ -68,7 +68,7 @@ extern "C" {
     LNLIB_EXPORT int LNLIB_NURBSCUR_reduce_degree(
         LN_NurbsCurve_C curve,
         LN_NurbsCurve_C* out_curve);
-    LNLIB_EXPORT void LNLIB_NURBSCUR_equally_tessellate(
+    LNLIB_EXPORT int LNLIB_NURBSCUR_equally_tessellate(
         LN_NurbsCurve_C curve,
         int max_count,
         XYZ_C* out_points,
diff --git a/dotnet/CAPI/include/NurbsSurface_CAPI.h b/dotnet/CAPI/include/NurbsSurface_CAPI.h
index dee6b3f..500862f 100644
--- a/dotnet/CAPI/include/NurbsSurface_CAPI.h
+++ b/dotnet/CAPI/include/NurbsSurface_CAPI.h
@@ -80,7 +80,7 @@ extern "C" {
         LN_NurbsSurface_C surface,
         int is_u_direction,
         LN_NurbsSurface_C* out_surface);
-    LNLIB_EXPORT void LNLIB_NURBSSUR_equally_tessellate(
+    LNLIB_EXPORT int LNLIB_NURBSSUR_equally_tessellate(
         LN_NurbsSurface_C surface,
         XYZ_C* out_points,
         UV_C* out_uvs,
diff --git a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
index 5a592ad..9c15c6e 100644
--- a/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsCurve_CAPI.cpp
@@ -599,7 +599,7 @@ void LNLIB_NURBSCUR_to_unclamp_curve(LN_NurbsCurve_C curve, LN_NurbsCurve_C* out
 	*out_curve = ToCAPI(result);
 }
 
-void LNLIB_NURBSCUR_equally_tessellate(
+int LNLIB_NURBSCUR_equally_tessellate(
 	LN_NurbsCurve_C curve,
 	int max_count,
 	XYZ_C* out_points,
@@ -612,5 +612,6 @@ void LNLIB_NURBSCUR_equally_tessellate(
 		out_points[i] = FromXYZ(pts[i]);
 		out_knots[i] = knots[i];
 	}
+	return n;
 }
 
diff --git a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
index a961551..6cef41d 100644
--- a/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
+++ b/dotnet/CAPI/src/NurbsSurface_CAPI.cpp
@@ -172,7 +172,7 @@ int LNLIB_NURBSSUR_decompose_to_beziers(LN_NurbsSurface_C surface, LN_NurbsSurfa
 	return n;
 }
 
-void LNLIB_NURBSSUR_equally_tessellate(LN_NurbsSurface_C surface, XYZ_C* out_points, UV_C* out_uvs, int max_count) {
+int LNLIB_NURBSSUR_equally_tessellate(LN_NurbsSurface_C surface, XYZ_C* out_points, UV_C* out_uvs, int max_count) {
 	std::vector<XYZ> pts;
 	std::vector<UV> uvs;
 	NurbsSurface::EquallyTessellate(FromCAPI(surface), pts, uvs);
@@ -181,6 +181,7 @@ void LNLIB_NURBSSUR_equally_tessellate(LN_NurbsSurface_C surface, XYZ_C* out_poi
 		out_points[i] = FromXYZ(pts[i]);
 		out_uvs[i] = FromUV(uvs[i]);
 	}
+	return n;
 }
 
 UV_C LNLIB_NURBSSUR_get_param_on_surface(LN_NurbsSurface_C surface, XYZ_C given_point) {
diff --git a/dotnet/PInvoke/src/NurbsCurve.cs b/dotnet/PInvoke/src/NurbsCurve.cs
index 3b32123..89f3d37 100644
--- a/dotnet/PInvoke/src/NurbsCurve.cs
+++ b/dotnet/PInvoke/src/NurbsCurve.cs
@@ -102,7 +102,7 @@ namespace LNLibSharp
             out LN_NurbsCurve out_curve);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_NURBSCUR_equally_tessellate")]
-        public static extern void EquallyTessellate(
+        public static extern int EquallyTessellate(
             LN_NurbsCurve curve,
             int max_count,
             [Out] XYZ[] out_points,
diff --git a/dotnet/PInvoke/src/NurbsSurface.cs b/dotnet/PInvoke/src/NurbsSurface.cs
index 8ab2b77..76172ae 100644
--- a/dotnet/PInvoke/src/NurbsSurface.cs
+++ b/dotnet/PInvoke/src/NurbsSurface.cs
@@ -116,7 +116,7 @@ namespace LNLibSharp
             out LN_NurbsSurface out_surface);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_NURBSSUR_equally_tessellate")]
-        public static extern void EquallyTessellate(
+        public static extern int EquallyTessellate(
             LN_NurbsSurface surface,
             [Out] XYZ[] out_points,
             [Out] UV[] out_uvs,
-- 
2.43.0


From 60222b8fbddc66d9ee11adc32a1dbbebe23780d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:26 +0000
Subject: [PATCH 67/75] fix: .NET UV/XYZ CrossProduct, XYZ.Create and
 XYZ.CreateRandomOrthogonal name the exported functions

---
 dotnet/PInvoke/src/UV.cs  | 2 +-
 dotnet/PInvoke/src/XYZ.cs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dotnet/PInvoke/src/UV.cs b/dotnet/PInvoke/src/UV.cs
index e96ce5a..8291981 100644
--- a/dotnet/PInvoke/src/UV.cs
+++ b/dotnet/PInvoke/src/UV.cs
@@ -66,7 +66,7 @@ namespace LNLibSharp
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_dot_product")]
         public static extern double DotProduct(UV a, UV b);
 
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UVross_product")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_cross_product")]
         public static extern double CrossProduct(UV a, UV b);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_UV_distance")]
diff --git a/dotnet/PInvoke/src/XYZ.cs b/dotnet/PInvoke/src/XYZ.cs
index 9f4bac8..f28ae24 100644
--- a/dotnet/PInvoke/src/XYZ.cs
+++ b/dotnet/PInvoke/src/XYZ.cs
@@ -21,7 +21,7 @@ namespace LNLibSharp
 
     public static partial class LNLibXYZ
     {
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZreate")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_create")]
         public static extern XYZ Create(double x, double y, double z);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_get_x")]
@@ -75,7 +75,7 @@ namespace LNLibSharp
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_dot_product")]
         public static extern double DotProduct(XYZ a, XYZ b);
 
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZross_product")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_cross_product")]
         public static extern XYZ CrossProduct(XYZ a, XYZ b);
 
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_distance")]
@@ -87,7 +87,7 @@ namespace LNLibSharp
         [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_divide")]
         public static extern XYZ Divide(XYZ xyz, double scalar);
 
-        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZreate_random_orthogonal")]
+        [DllImport(LNLIB_CAPI_DLL, CallingConvention = CallingConvention.Cdecl, EntryPoint = "LNLIB_XYZ_create_random_orthogonal")]
         public static extern XYZ CreateRandomOrthogonal(XYZ xyz);
     }
 }
\ No newline at end of file
-- 
2.43.0


From f3010353010d54208c2b494048c37fbdc241aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:09 +0000
Subject: [PATCH 68/75] fix: ComputeTangent divides by the chord step it just
 found to be zero

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index aeeb627..af935f7 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -405,10 +405,10 @@ std::vector<LNLib::XYZ> LNLib::Interpolation::ComputeTangent(const std::vector<X
 			tangents[i] = XYZ(0, 0, 0);
 		}
 		else if (MathUtils::IsAlmostEqualTo(w1, 0.0)) {
-			tangents[i] = dP[i] / du[i];
+			tangents[i] = dP[i - 1] / du[i - 1];
 		}
 		else if (MathUtils::IsAlmostEqualTo(w2, 0.0)) {
-			tangents[i] = dP[i - 1] / du[i - 1];
+			tangents[i] = dP[i] / du[i];
 		}
 		else {
 			double a = w2 / (w1 + w2);
-- 
2.43.0


From 9b9d215367f559945fa74ef3417f60b38e8f9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:09 +0000
Subject: [PATCH 69/75] fix: ControlPointReposition divides by a vanishing
 basis function its guard lets pass

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index a4bf662..b347173 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -3222,7 +3222,7 @@ bool LNLib::NurbsCurve::ControlPointReposition(const LN_NurbsCurve& curve, doubl
 	double basis[Constants::NURBSMaxDegree + 1];
 	Polynomials::BasisFunctions(spanIndex, degree, knotVector, parameter, basis);
 	double Rkp = basis[0];
-	if (MathUtils::IsLessThan(Rkp, 0.0))
+	if (MathUtils::IsLessThanOrEqual(Rkp, 0.0))
 	{
 		return false;
 	}
-- 
2.43.0


From 2ddf44760f3edb473c026f58dd0e6c24a18dc44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:29 +0000
Subject: [PATCH 70/75] fix: least squares approximation with fewer than three
 control points writes past the end of its work arrays

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index b347173..0f46584 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -2298,6 +2298,10 @@ bool LNLib::NurbsCurve::LeastSquaresApproximation(int degree, const std::vector<
 
 	int n = controlPointsCount - 1;
 	int m = throughPoints.size() - 1;
+	if (n < 2)
+	{
+		return false;
+	}
 
 	std::vector<double> uk = Interpolation::GetChordParameterization(throughPoints);
 	std::vector<double> knotVector(n + degree + 2, 1.0);
-- 
2.43.0


From 2ec3a37c10652f58a6fca8b7ff2e845cd7842563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:22 +0000
Subject: [PATCH 71/75] fix: surface parameterization adds to the parameters
 the caller's vectors already held

---
 src/LNLib/Algorithm/Interpolation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Algorithm/Interpolation.cpp b/src/LNLib/Algorithm/Interpolation.cpp
index af935f7..53846fa 100644
--- a/src/LNLib/Algorithm/Interpolation.cpp
+++ b/src/LNLib/Algorithm/Interpolation.cpp
@@ -268,8 +268,8 @@ bool LNLib::Interpolation::GetSurfaceMeshParameterization(const std::vector<std:
 	int m = throughPoints[0].size();
 
 	std::vector<double> cds(std::max(n, m), 0.0);
-	paramsU.resize(n, 0.0);
-	paramsV.resize(m, 0.0);
+	paramsU.assign(n, 0.0);
+	paramsV.assign(m, 0.0);
 
 	int num = m;
 
-- 
2.43.0


From bd0ce97fa23f4b82a4af4a36ba51249aeba9e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 72/75] fix: BicubicLocalInterpolation reads the parameters of
 the other direction

Steps along a row are spaced by vb (one entry per column) and steps along
a column by ub (one entry per row); the two were exchanged, so a net with
more columns than rows, or the reverse, was read past the end.
---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index a3ad868..51a63c1 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2365,7 +2365,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int j = 0; j < column - 1; j++)
 		{
-			double a = (ub[j + 1] - ub[j]) * rowTotalLen[i];
+			double a = (vb[j + 1] - vb[j]) * rowTotalLen[i];
 			temp[3 * j + 1] = throughPoints[i][j] + a / 3.0 * T[j];
 			temp[3 * j + 2] = throughPoints[i][j + 1] - a / 3.0 * T[j];
 		}
@@ -2388,7 +2388,7 @@ bool LNLib::NurbsSurface::BicubicLocalInterpolation(const std::vector<std::vecto
 		}
 		for (int i = 0; i < row - 1; i++)
 		{
-			double a = (vb[i + 1] - vb[i]) * colTotalLen[j];
+			double a = (ub[i + 1] - ub[i]) * colTotalLen[j];
 			temp[3 * i + 1] = columnData[i] + a / 3.0 * T[i];
 			temp[3 * i + 2] = columnData[i + 1] - a / 3.0 * T[i];
 		}
-- 
2.43.0


From 43f1e9ec13fc67ec3dd23c6c96c639cd1ff44565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:28 +0000
Subject: [PATCH 73/75] fix: NurbsCurve::Extract returns the piece with
 matching knots and control points

---
 src/LNLib/Geometry/Curve/NurbsCurve.cpp | 29 ++++++++-----------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/LNLib/Geometry/Curve/NurbsCurve.cpp b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
index 0f46584..d4a07f9 100644
--- a/src/LNLib/Geometry/Curve/NurbsCurve.cpp
+++ b/src/LNLib/Geometry/Curve/NurbsCurve.cpp
@@ -1597,36 +1597,25 @@ bool LNLib::NurbsCurve::SplitAt(const LN_NurbsCurve& curve, double parameter, LN
 
 void LNLib::NurbsCurve::Extract(const LN_NurbsCurve& curve, double startParameter, double endParameter, LN_NurbsCurve& result)
 {
-	int degree = curve.Degree;
 	const auto& knotVector = curve.KnotVector;
-	const auto& controlPoints = curve.ControlPoints;
 
 	VALIDATE_ARGUMENT_RANGE(startParameter, knotVector[0], knotVector[knotVector.size() - 1]);
 	VALIDATE_ARGUMENT_RANGE(endParameter, knotVector[0], knotVector[knotVector.size() - 1]);
 	VALIDATE_ARGUMENT(MathUtils::IsLessThan(startParameter, endParameter), "endParameter", "startParameter must less than endParameter.");
 
 	LN_NurbsCurve tempCurve = curve;
-
-	std::map<double, int> kmap = KnotVectorUtils::GetKnotMultiplicityMap(knotVector);
-
-	int mult_start = kmap[startParameter];
-	int insert_count_start = (degree + 1) - mult_start;
-	if (insert_count_start > 0) {
-		InsertKnot(tempCurve, startParameter, insert_count_start, tempCurve);
+	LN_NurbsCurve left;
+	LN_NurbsCurve right;
+	if (SplitAt(tempCurve, endParameter, left, right))
+	{
+		tempCurve = left;
 	}
-
-	int mult_end = kmap[endParameter];
-	int insert_count_end = (degree + 1) - mult_end;
-	if (insert_count_end > 0) {
-		InsertKnot(tempCurve, endParameter, insert_count_end, tempCurve);
+	if (SplitAt(tempCurve, startParameter, left, right))
+	{
+		tempCurve = right;
 	}
 
-	int ks = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, startParameter);
-	int ke = Polynomials::GetKnotSpanIndex(degree, tempCurve.KnotVector, endParameter);
-
-	result.Degree = degree;
-	result.KnotVector.assign(tempCurve.KnotVector.begin() + ks, tempCurve.KnotVector.begin() + ke + 2);
-	result.ControlPoints.assign(tempCurve.ControlPoints.begin() + ks - degree, tempCurve.ControlPoints.begin() + ke + 1);
+	result = tempCurve;
 }
 
 bool LNLib::NurbsCurve::Merge(const LN_NurbsCurve& left, const LN_NurbsCurve& right, LN_NurbsCurve& result)
-- 
2.43.0


From 595e2bb07381fea2e003836b5e23997944cb5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:22 +0000
Subject: [PATCH 74/75] fix: CreateSwungSurface no longer displaces the swung
 profile by one unit along z, so the surface scales with the model

---
 src/LNLib/Geometry/Surface/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LNLib/Geometry/Surface/NurbsSurface.cpp b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
index 51a63c1..3a4d87f 100644
--- a/src/LNLib/Geometry/Surface/NurbsSurface.cpp
+++ b/src/LNLib/Geometry/Surface/NurbsSurface.cpp
@@ -2596,7 +2596,7 @@ bool LNLib::NurbsSurface::CreateSwungSurface(const LN_NurbsCurve& profile, const
 		XYZ z = NurbsCurve::GetPointOnCurve(Bv, vl[k]).Normalize();
 		XYZ y = z.CrossProduct(x);
 
-		Matrix4d R(y, x, z, XYZ(0, 0, 1));
+		Matrix4d R(y, x, z, XYZ(0, 0, 0));
 		XYZ o = NurbsCurve::GetPointOnCurve(trajectory, vl[k]);
 		Matrix4d tx = Matrix4d::CreateTranslation(o);
 		Matrix4d A = tx.Multiply(R);
-- 
2.43.0


From ec3f4b78a269967ee2c4b1be82768fb89885ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:54 +0000
Subject: [PATCH 75/75] fix: Matrix4d::IsIdentity and IsTranslation no longer
 let off-diagonal entries cancel

---
 src/LNLib/Mathematics/Math/Matrix4d.cpp | 32 +++++++++++++++----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/LNLib/Mathematics/Math/Matrix4d.cpp b/src/LNLib/Mathematics/Math/Matrix4d.cpp
index d9518a5..2554fd2 100644
--- a/src/LNLib/Mathematics/Math/Matrix4d.cpp
+++ b/src/LNLib/Mathematics/Math/Matrix4d.cpp
@@ -363,14 +363,15 @@ bool LNLib::Matrix4d::IsIdentity()
 		return false;
 	}
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] + m_matrix4d[0][3] +
-		         m_matrix4d[1][0] + m_matrix4d[1][2] + m_matrix4d[1][3] +
-		         m_matrix4d[2][0] + m_matrix4d[2][1] + m_matrix4d[2][3] +
-		         m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
-	if (!c4)
+	for (int i = 0; i < 4; i++)
 	{
-		return false;
+		for (int j = 0; j < 4; j++)
+		{
+			if (i != j && !MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], 0.0))
+			{
+				return false;
+			}
+		}
 	}
 	return true;
 }
@@ -388,12 +389,17 @@ bool LNLib::Matrix4d::IsTranslation()
 	bool c2 = MathUtils::IsAlmostEqualTo(m_matrix4d[1][1], 1);
 	bool c3 = MathUtils::IsAlmostEqualTo(m_matrix4d[2][2], 1);
 
-	double sum = m_matrix4d[0][1] + m_matrix4d[0][2] +
-				 m_matrix4d[1][0] + m_matrix4d[1][2] +
-				 m_matrix4d[2][0] + m_matrix4d[2][1] +
-				 m_matrix4d[3][0] + m_matrix4d[3][1] + m_matrix4d[3][2];
-
-	bool c4 = MathUtils::IsAlmostEqualTo(sum, 0.0);
+	bool c4 = true;
+	for (int i = 0; i < 4; i++)
+	{
+		for (int j = 0; j < 3; j++)
+		{
+			if (i != j && !MathUtils::IsAlmostEqualTo(m_matrix4d[i][j], 0.0))
+			{
+				c4 = false;
+			}
+		}
+	}
 	return c1 && c2 && c3 && c4;
 }
 
-- 
2.43.0

