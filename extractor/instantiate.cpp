// Instantiates LNLib's header-only templates so that their bodies are analysed.
// Compiled only by the extractor's front end, never run.
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "XYZ.h"
#include "XYZW.h"
using namespace LNLib;
#define BOTH(C,F) static auto F##_##C##_1 = &C::F<XYZ>; static auto F##_##C##_2 = &C::F<XYZW>;
BOTH(BezierCurve, Check)
BOTH(BezierCurve, GetPointOnCurveByBernstein)
BOTH(BezierCurve, GetPointOnCurveByDeCasteljau)
BOTH(BezierSurface, GetPointOnSurfaceByDeCasteljau)
BOTH(BsplineCurve, Check)
BOTH(BsplineCurve, GetPointOnCurve)
BOTH(BsplineCurve, ComputeDerivatives)
BOTH(BsplineCurve, ComputeControlPointsOfDerivatives)
BOTH(BsplineCurve, ComputeDerivativesByAllBasisFunctions)
BOTH(BsplineSurface, Check)
BOTH(BsplineSurface, GetPointOnSurface)
BOTH(BsplineSurface, ComputeDerivatives)
BOTH(BsplineSurface, ComputeFirstOrderDerivative)
BOTH(BsplineSurface, ComputeControlPointsOfDerivatives)
BOTH(BsplineSurface, ComputeDerivativesByAllBasisFunctions)
