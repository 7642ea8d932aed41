fixed("C02","6e4baaf","NurbsVolume::Extract stored its surface in a by-value parameter")
fixed("C02","4c657a2","NurbsCurve::SplitArc stored insertWeight in a by-value parameter")
fixed("C02","6f2f599","NurbsCurve::InsertKnot left result untouched when it returned 0")
fixed("C02","bd4afdc","list outputs appended to the caller's previous contents (EquallyTessellate, Transpose, GetInsertedKnotElement, ...)")
fixed("C02","9a72da8","NurbsSurface::Reverse left knot vectors / control points of the result incomplete")
fixed("C14","43be9f9","NurbsVolume::Swap ignored half of the direction pairs")
fixed("C02","b6ee50d","NurbsSurface::MakeCornerFilletSurface left knot vectors unset")
fixed("C02","cdc1a30","BsplineSurface::ComputeFirstOrderDerivative accumulated into the caller's vectors")
fixed("C11","a7983d2","LN_BsplineSurface/LN_NurbsVolume/LN_BoundingBox-like records were default-constructed with undefined degrees and extents")
fixed("C11","e07e775","AreaData left its V knot vector reference data undefined")
fixed("C12","30a095d","VoronoiDiagramGenerator never freed the last block of its memory list")
fixed("C12","a79991f","VoronoiDiagramGenerator never deleted the last edge of its edge lists")
fixed("C12","f1d74d4","VoronoiDiagramGenerator::generateVertexLinks leaked its work arrays / mixed free with new[]")
fixed("C05","8d3c480","VoronoiDiagramGenerator::generateVertexLinks walked forever on an unexpected link count")
fixed("C04","9753175","VoronoiDiagramGenerator handed out the triangles of the previous run")
fixed("C12","36fe8e7","VoronoiDiagramGenerator and Octant were copyable although they own raw memory (double release)")
fixed("C11","e996a3f","VoronoiDiagramGenerator members undefined after construction")
fixed("C16","ed44364","NurbsVolume::Extract returned surfaces without degrees/knots at the ends of the range, and V sections transposed")
fixed("C01","7368b62","range validation let NaN parameters pass")
fixed("C16","51ef6f9","NurbsVolume::RefineKnotVector sized the net for one knot less than it inserts and wrote past it")
fixed("C16","311bc3c","NurbsVolume::Reverse in V and W wrote into a control net it never sized")
fixed("C16","80623c9","NurbsVolume::InsertKnot returned surplus zero control points when fewer knots than requested can be inserted")
fixed("C03","b915e6c","NurbsSurface::Swap read degrees and knots of its input after overwriting them in the result")
fixed("C03","1534686","NurbsCurve::ToClampCurve tested the overwritten input for closedness")
fixed("C05","0d4381c","closed-parameter wrap loops (GetParamOnCurve, GetAllParamsOnCurve, GetParamOnSurface, GetAllParamsOnSurface, GetParamOnVolume) hang when a Newton step is huge against the range or infinite")
fixed("C05","257fd7e","ComputerCubicEquationsWithOneVariable iterates without a cap (no real root reachable: endless)")
fixed("C05","c9264bd","NurbsCurve::DecomposeToBeziers hangs when an inner knot has multiplicity >= degree (every degree-1 curve with inner knots)")
fixed("C05","943f1d4","GetParamsOnCurve loops forever when the curve cannot be split at the found parameter (given length about zero)")
fixed("C05","233d384","CalculateLengthBySimpson and GetParamByLength recurse without a depth bound (non-finite speed, discontinuous speed)")
fixed("C05","53c9107","ApproximateArea(Simpson) pushes forever when the area estimate does not settle or is NaN")
fixed("C05","b3eaa58","InsertMidKnotCore recurses forever for a negative count and indexes -1 when no span is left")
fixed("C05","522ac92","Octree subdivision of coincident points never ends for a negative minimum extent")
fixed("C05","0bdca1c","ProjectNormal retries forever on a curve with a vanishing tangent at a knot")
fixed("C13","2ddf447","LeastSquaresApproximation with one or two control points writes past the end of its work arrays")
fixed("C13","4eb28b0","ProjectNormal writes one past the end of Baver for closed curves")
fixed("C10","4e82a43","NurbsSurface::GetBoundingBox samples the V knots with the U index")
fixed("C08","db5161a","BezierCurve::GetPointOnQuadraticArc divides the middle and end point by the start weight")
fixed("C10","8883199","NurbsVolume::ComputeVolumeRationalDerivatives sums its own accumulator instead of the U sums")
fixed("C10","28e1cca","BsplineSurface::ComputeControlPointsOfDerivatives uses a constant in place of the V knots for mixed derivatives")
fixed("C17","eafac43","unqualified abs() truncated reals to int in CalculateLengthBySimpson, Reparametrize (projective weights), NeighborWeightsModification, Warping")
fixed("C17","9bf1284","unqualified abs() truncated reals to int in Curvature (principal curvatures wrong) and GetParamOnSurfaceByGSA")
fixed("C10","5df218b","NurbsSurface::Triangulate(grid) samples [0,1] whatever the surface's domain is")
fixed("C10","ee544d6","GetParamOnSurfaceByGSA starts at half the range instead of the middle of the domain")
fixed("C07","8a4de82","NurbsSurface::Triangulate divides by the area range after testing the curvature range")
fixed("C09","ad98ddc","NurbsSurface::Triangulate measures the far V edge between a point and itself")
fixed("C09", "595e2bb", "NurbsSurface::CreateSwungSurface displaced the surface by one unit along z whatever the size of the model: profile and trajectory scaled by 10 gave a surface 9 units away from 10 times the original one")
fixed("C16","02c54f4","NurbsCurve::RemoveKnot dropped another number of knots than control points when it removed fewer than asked")
fixed("C06","5d1d1db","NurbsSurface::RemoveKnot removed a knot from the knot vector although some row or column could not drop it")
fixed("C06","87453cc","RemoveKnotsByGivenBound went on as if a knot had been removed that RemoveKnot refused")
fixed("C08","e31227e","NonUniformScaling of a curve lost the weighting of its control points")
fixed("C06","7665c45","MathUtils::MakeInverse reported success for a singular matrix")
fixed("C06","637fe62","ConstraintBasedModification used the inverse of a singular matrix")
fixed("C06","89cf0e2","Extend(Arc) merged with an arc that could not be built")
fixed("C06","10ecc80","surface GlobalInterpolation used parameters that GetSurfaceMeshParameterization refused to compute")
fixed("C06","f60cc83","MakeCornerFilletSurface used the result of a failed projection")
fixed("C06","905d5cb","VoronoiDiagramGenerator reported success although its tables could not be allocated")
fixed("C02","6436e93","Offset(TillerAndHanson) returned with the result untouched when two offset legs have no single intersection (collinear control points)")
fixed("C12","0554f6c","VoronoiDiagramGenerator::reset() and a second generateVoronoi() left the edge iterators and currentMemoryBlock pointing to released memory")
fixed("C15",'3a2530b','KnotVectorUtils C API uses std::memcpy without including <cstring>')
fixed("C15",'0367966','Matrix4d C API names the constructor as if it were a member')
fixed("C15",'3f6868d','LNLIB_POLY_power_to_bezier_matrix copies the computed matrix, not the unset output pointer')
fixed("C15",'13792b3','LNLIB_MATRIX_create_rotation_at_point takes its points by value, as the .NET declaration passes them')
fixed("C15",'4f5a1ce','.NET HornerUV passes uv by reference, as LNLIB_POLY_horner_uv expects a pointer')
fixed("C15",'e441cf4','.NET UV.Create names the exported LNLIB_UV_create')
fixed("C15",'97f8912','Python SplitArc returns the insert weight instead of taking it as an input')
fixed("C15",'b35ba3a','curves handed out together by the C API get buffers of their own')
fixed("C15",'f4d4353','surfaces handed out together by the C API get buffers of their own')
fixed("C15",'a7b10da','equally_tessellate tells how many points it wrote')
fixed("C15",'60222b8','.NET UV/XYZ CrossProduct, XYZ.Create and XYZ.CreateRandomOrthogonal name the exported functions')
known("C15","unused:LNLIB_XYZ_angle_to:epsilon","LNLIB_XYZ_angle_to(a, b, epsilon) takes a tolerance that the native XYZ::AngleTo(other) has no parameter for: any epsilon gives the same angle (dropping it changes the exported prototype)")
fixed("C07",'f301035','Interpolation::ComputeTangent divided by the chord step it had just found to be zero')
fixed("C07",'9b9d215','NurbsCurve::ControlPointReposition divided by a basis function that vanishes at the end of the span')
known("C07", "vacuous:NurbsCurve::NeighborWeightsModification(const LN_BsplineCurve<XYZW> &, double, int, double, double, LN_BsplineCurve<XYZW> &)", "NeighborWeightsModification guards its leg ratios with IsLessThan(abs(x), 0.0), which never holds, and divides by them: degree 2, knots {0,0,0,1,2,3,3,3}, parameter 2, moveIndex 3 gives a NaN weight (the unedited test T_ShapeModification relies on a result being returned for exactly this input, so the guard cannot be corrected)")
fixed("C02","2ec3a37","Interpolation::GetSurfaceMeshParameterization accumulated onto the parameters the caller's vectors already held (resize does not reset kept elements)")
fixed("C16","43f1e9e","NurbsCurve::Extract handed out 2*degree control points too many for its knots (any parameter range of any curve)")
fixed("C13","bd0ce97","NurbsSurface::BicubicLocalInterpolation indexed the parameters of the other direction, past the end for a net with more columns than rows (or the reverse)")
fixed("C09","ec3f4b7","Matrix4d::IsIdentity and IsTranslation added the off-diagonal entries, which have different units, before comparing with zero: the translation by (1,-1,0) was reported to be the identity")
