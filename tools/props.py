# One entry per property: id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms, bounds, assumptions
P = []
def prop(id, title, statement, over, text, why, files, mech, bounds, note, assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, note=note, assume=list(assume)))
NC = "src/LNLib/Geometry/Curve/NurbsCurve.cpp"; NS = "src/LNLib/Geometry/Surface/NurbsSurface.cpp"; NV = "src/LNLib/Geometry/Volume/NurbsVolume.cpp"
PO = "src/LNLib/Algorithm/Polynomials.cpp"; KU = "src/LNLib/Algorithm/KnotVectorUtils.cpp"; IP = "src/LNLib/Algorithm/Interpolation.cpp"; IG = "src/LNLib/Algorithm/Integrator.cpp"
BC = "src/LNLib/include/BezierCurve.h"; BSC = "src/LNLib/include/BsplineCurve.h"; BS = "src/LNLib/include/BezierSurface.h"; BSS = "src/LNLib/include/BsplineSurface.h"

prop("C01", "Span lookup and basis functions agree with the Cox-de Boor definition",
 "For every valid knot vector, degree and parameter of the domain, the knot span and multiplicity queries identify the span that contains the parameter (the last non-empty one at the right end) and how often it occurs as a knot. The basis functions, computed all at once, one at a time or for all degrees, equal the Cox-de Boor functions: non-negative, summing to one, zero outside their support.",
 ["inputs"], "every degree, knot vector (clamped or not, any multiplicities) and parameter of the domain, in particular at knots and at the right end",
 "tests evaluate a handful of textbook knot vectors; multiplicity patterns and end-of-domain cases are not reached",
 [PO], [("GetKnotSpanIndex / GetKnotMultiplicity", PO), ("BasisFunctions / OneBasisFunction / AllBasisFunctions", PO)],
 "degree 1-7, up to 3 interior breakpoints with every multiplicity pattern, 2-4 spacings, 2-4 domains, unclamped uniform and irregular; every knot and several interior parameters per span; both query orders", "values compared with a long double Cox-de Boor recursion to 1e-9")
prop("C02", "Basis function derivatives are exact, at knots too",
 "For every knot vector, parameter and derivative order up to the degree, the derivatives of the basis functions reported for a span (all functions, one function, or the first derivative only) equal the derivatives of the Cox-de Boor polynomials of that span, and orders beyond the degree give zero where they are accepted.",
 ["inputs"], "every degree, knot vector, parameter and derivative order",
 "tests compare a few derivatives at a few parameters of one knot vector",
 [PO], [("BasisFunctionsDerivatives / OneBasisFunctionDerivative / BasisFunctionsFirstOrderDerivative", PO)],
 "as C01 with every derivative order up to the degree", "long double reference, relative tolerance scaled by the knot spacing")
prop("C03", "Bernstein/Bezier evaluation and bases agree",
 "Bernstein polynomials, all-Bernstein evaluation, Horner evaluation, the Bezier/power basis conversion matrices and the Bezier curve and surface evaluators (Bernstein, de Casteljau, rational quadratic arc) all describe the same polynomial or rational point for every degree, control polygon, weight and parameter.",
 ["inputs"], "every degree, control polygon or net, weights, and parameter in [0,1]",
 "tests evaluate single curves at single parameters",
 [PO, "src/LNLib/Geometry/Curve/BezierCurve.cpp", BC, BS], [("Bernstein / AllBernstein / Horner / BezierToPowerMatrix / PowerToBezierMatrix", PO), ("GetPointOnCurveByBernstein / ByDeCasteljau / GetPointOnQuadraticArc", BC)],
 "degree 1-7 and every index, 3+ control polygon families, weight families, 9+ parameters", "long double Bernstein sums as oracle")
prop("C04", "Curve evaluators return the point of the curve; points follow affine maps",
 "Evaluating a B-spline or NURBS curve at any parameter of its domain, by basis functions or by corner cutting, returns the point defined by its degree, knots, control points and weights. Transforming the curve by an affine matrix gives exactly the transformed points.",
 ["inputs"], "every clamped or unclamped curve, positive weights, and parameter of the domain",
 "tests evaluate a few curves at a few parameters; end-of-domain, unclamped and high-multiplicity evaluations are missing",
 [NC, BSC], [("GetPointOnCurve / GetPointOnCurveByCornerCut / CreateTransformed", NC), ("BsplineCurve::GetPointOnCurve", BSC)],
 "degree 1-7 curve alphabet (knots as C01, 3+ polygon families, 2+ weight families), every knot and interior parameters, affine matrices", "long double de Boor oracle, 1e-9 of the curve size")
prop("C05", "Curve derivatives, curvature, torsion and frames match the curve",
 "Curve derivatives up to any order (also through derivative control points) equal the true derivatives of the (rational) curve; curvature, torsion, tangent, normal and binormal equal the Frenet values wherever these exist. Projected normals along a curve stay unit length and perpendicular to its tangent, and the differentiability predicate is true exactly where left and right derivatives agree.",
 ["inputs"], "every curve, parameter and derivative order; closed and open curves for the normals",
 "tests check two or three derivative values; curvature/torsion at unit-speed points and closed curves are never reached",
 [NC, BSC], [("ComputeRationalCurveDerivatives / Curvature / Torsion / Normal / ProjectNormal / CanComputeDerivative", NC), ("BsplineCurve::ComputeDerivatives / ComputeDerivativesByAllBasisFunctions / ComputeControlPointsOfDerivatives", BSC)],
 "curve alphabet of C04, orders up to degree+2, all 7 values of the random frame seed", "power-series quotient oracle in long double")
prop("C06", "Knot insertion and refinement never change a curve",
 "Inserting a knot any number of times, refining with any multiset of knots, or inserting knots one at a time in any order gives a valid curve with exactly the requested additional knots (never beyond degree + 1 copies) whose point at every parameter is unchanged, and leaves the input untouched. Refinement and repeated insertion give the same control points.",
 ["inputs", "histories"], "every curve, insertion parameter, count, multiset of parameters, and order of insertions",
 "tests insert one or two knots in one curve",
 [NC], [("InsertKnot / RefineKnotVector", NC)],
 "degree 1-7 curve alphabet, counts 1..degree+1 at every knot and span interior, all multisets of up to 3-4 refinement knots, all insertion histories of depth 3-4", "long double de Boor oracle; also conformance of the two algorithms with each other")
prop("C07", "Bezier decomposition covers the curve exactly",
 "Decomposing a curve gives one valid Bezier piece per non-empty knot span, in order, each with the degree of the curve and the span as its domain, and every piece traces exactly the points of that span; neighbouring pieces share their end point on continuous curves.",
 ["inputs"], "every clamped curve with any interior multiplicities, up to degree + 1",
 "one textbook curve is decomposed in the tests",
 [NC], [("DecomposeToBeziers", NC)], "degree 1-7, up to 3 breakpoints, all multiplicities up to degree + 1", "long double oracle on both sides")
prop("C08", "Degree elevation is exact and degree reduction inverts it",
 "Raising the degree of a curve by any amount gives a valid curve of the requested degree, with every interior knot's multiplicity raised by that amount, tracing the same points at the same parameters. Reducing the degree succeeds on a curve that was elevated, gives back the same points, and never reports success with a curve that deviates from the source by more than tolerance.",
 ["inputs", "histories"], "every curve, every number of elevations, elevate/reduce histories",
 "tests elevate one curve once",
 [NC], [("ElevateDegree / ReduceDegree", NC)], "degree 1-6, all multiplicity patterns up to 3 breakpoints, elevation by 1..3 or more, elevate-then-reduce histories", "long double oracle")
prop("C09", "Knot removal undoes insertion and never alters a curve silently",
 "Removing knots that are removable (because they were inserted, in any combination) succeeds and gives back a valid curve with those knots gone and every point unchanged within tolerance; removing a knot that is not removable, absent or at an end is refused and returns the curve unchanged. Removing all excessive knots keeps the curve and leaves no removable knot behind that insertion had added.",
 ["inputs", "histories"], "every curve, every insert/remove history, every knot and count",
 "tests remove one knot from one curve",
 [NC], [("RemoveKnot / RemoveExcessiveKnots", NC)], "degree 1-6, insert histories of up to 3 knots followed by removals of every knot and count", "long double oracle; one known finding (degree minus multiplicity even) is pinned by an existing test")
prop("C10", "Every history of operations keeps the shape, parameters beside knots too",
 "After any sequence of insertions, refinements, elevations, reductions, exact removals, reversals, reparametrizations (linear and linear rational), motions, scalings, splits, extractions, decompositions and clamping, a curve is still the image of its source: every point is where the composition of what the operations promise puts it, the evaluator, the length and point inversion agree, and its parts merge again. The same holds for surfaces under insertion, refinement, elevation, reduction, reversal, swapping, reparametrization and decomposition, with their iso curves, and for surfaces of revolution and ruled surfaces made from a curve at the end of such a history. A parameter that rounding has put beside a knot is taken for the knot: insertion, refinement, removal, splitting, extraction, iso curves and evaluation of curves, surfaces and volumes give valid results of the same shape there.",
 ["histories", "inputs"], "every sequence of operations up to the depth on every start shape; every distance of some units in the last place from every knot",
 "tests apply one operation to one shape, at parameters that are exactly representable",
 [NC, NS, NV, "src/LNLib/Algorithm/KnotVectorUtils.cpp", "src/LNLib/Algorithm/Polynomials.cpp"], [("all shape preserving operations", NC), ("all shape preserving operations", NS), ("InsertKnot / SplitAt / Extract", NV)],
 "17 curve and 14 surface operations, all sequences of length 3 (4) from 5 (8) curves and 4 (5) surfaces; sequences of 2 (3) before queries, 1 (2) before merging and lifting; 4 (8) offsets from each knot, degrees 1-3 (5)", "the model composes, per operation, the parameter map and affine map it promises and evaluates the source in long double; it is bound to the code by comparing every trace's end state. Removal and reduction are compared to the library's own tolerance (1e-4), the rest to 1e-7 of the size")
prop("C11", "Splitting, extracting and merging keep every point of a curve",
 "Splitting at an interior parameter gives two valid curves that meet there and together trace exactly the source with its parametrization; extracting a parameter interval gives exactly that part; parameters outside the open domain are refused. Merging two curves that meet end to start gives one valid curve on [0,1] of the larger degree that traces the first on its first half and the second on its second half, and curves that do not meet are refused.",
 ["inputs", "histories"], "every curve, split parameter, interval, pair of curves, and history of splits followed by merges",
 "tests split one curve at one parameter and never extract",
 [NC], [("SplitAt / Extract / Merge", NC)], "degree 1-7 curve alphabet; every knot and span interior as split parameter, every pair as interval; all pairs of a merge alphabet with 5 gaps; all split histories of depth 2-3 then merge back", "long double oracle")
prop("C12", "Reversal, reparametrization, clamping and shape predicates are faithful",
 "Reversing, linear or rational-linear reparametrization, clamping and unclamping change only the parametrization or description: the result is a valid curve whose points correspond to the source's under the stated parameter map, on the stated domain; non-increasing rational maps are rejected. The clamped, closed, linear and periodic predicates are true exactly for the curves that have the property.",
 ["inputs"], "every curve (clamped, partly clamped, unclamped), parameter interval, rational map, and control polygon word",
 "tests use one curve per function; the rational reparametrization test did not even pass on this platform",
 [NC, KU], [("Reverse / Reparametrize / ToClampCurve / ToUnclampCurve / IsClamp / IsClosed / IsLinear / IsPeriodic", NC), ("Rescale", KU)],
 "degree 1-7 curve alphabet, 7 target intervals, all rational maps with coefficients from a 6-value set, every combination of loosened end knots, every control polygon word of length up to 5-6 over 5 positions", "long double oracle")
prop("C13", "Lines, arcs, ellipses, conics and Hermite curves are exact",
 "The line, circular and elliptical arc, conic and Hermite constructors give valid curves that satisfy their defining data everywhere: each point of an arc lies on the ellipse with the given centre, axes and radii, the curve starts and ends at the requested angles and sweeps exactly between them in the right direction; a conic interpolates its end points, end tangents and shoulder point; a Hermite curve interpolates points and tangents. Arc recognition accepts circular arcs with the right centre and radius and rejects other curves; degenerate data are refused.",
 ["inputs"], "every angle interval, centre, frame, radii, conic data and Hermite data",
 "tests build one arc and one conic; sweep angles in the other quadrants, ellipses and infinite shoulder points are not reached",
 [NC], [("CreateLine / CreateArc / CreateOneConicArc / SplitArc / CreateOpenConic / CreateCubicHermite / IsArc", NC)],
 "all line end points over a 5-value lattice; arcs: 7 start angles x 24-96 sweeps up to a full turn x all frames and radii pairs of the alphabet; conics of three kinds with every triple of parameter values of a grid and 3 tangent magnitudes; Hermite data of 4-8 points; every control polygon word over 5 positions for the arc recogniser", "implicit equations evaluated in long double")
prop("C14", "Curve interpolation passes through all the data it was given",
 "Interpolating a sequence of points (with or without tangents, globally or with local cubics) gives a valid curve of the requested degree that passes through every point, at the parameters chosen, with every requested tangent direction, whatever the number of points from the minimum on. Chord-length and centripetal parameters, averaged knot vectors and tangent estimates satisfy their definitions.",
 ["inputs"], "every sequence of distinct consecutive points, degree, and tangent set",
 "tests interpolate one or two point sets of one degree",
 [NC, "src/LNLib/Algorithm/Interpolation.cpp"], [("GlobalInterpolation / CubicLocalInterpolation", NC), ("Interpolation::GetChordParameterization / AverageKnotVector / ComputeTangent", "src/LNLib/Algorithm/Interpolation.cpp")],
 "every sequence of points reached by words over 4-5 steps, 2-7 points for parameters and local cubics, degree+1 .. degree+3 points for degree 1-7 global interpolation, 3 tangent families with 3 scale factors for degrees 2-4", "defining equations evaluated in long double")
prop("C15", "Approximating curves are least-squares optimal and keep their error bounds",
 "Least-squares approximation with any number of control points from degree + 1 up to one less than the points gives a valid curve that interpolates both end points and that no change of an inner control point improves at the chord-length parameters. The weighted, constrained variant meets every constrained point and tangent exactly and is optimal among such curves. Error-bounded approximation and conic fitting that report success keep every data point within the requested error; points of an exact conic are fitted.",
 ["inputs"], "every point sequence, degree, control point count, weight and constraint pattern, error bound",
 "tests call each routine once and print or compare one number",
 [NC, IP], [("LeastSquaresApproximation / WeightedAndContrainedLeastSquaresApproximation / GlobalApproximationByErrorBound / RemoveKnotsByGivenBound / FitWithConic / FitWithCubic", NC)],
 "every step word of 4-7 points over 4-5 steps and 4 families up to 36 points, degree 1-7, every admissible number of control points; every weight pattern over {1,-1,2.5} with 0-2 tangents at every index; 4 error bounds; conic/cubic segments with 0-4 inner points, noise 0, 0.02, 0.3", "stationarity (projected gradient of the squared error) and distances evaluated in long double; one known finding for FitWithCubic over several spans")
prop("C16", "Point inversion finds the parameter of a point on a curve",
 "For a point on a curve the inversion returns a parameter of the domain where the curve passes through that point, whatever the degree, weights, knots, domain, corners or closedness; for any other point it returns a parameter of the domain whose curve point is no farther than any of the curve's knot points and end points, and, where the nearest point is a regular interior minimum, the nearest one.",
 ["inputs"], "every curve, every parameter of it, and every query point of a lattice around it",
 "tests invert a few parameters of one curve",
 [NC], [("GetParamOnCurve(point)", NC)], "degree 1-6 curve alphabet on 3-5 domains, every knot and several interior parameters per span, a lattice of query points at 3 distances", "nearest point by dense sampling per span and golden-section refinement in long double")
prop("C17", "Arc length and parameters at given lengths agree with the true arc length",
 "The length of a curve or of a parameter interval of it agrees, for each of the three integrators, with the true arc length (Gauss-Legendre to 0.2 %, 1 % for steep weights, the others to 3 % for moderate weights); straight curves that run back and forth count their whole path. The parameter at a given length, and the successive parameters at equal length steps, cut off that length; lengths beyond the end give the end. The quadrature rules integrate polynomials of their order exactly.",
 ["inputs"], "every curve, interval, requested length, integrator",
 "tests compare one length and one parameter to two decimals",
 [NC, "src/LNLib/Algorithm/Integrator.cpp"], [("ApproximateLength / GetParamOnCurve(length) / GetParamsOnCurve", NC), ("Simpson / Gauss-Legendre / Clenshaw-Curtis rules", "src/LNLib/Algorithm/Integrator.cpp")],
 "degree 2-5 (7) curve alphabet, every pair of knots and interior parameters as interval, every word of 4 positions on a line for straight curves, 6 length fractions, 4 step fractions, monomials up to degree 39", "composite Gauss-Legendre in long double as oracle")
NSF = "src/LNLib/Geometry/Surface/NurbsSurface.cpp"
BSH = "src/LNLib/include/BsplineSurface.h"
prop("C18", "Surface evaluation, iso curves, boxes and scaling agree with the rational sum",
 "Evaluating a surface at any parameter pair of its domain gives the rational tensor-product sum of its control points, inside the hull of the active ones, with corners interpolated for clamped knots; parameters outside the knots are refused. An iso curve traces exactly the surface at the fixed parameter (clamped to the domain). The axis-aligned box contains the surface points at all pairs of knots and the oriented box every surface point, and neither is larger than the control net's; scaling the control net scales the surface.",
 ["inputs"], "every surface (degrees, knot multiplicities, domains, weights, clamped or not per direction), parameter pair, direction and position in space",
 "tests evaluate two surfaces and never compute a box",
 [NSF, BSH], [("GetPointOnSurface / GetIsoCurve / GetBoundingBox / GetOrientedBoundingBox / NonUniformScaling", NSF), ("GetPointOnSurface", BSH)],
 "degrees 1-5 x 1-5 (7 x 7), all multiplicity patterns of 1 (2) break points per direction, 3 (5) domain pairs, 3-5 nets, 2-3 weight families, all clamped/unclamped combinations, 4 positions in space", "long double tensor-product de Boor; known finding: the axis-aligned box may cut off bulges between knots, which a stable test pins")
prop("C19", "Surface derivatives, normals and curvatures match the surface",
 "All mixed partial derivatives up to any order (zero above the degree for polynomial parts), by either algorithm and by the first-order shortcut, equal those of the rational surface, at knots those of the piece to the right; the unit normal and the maximum, minimum, Gauss, mean, absolute and rms curvatures equal their definitions from the fundamental forms; decomposing a tangent vector gives back its parameter direction.",
 ["inputs"], "every surface, derivative order, parameter pair and tangent direction",
 "tests check a few derivatives of one surface",
 [NSF, BSH], [("ComputeRationalSurfaceDerivatives / ComputeRationalSurfaceFirstOrderDerivative / Normal / Curvature / GetUVTangent", NSF), ("ComputeDerivatives / ComputeDerivativesByAllBasisFunctions / ComputeControlPointsOfDerivatives", BSH)],
 "degrees 1-4 x 1-4 (7 x 7), all multiplicity patterns of 1 (2) break points per direction, orders 1-4 (5), every knot and span interior", "power-series quotient of tensor-product derivatives in long double")
prop("C20", "Insertion, refinement, decomposition, elevation and removal keep a surface",
 "Inserting or refining knots, decomposing into Bezier patches, raising a degree, and removing inserted knots in either direction gives valid surfaces, with exactly the expected knots and degrees, that trace the same points at the same parameters; the source is not modified and working in place gives the same result. Degree reduction gives back an elevated single patch and never reports success with another surface; removal never produces rows of different lengths.",
 ["inputs", "histories"], "every surface, direction, knot, multiplicity and insert/remove or elevate/reduce history",
 "tests use one surface per function",
 [NSF], [("InsertKnot / RefineKnotVector / DecomposeToBeziers / RemoveKnot / ElevateDegree / ReduceDegree", NSF)],
 "degrees 1-3 (4-6), all multiplicity patterns of 1-2 break points per direction, every knot and span interior with every count, all refinements of 1-2 (3) knots, elevation by 1-2 (3) and back", "long double oracle; one known finding inherited from curve knot removal")
prop("C21", "Surface swap, reversal and reparametrization change only the parameters",
 "Swapping directions, reversing u, v or both, and mapping the domain to any ranges gives a valid surface on the stated domain with S'(u,v) equal to the source at the corresponding parameters; doing it twice gives the source back, in place or not. A surface is reported closed in a direction exactly when every row is.",
 ["inputs", "histories"], "every surface, direction, range pair and subset of closed rows",
 "tests swap and reverse nothing and reparametrize one surface in both directions at once",
 [NSF], [("Swap / Reverse / Reparametrize / IsClosed", NSF)],
 "degrees 1-3 (5), all multiplicity patterns of 1-2 (3) break points per direction, 3 directions, 25 (49) range pairs including the present range of one or both directions, every subset of closed rows", "long double oracle")
prop("C22", "Bilinear, cylinder, ruled, revolved, swept, Coons surfaces are the stated shapes",
 "A bilinear surface interpolates its corners bilinearly; a cylinder has the stated axis, radius, height and angles, whatever the length of the axes given; a ruled surface contains both curves at their parameters and straight segments between them, whatever their degrees and knots; revolving keeps every profile point's height and distance to the axis, starts at the profile and turns by the given angle; a translational sweep is the sum of its curves; a Coons surface has the four given curves as boundaries and is their boolean sum. Invalid axes, angles, sizes and mismatched curves are refused.",
 ["inputs"], "every corner, axis length, angle, radius, and every pair or quadruple of boundary curves of any degrees, knots and (end weight 1) weights",
 "tests check a few points of one surface per construction, Coons only at the corners",
 [NSF], [("CreateBilinearSurface / CreateCylindricalSurface / CreateRuledSurface / CreateRevolvedSurface / CreateGeneralizedTranslationalSweepSurface / CreateCoonsSurface", NSF)],
 "625 corner words; all angle pairs of 11, radii and heights over 4 magnitudes, 4 frames; ruled and swept pairs of degree 1-3 (6) with all multiplicity patterns of 2 break points; 11 revolution angles, 4 profile families including one meeting the axis; Coons from curves of degree 1-4 with all patterns of 1 (2) break points, equal or different degrees, knots and domains", "closed forms in long double")
prop("C23", "Surfaces through points, sections and curve networks contain them",
 "The mesh parametrization is the mean of the chord parameters of the rows and of the columns. Interpolating any rectangular grid of points with any admissible degrees gives a valid surface that passes through every point at those parameters (columns along u, rows along v), and local bicubic interpolation one that passes through every point (rows along u) and reproduces planes; approximation gives the requested net and degrees, meets the corners, and fits separable data as its row and column fits. A loft contains every section, whatever their degrees, knots and weights and also when they share points; sweeps along a line carry a rigid copy of the profile across it; a Gordon surface meets an even network; normals projected along a curve are unit vectors across it. Inadmissible degrees and sizes are refused.",
 ["inputs"], "every grid size, degree pair and point set, every list of sections, network and sweep direction",
 "tests fit one 7x7 grid and check only that a surface comes out, and loft three equal arcs",
 [NSF, "src/LNLib/Algorithm/Interpolation.cpp"], [("GlobalInterpolation / GlobalApproximation / CreateLoftSurface / CreateSweepSurface / CreateGordonSurface", NSF), ("GetSurfaceMeshParameterization", "src/LNLib/Algorithm/Interpolation.cpp"), ("ProjectNormal", NC)],
 "grids 2-6 x 2-6 (7 x 7), 5 point families including a collapsed row, all admissible degree pairs up to 4 (6); all net sizes of approximation up to 6 x 6; 2-4 (5) sections of mixed degrees with all patterns of one break point, equal or different weights, given or chord parameters; 6 sweep directions, 2-6 sections; networks of 2-4 x 2-4 curves", "definitions in long double; sections between the ends are located by search. Not claimed: frames of sweeps along curved trajectories, approximation of data whose rows have different chord parameters beyond its corners")
prop("C24", "Point inversion on a surface finds the nearest point; signed distance",
 "For any point on a surface, edges and corners included, the inverse parameter lies in the domain and gives back that point; for any other point it is the parameter of a nearest point of the whole surface. The list of all parameters contains one that gives the point. The signed distance has the nearest distance as its size and the side of the normal as its sign, also across the seams of closed surfaces.",
 ["inputs"], "every surface and every point on or off it",
 "tests invert one interior point of one surface, in a test that does not pass reliably",
 [NSF], [("GetParamOnSurface / GetAllParamsOnSurface / ComputeSignedDistanceFunction", NSF)],
 "degrees 1-3 (4), all multiplicity patterns of one break point per direction, 2 (3) domains; every knot pair, edge, corner and span interior on the surface, displaced in 3 (6) directions by 2 (3) lengths; cylinders, spheres and tori of 3 sizes on a grid of 45 (153) directions inside, on and outside", "dense grid and compass search in long double, closed forms for the closed shapes. Not claimed: GetParamOnSurfaceByGSA, whose only test fails on the original code")
prop("C25", "Surface area agrees with the true area for every quadrature",
 "The approximate area of a surface agrees with the area integral for each of the three integrators, whatever its domain, degrees, creases, weights and size, is not changed by reparametrizing or swapping the surface, is zero for a collapsed surface, and the surface is not modified.",
 ["inputs"], "every regular surface",
 "tests integrate one smooth surface on the unit square and some analytic shapes",
 [NSF, "src/LNLib/Algorithm/Integrator.cpp"], [("ApproximateArea", NSF), ("Simpson / Gauss-Legendre / Clenshaw-Curtis", "src/LNLib/Algorithm/Integrator.cpp")],
 "height fields of degree 1-3 (5) with all multiplicity patterns of 1 (2) break points per direction including creases, 3 height and 3 weight families, 2 (4) domains; parallelograms, cylinders, spheres, tori, cones and collapsed patches of 4 sizes, 3 proportions, 3 domains, both directions", "Gauss-Legendre per knot rectangle in long double, self-checked by halving; closed forms")
prop("C26", "Tessellations lie on the shape and cover it without gaps",
 "A tessellated curve is a polyline from its start to its end, with its vertices on the curve in order, that stays within a small distance of it, inflections included. Equal tessellation gives points at increasing parameters spanning the domain, on surfaces a complete grid, and includes every break point. A surface mesh, regular or Delaunay, has its vertices on the surface, only faces of three distinct existing vertices, no edge in more than two faces and no gaps: it covers the whole parameter rectangle of any domain, and all of a closed surface.",
 ["inputs"], "every curve, surface, domain and resolution",
 "tests check that some faces come out of one surface on the unit square, and the ends of one circle",
 [NC, NSF], [("Tessellate / EquallyTessellate", NC), ("EquallyTessellate / Triangulate", NSF)],
 "curves of degree 1-4 (6) with all multiplicity patterns of 2 (3) break points; all words of control points over 3 heights for degrees 2-4 (5); surfaces of degree 1-3 (5) in 3 (4) domains, 12 resolutions; flat and bulged patches of 12 domains, 12 resolutions, and 48 curved shapes at 4 resolutions, with and without Delaunay", "long double oracle; matching of polyline and curve by a forward walk; areas and edge counts of the faces")
prop("C27", "Planar Delaunay triangulations and Voronoi diagrams are right",
 "For any set of distinct sites, exactly collinear, cocircular or in general position, in any order, the triangles are Delaunay (no site inside a circumcircle), cover the convex hull exactly once and refer to the given indices; the Delaunay edges are their edges; the Voronoi edges are exactly the bisector parts that belong to two nearest sites, clipped to the borders. A generator that is used again, reset or not, gives what a new one gives.",
 ["inputs", "histories"], "every finite site set and every history of generations",
 "tests triangulate four points once",
 ["src/LNLib/Algorithm/Voronoi.cpp"], [("VoronoiDiagramGenerator", "src/LNLib/Algorithm/Voronoi.cpp")],
 "all subsets of 2-5 (7) of a 4 x 4 grid under three coordinate maps and three orders; all histories of 2-4 generations over 5 site sets with or without reset; 4 layouts of every size up to 62 (202)", "incircle and convex hull in long double; brute force clipping of every bisector. The sites are single precision floats: sets with three sites that miss being collinear only by rounding are not claimed")
NVF = "src/LNLib/Geometry/Volume/NurbsVolume.cpp"
prop("C28", "Points, derivatives, iso curves, sections and inversion of volumes",
 "A point of a NURBS volume and all its mixed partial derivatives, of any order, equal the rational tensor product of the definition; an iso curve is the volume along one parameter with the other two fixed; the extracted section at any parameter, the ends included, is the surface the volume takes there (over (v,w), (w,u), (u,v) for u, v, w); closedness along a direction holds exactly when every line of control points along it closes; inversion of any point of a regular volume, also across the seam of a closed one, gives parameters inside the domain that give back the point; Check accepts regular right-handed volumes and rejects mirrored or turned over ones.",
 ["inputs"], "every volume, parameter triple, direction and derivative order",
 "there is no test of volumes at all",
 [NVF], [("GetPointOnVolume / ComputeVolumeRationalDerivatives / GetIsoCurve / Extract / IsClosed / GetParamOnVolume / Check", NVF)],
 "degrees 1-3 (4) per direction, all multiplicity patterns of one break point per direction, 2 point and 2 weight families, 2 domains; derivative orders 0-3 (4); every subset of one open line; 250 inversions (every volume of degree 1-2 (3), at knots and inside), a ring closed along each direction; 32 blocks and their mirrors", "long double oracle. GetIsoCurve marks the free direction by -1, so fixed parameters equal to -1 are not asked for")
prop("C29", "Insertion, refinement, elevation, split, reverse, swap keep a volume",
 "Inserting or refining knots and elevating the degree of a volume along any direction give a valid volume with exactly the expected knots and the same point at every parameter; splitting at any interior parameter gives two clamped volumes that are the two parts; reversing mirrors one parameter and swapping exchanges two, named in either order; any history of these operations keeps the point set and composes the parameter maps; the input is not modified, and an operation may write to its own input.",
 ["inputs", "histories"], "every volume, direction, knot, count and history of operations",
 "there is no test of volumes at all",
 [NVF], [("InsertKnot / RefineKnotVector / ElevateDegree / SplitAt / Reverse / Swap", NVF)],
 "degrees 1-2 (3; reverse and swap 4) per direction, all multiplicity patterns of one (two) break points per direction, every knot and span, counts 1-3, refinements of 1-2 (4) knots, all 3 directions and 9 direction pairs; all histories of 3 (4) of 15 operations", "long double oracle")
MTH = "src/LNLib/Mathematics/"
prop("C30", "Vector, matrix and linear algebra, combinatorics, tolerant comparison",
 "Tolerant comparison of any two numbers, infinite ones included, is a symmetric trichotomy at the stated tolerance, and NaN never compares; binomials and factorials are exact, and a factorial that overflows is refused; sums, products, lengths, angles, normalisation, weighted points and orthogonal vectors are those of the definition and leave their operands alone; every transformation (rotation about any axis or point, translation, scale, reflection, and their products) maps points and vectors as defined, its inverse undoes it, a singular one has no inverse, and its predicates (identity, translation, reflection, scale) tell what it is; solving, inverting, decomposing and multiplying matrices give exact identities for every regular matrix and refuse or report singular ones.",
 ["inputs"], "every number, vector, matrix and product of transformations",
 "tests use one rotation and two small systems",
 [MTH], [("MathUtils / XYZ / XYZW / UV / Matrix4d", MTH)],
 "all pairs of 26 magnitudes at 3 tolerances; all binomials to n = 53 (59); all pairs of a 4^3 lattice at 3 scales; all products of up to 3 of 14 (22) transformations; all 3 x 3 matrices over {-1, 0, 1, 2} and larger families", "long double oracle, Pascal's triangle, Rodrigues' formula")
prop("C31", "Octree searches find exactly the neighbours there are",
 "For any point set, duplicates, collinear, clustered or far from the origin, and any leaf size, the octree partitions the points (each lies in exactly one leaf and inside its octant's cube); for any query the k nearest search returns min(k, n) neighbours whose farthest is the k-th nearest point, and both radius searches return exactly the points within the radius; an empty tree has no neighbours; the collectors keep the k nearest (or those in the radius) for every order of insertion.",
 ["inputs", "histories"], "every point set, query, k, radius and insertion order",
 "there is no test of the octree",
 ["src/LNLib/Algorithm/Octree/"], [("OctreeConstruction / OctreeKnnSearch / OctreeRadiusSearch / OctreeRadiusSearchFast / KnnResultSet / RadiusNnResultSet", "src/LNLib/Algorithm/Octree/")],
 "all 255 (4095) subsets of a lattice at 3 scales, 3 offsets, 2 leaf sizes; 6 layouts of 1-64 (300) points; 4 or more queries each with every k and every radius between two consecutive distances; all orders of up to 5 (6) insertions", "brute force over all points. The result sets expose only their size and the worst distance, so those are what is compared")
prop("C32", "Intersections and projections of lines, planes and points",
 "For any two rays, whatever the length of their direction vectors, the classification as intersecting, skew, parallel or coincident is the geometric one, and the parameters and the point are those of the mutual nearest points; a ray without direction is refused. A line and a plane cross, are parallel or lie in one another accordingly, at the right point. The foot of a point on a line is the nearest point; on a segment it is reported exactly when it falls inside. Stereographic projection from the pole (0,0,2r) lands where the line through the pole meets z = 0.",
 ["inputs"], "every pair of rays, plane, point and segment",
 "tests check one or two configurations of unit vectors",
 ["src/LNLib/Algorithm/Intersection.cpp", "src/LNLib/Algorithm/Projection.cpp"], [("ComputeRays / ComputeLineAndPlane", "src/LNLib/Algorithm/Intersection.cpp"), ("PointToRay / PointToLine / Stereographic", "src/LNLib/Algorithm/Projection.cpp")],
 "all pairs of 30 directions (crossing at 0.05 rad or more) at lengths 0.01, 1, 250, 3 places, 16 distances from the meeting point, 3 gaps; all coincident and parallel pairs; 8 positions along segments of length 0.004-300; 13 x 24 (72) points of 3 spheres", "configurations are built from the answer, in long double")
prop("C33", "Knot vector multiplicities, common and midpoint refinement, uniformity",
 "Multiplicity maps and continuity count every knot; rescaling is the affine map of the knots and keeps multiplicities; the knots to insert into two, or into any list of, knot vectors complete each to their union with the largest multiplicities and no more; inserting n knots halves a longest span n times, also in short domains; the knots to insert for a range raise both its ends to degree + 1, counting those already there; a knot vector is uniform exactly when its spans, interior multiplicities and end multiplicities are equal.",
 ["inputs"], "every knot vector, list of knot vectors, range and count",
 "tests check eight hand-written knot vectors",
 ["src/LNLib/Algorithm/KnotVectorUtils.cpp"], [("KnotVectorUtils", "src/LNLib/Algorithm/KnotVectorUtils.cpp")],
 "every multiset of 4 (5) grid values with multiplicities to 3, of 4 grids; all pairs with multiplicities to 2 (3); all lists of 1-3 (4); n to 6 (11) at 4 scales; all ranges of clamped and unclamped vectors of degree 1-4 (6); all end and interior multiplicity patterns of up to 4 (5) interior knots with every position of an odd span", "multiset arithmetic")
prop("C34", "Shape editing moves what was asked, by as much as asked, and nothing else",
 "Repositioning a control point moves the chosen point of the curve by exactly the asked distance along the asked direction; changing a weight moves it by that distance straight towards (or away from) the control point, and changing two neighbouring weights equally moves it by that distance towards (or away from) their leg; both leave every other control point, weight and knot alone, and a control point without influence at the parameter is refused. Warping displaces each control point by its share of the asked distance across the tangent in the given plane, also for fractional distances; flattening projects the control points of the chosen parameter range that fall on the given segment onto it, tells whether a straight piece results, and leaves the curve outside the range as it was; bending moves the control points of the range radially by the given cross ratio (on the circle itself for ratio 1). Constraint based modification meets every asked point and derivative displacement at every parameter, on rational curves too, moves only free control points, and refuses constraints that cannot be met.",
 ["inputs"], "every curve, rational or not, parameter, control point, direction and distance",
 "tests edit one curve each, with unit weights, and compare one point",
 [NC], [("ControlPointReposition / WeightModification / NeighborWeightsModification / Warping / Flattening / Bending / ConstraintBasedModification", NC)],
 "degrees 1-3 (5), all multiplicity patterns of two break points, clamped and unclamped, 2 domains, 2 point and 2 weight families; every knot and two points inside every span, every control point, 3 directions, 3-4 distances; flattening and bending of every range between break points of curves with up to 2p + 5 knots; constraint systems of one and two constraints of order 0-2 and 4 fixed sets", "rational basis in long double; the edited curve is evaluated with the reference. Configurations the pinned tests leave undefined in NeighborWeightsModification (last control point) are not claimed")
prop("C35", "Extensions continue a curve smoothly; one conic arc and its halves are right",
 "Extending a curve at either end, by its tangent, by its osculating circle or naturally, keeps the original as a part of the result, starts where the curve ends with its tangent direction, is straight, circular or the same rational polynomial piece respectively, and has the asked length (approximately so for the natural extension); a non-positive length, or a circle at a straight end, leaves the curve as it is. The arc through a point with two end tangents has the weight that makes the conic pass through that point, and splitting an arc gives the two halves of the same conic.",
 ["inputs"], "every clamped curve, both ends, every length and kind of extension; every conic configuration",
 "tests extend one curve and split one arc",
 [NC], [("Extend / CreateOneConicArc / SplitArc", NC)],
 "degrees 1-4 (5), all multiplicity patterns of two break points, 3 domains, 4 point and 3 weight families, 3 lengths, both ends; conics of 5 shapes under 3 placements with every through point of a grid", "closed forms and the reference evaluation in long double")
prop("C36", "Operations depend only on their arguments and leave them alone",
 "Every operation that makes a curve, surface or volume from another leaves its input as it was, gives the same result whatever the result object held before, gives the same result when asked again, and gives the same result when it writes to its own input; every construction gives the same result into a used object as into a new one.",
 ["inputs", "histories"], "every operation, shape and previous contents of the result object",
 "tests always pass fresh result objects, never the input itself, and never call twice",
 [NC, NSF, NVF], [("all const-input / reference-output operations", NC), ("all const-input / reference-output operations", NSF), ("all const-input / reference-output operations", NVF)],
 "35 curve, 16 surface and 21 volume operations on curves of degree 1-4 (5), surfaces of degree 1-2 (3), volumes of degree 1-2 and all multiplicity patterns of 1-2 break points; two used result objects, a larger and a smaller, and the input itself; 44 constructions into fresh, larger and smaller objects", "bitwise comparison with the result in a fresh object. Not claimed: sweeps, which start from a random frame by design, and the lists that EquallyTessellate and the fits append to")
prop("C37", "Quadrature rules and Fourier, cosine and sine transforms are those defined",
 "Simpson's rule is exact for cubics, also in each of two variables and over any interval, and passes the caller's data on; the Gauss-Legendre table is exact to degree 47; Clenshaw-Curtis quadrature gives smooth integrals over any interval, forwards or backwards, to its tolerance, gives polynomials of low degree exactly, gives the same by both variants, and a series used for any history of integrals gives what a fresh one gives. The complex, real, cosine and sine transforms of every power of two length are those of their stated definitions, and undo one another.",
 ["inputs", "histories"], "every integrand, interval, series length and history; every input vector of every power of two length (the transforms are linear, so all impulses decide)",
 "there is no test of the integrators or transforms by themselves",
 ["src/LNLib/Algorithm/Integrator.cpp", "src/LNLib/include/FFT.h"], [("Integrator", "src/LNLib/Algorithm/Integrator.cpp"), ("cdft / rdft / ddct / ddst / dfct / dfst", "src/LNLib/include/FFT.h")],
 "8 intervals; all monomials to degree 3 x 3 and 47; 15 integrands, 3 amplitudes, 7 series lengths; all histories of 2-3 (4) of 7 integrals; all impulses of all lengths to 128 (512), both directions", "closed forms in long double")
prop("C38", "Malformed shapes and arguments out of range are refused",
 "Check accepts a curve or surface (NURBS, B-spline, Bezier) exactly when its degrees are positive, its knots do not decrease and its counts fit (m = n + p + 1); every operation that takes a parameter refuses one outside the domain, by an exception, and reads nothing out of bounds; so do non-positive counts, derivative orders and tolerances, indices outside the lists, lists of unequal or too small sizes, degrees outside the supported range, zero directions, axes and radii, empty and reversed ranges. The input is left as it was.",
 ["inputs"], "every combination of counts, every parameter outside the domain, every invalid argument",
 "tests never pass an invalid argument",
 [NC, NSF, "src/LNLib/include/", "src/LNLib/Algorithm/Polynomials.cpp", "src/LNLib/Algorithm/ValidationUtils.cpp"], [("Check", "src/LNLib/include/"), ("argument validation", NC), ("argument validation", NSF), ("ValidationUtils", "src/LNLib/Algorithm/ValidationUtils.cpp")],
 "all degrees -1 to 4 (7) x 0-11 (15) knots x 0-7 (10) control points with every position of a decrease, in each direction of a surface; 31 curve and 24 surface operations at 4 distances below and above the domain of curves of degree 1-4 (6) and surfaces of degree 1-2 (3); 190 kinds of invalid arguments", "address sanitizer and checked containers turn an out of bounds read into an alarm. Which of the two exception types is thrown, and whether the result object was touched before, is not claimed; NaN parameters, ragged nets and volumes, which have no argument checks, are not claimed")
prop("C39", "Derivative control nets, quadratics from tangents, removal within a bound",
 "The control points of derivatives of curves and surfaces, for every order and window, make the derivative shapes on the inner knots, and agree with the first-order and the all-basis-functions evaluators; the control points put between two points with given tangents start and end along them, with positive weights and no kink where the two pieces meet; the weight of a rational quadratic piece is the circle's for an isosceles triangle, symmetric, independent of scale and in (0,1); the removal bound of a knot is zero exactly when it is removable; removing knots within a bound moves no listed parameter by more than the error it reports, nor that beyond the bound, and drops redundant knots; the modification tolerance follows its formula.",
 ["inputs"], "every curve, surface, order, window, tangent pair, triangle, bound",
 "tests look at one derivative net, one pair of tangents and one triangle; bounded removal is only run inside one approximation",
 [NC, "src/LNLib/include/BsplineCurve.h", "src/LNLib/include/BsplineSurface.h", "src/LNLib/Algorithm/Interpolation.cpp", "src/LNLib/Geometry/Curve/BezierCurve.cpp"], [("ComputeControlPointsOfDerivatives", "src/LNLib/include/BsplineCurve.h"), ("RemoveKnotsByGivenBound / ComputerRemoveKnotErrorBound", NC), ("ComputerMiddleControlPointsOnQuadraticCurve / ComputerWeightForRationalQuadraticInterpolation", "src/LNLib/Algorithm/Interpolation.cpp")],
 "degrees 1-5 (7), all multiplicity patterns of 2 break points, all orders, all windows; 12 x 12 (24 x 24) pairs of tangents in three configurations; 72 triangles; 3 bounds x 2 parameter lists", "tangent pairs that are refused are not claimed to be solvable; bounds are for non-rational curves; entries of a derivative net over an empty knot interval are not compared")

prop("C40", "Calls from several threads give what they give alone",
 "The library can be called from several threads at a time: for every pair of requests (evaluation, derivatives, editing, interpolation, approximation, projection, integration, triangulation, searching, linear algebra), on shapes of their own or on one shape that both only read, and for every interleaving of the two calls, each call returns exactly what it returns when it runs alone, and also what it returns alone when it runs before or after the other.",
 ["inputs", "schedules", "histories"], "every pair of calls and every interleaving of their memory accesses",
 "tests call the library from one thread; a race shows only under a particular interleaving",
 [NC, NS, NV, "src/LNLib/Algorithm/Polynomials.cpp", "src/LNLib/Mathematics/Utils/MathUtils.cpp"], [("all evaluation and editing functions (no shared mutable state)", NC), ("the pascal table, built before main", "src/LNLib/Mathematics/Utils/MathUtils.cpp")],
 "two threads, one call each; all pairs of 60 curve, 53 surface, 28 volume and 16 other requests on shared shapes, each request with itself on shapes of its own (another and a neighbouring one), curve x surface, curve x other and surface x other requests; the full trace of shared loads and stores of both calls decides independence (one class of interleavings, explored once); where steps conflict, all schedules with at most two preemptions at the first 4 (12) conflicting steps of each thread and 4 (20) spread over the rest", "two threads; sequentially consistent memory; critical sections (mutexes, guarded statics) run without preemption; callbacks of libstdc++ outside the instrumented library are seen through memcpy, memmove, memset and the allocator only")

prop("C41", "The C interface gives the answers of the library",
 "Every function of the C interface (dotnet/CAPI) gives, for the same arguments, the status, numbers, points, arrays with their counts, curves and surfaces that the C++ function gives, and refuses when it refuses. Curves, surfaces or meshes that one call returns can be read together and stay readable until the next call on that thread that returns one of that kind; such a curve may be passed to the next call, also as the place for its own result, so that every sequence of calls gives what the same sequence of C++ calls gives; calls on another thread, and calls that return nothing of its kind, do not disturb it. Every entry point that the .NET bindings (dotnet/PInvoke) import is exported.",
 ["inputs", "histories"], "every exported function, argument and sequence of calls through handles",
 "the C interface has no test at all, and a handle that dies or is shared too early shows only in a sequence of calls",
 ["dotnet/CAPI/src", "dotnet/CAPI/include", "dotnet/PInvoke/src"], [("FromCAPI / ToCAPI", "dotnet/CAPI/include/NurbsCurve_CAPI.h"), ("curve functions", "dotnet/CAPI/src/NurbsCurve_CAPI.cpp"), ("surface functions", "dotnet/CAPI/src/NurbsSurface_CAPI.cpp")],
 "all 223 exported functions; curve functions on the curve alphabet of degrees 1-3 (4) and arcs at four parameters, surface functions on a surface alphabet and a cylinder, constructions over their argument lists, knot vectors and basis functions of degrees 1-3 (4), all pairs of 8 vectors and 4 matrices; all histories of 3 (4) of 10 operations through one handle; all pairs of operations on two threads, meshes of three surfaces before six kinds of calls; buffers of exactly the size the library needs, so that a write beyond one is seen", "numbers are compared to 1e-9 relative; the marshalling of the .NET runtime and the pybind11 module are not run (neither dotnet nor pybind11 is installed); LNLIB_XYZW_is_almost_equal is compared for equal weights only, because it has a tolerance argument the C++ function lacks")

