// C38: malformed shapes and arguments out of range are refused with an exception, before anything is read or written out of bounds; well-formed ones are accepted.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "BezierCurve.h"
#include "Polynomials.h"
#include "ValidationUtils.h"
#include "BezierSurface.h"
#include "LNEnums.h"
#include "Constants.h"
#include <cstring>
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;
typedef LN_NurbsCurve C1; typedef LN_NurbsSurface S2;
// 0 accepted, 1 refused by the library, 2 anything else thrown
template <class F> static int outcome(F f) { try { f(); return 0; } catch (const std::invalid_argument&) { return 1; } catch (const std::out_of_range& e) { return strncmp(e.what(), "Argument is out of range", 24) ? 2 : 1; } catch (...) { return 2; } }
static std::vector<double> shape(int n, int kind, int at) { std::vector<double> U; for (int i = 0; i < n; i++) U.push_back(i < n / 2 ? 0 : 1); if (kind == 1 && n > 1) { int k = 1 + at % (n - 1); U[k] = U[k - 1] - 0.25; for (int j = k + 1; j < n; j++) U[j] = std::max(U[j], U[k]); } if (kind == 2) for (int i = 0; i < n; i++) U[i] = i; return U; }
static void structure(Ctx& c) {
  int p = c.pick(mc::tier(6, 9)) - 1, m = c.pick(mc::tier(12, 16)), n = c.pick(mc::tier(8, 11)), kind = c.pick(3), at = kind == 1 ? c.pick(std::max(1, m - 1)) : 0; c.shard(); auto U = shape(m, kind, at); bool sorted = true; for (int i = 1; i < m; i++) sorted &= U[i] >= U[i - 1]; bool good = p > 0 && m > 0 && n > 0 && sorted && m == n + p + 1; std::string w = fmt("degree %d, %d knots%s, %d control points", p, m, sorted ? "" : fmt(" that decrease at %d", at + 1).c_str(), n); c.note("%s", w.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(p, m), n), kind), at)); C1 a; a.Degree = p; a.KnotVector = U; for (int i = 0; i < n; i++) a.ControlPoints.push_back(XYZW(pos(0, i, n), 1)); LN_BsplineCurve<XYZ> b; b.Degree = p; b.KnotVector = U; for (int i = 0; i < n; i++) b.ControlPoints.push_back(pos(0, i, n));
  int r = outcome([&] { NurbsCurve::Check(a); }); c.check(r == !good, "curve", w + (r ? ": refused" : ": accepted")); r = outcome([&] { BsplineCurve::Check(b); }); c.check(r == !good, "bspline", w + (r ? ": refused" : ": accepted")); c.check(ValidationUtils::IsValidKnotVector(U) == sorted, "knots", w); c.check(ValidationUtils::IsValidNurbs(p, m, n) == (m == n + p + 1) && ValidationUtils::IsValidBspline(p, m, n) == (m == n + p + 1) && ValidationUtils::IsValidBezier(p, n) == (n == p + 1) && ValidationUtils::IsValidDegreeReduction(p) == (p > 1), "counts", w); LN_BezierCurve<XYZ> z; z.Degree = p; z.ControlPoints = b.ControlPoints; r = outcome([&] { BezierCurve::Check(z); }); c.check(r == !(p > 0 && n == p + 1), "bezier", w + (r ? ": refused as Bezier" : ": accepted as Bezier")); c.trans(7);
  // the same along each direction of a surface whose other direction is right
  for (int dir = 0; dir < 2; dir++) { int q = 2, mm = 7, nn = 4; auto V = clamped(q, {1}); S2 s; s.DegreeU = dir ? q : p; s.DegreeV = dir ? p : q; s.KnotVectorU = dir ? V : U; s.KnotVectorV = dir ? U : V; int nu = dir ? nn : n, nv = dir ? n : nn; (void)mm; for (int i = 0; i < nu; i++) { s.ControlPoints.emplace_back(); for (int j = 0; j < nv; j++) s.ControlPoints.back().push_back(XYZW(pos2(0, i, j, nu, nv), 1)); } r = outcome([&] { NurbsSurface::Check(s); }); c.check(r == !good, "surface", fmt("%s: ", dir ? "v" : "u") + w + (r ? ": refused" : ": accepted")); LN_BsplineSurface<XYZ> t; t.DegreeU = s.DegreeU; t.DegreeV = s.DegreeV; t.KnotVectorU = s.KnotVectorU; t.KnotVectorV = s.KnotVectorV; for (auto& row : s.ControlPoints) { t.ControlPoints.emplace_back(); for (auto& x : row) t.ControlPoints.back().push_back(x.ToXYZ(true)); } r = outcome([&] { BsplineSurface::Check(t); }); c.check(r == !good, "bspline-surface", fmt("%s: ", dir ? "v" : "u") + w + (r ? ": refused" : ": accepted")); c.trans(2); { int q = 3; LN_BezierSurface<XYZ> z; z.DegreeU = dir ? q : p; z.DegreeV = dir ? p : q; z.ControlPoints = t.ControlPoints; bool bg = p > 0 && n == p + 1; int zr = outcome([&] { BezierSurface::Check(z); }); c.check(zr == !bg, "bezier-surface", fmt("%s: ", dir ? "v" : "u") + w + (zr ? ": refused as Bezier" : ": accepted as Bezier")); LN_BezierSurface<XYZW> y; y.DegreeU = z.DegreeU; y.DegreeV = z.DegreeV; y.ControlPoints = s.ControlPoints; zr = outcome([&] { BezierSurface::Check(y); }); c.check(zr == !bg, "bezier-surface", w); c.trans(2); } } c.count(good ? "well-formed" : "malformed");
}
template <class T> struct Bad { const char* name; std::function<void(const T&, double, T&)> f; };
static bool same2(const S2& a, const S2& b) { return hash(a) == hash(b); }
static const std::vector<Bad<C1>>& curveParams() { typedef const C1& A; static std::vector<Bad<C1>> v = {
  {"GetPointOnCurve", [](A a, double u, C1&) { NurbsCurve::GetPointOnCurve(a, u); }}, {"ComputeRationalCurveDerivatives", [](A a, double u, C1&) { NurbsCurve::ComputeRationalCurveDerivatives(a, 2, u); }}, {"Curvature", [](A a, double u, C1&) { NurbsCurve::Curvature(a, u); }}, {"Normal", [](A a, double u, C1&) { NurbsCurve::Normal(a, CurveNormal::Normal, u); }}, {"Binormal", [](A a, double u, C1&) { NurbsCurve::Normal(a, CurveNormal::Binormal, u); }}, {"Torsion", [](A a, double u, C1&) { NurbsCurve::Torsion(a, u); }}, {"GetPointOnCurveByCornerCut", [](A a, double u, C1&) { NurbsCurve::GetPointOnCurveByCornerCut(a, u); }}, {"InsertKnot", [](A a, double u, C1& r) { NurbsCurve::InsertKnot(a, u, 1, r); }}, {"RefineKnotVector", [](A a, double u, C1& r) { NurbsCurve::RefineKnotVector(a, {u}, r); }}, {"RemoveKnot", [](A a, double u, C1& r) { NurbsCurve::RemoveKnot(a, u, 1, r); }}, {"Extract from", [](A a, double u, C1& r) { NurbsCurve::Extract(a, u, a.KnotVector.back(), r); }}, {"Extract to", [](A a, double u, C1& r) { NurbsCurve::Extract(a, a.KnotVector[0], u, r); }}, {"ControlPointReposition", [](A a, double u, C1& r) { NurbsCurve::ControlPointReposition(a, u, 0, XYZ(1, 0, 0), 1, r); }}, {"WeightModification", [](A a, double u, C1& r) { NurbsCurve::WeightModification(a, u, 0, 1, r); }}, {"NeighborWeightsModification", [](A a, double u, C1& r) { NurbsCurve::NeighborWeightsModification(a, u, 0, 1, 1, r); }}, {"Warping from", [](A a, double u, C1& r) { NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size(), 1), 1, XYZ(0, 0, 1), u, a.KnotVector.back(), r); }}, {"Warping to", [](A a, double u, C1& r) { NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size(), 1), 1, XYZ(0, 0, 1), a.KnotVector[0], u, r); }}, {"Flattening from", [](A a, double u, C1& r) { NurbsCurve::Flattening(a, XYZ(0, 0, 0), XYZ(1, 0, 0), u, a.KnotVector.back(), r); }}, {"Flattening to", [](A a, double u, C1& r) { NurbsCurve::Flattening(a, XYZ(0, 0, 0), XYZ(1, 0, 0), a.KnotVector[0], u, r); }}, {"Bending from", [](A a, double u, C1& r) { NurbsCurve::Bending(a, u, a.KnotVector.back(), XYZ(0, 9, 0), 2, 1, r); }}, {"Bending to", [](A a, double u, C1& r) { NurbsCurve::Bending(a, a.KnotVector[0], u, XYZ(0, 9, 0), 2, 1, r); }}, {"ConstraintBasedModification", [](A a, double u, C1& r) { NurbsCurve::ConstraintBasedModification(a, {u}, {XYZ(1, 0, 0)}, {0}, {0}, {}, r); }},
  {"GetKnotSpanIndex", [](A a, double u, C1&) { Polynomials::GetKnotSpanIndex(a.Degree, a.KnotVector, u); }}, {"GetKnotMultiplicity", [](A a, double u, C1&) { Polynomials::GetKnotMultiplicity(a.KnotVector, u); }}, {"BasisFunctions", [](A a, double u, C1&) { double N[8]; Polynomials::BasisFunctions(a.Degree, a.Degree, a.KnotVector, u, N); }}, {"BasisFunctionsDerivatives", [](A a, double u, C1&) { Polynomials::BasisFunctionsDerivatives(a.Degree, a.Degree, 1, a.KnotVector, u); }}, {"OneBasisFunction", [](A a, double u, C1&) { Polynomials::OneBasisFunction(0, a.Degree, a.KnotVector, u); }}, {"OneBasisFunctionDerivative", [](A a, double u, C1&) { Polynomials::OneBasisFunctionDerivative(0, a.Degree, 1, a.KnotVector, u); }}, {"AllBasisFunctions", [](A a, double u, C1&) { Polynomials::AllBasisFunctions(a.Degree, a.Degree, a.KnotVector, u); }}, {"Bernstein", [](A a, double u, C1&) { Polynomials::Bernstein(0, a.Degree, u < a.KnotVector[0] ? -1 : 2); }}, {"AllBernstein", [](A a, double u, C1&) { Polynomials::AllBernstein(a.Degree, u < a.KnotVector[0] ? -1 : 2); }}}; return v; }
static const std::vector<double> OUT = {1e-3, 1, 1e6, HUGE_VAL};
static void curveRange(Ctx& c) {
  auto a = pickCurve(c, mc::tier(4, 6), 2, mc::tier(2, 3), 3, 1, 3, false, {0}, {1}); c.shard(); auto& b = c.pick(curveParams()); bool below = c.flip(); double d = c.pick(OUT), lo = a.KnotVector[0], hi = a.KnotVector.back(), e = d * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi))), u = below ? lo - e : hi + e; std::string at = fmt("%s at %g of ", b.name, u) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), &b - &curveParams()[0]), below), std::min(d, 1e9))); C1 in = a, r = curve(1, clamped(1, {}), 1, 0); int o = outcome([&] { b.f(in, u, r); }); c.trans(); c.check(o == 1, "range", at + (o ? ": fails otherwise" : ": accepted")); c.check(same(in, a), "input", at + ": the input changed"); c.count("refused");
}
static const std::vector<Bad<S2>>& surfParams() { typedef const S2& A; static std::vector<Bad<S2>> v; if (v.empty()) for (int d = 0; d < 2; d++) { auto uv = [d](A a, double x) { double u = 0.5 * (a.KnotVectorU[0] + a.KnotVectorU.back()), w = 0.5 * (a.KnotVectorV[0] + a.KnotVectorV.back()); return d ? UV(u, x) : UV(x, w); }; auto add = [&](const char* n, std::function<void(A, double, S2&)> f) { v.push_back({n, f}); }; add("GetPointOnSurface", [=](A a, double x, S2&) { NurbsSurface::GetPointOnSurface(a, uv(a, x)); }); add("ComputeRationalSurfaceDerivatives", [=](A a, double x, S2&) { NurbsSurface::ComputeRationalSurfaceDerivatives(a, 2, uv(a, x)); }); add("ComputeRationalSurfaceFirstOrderDerivative", [=](A a, double x, S2&) { XYZ s, p, q; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(a, uv(a, x), s, p, q); }); for (int k = 0; k < 6; k++) add("Curvature", [=](A a, double x, S2&) { NurbsSurface::Curvature(a, (SurfaceCurvature)k, uv(a, x)); }); add("Normal", [=](A a, double x, S2&) { NurbsSurface::Normal(a, uv(a, x)); }); add("InsertKnot", [=](A a, double x, S2& r) { NurbsSurface::InsertKnot(a, x, 1, !d, r); }); add("RefineKnotVector", [=](A a, double x, S2& r) { NurbsSurface::RefineKnotVector(a, {x}, !d, r); }); add("RemoveKnot", [=](A a, double x, S2& r) { NurbsSurface::RemoveKnot(a, x, 1, !d, r); }); } return v; }
static void surfaceRange(Ctx& c) {
  auto a = pickSurface(c, 1, mc::tier(2, 3), 1, 2, 2, 1, 2, {0}, {1}); c.shard(); auto& L = surfParams(); int k = c.pick((int)L.size()); bool below = c.flip(); double d = c.pick(OUT); bool v = k >= (int)L.size() / 2; auto& U = v ? a.KnotVectorV : a.KnotVectorU; double e = d * std::max(1.0, std::max(std::fabs(U[0]), std::fabs(U.back()))), u = below ? U[0] - e : U.back() + e; std::string at = fmt("%s with %s = %g of ", L[k].name, v ? "v" : "u", u) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), k), below), std::min(d, 1e9))); S2 in = a, r = surface(1, 1, clamped(1, {}), clamped(1, {}), 0, 0); int o = outcome([&] { L[k].f(in, u, r); }); c.trans(); c.check(o == 1, "range", at + (o ? ": fails otherwise" : ": accepted")); c.check(same2(in, a), "input", at + ": the input changed"); c.count("refused");
}
// counts, indices, sizes, zero vectors and radii
struct Case { const char* name; std::function<void(const C1&, C1&)> f; };
typedef std::vector<XYZ> Pts; static Pts pts(int n) { Pts v; for (int i = 0; i < n; i++) v.push_back(pos(6, i, n)); return v; }
static const std::vector<Case>& cases() { typedef const C1& A; static std::vector<Case> v; if (!v.empty()) return v; auto add = [&](const char* n, std::function<void(A, C1&)> f) { v.push_back({n, f}); };
  for (int t : {0, -1}) { add("InsertKnot no times", [=](A a, C1& r) { NurbsCurve::InsertKnot(a, 0.5 * (a.KnotVector[0] + a.KnotVector.back()), t, r); }); add("RemoveKnot no times", [=](A a, C1& r) { NurbsCurve::RemoveKnot(a, 0.5 * (a.KnotVector[0] + a.KnotVector.back()), t, r); }); add("ElevateDegree no times", [=](A a, C1& r) { NurbsCurve::ElevateDegree(a, t, r); }); add("derivative order", [=](A a, C1&) { NurbsCurve::ComputeRationalCurveDerivatives(a, t, a.KnotVector[0]); }); }
  for (int d : {-1, 0}) { int delta = d; auto idx = [delta](A a) { return delta < 0 ? -1 : (int)a.ControlPoints.size(); }; add("ControlPointReposition index", [=](A a, C1& r) { NurbsCurve::ControlPointReposition(a, a.KnotVector[0], idx(a), XYZ(1, 0, 0), 1, r); }); add("WeightModification index", [=](A a, C1& r) { NurbsCurve::WeightModification(a, a.KnotVector[0], idx(a), 1, r); }); add("NeighborWeightsModification index", [=](A a, C1& r) { NurbsCurve::NeighborWeightsModification(a, a.KnotVector[0], idx(a), 1, 1, r); }); add("NeighborWeightsModification without a neighbour", [=](A a, C1& r) { NurbsCurve::NeighborWeightsModification(a, a.KnotVector[0], (int)a.ControlPoints.size() - 1, 1, 1, r); }); add("ConstraintBasedModification index", [=](A a, C1& r) { NurbsCurve::ConstraintBasedModification(a, {a.KnotVector[0]}, {XYZ(1, 0, 0)}, {delta < 0 ? -1 : 1}, {0}, {}, r); }); add("ConstraintBasedModification fixed", [=](A a, C1& r) { NurbsCurve::ConstraintBasedModification(a, {a.KnotVector[0]}, {XYZ(1, 0, 0)}, {0}, {0}, {idx(a)}, r); }); }
  add("ControlPointReposition direction", [](A a, C1& r) { NurbsCurve::ControlPointReposition(a, a.KnotVector[0], 0, XYZ(0, 0, 0), 1, r); }); add("ControlPointReposition distance", [](A a, C1& r) { NurbsCurve::ControlPointReposition(a, a.KnotVector[0], 0, XYZ(1, 0, 0), 0, r); }); add("WeightModification distance", [](A a, C1& r) { NurbsCurve::WeightModification(a, a.KnotVector[0], 0, 0, r); }); add("NeighborWeightsModification distance", [](A a, C1& r) { NurbsCurve::NeighborWeightsModification(a, a.KnotVector[0], 0, 0, 1, r); }); add("NeighborWeightsModification scale", [](A a, C1& r) { NurbsCurve::NeighborWeightsModification(a, a.KnotVector[0], 0, 1, 0, r); });
  for (int d : {-1, 1}) add("Warping shape size", [=](A a, C1& r) { NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size() + d, 1), 1, XYZ(0, 0, 1), a.KnotVector[0], a.KnotVector.back(), r); }); add("Warping distance", [](A a, C1& r) { NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size(), 1), 0, XYZ(0, 0, 1), a.KnotVector[0], a.KnotVector.back(), r); }); add("Warping normal", [](A a, C1& r) { NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size(), 1), 1, XYZ(0, 0, 0), a.KnotVector[0], a.KnotVector.back(), r); }); add("Flattening line", [](A a, C1& r) { NurbsCurve::Flattening(a, XYZ(1, 2, 3), XYZ(1, 2, 3), a.KnotVector[0], a.KnotVector.back(), r); });
  for (int d = 0; d < 2; d++) { auto e = [d](A a) { return d ? a.KnotVector[0] : a.KnotVector.back(); }; auto s = [](A a) { return a.KnotVector.back(); }; add("Warping range", [=](A a, C1& r) { NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size(), 1), 1, XYZ(0, 0, 1), s(a), e(a), r); }); add("Flattening range", [=](A a, C1& r) { NurbsCurve::Flattening(a, XYZ(0, 0, 0), XYZ(1, 0, 0), s(a), e(a), r); }); add("Bending range", [=](A a, C1& r) { NurbsCurve::Bending(a, s(a), e(a), XYZ(0, 9, 0), 2, 1, r); }); add("Extract range", [=](A a, C1& r) { NurbsCurve::Extract(a, s(a), e(a), r); }); }
  add("Reparametrize determinant", [](A a, C1& r) { NurbsCurve::Reparametrize(a, 1, 2, 1, 2, r); }); add("Reparametrize backwards", [](A a, C1& r) { NurbsCurve::Reparametrize(a, 1, 2, 3, 4, r); }); add("RefineKnotVector by nothing", [](A a, C1& r) { NurbsCurve::RefineKnotVector(a, {}, r); }); add("CreateLine of a point", [](A, C1& r) { NurbsCurve::CreateLine(XYZ(1, 2, 3), XYZ(1, 2, 3), r); }); for (int n : {0, 1, 2, 3}) add("CreateCubicHermite too few", [=](A, C1& r) { NurbsCurve::CreateCubicHermite(pts(n), pts(n), r); }); add("CreateCubicHermite tangents", [](A, C1& r) { NurbsCurve::CreateCubicHermite(pts(5), pts(4), r); });
  for (int k = 0; k < 7; k++) add("CreateArc", [=](A, C1& r) { NurbsCurve::CreateArc(XYZ(0, 0, 0), k == 0 ? XYZ(0, 0, 0) : XYZ(1, 0, 0), k == 1 ? XYZ(0, 0, 0) : XYZ(0, 1, 0), k == 2 ? 3 : 0, k == 3 ? 0 : k == 4 ? 7 : 2, k == 5 ? 0 : 1, k == 6 ? -1 : 1, r); }); for (int k = 0; k < 2; k++) { add("CreateOpenConic tangent", [=](A, C1& r) { NurbsCurve::CreateOpenConic(XYZ(0, 0, 0), k ? XYZ(1, 1, 0) : XYZ(0, 0, 0), XYZ(4, 0, 0), k ? XYZ(0, 0, 0) : XYZ(1, -1, 0), XYZ(2, 1, 0), r); }); add("CreateOneConicArc tangent", [=](A, C1&) { XYZ p; double w; NurbsCurve::CreateOneConicArc(XYZ(0, 0, 0), k ? XYZ(1, 1, 0) : XYZ(0, 0, 0), XYZ(4, 0, 0), k ? XYZ(0, 0, 0) : XYZ(1, -1, 0), XYZ(2, 1, 0), p, w); }); }
  for (int p : {1, 2, 3, 5}) { for (int n : {0, 1, p}) { add("GlobalInterpolation too few", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(n), r); }); add("GlobalInterpolation with tangents too few", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(n), pts(n), 1, r); }); add("GlobalApproximationByErrorBound too few", [=](A, C1& r) { NurbsCurve::GlobalApproximationByErrorBound(p, pts(n), 0.1, r); }); add("WeightedAndContrainedLeastSquaresApproximation too few", [=](A, C1& r) { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts(n), std::vector<double>(n, 1), {}, {}, {}, p + 1, r); }); } add("GlobalInterpolation params", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(7), r, {0, 0.5, 1}); }); add("GlobalInterpolation tangents", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(7), pts(6), 1, r); }); for (double f : {0.0, -1.0}) { add("GlobalInterpolation factor", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(7), pts(7), f, r); }); add("GlobalApproximationByErrorBound bound", [=](A, C1& r) { NurbsCurve::GlobalApproximationByErrorBound(p, pts(7), f, r); }); } add("weights", [=](A, C1& r) { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts(9), std::vector<double>(8, 1), {}, {}, {}, p + 2, r); }); for (int i : {-1, 9}) add("tangent index", [=](A, C1& r) { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts(9), std::vector<double>(9, 1), {XYZ(1, 0, 0)}, {i}, {1}, p + 2, r); }); add("tangent weights", [=](A, C1& r) { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts(9), std::vector<double>(9, 1), {XYZ(1, 0, 0)}, {1}, {}, p + 2, r); }); for (int n : {0, -1}) add("LeastSquaresApproximation count", [=](A, C1& r) { NurbsCurve::LeastSquaresApproximation(p, pts(9), n, r); }); }
  for (int p : {-1, 8}) { add("GlobalInterpolation degree", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(12), r); }); add("LeastSquaresApproximation degree", [=](A, C1& r) { NurbsCurve::LeastSquaresApproximation(p, pts(15), 12, r); }); } for (int p : {0, -1}) { add("GlobalInterpolation with tangents degree", [=](A, C1& r) { NurbsCurve::GlobalInterpolation(p, pts(12), pts(12), 1, r); }); add("GlobalApproximationByErrorBound degree", [=](A, C1& r) { NurbsCurve::GlobalApproximationByErrorBound(p, pts(12), 0.1, r); }); add("WeightedAndContrained degree", [=](A, C1& r) { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, pts(12), std::vector<double>(12, 1), {}, {}, {}, 5, r); }); }
  for (auto ij : std::vector<std::pair<int, int>>{{-1, 3}, {0, 5}, {2, 2}, {3, 1}, {5, 6}}) for (int k = 0; k < 2; k++) add("fit range", [=](A, C1&) { std::vector<XYZW> m; if (k) NurbsCurve::FitWithCubic(pts(5), ij.first, ij.second, XYZ(1, 0, 0), XYZ(1, 1, 0), 1, m); else NurbsCurve::FitWithConic(pts(5), ij.first, ij.second, XYZ(1, 0, 0), XYZ(1, 1, 0), 1, m); }); for (int k = 0; k < 4; k++) add("fit tangents", [=](A, C1&) { std::vector<XYZW> m; XYZ z(0, 0, 0), o(1, 0, 0); if (k & 1) NurbsCurve::FitWithCubic(pts(5), 0, 4, k & 2 ? z : o, k & 2 ? o : z, 1, m); else NurbsCurve::FitWithConic(pts(5), 0, 4, k & 2 ? z : o, k & 2 ? o : z, 1, m); });
  add("ConstraintBasedModification nothing", [](A a, C1& r) { NurbsCurve::ConstraintBasedModification(a, {}, {}, {}, {}, {}, r); }); add("ConstraintBasedModification sizes", [](A a, C1& r) { NurbsCurve::ConstraintBasedModification(a, {a.KnotVector[0]}, {XYZ(1, 0, 0)}, {}, {0}, {}, r); }); add("ConstraintBasedModification orders", [](A a, C1& r) { NurbsCurve::ConstraintBasedModification(a, {a.KnotVector[0]}, {XYZ(1, 0, 0)}, {0}, {}, {}, r); }); add("ConstraintBasedModification all fixed", [](A a, C1& r) { std::vector<int> f; for (size_t i = 0; i < a.ControlPoints.size(); i++) f.push_back(i); NurbsCurve::ConstraintBasedModification(a, {a.KnotVector[0]}, {XYZ(1, 0, 0)}, {0}, {0}, f, r); });
  for (int p : {0, -1}) { add("Horner degree", [=](A, C1&) { Polynomials::Horner(p, {1}, 0.5); }); } for (int n : {1, 3}) add("Horner coefficients", [=](A, C1&) { Polynomials::Horner(1, std::vector<double>(n, 1), 0.5); }); for (int i : {-1, 4}) add("Bernstein index", [=](A, C1&) { Polynomials::Bernstein(i, 3, 0.5); }); add("BasisFunctions degree", [](A a, C1&) { double N[20]; std::vector<double> U = clamped(8, {}); Polynomials::BasisFunctions(8, 8, U, 0.5, N); }); add("BasisFunctionsDerivatives order", [](A a, C1&) { Polynomials::BasisFunctionsDerivatives(a.Degree, a.Degree, a.Degree + 1, a.KnotVector, a.KnotVector[0]); }); return v; }
static void arguments(Ctx& c) {
  auto a = pickCurve(c, mc::tier(4, 6), 1, mc::tier(1, 2), 2, 1, 2, false, {0}, {1}); c.shard(); auto& k = c.pick(cases()); std::string at = std::string(k.name) + fmt(" (%zu) of ", (size_t)(&k - &cases()[0])) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(hash(a), &k - &cases()[0])); C1 in = a, r = curve(1, clamped(1, {}), 1, 0); int o = outcome([&] { k.f(in, r); }); c.trans(); c.check(o == 1, "argument", at + (o ? ": fails otherwise" : ": accepted")); c.check(same(in, a), "input", at + ": the input changed"); c.count("refused");
}
// surfaces
struct SCase { const char* name; std::function<void(const S2&, S2&)> f; };
static std::vector<Pts> grid(int n, int m) { std::vector<Pts> g; for (int i = 0; i < n; i++) { g.emplace_back(); for (int j = 0; j < m; j++) g.back().push_back(pos2(0, i, j, n, m)); } return g; }
static const std::vector<SCase>& scases() { typedef const S2& A; static std::vector<SCase> v; if (!v.empty()) return v; auto add = [&](const char* n, std::function<void(A, S2&)> f) { v.push_back({n, f}); };
  for (int t : {0, -1}) { for (bool u : {true, false}) { add("RemoveKnot no times", [=](A a, S2& r) { NurbsSurface::RemoveKnot(a, u ? 0.5 * (a.KnotVectorU[0] + a.KnotVectorU.back()) : 0.5 * (a.KnotVectorV[0] + a.KnotVectorV.back()), t, u, r); }); add("ElevateDegree no times", [=](A a, S2& r) { NurbsSurface::ElevateDegree(a, t, u, r); }); } add("derivative order", [=](A a, S2&) { NurbsSurface::ComputeRationalSurfaceDerivatives(a, t, UV(a.KnotVectorU[0], a.KnotVectorV[0])); }); } for (bool u : {true, false}) add("RefineKnotVector by nothing", [=](A a, S2& r) { NurbsSurface::RefineKnotVector(a, {}, u, r); });
  for (int k = 0; k < 6; k++) add("CreateCylindricalSurface", [=](A, S2& r) { NurbsSurface::CreateCylindricalSurface(XYZ(0, 0, 0), k == 0 ? XYZ(0, 0, 0) : XYZ(1, 0, 0), k == 1 ? XYZ(0, 0, 0) : XYZ(0, 1, 0), k == 2 ? 3 : 0, k == 3 ? 0 : 2, k == 4 ? 0 : 1, k == 5 ? -1 : 1, r); }); add("CreateRevolvedSurface axis", [](A, S2& r) { C1 l; NurbsCurve::CreateLine(XYZ(1, 0, 0), XYZ(1, 0, 5), l); NurbsSurface::CreateRevolvedSurface(XYZ(0, 0, 0), XYZ(0, 0, 0), 1, l, r); }); add("CreateRuledSurface domains", [](A, S2& r) { NurbsSurface::CreateRuledSurface(curve(2, clamped(2, {1}, 0, {0, 1}), 0, 0), curve(2, clamped(2, {1}, 0, {0, 2}), 0, 0), r); });
  for (int p : {-1, 8}) for (int k = 0; k < 2; k++) { add("GlobalInterpolation degree", [=](A, S2& r) { NurbsSurface::GlobalInterpolation(grid(10, 10), k ? p : 2, k ? 2 : p, r); }); add("GlobalApproximation degree", [=](A, S2& r) { NurbsSurface::GlobalApproximation(grid(12, 12), k ? p : 2, k ? 2 : p, 10, 10, r); }); } for (int n : {0, 1, 3}) for (int k = 0; k < 2; k++) { add("GlobalInterpolation size", [=](A, S2& r) { NurbsSurface::GlobalInterpolation(grid(k ? n : 5, k ? 5 : n), 3, 3, r); }); add("GlobalApproximation count", [=](A, S2& r) { NurbsSurface::GlobalApproximation(grid(8, 8), 3, 3, k ? n : 5, k ? 5 : n, r); }); } add("GlobalApproximation of nothing", [](A, S2& r) { NurbsSurface::GlobalApproximation({}, 2, 2, 4, 4, r); }); add("BicubicLocalInterpolation of nothing", [](A, S2& r) { NurbsSurface::BicubicLocalInterpolation({}, r); }); add("BicubicLocalInterpolation ragged", [](A, S2& r) { auto g = grid(4, 4); g[2].pop_back(); NurbsSurface::BicubicLocalInterpolation(g, r); });
  for (int k = 0; k < 4; k++) add("CreateCoonsSurface corners", [=](A, S2& r) { XYZ P[4] = {XYZ(0, 5, 1), XYZ(0, 0, 0), XYZ(6, 0, 2), XYZ(6, 5, 0)}; C1 L[4]; for (int i = 0; i < 4; i++) NurbsCurve::CreateLine(P[i], i == k ? P[(i + 1) % 4] + XYZ(0, 0, 0.1) : P[(i + 1) % 4], L[i]); NurbsSurface::CreateCoonsSurface(L[0], L[1], L[2], L[3], r); }); return v; }
static void surfaceArguments(Ctx& c) {
  auto a = pickSurface(c, 1, mc::tier(2, 3), 1, 1, 1, 1, 2, {0}, {1}); c.shard(); auto& k = c.pick(scases()); std::string at = std::string(k.name) + fmt(" (%zu) of ", (size_t)(&k - &scases()[0])) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(hash(a), &k - &scases()[0])); S2 in = a, r = surface(1, 1, clamped(1, {}), clamped(1, {}), 0, 0); int o = outcome([&] { k.f(in, r); }); c.trans(); c.check(o == 1, "argument", at + (o ? ": fails otherwise" : ": accepted")); c.check(same2(in, a), "input", at + ": the input changed"); c.count("refused");
}
MC_MAIN("C38", {{"structure", structure}, {"curveRange", curveRange}, {"surfaceRange", surfaceRange}, {"arguments", arguments}, {"surfaceArguments", surfaceArguments}})
