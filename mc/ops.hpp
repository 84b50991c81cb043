// Operations of the library as alphabets: on curves, on surfaces, on volumes, constructions, and questions; each reduced to a fingerprint of everything it answers.
#pragma once
#include "knots.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "BsplineCurve.h"
#include "BezierCurve.h"
#include "Matrix4d.h"
#include "UVW.h"
#include "LNEnums.h"
#include <cstring>
namespace ops {
using namespace LNLib; using namespace gen; using mc::fmt;
typedef LN_NurbsCurve C1; typedef LN_NurbsSurface S2; typedef LN_NurbsVolume V3;
template <class T> struct Op { std::string name; std::function<int(const T&, T&)> f; };   // 1 done, 0 refused
static bool bit(const C1& a, const C1& b) { return a.Degree == b.Degree && a.KnotVector.size() == b.KnotVector.size() && a.ControlPoints.size() == b.ControlPoints.size() && hash(a) == hash(b); }
static bool bit(const S2& a, const S2& b) { return a.DegreeU == b.DegreeU && a.KnotVectorU.size() == b.KnotVectorU.size() && a.KnotVectorV.size() == b.KnotVectorV.size() && a.ControlPoints.size() == b.ControlPoints.size() && hash(a) == hash(b); }
static bool bit(const V3& a, const V3& b) { return hash(a) == hash(b) && a.ControlPoints.size() == b.ControlPoints.size() && a.KnotVectorU.size() == b.KnotVectorU.size() && a.KnotVectorV.size() == b.KnotVectorV.size() && a.KnotVectorW.size() == b.KnotVectorW.size(); }
static double lo(const C1& c) { return c.KnotVector[c.Degree]; } static double hi(const C1& c) { return c.KnotVector[c.KnotVector.size() - c.Degree - 1]; }
static double inner(const C1& c, double f) { return lo(c) + f * (hi(c) - lo(c)); }
static double knot(const std::vector<double>& U, int p) { return U[U.size() / 2] > U[p] && U[U.size() / 2] < U[U.size() - p - 1] ? U[U.size() / 2] : U[p] + 0.5 * (U[U.size() - p - 1] - U[p]); }
template <class F> static int done(F f) { try { return f() ? 1 : 0; } catch (const std::exception&) { return 2; } }
#define V(x) [](const T& a, T& r) { return done([&] { x; return true; }); }
#define B(x) [](const T& a, T& r) { return done([&] { return (x); }); }
static const std::vector<Op<C1>>& curveOps() { typedef C1 T; static std::vector<Op<C1>> o = {
  {"InsertKnot inside a span", V(NurbsCurve::InsertKnot(a, inner(a, 0.37), 1, r))}, {"InsertKnot twice", V(NurbsCurve::InsertKnot(a, inner(a, 0.61), 2, r))}, {"InsertKnot at a knot", V(NurbsCurve::InsertKnot(a, knot(a.KnotVector, a.Degree), 1, r))},
  {"RefineKnotVector", V(NurbsCurve::RefineKnotVector(a, {inner(a, 0.2), inner(a, 0.2), inner(a, 0.83)}, r))}, {"RefineKnotVector by nothing", V(NurbsCurve::RefineKnotVector(a, {}, r))}, {"RemoveKnot", B(NurbsCurve::RemoveKnot(a, knot(a.KnotVector, a.Degree), 1, r))}, {"RemoveExcessiveKnots", V(NurbsCurve::RemoveExcessiveKnots(a, r))}, {"ElevateDegree", V(NurbsCurve::ElevateDegree(a, 1, r))}, {"ElevateDegree by 2", V(NurbsCurve::ElevateDegree(a, 2, r))}, {"ReduceDegree", B(NurbsCurve::ReduceDegree(a, r))},
  {"CreateTransformed", V(NurbsCurve::CreateTransformed(a, Matrix4d::CreateRotationAtPoint(XYZ(1, 2, 3), XYZ(0, 1, 2), 0.7), r))}, {"Reparametrize", V(NurbsCurve::Reparametrize(a, -3, 5, r))}, {"Reparametrize fractionally", V(NurbsCurve::Reparametrize(a, 2, 1, 0.01, 3, r))}, {"Reverse", V(NurbsCurve::Reverse(a, r))}, {"Extract", V(NurbsCurve::Extract(a, inner(a, 0.3), inner(a, 0.8), r))}, {"Extract from the start", V(NurbsCurve::Extract(a, inner(a, 0), inner(a, 0.8), r))},
  {"SplitAt, left", B([&] { C1 x; return NurbsCurve::SplitAt(a, inner(a, 0.4), r, x); }())}, {"SplitAt, right", B([&] { C1 x; return NurbsCurve::SplitAt(a, inner(a, 0.4), x, r); }())}, {"Merge with its continuation", B([&] { C1 n = a; XYZW e = a.ControlPoints.back(); for (auto& p : n.ControlPoints) { XYZ x = p.ToXYZ(true) - a.ControlPoints[0].ToXYZ(true) + e.ToXYZ(true); p = XYZW(x, p.GetW()); } return NurbsCurve::Merge(a, n, r); }())}, {"Merge before it", B([&] { C1 n = a; for (auto& p : n.ControlPoints) { XYZ x = p.ToXYZ(true) - a.ControlPoints.back().ToXYZ(true) + a.ControlPoints[0].ToXYZ(true); p = XYZW(x, p.GetW()); } return NurbsCurve::Merge(n, a, r); }())},
  {"Offset by nothing", V(NurbsCurve::Offset(a, 0, OffsetType::TillerAndHanson, r))}, {"ControlPointReposition", B(NurbsCurve::ControlPointReposition(a, inner(a, 0.5), a.ControlPoints.size() / 2, XYZ(1, 2, 3), 0.5, r))}, {"WeightModification", V(NurbsCurve::WeightModification(a, inner(a, 0.5), a.ControlPoints.size() / 2, 0.1, r))}, {"NeighborWeightsModification", B(NurbsCurve::NeighborWeightsModification(a, inner(a, 0.5), a.ControlPoints.size() / 2 - 1, 0.1, 1, r))}, {"Warping", V(NurbsCurve::Warping(a, std::vector<double>(a.ControlPoints.size(), 0.5), 1.5, XYZ(0, 1, 1), lo(a), hi(a), r))}, {"Flattening", B(NurbsCurve::Flattening(a, XYZ(-50, 1, 0), XYZ(60, 2, 3), lo(a), hi(a), r) || true)}, {"Bending", V(NurbsCurve::Bending(a, lo(a), hi(a), XYZ(0, 50, 0.5), 10, 1.5, r))}, {"ConstraintBasedModification", V(NurbsCurve::ConstraintBasedModification(a, {inner(a, 0.5)}, {XYZ(1, 2, 3)}, {0}, {0}, {}, r))},
  {"ToClampCurve", V(NurbsCurve::ToClampCurve(a, r))}, {"ToUnclampCurve", V(NurbsCurve::ToUnclampCurve(a, r))}, {"Extend straight", V(NurbsCurve::Extend(a, 2, false, ExtensionType::Tangent, r))}, {"Extend straight from the start", V(NurbsCurve::Extend(a, 2, true, ExtensionType::Tangent, r))}, {"Extend along the circle", V(NurbsCurve::Extend(a, 0.4, false, ExtensionType::Arc, r))}, {"Extend naturally", V(NurbsCurve::Extend(a, 0.4, false, ExtensionType::Natural, r))}, {"Extend naturally from the start", V(NurbsCurve::Extend(a, 0.4, true, ExtensionType::Natural, r))}, {"Extend by nothing", V(NurbsCurve::Extend(a, 0, true, ExtensionType::Natural, r))}}; return o; }
static double mid(const std::vector<double>& U, int p, double f) { return U[p] + f * (U[U.size() - p - 1] - U[p]); }
static const std::vector<Op<S2>>& surfaceOps() { typedef S2 T; static std::vector<Op<S2>> o = {
  {"Swap", V(NurbsSurface::Swap(a, r))}, {"Reverse u", V(NurbsSurface::Reverse(a, SurfaceDirection::UDirection, r))}, {"Reverse v", V(NurbsSurface::Reverse(a, SurfaceDirection::VDirection, r))}, {"Reverse both", V(NurbsSurface::Reverse(a, SurfaceDirection::All, r))}, {"InsertKnot u", V(NurbsSurface::InsertKnot(a, mid(a.KnotVectorU, a.DegreeU, 0.37), 1, true, r))}, {"InsertKnot v", V(NurbsSurface::InsertKnot(a, mid(a.KnotVectorV, a.DegreeV, 0.37), 1, false, r))}, {"RefineKnotVector u", V(NurbsSurface::RefineKnotVector(a, {mid(a.KnotVectorU, a.DegreeU, 0.2), mid(a.KnotVectorU, a.DegreeU, 0.7)}, true, r))}, {"RefineKnotVector v", V(NurbsSurface::RefineKnotVector(a, {mid(a.KnotVectorV, a.DegreeV, 0.2), mid(a.KnotVectorV, a.DegreeV, 0.7)}, false, r))}, {"RefineKnotVector by nothing", V(NurbsSurface::RefineKnotVector(a, {}, true, r))}, {"RemoveKnot u", V(NurbsSurface::RemoveKnot(a, knot(a.KnotVectorU, a.DegreeU), 1, true, r))}, {"RemoveKnot v", V(NurbsSurface::RemoveKnot(a, knot(a.KnotVectorV, a.DegreeV), 1, false, r))}, {"ElevateDegree u", V(NurbsSurface::ElevateDegree(a, 1, true, r))}, {"ElevateDegree v", V(NurbsSurface::ElevateDegree(a, 2, false, r))}, {"ReduceDegree u", B(NurbsSurface::ReduceDegree(a, true, r))}, {"ReduceDegree v", B(NurbsSurface::ReduceDegree(a, false, r))}, {"Reparametrize", V(NurbsSurface::Reparametrize(a, -1, 2, 3, 9, r))}}; return o; }
static const std::vector<Op<V3>>& volumeOps() { typedef V3 T; static std::vector<Op<V3>> o; if (o.empty()) for (auto d : {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W}) { std::string axis = d == VolumeDirection::U ? "u" : d == VolumeDirection::V ? "v" : "w"; auto U = [d](const V3& a) -> const std::vector<double>& { return d == VolumeDirection::U ? a.KnotVectorU : d == VolumeDirection::V ? a.KnotVectorV : a.KnotVectorW; }; auto p = [d](const V3& a) { return d == VolumeDirection::U ? a.DegreeU : d == VolumeDirection::V ? a.DegreeV : a.DegreeW; };
  o.push_back({std::string("InsertKnot ") + axis, [=](const T& a, T& r) { return done([&] { NurbsVolume::InsertKnot(a, mid(U(a), p(a), 0.37), 1, d, r); return true; }); }}); o.push_back({std::string("RefineKnotVector ") + axis, [=](const T& a, T& r) { return done([&] { NurbsVolume::RefineKnotVector(a, {mid(U(a), p(a), 0.2), mid(U(a), p(a), 0.7)}, d, r); return true; }); }}); o.push_back({std::string("ElevateDegree ") + axis, [=](const T& a, T& r) { return done([&] { NurbsVolume::ElevateDegree(a, 1, d, r); return true; }); }}); o.push_back({std::string("Reverse ") + axis, [=](const T& a, T& r) { return done([&] { NurbsVolume::Reverse(a, d, r); return true; }); }}); o.push_back({std::string("Swap ") + axis, [=](const T& a, T& r) { return done([&] { NurbsVolume::Swap(a, d, d == VolumeDirection::U ? VolumeDirection::W : VolumeDirection::U, r); return true; }); }}); o.push_back({std::string("SplitAt, first ") + axis, [=](const T& a, T& r) { return done([&] { V3 x; return NurbsVolume::SplitAt(a, mid(U(a), p(a), 0.4), d, r, x); }); }}); o.push_back({std::string("SplitAt, second ") + axis, [=](const T& a, T& r) { return done([&] { V3 x; return NurbsVolume::SplitAt(a, mid(U(a), p(a), 0.4), d, x, r); }); }}); } return o; }
// questions: a fingerprint of the answer
template <class T> struct Act { std::string name; std::function<uint64_t(const T&)> f; };
struct FP { uint64_t h = 1; FP& operator<<(double d) { uint64_t u; if (d == 0) d = 0; std::memcpy(&u, &d, 8); h = mc::mix(h, u); return *this; } FP& operator<<(const XYZ& p) { return *this << p.GetX() << p.GetY() << p.GetZ(); } FP& operator<<(const UV& p) { return *this << p.GetU() << p.GetV(); } FP& operator<<(const C1& c) { *this << c.Degree; *this << c.KnotVector; for (auto& p : c.ControlPoints) *this << p; return *this; }
  FP& operator<<(const S2& c) { *this << c.DegreeU << c.DegreeV << c.KnotVectorU << c.KnotVectorV; return *this << c.ControlPoints; } FP& operator<<(const V3& c) { *this << c.DegreeU << c.DegreeV << c.DegreeW << c.KnotVectorU << c.KnotVectorV << c.KnotVectorW; return *this << c.ControlPoints; } FP& operator<<(const XYZW& p) { return *this << p.GetWX() << p.GetWY() << p.GetWZ() << p.GetW(); } template <class E> FP& operator<<(const std::vector<E>& v) { *this << (double)v.size(); for (auto& e : v) *this << e; return *this; } FP& operator<<(int i) { return *this << (double)i; } FP& operator<<(bool i) { return *this << (double)i; } };
template <class F> static uint64_t asked(F f) { FP h; try { f(h); } catch (const std::exception&) { h << 12345.0; } return h.h; }
#define Q(x) [](const T& a) { return asked([&](FP& h) { x; }); }
template <class T> static std::vector<Act<T>> fromOps(const std::vector<Op<T>>& o) { std::vector<Act<T>> r; for (auto& p : o) r.push_back({p.name, [&p](const T& a) { T out{}; int k = p.f(a, out); FP h; h << k; if (k == 1) h << out; return h.h; }}); return r; }
static const std::vector<Act<C1>>& curveActs() { typedef C1 T; static std::vector<Act<C1>> o; if (o.empty()) { o = fromOps(curveOps()); std::vector<Act<C1>> q = {
  {"GetPointOnCurve", Q(for (double f : {0.0, 0.13, 0.5, 0.77, 1.0}) h << NurbsCurve::GetPointOnCurve(a, inner(a, f)))}, {"GetPointOnCurveByCornerCut", Q(for (double f : {0.13, 0.5, 0.77}) h << NurbsCurve::GetPointOnCurveByCornerCut(a, inner(a, f)))}, {"ComputeRationalCurveDerivatives", Q(for (double f : {0.13, 0.5, 0.77}) h << NurbsCurve::ComputeRationalCurveDerivatives(a, 3, inner(a, f)))}, {"Curvature and torsion", Q(for (double f : {0.13, 0.5, 0.77}) h << NurbsCurve::Curvature(a, inner(a, f)) << NurbsCurve::Torsion(a, inner(a, f)))}, {"Normal", Q(for (double f : {0.13, 0.77}) h << NurbsCurve::Normal(a, CurveNormal::Normal, inner(a, f)) << NurbsCurve::Normal(a, CurveNormal::Binormal, inner(a, f)))},
  {"DecomposeToBeziers", Q(h << NurbsCurve::DecomposeToBeziers(a))}, {"EquallyTessellate", Q(std::vector<XYZ> p; std::vector<double> k; NurbsCurve::EquallyTessellate(a, p, k); h << p << k)}, {"Tessellate", Q(h << NurbsCurve::Tessellate(a))}, {"predicates", Q(LN_ArcInfo i; h << NurbsCurve::IsClosed(a) << NurbsCurve::IsClamp(a) << NurbsCurve::IsPeriodic(a) << NurbsCurve::IsLinear(a) << NurbsCurve::IsArc(a, i))}, {"GetParamOnCurve", Q(XYZ m = a.ControlPoints[a.ControlPoints.size() / 2].ToXYZ(true); h << NurbsCurve::GetParamOnCurve(a, m) << NurbsCurve::GetAllParamsOnCurve(a, m))},
  {"ApproximateLength, Simpson", Q(h << NurbsCurve::ApproximateLength(a, IntegratorType::Simpson))}, {"ApproximateLength, Gauss", Q(h << NurbsCurve::ApproximateLength(a, IntegratorType::GaussLegendre))}, {"ApproximateLength, Chebyshev", Q(h << NurbsCurve::ApproximateLength(a, IntegratorType::Chebyshev))}, {"ApproximateLength of a part", Q(h << NurbsCurve::ApproximateLength(a, inner(a, 0.2), inner(a, 0.9)))}, {"GetParamOnCurve at a length", Q(double l = NurbsCurve::ApproximateLength(a); h << NurbsCurve::GetParamOnCurve(a, 0.4 * l))}, {"derivatives of the B-spline", Q(for (double f : {0.13, 0.77}) h << BsplineCurve::ComputeDerivatives(a, 2, inner(a, f)))},
  {"the interpolating curve of its control points", Q(std::vector<XYZ> p; for (auto& x : a.ControlPoints) p.push_back(x.ToXYZ(true)); C1 r; NurbsCurve::GlobalInterpolation(std::min<int>(2, p.size() - 1), p, r); h << r)}, {"the approximation of its control points", Q(std::vector<XYZ> p; for (auto& x : a.ControlPoints) { p.push_back(x.ToXYZ(true)); p.push_back(x.ToXYZ(true) + XYZ(0.5, 0.25, 0)); } C1 r; h << NurbsCurve::LeastSquaresApproximation(2, p, 4, r); h << r)}, {"the surface of revolution", Q(S2 r; h << NurbsSurface::CreateRevolvedSurface(XYZ(1, 2, 3), XYZ(0, 1, 2), 2.5, a, r); h << r)}, {"the ruled surface with its mirror image", Q(C1 b; NurbsCurve::CreateTransformed(a, Matrix4d::CreateTranslation(XYZ(1, 5, 9)), b); S2 r; NurbsSurface::CreateRuledSurface(a, b, r); h << r)}, {"the loft through shifted copies", Q(std::vector<C1> s; for (int i = 0; i < 3; i++) { C1 b; NurbsCurve::CreateTransformed(a, Matrix4d::CreateTranslation(XYZ(0, 0.3 * i * i, 4.0 * i)), b); s.push_back(b); } S2 r; NurbsSurface::CreateLoftSurface(s, r); h << r)}};
  o.insert(o.end(), q.begin(), q.end()); } return o; }
static const std::vector<Act<S2>>& surfaceActs() { typedef S2 T; static std::vector<Act<S2>> o; if (o.empty()) { o = fromOps(surfaceOps()); std::vector<Act<S2>> q = {
  {"GetPointOnSurface", Q(for (double f : {0.0, 0.3, 0.8}) for (double g : {0.2, 0.6, 1.0}) h << NurbsSurface::GetPointOnSurface(a, UV(mid(a.KnotVectorU, a.DegreeU, f), mid(a.KnotVectorV, a.DegreeV, g))))}, {"ComputeRationalSurfaceDerivatives", Q(for (double f : {0.3, 0.8}) h << NurbsSurface::ComputeRationalSurfaceDerivatives(a, 2, UV(mid(a.KnotVectorU, a.DegreeU, f), mid(a.KnotVectorV, a.DegreeV, 0.4))))}, {"first derivatives", Q(XYZ s; XYZ u; XYZ v; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(a, UV(mid(a.KnotVectorU, a.DegreeU, 0.3), mid(a.KnotVectorV, a.DegreeV, 0.4)), s, u, v); h << s << u << v)}, {"Curvature", Q(for (auto k : {SurfaceCurvature::Gauss, SurfaceCurvature::Mean, SurfaceCurvature::Maximum, SurfaceCurvature::Rms}) h << NurbsSurface::Curvature(a, k, UV(mid(a.KnotVectorU, a.DegreeU, 0.3), mid(a.KnotVectorV, a.DegreeV, 0.4))))}, {"Normal", Q(h << NurbsSurface::Normal(a, UV(mid(a.KnotVectorU, a.DegreeU, 0.3), mid(a.KnotVectorV, a.DegreeV, 0.4))))},
  {"GetIsoCurve", Q(h << NurbsSurface::GetIsoCurve(a, mid(a.KnotVectorV, a.DegreeV, 0.4), true) << NurbsSurface::GetIsoCurve(a, mid(a.KnotVectorU, a.DegreeU, 0.7), false))}, {"GetBoundingBox", Q(auto b = NurbsSurface::GetBoundingBox(a); h << b.MinPoint << b.MaxPoint)}, {"DecomposeToBeziers", Q(h << NurbsSurface::DecomposeToBeziers(a))}, {"EquallyTessellate", Q(std::vector<XYZ> p; std::vector<UV> k; NurbsSurface::EquallyTessellate(a, p, k); h << p << k)}, {"IsClosed", Q(h << NurbsSurface::IsClosed(a, true) << NurbsSurface::IsClosed(a, false))}, {"GetParamOnSurface", Q(h << NurbsSurface::GetParamOnSurface(a, a.ControlPoints[a.ControlPoints.size() / 2][a.ControlPoints[0].size() / 2].ToXYZ(true)))}, {"GetUVTangent", Q(UV t; h << NurbsSurface::GetUVTangent(a, UV(mid(a.KnotVectorU, a.DegreeU, 0.3), mid(a.KnotVectorV, a.DegreeV, 0.4)), XYZ(1, 2, 3), t); h << t)},
  {"ApproximateArea, Simpson", Q(h << NurbsSurface::ApproximateArea(a, IntegratorType::Simpson))}, {"ApproximateArea, Gauss", Q(h << NurbsSurface::ApproximateArea(a, IntegratorType::GaussLegendre))}, {"ApproximateArea, Chebyshev", Q(h << NurbsSurface::ApproximateArea(a, IntegratorType::Chebyshev))}, {"Triangulate", Q(auto m = NurbsSurface::Triangulate(a, 4, 5, true); h << m.Vertices << m.Faces << m.Normals)}, {"Triangulate, regular", Q(auto m = NurbsSurface::Triangulate(a, 4, 5, false); h << m.Vertices << m.Faces << m.Normals)}, {"the surface through its control points", Q(std::vector<std::vector<XYZ>> p; for (auto& r : a.ControlPoints) { p.emplace_back(); for (auto& x : r) p.back().push_back(x.ToXYZ(true)); } S2 r; NurbsSurface::GlobalInterpolation(p, 1, 1, r); h << r)}, {"NonUniformScaling", Q(h << NurbsSurface::NonUniformScaling(a.ControlPoints, 2, 3, 0.5, XYZ(1, 2, 3)))}};
  o.insert(o.end(), q.begin(), q.end()); } return o; }
static UVW at3(const V3& a, double f, double g, double k) { return UVW(mid(a.KnotVectorU, a.DegreeU, f), mid(a.KnotVectorV, a.DegreeV, g), mid(a.KnotVectorW, a.DegreeW, k)); }
static const std::vector<Act<V3>>& volumeActs() { typedef V3 T; static std::vector<Act<V3>> o; if (o.empty()) { o = fromOps(volumeOps()); std::vector<Act<V3>> q = {
  {"GetPointOnVolume", Q(for (double f : {0.0, 0.3, 1.0}) for (double g : {0.2, 0.6}) h << NurbsVolume::GetPointOnVolume(a, at3(a, f, g, 0.7)))}, {"ComputeVolumeRationalDerivatives", Q(h << NurbsVolume::ComputeVolumeRationalDerivatives(a, 2, at3(a, 0.3, 0.6, 0.7)))}, {"Extract", Q(for (auto d : {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W}) { S2 s; h << NurbsVolume::Extract(a, mid(d == VolumeDirection::U ? a.KnotVectorU : d == VolumeDirection::V ? a.KnotVectorV : a.KnotVectorW, d == VolumeDirection::U ? a.DegreeU : d == VolumeDirection::V ? a.DegreeV : a.DegreeW, 0.4), d, s); h << s; })}, {"IsClosed", Q(for (auto d : {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W}) h << NurbsVolume::IsClosed(a, d))}};
  o.insert(o.end(), q.begin(), q.end()); } return o; }
#undef Q
#undef V
#undef B
}
