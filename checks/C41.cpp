// C41: the C interface (dotnet/CAPI) and the names the .NET bindings import: every exported function gives what the C++ function gives. MC_CAPI
#include "../mc/ops.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "Polynomials.h"
#include "Interpolation.h"
#include "Intersection.h"
#include "Projection.h"
#include "KnotVectorUtils.h"
#include "ValidationUtils.h"
#include "MathUtils.h"
#include "Matrix4d.h"
#include "LNEnums.h"
#include "UV_CAPI.h"
#include "XYZ_CAPI.h"
#include "XYZW_CAPI.h"
#include "Matrix4d_CAPI.h"
#include "Polynomials_CAPI.h"
#include "Interpolation_CAPI.h"
#include "Intersection_CAPI.h"
#include "Projection_CAPI.h"
#include "KnotVectorUtils_CAPI.h"
#include "ValidationUtils_CAPI.h"
#include "BezierCurve_CAPI.h"
#include "BezierSurface_CAPI.h"
#include "NurbsCurve_CAPI.h"
#include "NurbsSurface_CAPI.h"
#include <dlfcn.h>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <memory>
#include <regex>
#include <thread>
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;
using namespace ops;
typedef std::vector<double> D1; typedef std::vector<XYZ> Pts;
// C views of C++ values and back, written here so that the conversions of the interface are not trusted
static XYZ_C cx(const XYZ& p) { return {p.GetX(), p.GetY(), p.GetZ()}; } static UV_C cu(const UV& p) { return {p.GetU(), p.GetV()}; } static XYZW_C cw(const XYZW& p) { return {p.GetWX(), p.GetWY(), p.GetWZ(), p.GetW()}; }
static Matrix4d_C cm(const Matrix4d& m) { Matrix4d_C c; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c.m[4 * i + j] = m.GetElement(i, j); return c; }
static std::vector<XYZ_C> cxs(const Pts& p) { std::vector<XYZ_C> r; for (auto& x : p) r.push_back(cx(x)); return r; }
static std::vector<XYZ_C> cxs2(const std::vector<Pts>& p) { std::vector<XYZ_C> r; for (auto& v : p) for (auto& x : v) r.push_back(cx(x)); return r; }
struct CV { D1 U; std::vector<XYZW_C> P; LN_NurbsCurve_C h; CV(const C1& a) : U(a.KnotVector) { for (auto& p : a.ControlPoints) P.push_back(cw(p)); h = {a.Degree, U.data(), (int)U.size(), P.data(), (int)P.size()}; } CV(const CV&) = delete; operator LN_NurbsCurve_C() const { return h; } };
struct SV { D1 U, V; std::vector<XYZW_C> P; LN_NurbsSurface_C h; SV(const S2& a) : U(a.KnotVectorU), V(a.KnotVectorV) { for (auto& r : a.ControlPoints) for (auto& p : r) P.push_back(cw(p)); h = {a.DegreeU, a.DegreeV, U.data(), (int)U.size(), V.data(), (int)V.size(), P.data(), (int)a.ControlPoints.size(), (int)a.ControlPoints[0].size()}; } SV(const SV&) = delete; operator LN_NurbsSurface_C() const { return h; } };
// exactly sized buffers: address sanitizer sees a write beyond
template <class T> struct Buf { std::unique_ptr<T[]> p; size_t n; Buf(size_t k) : p(new T[k]), n(k) { std::memset((void*)p.get(), 0x5a, k * sizeof(T)); } operator T*() { return p.get(); } T& operator[](int i) { return p[i]; } };
struct Rec {   // what a call gave, number by number
  D1 v; Rec& operator<<(double d) { v.push_back(d); return *this; } Rec& operator<<(float) = delete; Rec& operator<<(int i) { v.push_back(i); return *this; } Rec& operator<<(bool b) { v.push_back(b); return *this; } Rec& operator<<(size_t b) { v.push_back(b); return *this; }
  Rec& operator<<(const XYZ& p) { return *this << p.GetX() << p.GetY() << p.GetZ(); } Rec& operator<<(const XYZ_C& p) { return *this << p.x << p.y << p.z; } Rec& operator<<(const XYZW& p) { return *this << p.GetWX() << p.GetWY() << p.GetWZ() << p.GetW(); } Rec& operator<<(const XYZW_C& p) { return *this << p.wx << p.wy << p.wz << p.w; } Rec& operator<<(const UV& p) { return *this << p.GetU() << p.GetV(); } Rec& operator<<(const UV_C& p) { return *this << p.u << p.v; }
  Rec& operator<<(const Matrix4d& m) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) *this << m.GetElement(i, j); return *this; } Rec& operator<<(const Matrix4d_C& m) { for (double d : m.m) *this << d; return *this; }
  template <class T> Rec& operator<<(const std::vector<T>& a) { *this << a.size(); for (auto& x : a) *this << x; return *this; } template <class T> Rec& arr(T* p, int n) { *this << n; for (int i = 0; i < n; i++) *this << p[i]; return *this; }
  Rec& operator<<(const C1& a) { return *this << a.Degree << a.KnotVector << a.ControlPoints; } Rec& operator<<(const LN_NurbsCurve_C& a) { *this << a.degree; arr(a.knot_vector, a.knot_vector_count); return arr(a.control_points, a.control_point_count); }
  Rec& operator<<(const S2& a) { *this << a.DegreeU << a.DegreeV << a.KnotVectorU << a.KnotVectorV << a.ControlPoints.size() << (a.ControlPoints.empty() ? 0 : a.ControlPoints[0].size()); for (auto& r : a.ControlPoints) for (auto& p : r) *this << p; return *this; } Rec& operator<<(const LN_NurbsSurface_C& a) { *this << a.degree_u << a.degree_v; arr(a.knot_vector_u, a.knot_vector_count_u); arr(a.knot_vector_v, a.knot_vector_count_v); *this << a.cp_rows << a.cp_cols; for (int i = 0; i < a.cp_rows * a.cp_cols; i++) *this << a.control_points[i]; return *this; }
};
static bool near1(double a, double b) { if (a == b || (std::isnan(a) && std::isnan(b))) return true; return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12; }
static void compare(Ctx& c, const std::string& at, const std::function<void(Rec&)>& viaC, const std::function<void(Rec&)>& direct) {
  Rec a, b; int ka = 0, kb = 0; mc::g_random = 1; try { direct(b); } catch (const std::exception&) { kb = 1; } mc::g_random = 1; try { viaC(a); } catch (const std::exception&) { ka = 1; } c.trans(2);
  c.check(ka == kb, "refusal", at + (ka ? ": refused through the C interface only" : ": accepted through the C interface only")); if (ka) { c.count("refused"); c.count("refused: " + at.substr(0, at.find(" at "))); return; }
  c.check(a.v.size() == b.v.size(), "size", at + fmt(": %zu numbers through the C interface, %zu from the library", a.v.size(), b.v.size())); for (size_t i = 0; i < b.v.size(); i++) c.check(near1(a.v[i], b.v[i]), "value", at + fmt(": number %zu is %.17g through the C interface, %.17g from the library", i, a.v[i], b.v[i])); c.count("compared");
}
// ---- functions of one curve and a parameter
struct PairC { std::string name; std::function<void(Rec&, const C1&, double)> viaC, direct; };
#define VIA [](Rec& r, const C1& a, double t)
static double at(const C1& a, double f) { return inner(a, f); }
static Matrix4d someMatrix(int k) { Matrix4d t = Matrix4d::CreateTranslation(XYZ(1, -2, 3)), q = Matrix4d::CreateRotation(XYZ(1, 2, -1), 0.7), s = Matrix4d::CreateScale(XYZ(2, 0.5, -3)); return k == 0 ? t : k == 1 ? q : k == 2 ? s : t.Multiply(q).Multiply(s); }
static std::vector<double> several(const C1& a) { D1 r; for (int i = 0; i <= 8; i++) r.push_back(at(a, i / 8.0)); return r; }
static const std::vector<PairC>& curvePairs() { static std::vector<PairC> L; if (!L.empty()) return L; auto add = [&](const std::string& n, std::function<void(Rec&, const C1&, double)> f, std::function<void(Rec&, const C1&, double)> g) { L.push_back({n, f, g}); };
  add("get_point_on_curve", VIA { r << LNLIB_NURBSCUR_get_point_on_curve(CV(a), t); }, VIA { r << NurbsCurve::GetPointOnCurve(a, t); }); add("get_point_on_curve_by_corner_cut", VIA { r << LNLIB_NURBSCUR_get_point_on_curve_by_corner_cut(CV(a), t); }, VIA { r << NurbsCurve::GetPointOnCurveByCornerCut(a, t); });
  for (int d : {0, 1, 3, 6}) add(fmt("compute_rational_curve_derivatives %d", d), [d](Rec& r, const C1& a, double t) { Buf<XYZ_C> o(d + 1); int n = LNLIB_NURBSCUR_compute_rational_curve_derivatives(CV(a), d, t, o); r.arr(o.p.get(), n); }, [d](Rec& r, const C1& a, double t) { r << NurbsCurve::ComputeRationalCurveDerivatives(a, d, t); });
  add("can_compute_derivative", VIA { r << LNLIB_NURBSCUR_can_compute_derivative(CV(a), t); }, VIA { r << NurbsCurve::CanComputeDerivative(a, t); }); add("curvature", VIA { r << LNLIB_NURBSCUR_curvature(CV(a), t); }, VIA { r << NurbsCurve::Curvature(a, t); }); add("torsion", VIA { r << LNLIB_NURBSCUR_torsion(CV(a), t); }, VIA { r << NurbsCurve::Torsion(a, t); });
  add("normal", VIA { r << LNLIB_NURBSCUR_normal(CV(a), CURVE_NORMAL_NORMAL, t); }, VIA { r << NurbsCurve::Normal(a, CurveNormal::Normal, t); }); add("binormal", VIA { r << LNLIB_NURBSCUR_normal(CV(a), CURVE_NORMAL_BINORMAL, t); }, VIA { r << NurbsCurve::Normal(a, CurveNormal::Binormal, t); });
  for (int k : {1, 2}) { add(fmt("insert_knot %d", k), [k](Rec& r, const C1& a, double t) { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_insert_knot(CV(a), t, k, &o); r << n << o; }, [k](Rec& r, const C1& a, double t) { C1 o; int n = NurbsCurve::InsertKnot(a, t, k, o); r << n << o; }); add(fmt("remove_knot %d", k), [k](Rec& r, const C1& a, double t) { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_remove_knot(CV(a), t, k, &o); r << n; if (n) r << o; }, [k](Rec& r, const C1& a, double t) { C1 o; bool n = NurbsCurve::RemoveKnot(a, t, k, o); r << n; if (n) r << o; }); add(fmt("elevate_degree %d", k), [k](Rec& r, const C1& a, double t) { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_elevate_degree(CV(a), k, &o); r << o; }, [k](Rec& r, const C1& a, double t) { C1 o; NurbsCurve::ElevateDegree(a, k, o); r << o; }); }
  add("refine_knot_vector", VIA { LN_NurbsCurve_C o{}; D1 x = {at(a, 0.21), at(a, 0.21), at(a, 0.77)}; LNLIB_NURBSCUR_refine_knot_vector(CV(a), x.data(), 3, &o); r << o; }, VIA { C1 o; NurbsCurve::RefineKnotVector(a, {at(a, 0.21), at(a, 0.21), at(a, 0.77)}, o); r << o; });
  for (int room : {-1, 0, 3}) { add(fmt("decompose_to_beziers %d", room), [room](Rec& r, const C1& a, double t) { int m = std::max(1, (int)NurbsCurve::DecomposeToBeziers(a).size() + room); Buf<LN_NurbsCurve_C> o(m); int n = LNLIB_NURBSCUR_decompose_to_beziers(CV(a), o, m); r.arr(o.p.get(), n); }, [room](Rec& r, const C1& a, double t) { auto v = NurbsCurve::DecomposeToBeziers(a); int m = std::max(1, (int)v.size() + room); v.resize(std::min((int)v.size(), m)); r << v; });
    add(fmt("equally_tessellate %d", room), [room](Rec& r, const C1& a, double t) { Pts p; D1 k; NurbsCurve::EquallyTessellate(a, p, k); int m = std::max(1, (int)p.size() + room), n = std::min(m, (int)p.size()); Buf<XYZ_C> o(m); Buf<double> q(m); LNLIB_NURBSCUR_equally_tessellate(CV(a), m, o, q); r.arr(o.p.get(), n).arr(q.p.get(), n); }, [room](Rec& r, const C1& a, double t) { Pts p; D1 k; NurbsCurve::EquallyTessellate(a, p, k); int m = std::max(1, (int)p.size() + room), n = std::min(m, (int)p.size()); p.resize(n); k.resize(n); r << p << k; }); }
  add("remove_excessive_knots", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_remove_excessive_knots(CV(a), &o); r << o; }, VIA { C1 o; NurbsCurve::RemoveExcessiveKnots(a, o); r << o; }); add("reduce_degree", VIA { C1 e; NurbsCurve::ElevateDegree(a, 1, e); LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_reduce_degree(CV(e), &o); r << n; if (n) r << o; }, VIA { C1 e; NurbsCurve::ElevateDegree(a, 1, e); C1 o; bool n = NurbsCurve::ReduceDegree(e, o); r << n; if (n) r << o; }); add("reduce_degree of the curve", VIA { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_reduce_degree(CV(a), &o); r << n; if (n) r << o; }, VIA { C1 o; bool n = NurbsCurve::ReduceDegree(a, o); r << n; if (n) r << o; });
  add("is_closed", VIA { r << LNLIB_NURBSCUR_is_closed(CV(a)); }, VIA { r << NurbsCurve::IsClosed(a); }); add("is_linear", VIA { r << LNLIB_NURBSCUR_is_linear(CV(a)); }, VIA { r << NurbsCurve::IsLinear(a); }); add("is_clamp", VIA { r << LNLIB_NURBSCUR_is_clamp(CV(a)); }, VIA { r << NurbsCurve::IsClamp(a); }); add("is_periodic", VIA { r << LNLIB_NURBSCUR_is_periodic(CV(a)); }, VIA { r << NurbsCurve::IsPeriodic(a); }); add("is_arc", VIA { LNLIB_ArcInfo_C i{}; int k = LNLIB_NURBSCUR_is_arc(CV(a), &i); r << (k != 0); if (k) r << i.radius << i.center; }, VIA { LN_ArcInfo i{}; bool k = NurbsCurve::IsArc(a, i); r << k; if (k) r << i.Radius << i.Center; });
  add("get_param_on_curve", VIA { r << LNLIB_NURBSCUR_get_param_on_curve(CV(a), cx(NurbsCurve::GetPointOnCurve(a, t) + XYZ(0.1, 0, 0.05))); }, VIA { r << NurbsCurve::GetParamOnCurve(a, NurbsCurve::GetPointOnCurve(a, t) + XYZ(0.1, 0, 0.05)); }); for (int k = 0; k < 4; k++) add(fmt("create_transformed %d", k), [k](Rec& r, const C1& a, double t) { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_create_transformed(CV(a), cm(someMatrix(k)), &o); r << o; }, [k](Rec& r, const C1& a, double t) { C1 o; NurbsCurve::CreateTransformed(a, someMatrix(k), o); r << o; });
  add("reparametrize", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_reparametrize(CV(a), -3, 4.5, &o); r << o; }, VIA { C1 o; NurbsCurve::Reparametrize(a, -3, 4.5, o); r << o; }); add("reparametrize_linear_rational", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_reparametrize_linear_rational(CV(a), 2, 1, 0.001, 3, &o); r << o; }, VIA { C1 o; NurbsCurve::Reparametrize(a, 2, 1, 0.001, 3, o); r << o; }); add("reverse", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_reverse(CV(a), &o); r << o; }, VIA { C1 o; NurbsCurve::Reverse(a, o); r << o; });
  add("split_at", VIA { LN_NurbsCurve_C o{}, q{}; int n = LNLIB_NURBSCUR_split_at(CV(a), t, &o, &q); r << n; if (n) r << o << q; }, VIA { C1 o, q; bool n = NurbsCurve::SplitAt(a, t, o, q); r << n; if (n) r << o << q; }); add("extract", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_extract(CV(a), at(a, 0.2), at(a, 0.7), &o); r << o; }, VIA { C1 o; NurbsCurve::Extract(a, at(a, 0.2), at(a, 0.7), o); r << o; });
  add("merge", VIA { C1 x, y; if (!NurbsCurve::SplitAt(a, at(a, 0.37), x, y)) return; LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_merge(CV(x), CV(y), &o); r << n; if (n) r << o; n = LNLIB_NURBSCUR_merge(CV(y), CV(x), &o); r << n; if (n) r << o; }, VIA { C1 x, y; if (!NurbsCurve::SplitAt(a, at(a, 0.37), x, y)) return; C1 o; bool n = NurbsCurve::Merge(x, y, o); r << n; if (n) r << o; C1 q; n = NurbsCurve::Merge(y, x, q); r << n; if (n) r << q; });
  add("computer_remove_knot_error_bound", VIA { for (int i = a.Degree + 1; i < (int)a.ControlPoints.size(); i++) r << LNLIB_NURBSCUR_computer_remove_knot_error_bound(CV(a), i); }, VIA { for (int i = a.Degree + 1; i < (int)a.ControlPoints.size(); i++) r << NurbsCurve::ComputerRemoveKnotErrorBound(a, i); });
  for (double e : {1e-3, 1.0, 100.0}) add(fmt("remove_knots_by_given_bound %g", e), [e](Rec& r, const C1& a, double t) { auto p = several(a); Buf<double> q(p.size()); int n = -1; LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_remove_knots_by_given_bound(CV(a), p.data(), p.size(), e, q, &n, &o); r.arr(q.p.get(), n) << o; }, [e](Rec& r, const C1& a, double t) { auto p = several(a); D1 q(p.size(), 0.0); C1 o; NurbsCurve::RemoveKnotsByGivenBound(a, p, q, e, o); r << q << o; });
  add("project_normal", VIA { auto v = NurbsCurve::ProjectNormal(a); Buf<XYZ_C> o(v.size()); mc::g_random = 1; int n = LNLIB_NURBSCUR_project_normal(CV(a), o); r.arr(o.p.get(), n); }, VIA { NurbsCurve::ProjectNormal(a); mc::g_random = 1; r << NurbsCurve::ProjectNormal(a); }); add("tessellate", VIA { Buf<XYZ_C> o(NurbsCurve::Tessellate(a).size()); int n = LNLIB_NURBSCUR_tessellate(CV(a), o); r.arr(o.p.get(), n); }, VIA { r << NurbsCurve::Tessellate(a); });
  const std::vector<std::pair<LNLIB_ENUMS_IntegratorType_C, IntegratorType>> I = {{INTEGRATOR_SIMPSON, IntegratorType::Simpson}, {INTEGRATOR_GAUSS_LEGENDRE, IntegratorType::GaussLegendre}, {INTEGRATOR_CHEBYSHEV, IntegratorType::Chebyshev}};
  for (auto i : I) { add(fmt("approximate_length %d", (int)i.first), [i](Rec& r, const C1& a, double t) { r << LNLIB_NURBSCUR_approximate_length(CV(a), i.first); }, [i](Rec& r, const C1& a, double t) { r << NurbsCurve::ApproximateLength(a, i.second); }); add(fmt("get_param_by_length %d", (int)i.first), [i](Rec& r, const C1& a, double t) { double l = 0.37 * NurbsCurve::ApproximateLength(a, i.second); r << LNLIB_NURBSCUR_get_param_by_length(CV(a), l, i.first); }, [i](Rec& r, const C1& a, double t) { double l = 0.37 * NurbsCurve::ApproximateLength(a, i.second); r << NurbsCurve::GetParamOnCurve(a, l, i.second); });
    add(fmt("get_params_by_equal_length %d", (int)i.first), [i](Rec& r, const C1& a, double t) { double l = 0.3 * NurbsCurve::ApproximateLength(a, i.second); Buf<double> o(NurbsCurve::GetParamsOnCurve(a, l, i.second).size()); int n = LNLIB_NURBSCUR_get_params_by_equal_length(CV(a), l, i.first, o); r.arr(o.p.get(), n); }, [i](Rec& r, const C1& a, double t) { double l = 0.3 * NurbsCurve::ApproximateLength(a, i.second); r << NurbsCurve::GetParamsOnCurve(a, l, i.second); }); }
  add("control_point_reposition", VIA { for (int i = 0; i < (int)a.ControlPoints.size(); i++) { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_control_point_reposition(CV(a), t, i, {1, 2, -1}, 0.5, &o); r << n; if (n) r << o; } }, VIA { for (int i = 0; i < (int)a.ControlPoints.size(); i++) { C1 o; bool n = NurbsCurve::ControlPointReposition(a, t, i, XYZ(1, 2, -1), 0.5, o); r << n; if (n) r << o; } });
  add("weight_modification", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_weight_modification(CV(a), at(a, 0.45), a.ControlPoints.size() / 2, 0.05, &o); r << o; }, VIA { C1 o; NurbsCurve::WeightModification(a, at(a, 0.45), a.ControlPoints.size() / 2, 0.05, o); r << o; }); add("neighbor_weights_modification", VIA { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_neighbor_weights_modification(CV(a), at(a, 0.45), a.ControlPoints.size() / 2 - 1, 0.05, 0.4, &o); r << n; if (n) r << o; }, VIA { C1 o; bool n = NurbsCurve::NeighborWeightsModification(a, at(a, 0.45), a.ControlPoints.size() / 2 - 1, 0.05, 0.4, o); r << n; if (n) r << o; });
  add("warping", VIA { LN_NurbsCurve_C o{}; D1 w = {0.1, 0.5, 1, 0.6, 0.2}; LNLIB_NURBSCUR_warping(CV(a), w.data(), 5, 0.3, {0, 0, 1}, at(a, 0.2), at(a, 0.8), &o); r << o; }, VIA { C1 o; NurbsCurve::Warping(a, {0.1, 0.5, 1, 0.6, 0.2}, 0.3, XYZ(0, 0, 1), at(a, 0.2), at(a, 0.8), o); r << o; }); add("flattening", VIA { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_flattening(CV(a), {-100, -6, 0}, {100, -7, 0}, at(a, 0.2), at(a, 0.8), &o); r << n; if (n) r << o; }, VIA { C1 o; bool n = NurbsCurve::Flattening(a, XYZ(-100, -6, 0), XYZ(100, -7, 0), at(a, 0.2), at(a, 0.8), o); r << n; if (n) r << o; }); add("bending", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_bending(CV(a), at(a, 0.2), at(a, 0.8), {1, -30, 2}, 20, 0.4, &o); r << o; }, VIA { C1 o; NurbsCurve::Bending(a, at(a, 0.2), at(a, 0.8), XYZ(1, -30, 2), 20, 0.4, o); r << o; });
  add("constraint_based_modification", VIA { LN_NurbsCurve_C o{}; D1 p = {at(a, 0.3), at(a, 0.8)}; std::vector<XYZ_C> d = {{1, 0.5, -1}, {0.2, 0.1, 0.3}}; std::vector<int> i = {0, 1}, k = {0, 1}, f = {0}; LNLIB_NURBSCUR_constraint_based_modification(CV(a), p.data(), d.data(), i.data(), k.data(), f.data(), 2, 1, &o); r << o; }, VIA { C1 o; NurbsCurve::ConstraintBasedModification(a, {at(a, 0.3), at(a, 0.8)}, {XYZ(1, 0.5, -1), XYZ(0.2, 0.1, 0.3)}, {0, 1}, {0, 1}, {0}, o); r << o; });
  add("to_unclamp_curve", VIA { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_to_unclamp_curve(CV(a), &o); r << o; }, VIA { C1 o; NurbsCurve::ToUnclampCurve(a, o); r << o; }); add("to_clamp_curve", VIA { C1 u; NurbsCurve::ToUnclampCurve(a, u); LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_to_clamp_curve(CV(u), &o); r << o; }, VIA { C1 u; NurbsCurve::ToUnclampCurve(a, u); C1 o; NurbsCurve::ToClampCurve(u, o); r << o; });
  return L; }
static std::vector<C1> someArcs() { static std::vector<C1> r; if (r.empty()) for (double e : {1.0, 4.0, 6.283185307179586}) { C1 a; NurbsCurve::CreateArc(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 0.6, 0.8), 0, e, 2, 2, a); r.push_back(a); } if (r.size() == 3) { C1 l; NurbsCurve::CreateLine(XYZ(1, 2, 3), XYZ(-2, 0, 5), l); r.push_back(l); } return r; }
static void curves(Ctx& c) { C1 a = c.flip() ? c.pick(someArcs()) : pickCurve(c, mc::tier(3, 4), 2, 2, 3, 1, 2, false, {0, 2}, {0, 1}); auto& p = c.pick(curvePairs()); c.shard(); static const D1 F = {0, 0.31, 0.5, 1}; static const std::vector<std::string> withParameter = {"get_point", "compute", "can_", "curvature", "torsion", "normal", "binormal", "insert", "remove_knot ", "get_param_on", "split_at", "control_point"}; bool w = false; for (auto& n : withParameter) w |= p.name.compare(0, n.size(), n) == 0; double t = at(a, w ? c.pick(F) : 0.31); std::string d = p.name + fmt(" at %g of ", t) + str(a); c.note("%s", d.c_str()); c.state(mc::hd(mc::mix(gen::hash(a), &p - &curvePairs()[0]), t)); compare(c, d, [&](Rec& r) { p.viaC(r, a, t); }, [&](Rec& r) { p.direct(r, a, t); }); }
// ---- functions of one surface
struct PairS { std::string name; std::function<void(Rec&, const S2&, UV)> viaC, direct; };
#define SIA [](Rec& r, const S2& a, UV t)
#define SIB [=](Rec& r, const S2& a, UV t)
static UV at(const S2& a, double f, double g) { return UV(mid(a.KnotVectorU, a.DegreeU, f), mid(a.KnotVectorV, a.DegreeV, g)); }
static void rec(Rec& r, const LN_Mesh& m) { r << m.Vertices << m.Faces.size() * 3; for (auto& f : m.Faces) for (int i : f) r << i; r << m.UVs; if (!m.UVIndices.empty()) r << m.UVIndices; else if (m.UVs.size() == m.Vertices.size()) { r << m.Faces.size() * 3; for (auto& f : m.Faces) for (int i : f) r << i; } else r << 0; r << m.Normals; if (!m.NormalIndices.empty()) r << m.NormalIndices; else if (m.Normals.size() == m.Vertices.size()) { r << m.Faces.size() * 3; for (auto& f : m.Faces) for (int i : f) r << i; } else r << 0; }
static void rec(Rec& r, const LNLIB_Mesh_C& m) { r.arr(m.vertices, m.vertices_count).arr(m.facets, m.facets_count).arr(m.uvs, m.uvs_count).arr(m.uv_indices, m.uv_indices_count).arr(m.normals, m.normals_count).arr(m.normal_indices, m.normal_indices_count); }
static const std::vector<PairS>& surfacePairs() { static std::vector<PairS> L; if (!L.empty()) return L; auto add = [&](const std::string& n, std::function<void(Rec&, const S2&, UV)> f, std::function<void(Rec&, const S2&, UV)> g) { L.push_back({n, f, g}); };
  add("get_point_on_surface", SIA { r << LNLIB_NURBSSUR_get_point_on_surface(SV(a), cu(t)); }, SIA { r << NurbsSurface::GetPointOnSurface(a, t); }); for (int d : {0, 1, 2, 3}) add(fmt("compute_rational_surface_derivatives %d", d), SIB { auto e = NurbsSurface::ComputeRationalSurfaceDerivatives(a, d, t); size_t k = 0; for (auto& x : e) k += x.size(); Buf<XYZ_C> o(k); int n = LNLIB_NURBSSUR_compute_rational_surface_derivatives(SV(a), d, cu(t), o); r << n; int i = 0; for (size_t x = 0; x < e.size(); x++) for (size_t y = 0; y < e[x].size(); y++, i++) if ((int)(x + y) <= d) r << o[i]; }, SIB { auto e = NurbsSurface::ComputeRationalSurfaceDerivatives(a, d, t); size_t k = 0; for (auto& x : e) k += x.size(); r << k; for (size_t x = 0; x < e.size(); x++) for (size_t y = 0; y < e[x].size(); y++) if ((int)(x + y) <= d) r << e[x][y]; });
  add("compute_rational_surface_first_order_derivative", SIA { XYZ_C x, y, z; LNLIB_NURBSSUR_compute_rational_surface_first_order_derivative(SV(a), cu(t), &x, &y, &z); r << x << y << z; }, SIA { XYZ x, y, z; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(a, t, x, y, z); r << x << y << z; });
  const std::vector<std::pair<int, SurfaceCurvature>> K = {{SURFACE_CURVATURE_MAXIMUM, SurfaceCurvature::Maximum}, {SURFACE_CURVATURE_MINIMUM, SurfaceCurvature::Minimum}, {SURFACE_CURVATURE_GAUSS, SurfaceCurvature::Gauss}, {SURFACE_CURVATURE_MEAN, SurfaceCurvature::Mean}, {SURFACE_CURVATURE_ABS, SurfaceCurvature::Abs}, {SURFACE_CURVATURE_RMS, SurfaceCurvature::Rms}}; for (auto k : K) add(fmt("curvature %d", k.first), SIB { r << LNLIB_NURBSSUR_curvature(SV(a), k.first, cu(t)); }, SIB { r << NurbsSurface::Curvature(a, k.second, t); });
  add("Normal", SIA { r << LNLIB_NURBSSUR_Normal(SV(a), cu(t)); }, SIA { r << NurbsSurface::Normal(a, t); }); add("swap", SIA { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_swap(SV(a), &o); r << o; }, SIA { S2 o{}; NurbsSurface::Swap(a, o); r << o; });
  const std::vector<std::pair<int, SurfaceDirection>> R = {{SURFACE_DIRECTION_ALL, SurfaceDirection::All}, {SURFACE_DIRECTION_U, SurfaceDirection::UDirection}, {SURFACE_DIRECTION_V, SurfaceDirection::VDirection}}; for (auto k : R) add(fmt("reverse %d", k.first), SIB { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_reverse(SV(a), k.first, &o); r << o; }, SIB { S2 o{}; NurbsSurface::Reverse(a, k.second, o); r << o; });
  for (int u : {0, 1}) { auto x = [u](const S2& a, double f) { return u ? mid(a.KnotVectorU, a.DegreeU, f) : mid(a.KnotVectorV, a.DegreeV, f); };
    add(fmt("is_closed %d", u), SIB { r << LNLIB_NURBSSUR_is_closed(SV(a), u); }, SIB { r << NurbsSurface::IsClosed(a, u); }); for (int k : {1, 2}) { add(fmt("insert_knot %d %d", u, k), SIB { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_insert_knot(SV(a), x(a, 0.4), k, u, &o); r << o; }, SIB { S2 o{}; NurbsSurface::InsertKnot(a, x(a, 0.4), k, u, o); r << o; }); add(fmt("elevate_degree %d %d", u, k), SIB { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_elevate_degree(SV(a), k, u, &o); r << o; }, SIB { S2 o{}; NurbsSurface::ElevateDegree(a, k, u, o); r << o; }); add(fmt("remove_knot %d %d", u, k), SIB { S2 b{}; NurbsSurface::InsertKnot(a, x(a, 0.4), 2, u, b); LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_remove_knot(SV(b), x(a, 0.4), k, u, &o); r << o; }, SIB { S2 b{}; NurbsSurface::InsertKnot(a, x(a, 0.4), 2, u, b); S2 o{}; NurbsSurface::RemoveKnot(b, x(a, 0.4), k, u, o); r << o; }); }
    add(fmt("refine_knot_vector %d", u), SIB { LN_NurbsSurface_C o{}; D1 k = {x(a, 0.2), x(a, 0.55), x(a, 0.55)}; LNLIB_NURBSSUR_refine_knot_vector(SV(a), k.data(), 3, u, &o); r << o; }, SIB { S2 o{}; NurbsSurface::RefineKnotVector(a, {x(a, 0.2), x(a, 0.55), x(a, 0.55)}, u, o); r << o; }); for (int e : {0, 1}) add(fmt("reduce_degree %d %d", u, e), SIB { S2 b = a; if (e) NurbsSurface::ElevateDegree(a, 1, u, b); LN_NurbsSurface_C o{}; int n = LNLIB_NURBSSUR_reduce_degree(SV(b), u, &o); r << n; if (n) r << o; }, SIB { S2 b = a; if (e) NurbsSurface::ElevateDegree(a, 1, u, b); S2 o{}; bool n = NurbsSurface::ReduceDegree(b, u, o); r << n; if (n) r << o; }); }
  for (int room : {-1, 0, 3}) { add(fmt("decompose_to_beziers %d", room), SIB { int m = std::max(1, (int)NurbsSurface::DecomposeToBeziers(a).size() + room); Buf<LN_NurbsSurface_C> o(m); int n = LNLIB_NURBSSUR_decompose_to_beziers(SV(a), o, m); r.arr(o.p.get(), n); }, SIB { auto v = NurbsSurface::DecomposeToBeziers(a); int m = std::max(1, (int)v.size() + room); v.resize(std::min((int)v.size(), m)); r << v; });
    add(fmt("equally_tessellate %d", room), SIB { Pts p; std::vector<UV> k; NurbsSurface::EquallyTessellate(a, p, k); int m = std::max(1, (int)p.size() + room), n = std::min(m, (int)p.size()); Buf<XYZ_C> o(m); Buf<UV_C> q(m); LNLIB_NURBSSUR_equally_tessellate(SV(a), o, q, m); r.arr(o.p.get(), n).arr(q.p.get(), n); }, SIB { Pts p; std::vector<UV> k; NurbsSurface::EquallyTessellate(a, p, k); int m = std::max(1, (int)p.size() + room), n = std::min(m, (int)p.size()); p.resize(n); k.resize(n); r << p << k; }); }
  add("get_param_on_surface", SIA { r << LNLIB_NURBSSUR_get_param_on_surface(SV(a), cx(NurbsSurface::GetPointOnSurface(a, t) + XYZ(0, 0, 0.2))); }, SIA { r << NurbsSurface::GetParamOnSurface(a, NurbsSurface::GetPointOnSurface(a, t) + XYZ(0, 0, 0.2)); }); add("get_param_on_surface_by_gsa", SIA { r << LNLIB_NURBSSUR_get_param_on_surface_by_gsa(SV(a), cx(NurbsSurface::GetPointOnSurface(a, t))); }, SIA { r << NurbsSurface::GetParamOnSurfaceByGSA(a, NurbsSurface::GetPointOnSurface(a, t)); });
  add("get_uv_tangent", SIA { UV_C o{}; int n = LNLIB_NURBSSUR_get_uv_tangent(SV(a), cu(t), {1, 0.4, 0.1}, &o); r << n; if (n) r << o; }, SIA { UV o; bool n = NurbsSurface::GetUVTangent(a, t, XYZ(1, 0.4, 0.1), o); r << n; if (n) r << o; }); add("reparametrize", SIA { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_reparametrize(SV(a), -1, 2, 4, 9, &o); r << o; }, SIA { S2 o{}; NurbsSurface::Reparametrize(a, -1, 2, 4, 9, o); r << o; });
  add("non_uniform_scaling_query_size", SIA { SV s(a); XYZW_C* o = nullptr; int n = 0, m = 0; LNLIB_NURBSSUR_non_uniform_scaling_query_size(s.P.data(), s.h.cp_rows, s.h.cp_cols, 2, 3, -0.5, {1, 2, 3}, &o, &n, &m); r << n << m; for (int i = 0; i < n * m; i++) r << o[i]; delete[] o; }, SIA { auto v = NurbsSurface::NonUniformScaling(a.ControlPoints, 2, 3, -0.5, XYZ(1, 2, 3)); r << v.size() << v[0].size(); for (auto& x : v) for (auto& y : x) r << y; });
  const std::vector<std::pair<int, IntegratorType>> I = {{INTEGRATOR_SIMPSON, IntegratorType::Simpson}, {INTEGRATOR_GAUSS_LEGENDRE, IntegratorType::GaussLegendre}, {INTEGRATOR_CHEBYSHEV, IntegratorType::Chebyshev}}; for (auto i : I) add(fmt("approximate_area %d", i.first), SIB { r << LNLIB_NURBSSUR_approximate_area(SV(a), i.first); }, SIB { r << NurbsSurface::ApproximateArea(a, i.second); });
  for (int d : {0, 1}) add(fmt("triangulate %d", d), SIB { rec(r, LNLIB_NURBSSUR_triangulate(SV(a), 4, 6, d)); }, SIB { rec(r, NurbsSurface::Triangulate(a, 4, 6, d)); });
  return L; }
static void surfaces(Ctx& c) { S2 a; if (c.flip()) { NurbsSurface::CreateCylindricalSurface(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 6.283185307179586, 2, 5, a); } else a = pickSurface(c, 1, 2, 1, 1, 1, 1, 2, {0}, {0, 1}, 4); auto& p = c.pick(surfacePairs()); c.shard(); static const std::vector<std::pair<double, double>> F = {{0, 1}, {0.3, 0.6}, {1, 0.5}}; auto f = c.pick(F); UV t = at(a, f.first, f.second); std::string d = p.name + fmt(" at %g,%g of ", t.GetU(), t.GetV()) + str(a); c.note("%s", d.c_str()); c.state(mc::hd(mc::mix(gen::hash(a), &p - &surfacePairs()[0]), t.GetU())); compare(c, d, [&](Rec& r) { p.viaC(r, a, t); }, [&](Rec& r) { p.direct(r, a, t); }); }
// ---- constructions
struct PairM { std::string name; std::function<void(Rec&)> viaC, direct; };
static Pts pts(int n, int f) { Pts v; for (int i = 0; i < n; i++) v.push_back(pos(f, i, n)); return v; }
static std::vector<Pts> grid(int n, int m) { std::vector<Pts> g; for (int i = 0; i < n; i++) { g.emplace_back(); for (int j = 0; j < m; j++) g.back().push_back(pos2(0, i, j, n, m)); } return g; }
static C1 seg(XYZ a, XYZ b) { C1 r; NurbsCurve::CreateLine(a, b, r); return r; }
#define M0 [=](Rec& r)
static std::vector<C1> forOffset() { std::vector<C1> r = {seg(XYZ(1, 2, 0), XYZ(4, -1, 0))}; C1 a; NurbsCurve::CreateArc(XYZ(1, 2, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0.2, 0.9, 0.1, 0.1, a); r.push_back(a); return r; }
static const std::vector<PairM>& makers() { static std::vector<PairM> L; if (!L.empty()) return L; auto add = [&](const std::string& n, std::function<void(Rec&)> f, std::function<void(Rec&)> g) { L.push_back({n, f, g}); };
  for (auto& a : forOffset()) for (double d : {0.0, 0.02, -0.01}) { add(fmt("offset 0 %d %g", a.Degree, d), M0 { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_offset(CV(a), d, OFFSET_TILLER_HANSON, &o); r << o; }, M0 { C1 o; NurbsCurve::Offset(a, d, OffsetType::TillerAndHanson, o); r << o; }); add(fmt("offset 1 %d %g", a.Degree, d), M0 { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_offset(CV(a), d, OFFSET_PIEGL_TILLER, &o); r << o; }, M0 { C1 o; NurbsCurve::Offset(a, d, OffsetType::PieglAndTiller, o); r << o; }); }
  add("create_line", M0 { r << LNLIB_NURBSCUR_create_line({1, 2, 3}, {-4, 0, 7}); }, M0 { C1 o; NurbsCurve::CreateLine(XYZ(1, 2, 3), XYZ(-4, 0, 7), o); r << o; }); for (int n : {2, 3, 6}) { auto p = pts(n, 6), q = pts(n, 0); add(fmt("create_cubic_hermite %d", n), M0 { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_create_cubic_hermite(cxs(p).data(), n, cxs(q).data(), n, &o); r << o; }, M0 { C1 o; NurbsCurve::CreateCubicHermite(p, q, o); r << o; }); }
  for (double s : {0.0, 0.7, -1.0}) for (double e : {1.0, 3.5, 5.2, 6.283185307179586, 9.0}) add(fmt("create_arc %g %g", s, e), M0 { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_create_arc({1, 2, 3}, {1, 0, 0}, {0, 0, 1}, s, e, 2, 3, &o); r << n; if (n) r << o; }, M0 { C1 o; bool n = NurbsCurve::CreateArc(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 0, 1), s, e, 2, 3, o); r << n; if (n) r << o; });
  for (double h : {0.3, 1.0, 1.7}) { add(fmt("create_one_conic_arc %g", h), M0 { XYZ_C p{}; double w = 0; int n = LNLIB_NURBSCUR_create_one_conic_arc({0, 0, 0}, {1, 2, 0}, {4, 0, 0}, {1, -2, 0}, {2, h, 0}, &p, &w); r << n << p << w; }, M0 { XYZ p; double w = 0; bool n = NurbsCurve::CreateOneConicArc(XYZ(0, 0, 0), XYZ(1, 2, 0), XYZ(4, 0, 0), XYZ(1, -2, 0), XYZ(2, h, 0), p, w); r << n << p << w; }); add(fmt("split_arc %g", h), M0 { XYZ_C p{}, q{}, s{}; double w = 0; LNLIB_NURBSCUR_split_arc({0, 0, 0}, {2, 4, 1}, h, {4, 0, 0}, &p, &q, &s, &w); r << p << q << s << w; }, M0 { XYZ p, q, s; double w = 0; NurbsCurve::SplitArc(XYZ(0, 0, 0), XYZ(2, 4, 1), h, XYZ(4, 0, 0), p, q, s, w); r << p << q << s << w; }); add(fmt("create_open_conic %g", h), M0 { LN_NurbsCurve_C o{}; int n = LNLIB_NURBSCUR_create_open_conic({0, 0, 0}, {1, 2, 0}, {4, 0, 0}, {1, -2, 0}, {2, h, 0}, &o); r << n; if (n) r << o; }, M0 { C1 o; bool n = NurbsCurve::CreateOpenConic(XYZ(0, 0, 0), XYZ(1, 2, 0), XYZ(4, 0, 0), XYZ(1, -2, 0), XYZ(2, h, 0), o); r << n; if (n) r << o; }); }
  for (int p : {2, 3}) for (int n : {5, 9}) { auto a = pts(n, 6), b = pts(n, 0), e = pts(n + 4, 6); std::string k = fmt(" %d %d", p, n);
    add("global_interpolation" + k, M0 { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_global_interpolation(p, cxs(a).data(), n, &o); r << o; }, M0 { C1 o; NurbsCurve::GlobalInterpolation(p, a, o); r << o; }); add("global_interpolation_with_tangents" + k, M0 { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_global_interpolation_with_tangents(p, cxs(a).data(), cxs(b).data(), 1.5, n, &o); r << o; }, M0 { C1 o; NurbsCurve::GlobalInterpolation(p, a, b, 1.5, o); r << o; }); add("cubic_local_interpolation" + k, M0 { LN_NurbsCurve_C o{}; int q = LNLIB_NURBSCUR_cubic_local_interpolation(cxs(a).data(), n, &o); r << q; if (q) r << o; }, M0 { C1 o; bool q = NurbsCurve::CubicLocalInterpolation(a, o); r << q; if (q) r << o; }); add("least_squares_approximation" + k, M0 { LN_NurbsCurve_C o{}; int q = LNLIB_NURBSCUR_least_squares_approximation(p, cxs(e).data(), n + 4, n, &o); r << q; if (q) r << o; }, M0 { C1 o; bool q = NurbsCurve::LeastSquaresApproximation(p, e, n, o); r << q; if (q) r << o; }); for (double x : {0.01, 0.5}) add("global_approximation_by_error_bound" + k, M0 { LN_NurbsCurve_C o{}; LNLIB_NURBSCUR_global_approximation_by_error_bound(p, cxs(e).data(), n + 4, x, &o); r << o; }, M0 { C1 o; NurbsCurve::GlobalApproximationByErrorBound(p, e, x, o); r << o; });
    for (int m : {0, 1, 2}) add("weighted_constrained_least_squares" + k + fmt(" %d", m), M0 { D1 w; for (size_t i = 0; i < e.size(); i++) w.push_back(1 + 0.25 * (i % 3)); std::vector<XYZ_C> t; std::vector<int> ix; D1 tw; for (int i = 0; i < m; i++) { t.push_back({1, 0.5 * i, 0.4}); ix.push_back(i ? n + 3 : 0); tw.push_back(1); } LN_NurbsCurve_C o{}; int q = LNLIB_NURBSCUR_weighted_constrained_least_squares(p, cxs(e).data(), w.data(), n + 4, t.data(), ix.data(), tw.data(), m, n, &o); r << q; if (q) r << o; }, M0 { D1 w; for (size_t i = 0; i < e.size(); i++) w.push_back(1 + 0.25 * (i % 3)); Pts t; std::vector<int> ix; D1 tw; for (int i = 0; i < m; i++) { t.push_back(XYZ(1, 0.5 * i, 0.4)); ix.push_back(i ? n + 3 : 0); tw.push_back(1); } C1 o; bool q = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, e, w, t, ix, tw, n, o); r << q; if (q) r << o; });
    for (double x : {0.05, 2.0}) { XYZ t0 = e[1] - e[0], t1 = e[n - 1] - e[n - 2]; add("fit_with_conic" + k, M0 { Buf<XYZW_C> o(8); int z = -1; int q = LNLIB_NURBSCUR_fit_with_conic(cxs(e).data(), n + 4, 0, 3, cx(t0), cx(e[3] - e[2]), x, o, &z); r << q; if (q) r.arr(o.p.get(), z); }, M0 { std::vector<XYZW> o; bool q = NurbsCurve::FitWithConic(e, 0, 3, t0, e[3] - e[2], x, o); r << q; if (q) r << o; }); add("fit_with_cubic" + k, M0 { Buf<XYZW_C> o(8); int z = -1; int q = LNLIB_NURBSCUR_fit_with_cubic(cxs(e).data(), n + 4, 0, n - 1, cx(t0), cx(t1), x, o, &z); r << q; if (q) r.arr(o.p.get(), z); }, M0 { std::vector<XYZW> o; bool q = NurbsCurve::FitWithCubic(e, 0, n - 1, t0, t1, x, o); r << q; if (q) r << o; }); }
    add("get_total_chord_length" + k, M0 { auto v = cxs(a); r << LNLIB_INTERPOLATION_get_total_chord_length(v.data(), n) << LNLIB_INTERPOLATION_get_centripetal_length(v.data(), n); Buf<double> o(n); int z = 0; LNLIB_INTERPOLATION_get_chord_parameterization(v.data(), n, o, &z); r.arr(o.p.get(), z); LNLIB_INTERPOLATION_get_centripetal_parameterization(v.data(), n, o, &z); r.arr(o.p.get(), z); }, M0 { r << Interpolation::GetTotalChordLength(a) << Interpolation::GetCentripetalLength(a) << Interpolation::GetChordParameterization(a) << Interpolation::GetCentripetalParameterization(a); });
    add("average_knot_vector" + k, M0 { auto q = Interpolation::GetChordParameterization(a); Buf<double> o(n + p + 1); int z = 0; LNLIB_INTERPOLATION_average_knot_vector(p, q.data(), n, o, &z); r.arr(o.p.get(), z); Buf<double> s(n - 1 + p + 1); LNLIB_INTERPOLATION_compute_knot_vector(p, n - 1, q.data(), n, s, &z); r.arr(s.p.get(), z); }, M0 { auto q = Interpolation::GetChordParameterization(a); r << Interpolation::AverageKnotVector(p, q) << Interpolation::ComputeKnotVector(p, n - 1, q); });
    add("compute_tangent" + k, M0 { auto v = cxs(a); Buf<XYZ_C> o(n); int z = 0; LNLIB_INTERPOLATION_compute_tangent_by_three_points(v.data(), n, o, &z); r.arr(o.p.get(), z); int q = LNLIB_INTERPOLATION_compute_tangent_by_five_points(v.data(), n, o, &z); r << q; if (q) r.arr(o.p.get(), z); }, M0 { r << Interpolation::ComputeTangent(a); Pts t; bool q = Interpolation::ComputeTangent(a, t); r << q; if (q) r << t; });
    auto g = grid(n, n - 1); add("get_surface_mesh_parameterization" + k, M0 { auto v = cxs2(g); Buf<double> u(n), w(n - 1); int x = 0, y = 0; int q = LNLIB_INTERPOLATION_get_surface_mesh_parameterization(v.data(), n, n - 1, u, &x, w, &y); r << q; if (q) r.arr(u.p.get(), x).arr(w.p.get(), y); }, M0 { D1 u, w; bool q = Interpolation::GetSurfaceMeshParameterization(g, u, w); r << q; if (q) r << u << w; });
    add("surface global_interpolation" + k, M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_global_interpolation(cxs2(g).data(), n, n - 1, p, 2, &o); r << o; }, M0 { S2 o{}; NurbsSurface::GlobalInterpolation(g, p, 2, o); r << o; }); add("bicubic_local_interpolation" + k, M0 { LN_NurbsSurface_C o{}; int q = LNLIB_NURBSSUR_bicubic_local_interpolation(cxs2(g).data(), n, n - 1, &o); r << q; if (q) r << o; }, M0 { S2 o{}; bool q = NurbsSurface::BicubicLocalInterpolation(g, o); r << q; if (q) r << o; }); auto gg = grid(n + 3, n + 2); add("global_approximation" + k, M0 { LN_NurbsSurface_C o{}; int q = LNLIB_NURBSSUR_global_approximation(cxs2(gg).data(), n + 3, n + 2, p, 2, n, n - 1, &o); r << q; if (q) r << o; }, M0 { S2 o{}; bool q = NurbsSurface::GlobalApproximation(gg, p, 2, n, n - 1, o); r << q; if (q) r << o; }); }
  add("computer_weight_for_rational_quadratic_interpolation", M0 { double w = 0; int q = LNLIB_INTERPOLATION_computer_weight_for_rational_quadratic_interpolation({0, 0, 0}, {1, 2, 0}, {3, 0, 1}, &w); r << q << w; }, M0 { double w = 0; bool q = Interpolation::ComputerWeightForRationalQuadraticInterpolation(XYZ(0, 0, 0), XYZ(1, 2, 0), XYZ(3, 0, 1), w); r << q << w; });
  add("create_bilinear_surface", M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_bilinear_surface({0, 5, 1}, {4, 5, 0}, {0, 0, 0}, {5, 0, 2}, &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateBilinearSurface(XYZ(0, 5, 1), XYZ(4, 5, 0), XYZ(0, 0, 0), XYZ(5, 0, 2), o); r << o; });
  for (double e : {1.0, 4.0, 6.283185307179586, 8.0}) { add(fmt("create_cylindrical_surface %g", e), M0 { LN_NurbsSurface_C o{}; int n = LNLIB_NURBSSUR_create_cylindrical_surface({1, 2, 3}, {1, 0, 0}, {0, 1, 0}, 0.2, e, 2, 5, &o); r << n; if (n) r << o; }, M0 { S2 o{}; bool n = NurbsSurface::CreateCylindricalSurface(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0.2, e, 2, 5, o); r << n; if (n) r << o; }); add(fmt("create_revolved_surface %g", e), M0 { LN_NurbsSurface_C o{}; int n = LNLIB_NURBSSUR_create_revolved_surface({0, 1, 0}, {0, 0, 1}, e, CV(seg(XYZ(2, 0, 0), XYZ(3, 0, 4))), &o); r << n; if (n) r << o; }, M0 { S2 o{}; bool n = NurbsSurface::CreateRevolvedSurface(XYZ(0, 1, 0), XYZ(0, 0, 1), e, seg(XYZ(2, 0, 0), XYZ(3, 0, 4)), o); r << n; if (n) r << o; }); }
  { C1 a = curve(2, clamped(2, {1}), 0, 1), b = curve(3, clamped(3, {1, 1}), 6, 0), t = curve(3, clamped(3, {1}), 6, 0); add("create_ruled_surface", M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_ruled_surface(CV(a), CV(b), &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateRuledSurface(a, b, o); r << o; }); add("create_generalized_translational_sweep_surface", M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_generalized_translational_sweep_surface(CV(a), CV(t), &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateGeneralizedTranslationalSweepSurface(a, t, o); r << o; }); C1 s = seg(XYZ(0, 0, 0), XYZ(1, 2, 6)); for (int m : {2, 5}) { add(fmt("create_sweep_surface %d", m), M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_sweep_surface(CV(a), CV(t), m, &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateSweepSurface(a, t, m, o); r << o; }); add(fmt("create_sweep_surface_by_trajectory_degree %d", m), M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_sweep_surface_by_trajectory_degree(CV(a), CV(t), m + 3, 2, &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateSweepSurface(a, t, m + 3, 2, o); r << o; }); } add("create_swung_surface", M0 { LN_NurbsSurface_C o{}; int n = LNLIB_NURBSSUR_create_swung_surface(CV(seg(XYZ(2, 0, 0), XYZ(3, 0, 4))), CV(a), 1.5, &o); r << n; if (n) r << o; }, M0 { S2 o{}; bool n = NurbsSurface::CreateSwungSurface(seg(XYZ(2, 0, 0), XYZ(3, 0, 4)), a, 1.5, o); r << n; if (n) r << o; }); }
  for (int k : {0, 1, 2}) { std::vector<C1> s; for (int i = 0; i < 5; i++) { C1 x = curve(2, clamped(2, std::vector<int>(1 + i % 2, 1)), 1, 0); for (auto& p : x.ControlPoints) p = XYZW(p.ToXYZ(true) + XYZ(0, i * 0.3, i * 2.0), 1); s.push_back(x); } D1 kn = k == 2 ? D1{0, 0, 0, 0.4, 0.6, 1, 1, 1} : D1{}; int dg = k ? 2 : 0; add(fmt("create_loft_surface %d", k), M0 { std::vector<std::unique_ptr<CV>> v; std::vector<LN_NurbsCurve_C> h; for (auto& x : s) { v.emplace_back(new CV(x)); h.push_back(v.back()->h); } LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_loft_surface(h.data(), h.size(), &o, dg, kn.empty() ? nullptr : kn.data(), kn.size()); r << o; }, M0 { S2 o{}; NurbsSurface::CreateLoftSurface(s, o, dg, kn); r << o; }); }
  { std::vector<C1> u, v; std::vector<Pts> g = grid(3, 4); for (int j = 0; j < 4; j++) { C1 x; NurbsCurve::GlobalInterpolation(2, {g[0][j], g[1][j], g[2][j]}, x, {0, 0.5, 1}); u.push_back(x); } for (int i = 0; i < 3; i++) { C1 y; NurbsCurve::GlobalInterpolation(2, g[i], y, {0, 0.3, 0.7, 1}); v.push_back(y); } for (int k : {0, 1}) { std::vector<C1> uu = k ? v : u, vv = k ? u : v; std::vector<Pts> q; for (size_t i = 0; i < uu.size(); i++) { q.emplace_back(); for (size_t j = 0; j < vv.size(); j++) q.back().push_back(k ? g[i][j] : g[j][i]); } add(fmt("create_gordon_surface %d", k), M0 { std::vector<std::unique_ptr<CV>> w; std::vector<LN_NurbsCurve_C> hu, hv; for (auto& x : uu) { w.emplace_back(new CV(x)); hu.push_back(w.back()->h); } for (auto& x : vv) { w.emplace_back(new CV(x)); hv.push_back(w.back()->h); } LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_gordon_surface(hu.data(), hu.size(), hv.data(), hv.size(), cxs2(q).data(), &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateGordonSurface(uu, vv, q, o); r << o; }); } }
  add("create_coons_surface", M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_create_coons_surface(CV(seg(XYZ(0, 5, 1), XYZ(0, 0, 0))), CV(seg(XYZ(0, 0, 0), XYZ(6, 0, 2))), CV(seg(XYZ(6, 0, 2), XYZ(6, 5, 0))), CV(seg(XYZ(6, 5, 0), XYZ(0, 5, 1))), &o); r << o; }, M0 { S2 o{}; NurbsSurface::CreateCoonsSurface(seg(XYZ(0, 5, 1), XYZ(0, 0, 0)), seg(XYZ(0, 0, 0), XYZ(6, 0, 2)), seg(XYZ(6, 0, 2), XYZ(6, 5, 0)), seg(XYZ(6, 5, 0), XYZ(0, 5, 1)), o); r << o; }); add("make_corner_fillet_surface", M0 { LN_NurbsSurface_C o{}; LNLIB_NURBSSUR_make_corner_fillet_surface(CV(someArcs()[0]), &o); r << o; }, M0 { S2 o{}; NurbsSurface::MakeCornerFilletSurface(someArcs()[0], o); r << o; });
  for (int p : {1, 2, 4}) for (double t : {0.0, 0.3, 1.0}) { Pts a = pts(p + 1, 0); std::vector<XYZW> w; std::vector<XYZW_C> wc; for (int i = 0; i <= p; i++) { w.push_back(XYZW(a[i], weight(1, i))); wc.push_back(cw(w[i])); } std::string k = fmt(" %d %g", p, t); add("bezier curve" + k, M0 { r << LNLIB_BEZIERCUR_get_point_on_curve_by_bernstein(p, cxs(a).data(), p + 1, t) << LNLIB_BEZIERCUR_get_point_on_curve_by_deCasteljau(p, cxs(a).data(), p + 1, t) << LNLIB_BEZIERCUR_get_rational_point_on_curve_by_bernstein(p, wc.data(), p + 1, t) << LNLIB_BEZIERCUR_get_rational_point_on_curve_by_deCasteljau(p, wc.data(), p + 1, t); }, M0 { LN_BezierCurve<XYZ> b{p, a}; LN_BezierCurve<XYZW> e{p, w}; r << BezierCurve::GetPointOnCurveByBernstein(b, t) << BezierCurve::GetPointOnCurveByDeCasteljau(b, t) << BezierCurve::GetPointOnCurveByBernstein(e, t) << BezierCurve::GetPointOnCurveByDeCasteljau(e, t); });
    int q = 2; auto g = grid(p + 1, q + 1); std::vector<std::vector<XYZW>> gw; std::vector<XYZW_C> gc; for (int i = 0; i <= p; i++) { gw.emplace_back(); for (int j = 0; j <= q; j++) { gw[i].push_back(XYZW(g[i][j], weight(1, i + 2 * j))); gc.push_back(cw(gw[i][j])); } } add("bezier surface" + k, M0 { r << LNLIB_BEZIERSURF_get_point_on_surface_by_deCasteljau(p, q, cxs2(g).data(), p + 1, q + 1, {t, 0.6}) << LNLIB_BEZIERSURF_get_rational_point_on_surface_by_deCasteljau(p, q, gc.data(), p + 1, q + 1, {t, 0.6}); }, M0 { LN_BezierSurface<XYZ> b{p, q, g}; LN_BezierSurface<XYZW> e{p, q, gw}; r << BezierSurface::GetPointOnSurfaceByDeCasteljau(b, UV(t, 0.6)) << BezierSurface::GetPointOnSurfaceByDeCasteljau(e, UV(t, 0.6)); });
    D1 co; std::vector<D1> co2; D1 flat; for (int i = 0; i <= p; i++) { co.push_back(1.5 - i * 0.7); co2.emplace_back(); for (int j = 0; j <= q; j++) { co2[i].push_back(i - 2.3 * j + 0.5); flat.push_back(co2[i][j]); } } add("polynomials" + k, M0 { r << LNLIB_POLY_horner(p, co.data(), p + 1, t); UV_C uv = {t, 0.7}; double o = 0; LNLIB_POLY_horner_uv(p, q, flat.data(), &uv, &o); r << o; for (int i = 0; i <= p; i++) r << LNLIB_POLY_bernstein(i, p, t); Buf<double> b(p + 1); LNLIB_POLY_all_bernstein(p, t, b); r.arr(b.p.get(), p + 1); double* m = nullptr; int n = 0, z = 0; LNLIB_POLY_bezier_to_power_matrix(p, &m, &n, &z); r << n << z; r.arr(m, n * z); double* m2 = nullptr; LNLIB_POLY_power_to_bezier_matrix(p, m, &m2, &n, &z); r << n << z; r.arr(m2, n * z); delete[] m; delete[] m2; }, M0 { r << Polynomials::Horner(p, co, t); UV uv(t, 0.7); r << Polynomials::Horner(p, q, co2, uv); for (int i = 0; i <= p; i++) r << Polynomials::Bernstein(i, p, t); r << Polynomials::AllBernstein(p, t); auto m = Polynomials::BezierToPowerMatrix(p); auto f = [&](const std::vector<D1>& x) { D1 y; for (auto& a : x) for (double d : a) y.push_back(d); r << p + 1 << p + 1 << y; }; f(m); f(Polynomials::PowerToBezierMatrix(p, m)); }); }
  return L; }
static void constructions(Ctx& c) { auto& m = c.pick(makers()); c.shard(); c.note("%s", m.name.c_str()); c.state(&m - &makers()[0]); compare(c, m.name, m.viaC, m.direct); }
// ---- knot vectors and basis functions
static void knots(Ctx& c) { int p = 1 + c.pick(mc::tier(3, 4)); auto kv = pickKnots(c, p, 2, p, 4, 2, 2, true); auto& U = kv.U; int n = U.size() - p - 1; c.shard(); static const D1 F = {0, 0.25, 0.5, 0.81, 1}; double t = U[p] + c.pick(F) * (U[n] - U[p]); std::string d = fmt("basis functions at %g of ", t) + kv.desc; c.note("%s", d.c_str()); c.state(mc::hd(gen::hashv(U, p), t)); int sz = U.size();
  compare(c, d, [&](Rec& r) { const double* u = U.data(); int s = LNLIB_POLY_get_knot_span_index(p, u, sz, t); r << s << LNLIB_POLY_get_knot_multiplicity(u, sz, t); Buf<double> b(p + 1); LNLIB_POLY_basis_functions(s, p, u, sz, t, b); r.arr(b.p.get(), p + 1); double* o = nullptr; int x = 0, y = 0; LNLIB_POLY_basis_functions_derivatives(s, p, p, u, sz, t, &o, &x, &y); r << x << y; r.arr(o, x * y); delete[] o; const int W = Constants::NURBSMaxDegree + 1; Buf<double> e(2 * W); LNLIB_POLY_basis_functions_first_derivative(s, p, u, sz, t, e); for (int i = 0; i < 2; i++) r.arr(e.p.get() + i * W, p + 1); for (int i = 0; i < n; i++) { r << LNLIB_POLY_one_basis_function(i, p, u, sz, t); o = nullptr; LNLIB_POLY_one_basis_function_derivative(i, p, p, u, sz, t, &o, &x); r.arr(o, x); delete[] o; } o = nullptr; LNLIB_POLY_all_basis_functions(s, p, u, sz, t, &o, &x, &y); r << x << y; for (int i = 0; i < x; i++) for (int j = i; j < y; j++) r << o[i * y + j]; delete[] o;
      r << LNLIB_KV_get_continuity(p, u, sz, t) << LNLIB_KV_is_uniform(u, sz); Buf<double> q(sz); LNLIB_KV_rescale(u, sz, -2, 5.5, q); r.arr(q.p.get(), sz); { size_t m = KnotVectorUtils::GetKnotMultiplicityMap(U).size(); Buf<double> k(m); Buf<int> v(m); LNLIB_KV_get_knot_multiplicity_map(u, sz, &x, k, v); r.arr(k.p.get(), x).arr(v.p.get(), x); } { size_t m = KnotVectorUtils::GetInternalKnotMultiplicityMap(U).size(); Buf<double> k(m); Buf<int> v(m); LNLIB_KV_get_internal_knot_multiplicity_map(u, sz, &x, k, v); r.arr(k.p.get(), x).arr(v.p.get(), x); } r << LNLIB_VALID_is_valid_knotVector(u, sz); },
    [&](Rec& r) { int s = Polynomials::GetKnotSpanIndex(p, U, t); r << s << Polynomials::GetKnotMultiplicity(U, t); D1 b(Constants::NURBSMaxDegree + 1); Polynomials::BasisFunctions(s, p, U, t, b.data()); r.arr(b.data(), p + 1); auto f = [&](const std::vector<D1>& x, bool upper) { if (!upper) { r << x.size() << x[0].size() << x.size() * x[0].size(); for (auto& a : x) for (double v : a) r << v; } else { r << x.size() << x[0].size(); for (size_t i = 0; i < x.size(); i++) for (size_t j = i; j < x[i].size(); j++) r << x[i][j]; } }; f(Polynomials::BasisFunctionsDerivatives(s, p, p, U, t), false); double e[2][Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctionsFirstOrderDerivative(s, p, U, t, e); for (int i = 0; i < 2; i++) r.arr(e[i], p + 1); for (int i = 0; i < n; i++) r << Polynomials::OneBasisFunction(i, p, U, t) << Polynomials::OneBasisFunctionDerivative(i, p, p, U, t); f(Polynomials::AllBasisFunctions(s, p, U, t), true);
      r << KnotVectorUtils::GetContinuity(p, U, t) << KnotVectorUtils::IsUniform(U) << KnotVectorUtils::Rescale(U, -2, 5.5); for (auto& m : {KnotVectorUtils::GetKnotMultiplicityMap(U), KnotVectorUtils::GetInternalKnotMultiplicityMap(U)}) { D1 k; std::vector<int> v; for (auto& x : m) { k.push_back(x.first); v.push_back(x.second); } r << k << v; } r << ValidationUtils::IsValidKnotVector(U); }); }
// ---- vectors, points, matrices, lines
static const std::vector<XYZ>& vecs() { static const std::vector<XYZ> v = {XYZ(1, 0, 0), XYZ(0, 2, 0), XYZ(0, 0, 1), XYZ(1, 2, -3), XYZ(-0.4, 0.7, 5), XYZ(0.6, 0.8, 0), XYZ(1e-7, 0, 0), XYZ(0, 0, 0)}; return v; }
static void vectors(Ctx& c) { XYZ a = c.pick(vecs()), b = c.pick(vecs()); c.shard(); static const D1 S = {2, -0.5, 1e-3}; double s = c.pick(S); std::string d = fmt("vectors (%g,%g,%g) (%g,%g,%g) %g", a[0], a[1], a[2], b[0], b[1], b[2], s); c.note("%s", d.c_str()); c.state(mc::hd(mc::hd(mc::hd(a[0] + 3 * a[1] + 7 * a[2], b[0]), b[1] + 5 * b[2]), s)); const double E = Constants::DoubleEpsilon; XYZ_C x = cx(a), y = cx(b); UV ua(a[0], a[1]), ub(b[0], b[1]); UV_C p = cu(ua), q = cu(ub); XYZW wa(a, s), wb(b, 2); XYZW_C v = cw(wa), w = cw(wb); XYZ n0 = a, n1 = b; UV m0 = ua;
  compare(c, d + " XYZ", [&](Rec& r) { r << LNLIB_XYZ_create(a[0], a[1], a[2]) << LNLIB_XYZ_get_x(x) << LNLIB_XYZ_get_y(x) << LNLIB_XYZ_get_z(x) << LNLIB_XYZ_set_x(x, s) << LNLIB_XYZ_set_y(x, s) << LNLIB_XYZ_set_z(x, s) << LNLIB_XYZ_is_zero(x, E) << LNLIB_XYZ_is_unit(x, E) << LNLIB_XYZ_is_zero(x, 0.1) << LNLIB_XYZ_is_unit(x, 0.1) << LNLIB_XYZ_is_almost_equal(x, y, E) << LNLIB_XYZ_length(x) << LNLIB_XYZ_sqr_length(x) << LNLIB_XYZ_add(x, y) << LNLIB_XYZ_subtract(x, y) << LNLIB_XYZ_negative(x) << LNLIB_XYZ_dot_product(x, y) << LNLIB_XYZ_cross_product(x, y) << LNLIB_XYZ_distance(x, y) << LNLIB_XYZ_multiply(x, s) << LNLIB_XYZ_divide(x, s); }, [&](Rec& r) { auto set = [&](int i) { XYZ z = a; z[i] = s; return z; }; r << a << a[0] << a[1] << a[2] << set(0) << set(1) << set(2) << a.IsZero() << a.IsUnit() << a.IsZero(0.1) << a.IsUnit(0.1) << a.IsAlmostEqualTo(b) << a.Length() << a.SqrLength() << a + b << a - b << -a << a.DotProduct(b) << a.CrossProduct(b) << a.Distance(b) << a * s << a / s; });
  compare(c, d + " UV", [&](Rec& r) { r << LNLIB_UV_create(p.u, p.v) << LNLIB_UV_get_u(p) << LNLIB_UV_get_v(p) << LNLIB_UV_set_u(p, s) << LNLIB_UV_set_v(p, s) << LNLIB_UV_is_zero(p, E) << LNLIB_UV_is_unit(p, E) << LNLIB_UV_is_zero(p, 0.1) << LNLIB_UV_is_unit(p, 0.1) << LNLIB_UV_is_almost_equal(p, q, E) << LNLIB_UV_length(p) << LNLIB_UV_sqr_length(p) << LNLIB_UV_add(p, q) << LNLIB_UV_subtract(p, q) << LNLIB_UV_negative(p) << LNLIB_UV_dot_product(p, q) << LNLIB_UV_cross_product(p, q) << LNLIB_UV_distance(p, q) << LNLIB_UV_scale(p, s) << LNLIB_UV_divide(p, s); }, [&](Rec& r) { auto set = [&](int i) { UV z = ua; z[i] = s; return z; }; r << ua << ua[0] << ua[1] << set(0) << set(1) << ua.IsZero() << ua.IsUnit() << ua.IsZero(0.1) << ua.IsUnit(0.1) << ua.IsAlmostEqualTo(ub) << ua.Length() << ua.SqrLength() << ua + ub << ua - ub << -ua << ua.DotProduct(ub) << ua.CrossProduct(ub) << ua.Distance(ub) << ua * s << ua / s; });
  compare(c, d + " XYZW", [&](Rec& r) { r << LNLIB_XYZW_create(v.wx, v.wy, v.wz, v.w) << LNLIB_XYZW_create_from_xyz(x, s) << LNLIB_XYZW_get_wx(v) << LNLIB_XYZW_get_wy(v) << LNLIB_XYZW_get_wz(v) << LNLIB_XYZW_get_w(v) << LNLIB_XYZW_set_w(v, 4) << LNLIB_XYZW_to_xyz(v, 0) << LNLIB_XYZW_to_xyz(v, 1) << (v.w == w.w ? LNLIB_XYZW_is_almost_equal(v, w, E) : 0) << LNLIB_XYZW_is_almost_equal(v, v, E) << LNLIB_XYZW_distance(v, w) << LNLIB_XYZW_add(v, w) << LNLIB_XYZW_subtract(v, w) << LNLIB_XYZW_multiply(v, s) << LNLIB_XYZW_divide(v, s); }, [&](Rec& r) { XYZW z = wa; z.SetW(4); r << wa << XYZW(a, s) << wa.GetWX() << wa.GetWY() << wa.GetWZ() << wa.GetW() << z << wa.ToXYZ(false) << wa.ToXYZ(true) << (wa.GetW() == wb.GetW() ? wa.IsAlmostEqualTo(wb) : false) << 1 << wa.Distance(wb) << wa + wb << wa - wb << wa * s << wa / s; });
  if (a.Length() > 1e-3) { compare(c, d + " normalize", [&](Rec& r) { r << LNLIB_XYZ_normalize(x) << LNLIB_XYZ_create_random_orthogonal(x); if (ua.Length() > 1e-3) r << LNLIB_UV_normalize(p); }, [&](Rec& r) { r << XYZ(a).Normalize() << XYZ::CreateRandomOrthogonal(a); if (ua.Length() > 1e-3) r << UV(ua).Normalize(); }); if (b.Length() > 1e-3) compare(c, d + " lines", [&](Rec& r) { r << LNLIB_XYZ_angle_to(x, y, E) << LNLIB_PROJ_point_to_ray({s, 1, 2}, x, y); XYZ_C o{}; int n = LNLIB_PROJ_point_to_line({s, 1, 2}, x, y, &o); r << n; if (n) r << o; double t = 0, u = 0; int k = LNLIB_INTERSECT_compute_rays({s, 1, 2}, x, {0, s, 1}, y, &t, &u, &o); r << k; if (k == CURVE_CURVE_INTERSECTING) r << t << u << o; k = LNLIB_INTERSECT_compute_rays({s, 1, 2}, x, cx(XYZ(s, 1, 2) + 2 * a - 3 * b), y, &t, &u, &o); r << k; if (k == CURVE_CURVE_INTERSECTING) r << t << u << o; k = LNLIB_INTERSECT_compute_line_and_plane(x, {s, 1, 2}, {3, s, 1}, y, &o); r << k; if (k == LINE_PLANE_INTERSECTING) r << o; }, [&](Rec& r) { r << a.AngleTo(b) << Projection::PointToRay(XYZ(s, 1, 2), a, b); XYZ o; bool n = Projection::PointToLine(XYZ(s, 1, 2), a, b, o); r << n; if (n) r << o; double t = 0, u = 0; auto k = Intersection::ComputeRays(XYZ(s, 1, 2), a, XYZ(0, s, 1), b, t, u, o); auto code = [](CurveCurveIntersectionType k) { return k == CurveCurveIntersectionType::Intersecting ? CURVE_CURVE_INTERSECTING : k == CurveCurveIntersectionType::Parallel ? CURVE_CURVE_PARALLEL : k == CurveCurveIntersectionType::Coincident ? CURVE_CURVE_COINCIDENT : CURVE_CURVE_SKEW; }; r << (int)code(k); if (k == CurveCurveIntersectionType::Intersecting) r << t << u << o; k = Intersection::ComputeRays(XYZ(s, 1, 2), a, XYZ(s, 1, 2) + 2 * a - 3 * b, b, t, u, o); r << (int)code(k); if (k == CurveCurveIntersectionType::Intersecting) r << t << u << o; auto l = Intersection::ComputeLineAndPlane(a, XYZ(s, 1, 2), XYZ(3, s, 1), b, o); r << (int)(l == LinePlaneIntersectionType::Intersecting ? LINE_PLANE_INTERSECTING : l == LinePlaneIntersectionType::Parallel ? LINE_PLANE_PARALLEL : LINE_PLANE_ON); if (l == LinePlaneIntersectionType::Intersecting) r << o; }); compare(c, d + " stereographic", [&](Rec& r) { XYZ e = XYZ(a).Normalize() * 2; if (e[2] < 1.9) r << LNLIB_PROJ_stereographic(cx(e), 2); }, [&](Rec& r) { XYZ e = XYZ(a).Normalize() * 2; if (e[2] < 1.9) r << Projection::Stereographic(e, 2); }); }
}
static void matrices(Ctx& c) { int i = c.pick(4), j = c.pick(4); XYZ a = vecs()[c.pick(6)]; c.shard(); std::string d = fmt("matrices %d %d (%g,%g,%g)", i, j, a[0], a[1], a[2]); c.note("%s", d.c_str()); c.state(mc::hd(i * 4 + j, a[0] + 3 * a[1] + 7 * a[2])); Matrix4d m = someMatrix(i), n = someMatrix(j); Matrix4d_C x = cm(m), y = cm(n); XYZ_C v = cx(a); XYZ e(1, 0.2, 0), f(-0.1, 1, 3), g(0, 0.5, 1);
  compare(c, d, [&](Rec& r) { r << LNLIB_MATRIX_create() << LNLIB_MATRIX_create_from_xyz(cx(e), cx(f), cx(g), v) << LNLIB_MATRIX_create_translation(v) << LNLIB_MATRIX_create_rotation(v, 0.7 + j) << LNLIB_MATRIX_create_rotation_at_point(cx(f), v, 0.7 + j) << LNLIB_MATRIX_create_scale(v) << LNLIB_MATRIX_create_reflection(v) << LNLIB_MATRIX_create_reflection_by_distance(v, 2 + j) << LNLIB_MATRIX_get_basis_x(x) << LNLIB_MATRIX_get_basis_y(x) << LNLIB_MATRIX_get_basis_z(x) << LNLIB_MATRIX_get_basis_w(x) << LNLIB_MATRIX_set_basis_x(x, v) << LNLIB_MATRIX_set_basis_y(x, v) << LNLIB_MATRIX_set_basis_z(x, v) << LNLIB_MATRIX_set_basis_w(x, v) << LNLIB_MATRIX_of_point(x, v) << LNLIB_MATRIX_of_vector(x, v) << LNLIB_MATRIX_multiply(x, y); Matrix4d_C o{}; int k = LNLIB_MATRIX_get_inverse(x, &o); r << k; if (k) r << o; r << LNLIB_MATRIX_get_transpose(x) << LNLIB_MATRIX_get_scale(x) << LNLIB_MATRIX_get_determinant(x) << LNLIB_MATRIX_is_identity(x) << LNLIB_MATRIX_is_identity(LNLIB_MATRIX_create()) << LNLIB_MATRIX_has_reflection(x) << LNLIB_MATRIX_is_translation(x) << LNLIB_MATRIX_get_inverse(LNLIB_MATRIX_create_scale({0, 1, 2}), &o); },
    [&](Rec& r) { auto set = [&](int k) { Matrix4d z = m; k == 0 ? z.SetBasisX(a) : k == 1 ? z.SetBasisY(a) : k == 2 ? z.SetBasisZ(a) : z.SetBasisW(a); return z; }; r << Matrix4d() << Matrix4d(e, f, g, a) << Matrix4d::CreateTranslation(a) << Matrix4d::CreateRotation(a, 0.7 + j) << Matrix4d::CreateRotationAtPoint(f, a, 0.7 + j) << Matrix4d::CreateScale(a) << Matrix4d::CreateReflection(a) << Matrix4d::CreateReflection(a, 2 + j) << m.GetBasisX() << m.GetBasisY() << m.GetBasisZ() << m.GetBasisW() << set(0) << set(1) << set(2) << set(3) << m.OfPoint(a) << m.OfVector(a) << m.Multiply(n); Matrix4d o; bool k = m.GetInverse(o); r << k; if (k) r << o; r << m.GetTranspose() << m.GetScale() << m.GetDeterminant() << m.IsIdentity() << Matrix4d().IsIdentity() << m.HasReflection() << m.IsTranslation() << Matrix4d::CreateScale(XYZ(0, 1, 2)).GetInverse(o); }); }
static void validity(Ctx& c) { int p = c.pick(5), k = c.pick(14), n = c.pick(8); c.shard(); std::string d = fmt("validity of degree %d, %d knots, %d points", p, k, n); c.note("%s", d.c_str()); c.state(p * 200 + k * 10 + n); compare(c, d, [&](Rec& r) { r << (LNLIB_VALID_is_valid_bezier(p, n) != 0) << (LNLIB_VALID_is_valid_bspline(p, k, n) != 0) << (LNLIB_VALID_is_valid_nurbs(p, k, n) != 0); if (n > 1) { C1 a = curve(n - 1, clamped(n - 1, {}), 0, 1); CV v(a); r << LNLIB_VALID_compute_curve_modify_tolerance(v.P.data(), n); } D1 bad; for (int i = 0; i < k; i++) bad.push_back(i == n ? -1.0 : i); r << (LNLIB_VALID_is_valid_knotVector(bad.data(), k) != 0); }, [&](Rec& r) { r << ValidationUtils::IsValidBezier(p, n) << ValidationUtils::IsValidBspline(p, k, n) << ValidationUtils::IsValidNurbs(p, k, n); if (n > 1) { C1 a = curve(n - 1, clamped(n - 1, {}), 0, 1); r << ValidationUtils::ComputeCurveModifyTolerance(a.ControlPoints); } D1 bad; for (int i = 0; i < k; i++) bad.push_back(i == n ? -1.0 : i); r << ValidationUtils::IsValidKnotVector(bad); }); }
// ---- histories: the curve a call gives is the argument of the next call, and its own output
struct Step { const char* name; std::function<int(LN_NurbsCurve_C, LN_NurbsCurve_C*)> viaC; std::function<int(const C1&, C1&)> direct; };
static double hinner(const LN_NurbsCurve_C& h, double f) { double a = h.knot_vector[h.degree], b = h.knot_vector[h.knot_vector_count - h.degree - 1]; return a + f * (b - a); }
static const std::vector<Step>& steps() { typedef LN_NurbsCurve_C H; static const std::vector<Step> S = {
  {"insert", [](H a, H* o) { LNLIB_NURBSCUR_insert_knot(a, hinner(a, 0.37), 1, o); return 1; }, [](const C1& a, C1& o) { NurbsCurve::InsertKnot(a, at(a, 0.37), 1, o); return 1; }}, {"elevate", [](H a, H* o) { LNLIB_NURBSCUR_elevate_degree(a, 1, o); return 1; }, [](const C1& a, C1& o) { NurbsCurve::ElevateDegree(a, 1, o); return 1; }}, {"reverse", [](H a, H* o) { LNLIB_NURBSCUR_reverse(a, o); return 1; }, [](const C1& a, C1& o) { NurbsCurve::Reverse(a, o); return 1; }}, {"transform", [](H a, H* o) { LNLIB_NURBSCUR_create_transformed(a, cm(someMatrix(3)), o); return 1; }, [](const C1& a, C1& o) { NurbsCurve::CreateTransformed(a, someMatrix(3), o); return 1; }},
  {"left half", [](H a, H* o) { H r{}; return LNLIB_NURBSCUR_split_at(a, hinner(a, 0.6), o, &r); }, [](const C1& a, C1& o) { C1 r; return (int)NurbsCurve::SplitAt(a, at(a, 0.6), o, r); }}, {"right half", [](H a, H* o) { H r{}; return LNLIB_NURBSCUR_split_at(a, hinner(a, 0.3), &r, o); }, [](const C1& a, C1& o) { C1 r; return (int)NurbsCurve::SplitAt(a, at(a, 0.3), r, o); }}, {"last piece", [](H a, H* o) { std::vector<H> b(64); int n = LNLIB_NURBSCUR_decompose_to_beziers(a, b.data(), 64); *o = b[n - 1]; return 1; }, [](const C1& a, C1& o) { o = NurbsCurve::DecomposeToBeziers(a).back(); return 1; }}, {"split and merge", [](H a, H* o) { H l{}, r{}; if (!LNLIB_NURBSCUR_split_at(a, hinner(a, 0.45), &l, &r)) return 0; return LNLIB_NURBSCUR_merge(l, r, o); }, [](const C1& a, C1& o) { C1 l, r; if (!NurbsCurve::SplitAt(a, at(a, 0.45), l, r)) return 0; return (int)NurbsCurve::Merge(l, r, o); }}, {"reparametrize", [](H a, H* o) { LNLIB_NURBSCUR_reparametrize(a, 2, 7, o); return 1; }, [](const C1& a, C1& o) { NurbsCurve::Reparametrize(a, 2, 7, o); return 1; }}, {"remove", [](H a, H* o) { LNLIB_NURBSCUR_remove_excessive_knots(a, o); return 1; }, [](const C1& a, C1& o) { NurbsCurve::RemoveExcessiveKnots(a, o); return 1; }}}; return S; }
static void histories(Ctx& c) { static const std::vector<C1> A = {curve(3, clamped(3, {1, 1}, 0, domains()[1]), 0, 1), curve(2, clamped(2, {2}), 6, 0), curve(1, clamped(1, {1, 1}), 0, 0)}; auto& a = c.pick(A); int n = mc::tier(3, 4); std::string d; C1 cur = a; CV v(a); LN_NurbsCurve_C h = v.h;
  for (int i = 0; i < n; i++) { auto& s = c.pick(steps()); if (i == 1) c.shard(); d += std::string(i ? ", " : "") + s.name; if (cur.Degree >= 6 && std::string(s.name) == "elevate") c.skip(); c.note("%s", d.c_str()); C1 o; int k = s.direct(cur, o), m = s.viaC(h, &h); c.trans(2); c.check(k == m, "status", d + ": the status differs"); if (!k) { c.count("ended"); break; } Rec x, y; x << h; y << o; bool eq = x.v.size() == y.v.size(); for (size_t q = 0; eq && q < x.v.size(); q++) eq = near1(x.v[q], y.v[q]); c.check(eq, "history", d + " of " + str(a) + ": the curve differs from the library's"); cur = o; c.state(mc::mix(gen::hash(cur), i)); } c.note("%s", d.c_str()); c.count("histories"); }
// ---- a handle of one thread is not disturbed by calls of another
static void threads(Ctx& c) { static const std::vector<C1> A = {curve(3, clamped(3, {1, 1}), 0, 1), curve(1, clamped(1, {}), 1, 0)}; int i = c.pick(2); auto& s = c.pick(steps()); auto& q = c.pick(steps()); int sf = c.pick(2); c.shard(); std::string d = fmt("%s of curve %d, then %s on another thread", s.name, i, q.name); c.note("%s", d.c_str()); c.state(i * 1000 + (&s - &steps()[0]) * 40 + (&q - &steps()[0]) * 2 + sf); CV v(A[i]), w(A[1 - i]); Rec x, y, z; LN_NurbsCurve_C h = v.h, g{}; LN_NurbsSurface_C S{}; S2 a = surface(2, 1, clamped(2, {1}), clamped(1, {}), 0, 1), b = surface(1, 2, clamped(1, {}), clamped(2, {1}), 1, 0); SV va(a), vb(b); if (!s.viaC(v.h, &h)) c.skip(); if (sf) LNLIB_NURBSSUR_swap(va, &S); x << h; if (sf) x << S; std::thread([&] { LN_NurbsCurve_C t{}; if (q.viaC(w.h, &t)) z << t; if (sf) { LN_NurbsSurface_C u{}; LNLIB_NURBSSUR_swap(vb, &u); z << u; } }).join(); y << h; if (sf) y << S; c.trans(3); c.check(x.v == y.v, "thread", d + ": the first curve changed"); c.count("pairs"); }
// ---- a mesh stays readable while other threads make meshes, and over calls that return no mesh
static void meshes(Ctx& c) { static const std::vector<S2> A = {surface(2, 1, clamped(2, {1}), clamped(1, {}), 0, 1), surface(1, 2, clamped(1, {}), clamped(2, {1}), 1, 0), surface(3, 3, clamped(3, {}), clamped(3, {1}), 1, 1)}; int i = c.pick(3), j = c.pick(3), n = 2 + c.pick(3), m = 2 + c.pick(3), d1 = c.pick(2), k = c.pick(6); c.shard(); std::string d = fmt("mesh of surface %d with %d x %d, then step %d on surface %d", i, n, m, k, j); c.note("%s", d.c_str()); c.state(i * 10000 + j * 1000 + n * 100 + m * 10 + d1 + k * 100000); Rec x, y, z, e; SV v(A[i]), w(A[j]); rec(e, NurbsSurface::Triangulate(A[i], n, m, d1)); LNLIB_Mesh_C h = LNLIB_NURBSSUR_triangulate(v, n, m, d1); rec(x, h); CV cv(curve(3, clamped(3, {1, 1}), 0, 1)); LN_NurbsSurface_C S{}; LN_NurbsCurve_C g{}; std::vector<XYZ_C> buf(20000);
  switch (k) { case 0: std::thread([&] { rec(z, LNLIB_NURBSSUR_triangulate(w, m, n + 1, d1)); }).join(); break; case 1: std::thread([&] { rec(z, LNLIB_NURBSSUR_triangulate(w, n, m, 1 - d1)); LNLIB_NURBSSUR_swap(w, &S); }).join(); break; case 2: LNLIB_NURBSSUR_swap(w, &S); break; case 3: LNLIB_NURBSCUR_reverse(cv.h, &g); break; case 4: LNLIB_NURBSCUR_tessellate(cv.h, buf.data()); break; default: LNLIB_NURBSSUR_get_point_on_surface(w, {0.3, 0.4}); }
  rec(y, h); c.trans(2); c.check(x.v == y.v, "mesh-kept", d + ": the first mesh changed"); bool eq = x.v.size() == e.v.size(); for (size_t q = 0; eq && q < x.v.size(); q++) eq = near1(x.v[q], e.v[q]); c.check(eq, "mesh", d + ": the mesh is not the library's"); c.count("meshes"); }
// ---- a curve handle survives calls that return no curve, and a surface handle calls that return no surface
static void kept(Ctx& c) { static const std::vector<C1> A = {curve(3, clamped(3, {1, 1}), 0, 1)}; auto& s = c.pick(steps()); int k = c.pick(8); c.shard(); std::string d = fmt("%s, then call %d", s.name, k); c.note("%s", d.c_str()); c.state((&s - &steps()[0]) * 10 + k); CV v(A[0]); LN_NurbsCurve_C h{}; if (!s.viaC(v.h, &h)) c.skip(); Rec x, y; x << h; S2 a = surface(2, 1, clamped(2, {1}), clamped(1, {}), 0, 1); SV va(a); LN_NurbsSurface_C S{}; std::vector<XYZ_C> buf(20000); switch (k) { case 0: LNLIB_NURBSCUR_get_point_on_curve(h, hinner(h, 0.3)); break; case 1: LNLIB_NURBSCUR_compute_rational_curve_derivatives(h, 2, hinner(h, 0.3), buf.data()); break; case 2: LNLIB_NURBSCUR_tessellate(h, buf.data()); break; case 3: LNLIB_NURBSCUR_approximate_length(h, INTEGRATOR_SIMPSON); break; case 4: LNLIB_NURBSSUR_swap(va, &S); break; case 5: LNLIB_NURBSSUR_create_ruled_surface(h, h, &S); break; case 6: LNLIB_NURBSSUR_triangulate(va, 3, 4, 1); break; default: LNLIB_NURBSCUR_get_param_on_curve(h, {1, 2, 3}); } y << h; c.trans(2); c.check(x.v == y.v, "kept", d + ": the curve changed"); c.count("pairs"); }
// ---- the names imported by the .NET bindings are exported
static void bindings(Ctx& c) { static std::vector<std::pair<std::string, std::string>> N; if (N.empty()) { std::vector<std::string> files; std::function<void(std::string)> walk = [&](std::string dir) { if (DIR* d = opendir(dir.c_str())) { while (auto* e = readdir(d)) { std::string f = e->d_name; if (f[0] == '.') continue; if (f.size() > 3 && f.substr(f.size() - 3) == ".cs") files.push_back(dir + "/" + f); else if (e->d_type == DT_DIR) walk(dir + "/" + f); } closedir(d); } }; walk(std::string(MC_REPO) + "/dotnet/PInvoke"); std::sort(files.begin(), files.end()); std::regex re("EntryPoint\\s*=\\s*\"(\\w+)\""); for (auto& f : files) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str(); for (auto it = std::sregex_iterator(t.begin(), t.end(), re); it != std::sregex_iterator(); ++it) N.push_back({(*it)[1], f.substr(f.rfind('/') + 1)}); } if (N.empty()) N.push_back({"LNLIB_XYZ_create", "(none found)"}); }
  auto& n = c.pick(N); c.shard(); c.note("%s", n.first.c_str()); c.state(&n - &N[0]); c.trans(); c.check(dlsym(RTLD_DEFAULT, n.first.c_str()) != nullptr, "entry", n.second + " imports " + n.first + ", which the C interface does not export"); c.count("names"); }
MC_MAIN("C41", {{"curves", curves}, {"surfaces", surfaces}, {"constructions", constructions}, {"knots", knots}, {"vectors", vectors}, {"matrices", matrices}, {"validity", validity}, {"histories", histories}, {"threads", threads}, {"meshes", meshes}, {"kept", kept}, {"bindings", bindings}})
