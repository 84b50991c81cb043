// C40: calls of the library from two threads at a time: every interleaving of their conflicting steps gives what the calls give alone.  MC_CONCURRENT
#include "../mc/sched.hpp"
#include "../mc/ops.hpp"
#include "Octree.h"
#include "OctreeCollector.h"
#include "Voronoi.h"
#include "Intersection.h"
#include "Projection.h"
#include "MathUtils.h"
#include "Interpolation.h"
#include "KnotVectorUtils.h"
#include "Polynomials.h"
#include "Integrator.h"
#include <array>
using namespace ops; using mc::Ctx;
typedef std::function<uint64_t()> Call;
struct Named { std::string name; Call f; };

static uint64_t alone(const Named& x) { static std::map<std::string, uint64_t> memo; auto it = memo.find(x.name); if (it != memo.end()) return it->second; auto o = sched::inChild([&](sched::Outcome& o) { o.r[0] = x.f(); }); if (!o.ok) throw std::runtime_error(x.name + (o.hung ? ": does not end" : ": crashes")); return memo[x.name] = o.r[0]; }
static std::vector<uint64_t> places(uint64_t n) { std::vector<uint64_t> v; uint64_t k = mc::tier(4, 12), m = mc::tier(4, 20); for (uint64_t i = 0; i < std::min(n, k); i++) v.push_back(i); for (uint64_t i = 1; i <= m; i++) { uint64_t x = k + (n > k ? (n - 1 - k) * i / m : 0); if (n > k && x > v.back()) v.push_back(x); } return v; }
// all schedules with up to two preemptions at the steps in conflict (or all interleavings at once, if there is none)
static void together(Ctx& c, const Named& a, const Named& b) {
  std::string at = a.name + " | " + b.name; c.note("%s", at.c_str()); static std::string last; static sched::Outcome rec[2], plain[2]; uint64_t ra = alone(a), rb = alone(b);
  if (last != at) { sched::clearTable(); for (int f = 0; f < 2; f++) rec[f] = sched::inChild([&](sched::Outcome& o) { sched::recordHere(a.f, b.f, f, o); }); last = at; c.trans(2); plain[0].ok = plain[1].ok = false; }
  for (auto& r : rec) { c.check(r.ok, "crash", at + ": crashes one after the other"); c.check(r.r[0] == ra && r.r[1] == rb, "after", at + ": one after the other they give something else than alone"); }
  uint64_t n = std::max(rec[0].conflictAddrs, rec[1].conflictAddrs); if (n == 0) { c.state(mc::mix(ra, mc::mix(rb, std::hash<std::string>()(at)))); c.count("no step in conflict: one class of interleavings"); c.count("shared addresses, only read", rec[0].sharedAddrs); return; }
  int f = c.pick(2); auto go = [&](std::vector<uint64_t> plan) { c.trans(); return sched::inChild([&](sched::Outcome& o) { sched::runHere(a.f, b.f, f, plan, o); }); };
  if (!plain[f].ok) plain[f] = go({}); c.check(plain[f].ok, "crash", at + ": crashes"); auto P = places(plain[f].n[f]), R = places(plain[f].n[1 - f]); std::vector<uint64_t> plan; plan.push_back(c.pick(P)); int j = c.pick((int)R.size() + 1); if (j < (int)R.size()) plan.push_back(R[j]);
  auto o = go(plan); std::string s = at + mc::fmt(": %llu addresses in conflict; thread %d is interrupted before its step %llu in conflict, the other %s", (unsigned long long)n, f, (unsigned long long)plan[0], plan.size() > 1 ? mc::fmt("before its step %llu", (unsigned long long)plan[1]).c_str() : "runs to its end"); c.state(mc::mix(mc::mix(ra, rb), mc::mix(plan[0] * 2 + f, plan.size() > 1 ? plan[1] + 1 : 0)));
  c.check(o.ok, o.hung ? "hang" : "crash", s + (o.hung ? ": does not end" : ": crashes")); c.check(o.r[0] == ra && o.r[1] == rb, "interleaving", s + ": the answer of " + (o.r[0] != ra ? a.name : b.name) + " is not what it is alone"); c.count("schedules with preemptions");
}
template <class T> static Named on(const Act<T>& f, const T& a, const char* what) { return {f.name + " of " + what, [&f, &a] { mc::g_random = 1; return f.f(a); }}; }
static const C1& cA() { static C1 a = curve(3, clamped(3, {1, 2}, 1, domains()[1]), 0, 1); return a; } static const C1& cB() { static C1 a = curve(2, clamped(2, {1, 1}), 6, 1); return a; } static const C1& cN() { static C1 a = [] { C1 b = cA(); b.ControlPoints[2] = XYZW(XYZ(0.5, 1, 2), 1.25); return b; }(); return a; }
static const S2& sA() { static S2 a = surface(2, 2, clamped(2, {1}), clamped(2, {}), 0, 1); return a; } static const S2& sB() { static S2 a = surface(1, 3, clamped(1, {1}), clamped(3, {1}, 1, domains()[1]), 1, 1); return a; } static const S2& sN() { static S2 a = [] { S2 b = sA(); b.ControlPoints[1][1] = XYZW(XYZ(1, 1, 4), 1.25); return b; }(); return a; }
static const V3& vA() { static V3 a = volume(2, 1, 1, clamped(2, {1}), clamped(1, {}), clamped(1, {1}), 0, 1); return a; } static const V3& vB() { static V3 a = volume(1, 1, 2, clamped(1, {}), clamped(1, {1}), clamped(2, {}), 0, 1); return a; }
typedef std::vector<XYZ> Pts; static Pts pts(int n, int f) { Pts v; for (int i = 0; i < n; i++) v.push_back(pos(f, i, n)); return v; }
// requests that take no shape; the number varies their data
static const std::vector<Act<int>>& others() { typedef int T; static std::vector<Act<int>> o;
#define Q(x) [](const int& a) { return asked([&](FP& h) { x; }); }
  if (o.empty()) o = {{"octree", Q(Pts p = pts(30 + a, 0); Octant* r = OctreeConstruction(p, 2, 0.01); KnnResultSet k(4); OctreeKnnSearch(r, p, k, XYZ(1, 2, a)); h << k.WorstDist(); RadiusNnResultSet s(3.0); OctreeRadiusSearch(r, p, s, XYZ(1, a, 3)); h << (int)s.Size(); RadiusNnResultSet t(3.0); OctreeRadiusSearchFast(r, p, t, XYZ(1, a, 3)); h << (int)t.Size(); delete r)}, {"Delaunay triangulation", Q(VoronoiDiagramGenerator g; std::vector<float> x; std::vector<float> y; for (int i = 0; i < 9; i++) { x.push_back((i * 7 + a) % 11); y.push_back((i * 5 + 3 * a) % 13 + 0.1f * i); } g.setGenerateDelaunay(true); g.setGenerateVoronoi(true); g.generateVoronoi(x.data(), y.data(), 9, -20, 40, -20, 40, 0.001f); h << g.getTriangles(); float p; float q; float r; float s; g.resetIterator(); while (g.getNext(p, q, r, s)) h << p << q << r << s)},
    {"linear systems", Q(std::vector<std::vector<double>> m; std::vector<std::vector<double>> b; for (int i = 0; i < 5; i++) { m.emplace_back(); b.push_back({1.0 * i, 2.0 + a, 0.5}); for (int j = 0; j < 5; j++) m.back().push_back(i == j ? 5 + a : std::abs(i - j) == 1 ? 1.5 : 0); } std::vector<std::vector<double>> r; h << MathUtils::SolveLinearSystem(m, b) << MathUtils::GetDeterminant(m); h << MathUtils::MakeInverse(m, r); h << r << MathUtils::MatrixMultiply(m, r))}, {"combinatorics", Q(for (int i = 0; i < 12; i++) { h << (double)MathUtils::Factorial(i + a); for (int j = 0; j <= i; j++) h << MathUtils::Binomial(i + a, j); })}, {"basis functions", Q(std::vector<double> U = clamped(3, {1, 1, 1}); double u = 0.3 + 0.05 * a; int k = Polynomials::GetKnotSpanIndex(3, U, u); double N[8]; Polynomials::BasisFunctions(k, 3, U, u, N); for (int i = 0; i < 4; i++) h << N[i]; h << Polynomials::BasisFunctionsDerivatives(k, 3, 3, U, u) << Polynomials::OneBasisFunction(2, 3, U, u) << Polynomials::OneBasisFunctionDerivative(2, 3, 2, U, u) << Polynomials::AllBasisFunctions(k, 3, U, u) << Polynomials::AllBernstein(4, u) << Polynomials::Bernstein(2, 4, u))}, {"power basis", Q(auto m = Polynomials::BezierToPowerMatrix(3 + a); h << m << Polynomials::PowerToBezierMatrix(3 + a, m))},
    {"parametrizations", Q(Pts p = pts(6 + a, 6); h << Interpolation::GetChordParameterization(p) << Interpolation::GetCentripetalParameterization(p) << Interpolation::ComputeTangent(p) << Interpolation::AverageKnotVector(2, Interpolation::GetChordParameterization(p)))}, {"knot vectors", Q(auto U = clamped(2, {1, 1}); auto W = clamped(2, {2, 1, 1}); std::vector<double> x; std::vector<double> y; KnotVectorUtils::GetInsertedKnotElement(U, W, x, y); h << x << y << KnotVectorUtils::GetInsertedKnotElements(3 + a, W) << KnotVectorUtils::Rescale(U, a, a + 2))}, {"rays and planes", Q(double s; double t; XYZ x; h << (int)Intersection::ComputeRays(XYZ(a, 0, 0), XYZ(1, 1, 0), XYZ(0, 3, 0), XYZ(2, -1, 0), s, t, x); h << x; h << (int)Intersection::ComputeLineAndPlane(XYZ(0, 1, 1), XYZ(1, 2, 3), XYZ(a, 0, 0), XYZ(1, 2, 1), x); h << x << Projection::PointToRay(XYZ(0, 0, 0), XYZ(1, 2, 3), XYZ(a, 1, 1)))}, {"matrices", Q(Matrix4d m = Matrix4d::CreateRotationAtPoint(XYZ(1, 2, 3), XYZ(0, 1, 1 + a), 0.4); Matrix4d i; h << m.GetInverse(i); h << i.OfPoint(XYZ(1, 2, 3)) << m.Multiply(i).OfPoint(XYZ(3, 2, 1)))},
    {"interpolation", Q(C1 r; NurbsCurve::GlobalInterpolation(3, pts(7 + a, 6), r); h << r; NurbsCurve::GlobalInterpolation(3, pts(6 + a, 6), pts(6 + a, 0), 1, r); h << r)}, {"local interpolation", Q(C1 r; h << NurbsCurve::CubicLocalInterpolation(pts(6 + a, 6), r); h << r)}, {"approximation", Q(C1 r; h << NurbsCurve::LeastSquaresApproximation(3, pts(12 + a, 6), 6, r); h << r; NurbsCurve::GlobalApproximationByErrorBound(2, pts(9 + a, 6), 0.5, r); h << r)}, {"arcs and conics", Q(C1 r; h << NurbsCurve::CreateArc(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 1 + a, 2, 3, r); h << r; h << NurbsCurve::CreateOpenConic(XYZ(0, 0, 0), XYZ(1, 1 + a, 0), XYZ(4, 0, 0), XYZ(1, -1, 0), XYZ(2, 0.7, 0), r); h << r)}, {"cylinders and bilinear patches", Q(S2 r; h << NurbsSurface::CreateCylindricalSurface(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 1 + a, 2, 3, r); h << r; NurbsSurface::CreateBilinearSurface(XYZ(0, 5, a), XYZ(4, 5, 0), XYZ(0, 0, 0), XYZ(5, 0, 2), r); h << r)}, {"surface interpolation", Q(std::vector<Pts> g; for (int i = 0; i < 4; i++) { g.emplace_back(); for (int j = 0; j < 5; j++) g.back().push_back(XYZ(i, j * 1.1, (i * j + a) % 3)); } S2 r; NurbsSurface::GlobalInterpolation(g, 2, 3, r); h << r; h << NurbsSurface::BicubicLocalInterpolation(g, r); h << r; h << NurbsSurface::GlobalApproximation(g, 2, 2, 3, 4, r); h << r)}};
#undef Q
  return o; }
static void curveCalls(Ctx& c) { auto& F = curveActs(); auto& f = c.pick(F); auto& g = c.pick(F); c.shard(); if (&g < &f) c.skip(); together(c, on(f, cA(), "the shared curve"), on(g, cA(), "the shared curve")); }
static void surfaceCalls(Ctx& c) { auto& F = surfaceActs(); auto& f = c.pick(F); auto& g = c.pick(F); c.shard(); if (&g < &f) c.skip(); together(c, on(f, sA(), "the shared surface"), on(g, sA(), "the shared surface")); }
static void volumeCalls(Ctx& c) { auto& F = volumeActs(); auto& f = c.pick(F); auto& g = c.pick(F); c.shard(); if (&g < &f) c.skip(); together(c, on(f, vA(), "the shared volume"), on(g, vA(), "the shared volume")); }
static void ownCurves(Ctx& c) { auto& F = curveActs(); auto& f = c.pick(F); bool near = c.flip(); c.shard(); if (near) together(c, on(f, cA(), "a curve"), on(f, cN(), "its neighbour curve")); else together(c, on(f, cA(), "a curve"), on(f, cB(), "another curve")); }
static void ownSurfaces(Ctx& c) { auto& F = surfaceActs(); auto& f = c.pick(F); bool near = c.flip(); c.shard(); if (near) together(c, on(f, sA(), "a surface"), on(f, sN(), "its neighbour surface")); else together(c, on(f, sA(), "a surface"), on(f, sB(), "another surface")); }
static void ownVolumes(Ctx& c) { auto& F = volumeActs(); auto& f = c.pick(F); c.shard(); together(c, on(f, vA(), "a volume"), on(f, vB(), "another volume")); }
static void otherCalls(Ctx& c) { auto& F = others(); auto& f = c.pick(F); auto& g = c.pick(F); c.shard(); if (&g < &f) c.skip(); static const int k[] = {0, 1}; together(c, on(f, k[0], "0"), on(g, k[1], "1")); }
static void crossCalls(Ctx& c) { static const int k = 0; int kind = c.pick(3); if (kind == 0) { auto& f = c.pick(curveActs()); auto& g = c.pick(surfaceActs()); c.shard(); together(c, on(f, cA(), "a curve"), on(g, sA(), "a surface")); } else if (kind == 1) { auto& f = c.pick(curveActs()); auto& g = c.pick(others()); c.shard(); together(c, on(f, cA(), "a curve"), on(g, k, "0")); } else { auto& f = c.pick(surfaceActs()); auto& g = c.pick(others()); c.shard(); together(c, on(f, sA(), "a surface"), on(g, k, "0")); } }
MC_MAIN("C40", {{"ownCurves", ownCurves}, {"ownSurfaces", ownSurfaces}, {"ownVolumes", ownVolumes}, {"curves", curveCalls}, {"surfaces", surfaceCalls}, {"volumes", volumeCalls}, {"others", otherCalls}, {"cross", crossCalls}})
