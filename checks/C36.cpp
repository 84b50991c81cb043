// C36: operations are functions of their arguments: the input is left alone, what the output held before does not matter, an operation may write to its own input, and asking again gives the same.
#include "../mc/ops.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "BsplineCurve.h"
#include "BezierCurve.h"
#include "Matrix4d.h"
#include "LNEnums.h"
#include <cstring>
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;

using namespace ops;
// every history of up to n operations on one result object, each compared with the operation on a fresh one
template <class T> static void run(Ctx& c, const T& a, const std::vector<Op<T>>& ops, const std::vector<T>& dirty, const std::string& desc) {
  auto& op = c.pick(ops); T in = a, fresh{}; int k = op.f(in, fresh); c.trans(); std::string at = std::string(op.name) + " of " + desc; c.note("%s", at.c_str()); c.state(mc::hd(hash(a), &op - &ops[0])); c.check(bit(in, a), "input", at + ": the input was changed"); { T again{}; int k2 = op.f(in, again); c.trans(); c.check(k == k2 && (k != 1 || bit(again, fresh)), "again", at + ": a second call gives something else"); }
  for (size_t i = 0; i < dirty.size(); i++) { T out = dirty[i]; int k2 = op.f(in, out); c.trans(); c.check(k == k2 && (k != 1 || bit(out, fresh)), "dirty", at + fmt(": depends on what the result held before (%zu)", i)); c.check(bit(in, a), "input", at + ": the input was changed"); }
  T self = a; int k3 = op.f(self, self); c.trans(); c.check(k == k3 && (k != 1 || bit(self, fresh)), "alias", at + ": writing to its own input gives something else"); c.count(k == 1 ? "done" : k == 0 ? "refused" : "threw"); if (k != 1) c.count(op.name + (k ? ": threw" : ": refused"));
}
static C1 wide() { return curve(3, clamped(3, {1, 2, 1, 1, 1, 1}), 0, 1); } static C1 slim() { return curve(1, clamped(1, {}), 1, 0); }
static void curves(Ctx& c) { auto a = pickCurve(c, mc::tier(4, 5), 2, mc::tier(2, 3), 3, mc::tier(1, 2), 2, false, {0, 2}, {0, 1}); c.shard(); static const std::vector<C1> D = {wide(), slim()}; run(c, a, curveOps(), D, str(a)); }
static void unclampedCurves(Ctx& c) { auto a = pickCurve(c, mc::tier(4, 5), 2, 2, 3, 1, 2, true, {0, 2}, {0, 1}); c.shard(); static const std::vector<C1> D = {wide(), slim()}; static std::vector<Op<C1>> ops; if (ops.empty()) for (auto& o : curveOps()) for (const char* n : {"CreateTransformed", "Reparametrize", "Reparametrize fractionally", "Reverse", "ToClampCurve", "InsertKnot inside a span"}) if (o.name == n) ops.push_back(o); run(c, a, ops, D, str(a)); }
static void surfaces(Ctx& c) { auto a = pickSurface(c, 1, mc::tier(2, 3), 1, 2, 2, 1, 2, {0, 1}, {0, 1}); c.shard(); static const std::vector<S2> D = {surface(3, 2, clamped(3, {1, 1, 2}), clamped(2, {1, 1}), 0, 1), surface(1, 1, clamped(1, {}), clamped(1, {}), 0, 0)}; run(c, a, surfaceOps(), D, str(a)); }
static void volumes(Ctx& c) { int p = 1 + c.pick(2), q = 1 + c.pick(2), r = 1 + c.pick(2); auto P = patterns(1, 1, 1); auto a = volume(p, q, r, clamped(p, c.pick(P), 0, domains()[0]), clamped(q, c.pick(P), 1, domains()[1]), clamped(r, c.pick(P), 0, domains()[2]), c.pick(2), c.pick(2)); c.shard(); static const std::vector<V3> D = {volume(3, 2, 1, clamped(3, {1, 1}), clamped(2, {1, 1}), clamped(1, {1, 1, 1}), 0, 1), volume(1, 1, 1, clamped(1, {}), clamped(1, {}), clamped(1, {}), 0, 0)}; run(c, a, volumeOps(), D, fmt("volume of degrees %d %d %d, net %zux%zux%zu", p, q, r, a.ControlPoints.size(), a.ControlPoints[0].size(), a.ControlPoints[0][0].size())); }
// constructions: what the result held before does not matter
typedef std::vector<XYZ> Pts;
static Pts pts(int n, int f) { Pts v; for (int i = 0; i < n; i++) v.push_back(pos(f, i, n)); return v; }
struct MakeC { const char* name; std::function<int(C1&)> f; };
static void makeCurves(Ctx& c) {
  static std::vector<MakeC> M; if (M.empty()) { auto add = [&](const char* n, std::function<bool(C1&)> f) { M.push_back({n, [f](C1& r) { return done([&] { return f(r); }); }}); };
    add("CreateLine", [](C1& r) { NurbsCurve::CreateLine(XYZ(1, 2, 3), XYZ(-4, 0, 1), r); return true; }); for (int n : {4, 6}) { add("CreateCubicHermite", [n](C1& r) { NurbsCurve::CreateCubicHermite(pts(n, 6), pts(n, 0), r); return true; }); } for (double e : {1.0, 3.0, 4.5, 6.283185307179586}) add("CreateArc", [e](C1& r) { return NurbsCurve::CreateArc(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, e, 2, 3, r); }); add("CreateOpenConic", [](C1& r) { return NurbsCurve::CreateOpenConic(XYZ(0, 0, 0), XYZ(1, 2, 0), XYZ(4, 0, 0), XYZ(1, -2, 0), XYZ(2, 1.5, 0), r); });
    for (int p : {2, 3}) for (int n : {5, 9}) { add("GlobalInterpolation", [=](C1& r) { NurbsCurve::GlobalInterpolation(p, pts(n, 6), r); return true; }); add("GlobalInterpolation with tangents", [=](C1& r) { NurbsCurve::GlobalInterpolation(p, pts(n, 6), pts(n, 0), 1.0, r); return true; }); add("LeastSquaresApproximation", [=](C1& r) { return NurbsCurve::LeastSquaresApproximation(p, pts(n + 4, 6), n, r); }); add("GlobalApproximationByErrorBound", [=](C1& r) { NurbsCurve::GlobalApproximationByErrorBound(p, pts(n + 4, 6), 0.5, r); return true; }); add("WeightedAndContrainedLeastSquaresApproximation", [=](C1& r) { Pts q = pts(n + 4, 6); return NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, q, std::vector<double>(q.size(), 1), {XYZ(0, 1, 0.4)}, {0}, {1}, n, r); }); } for (int n : {3, 6}) add("CubicLocalInterpolation", [=](C1& r) { return NurbsCurve::CubicLocalInterpolation(pts(n, 6), r); }); add("GetIsoCurve", [](C1& r) { r = NurbsSurface::GetIsoCurve(surface(2, 3, clamped(2, {1}), clamped(3, {1, 1}), 0, 1), 0.4, true); return true; }); }
  auto& m = c.pick(M); int d = c.pick(3); c.shard(); std::string at = fmt("%s (%zu) into %d", m.name, (size_t)(&m - &M[0]), d); c.note("%s", at.c_str()); c.state(mc::hd(&m - &M[0], d)); C1 x, y = d == 0 ? wide() : d == 1 ? slim() : C1(), z; int a = m.f(x), b = m.f(y), e = m.f(z); c.trans(3); c.check(a == b && a == e && (a != 1 || (bit(x, y) && bit(x, z))), "construct", at + ": depends on what the result held before"); c.count(a == 1 ? "done" : "refused"); if (a != 1) c.count(at);
}
struct MakeS { const char* name; std::function<int(S2&)> f; };
static void makeSurfaces(Ctx& c) {
  static std::vector<MakeS> M; if (M.empty()) { auto add = [&](const char* n, std::function<bool(S2&)> f) { M.push_back({n, [f](S2& r) { return done([&] { return f(r); }); }}); }; auto grid = [](int n, int m) { std::vector<Pts> g; for (int i = 0; i < n; i++) { g.emplace_back(); for (int j = 0; j < m; j++) g.back().push_back(pos2(0, i, j, n, m)); } return g; };
    auto prof = [](int f) { return curve(2, clamped(2, {1}), f, 1); }; auto seg = [](XYZ a, XYZ b) { C1 r; NurbsCurve::CreateLine(a, b, r); return r; };
    add("CreateBilinearSurface", [](S2& r) { NurbsSurface::CreateBilinearSurface(XYZ(0, 5, 1), XYZ(4, 5, 0), XYZ(0, 0, 0), XYZ(5, 0, 2), r); return true; }); for (double e : {1.0, 4.0, 6.283185307179586}) add("CreateCylindricalSurface", [e](S2& r) { return NurbsSurface::CreateCylindricalSurface(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, e, 2, 5, r); }); add("CreateRuledSurface", [=](S2& r) { NurbsSurface::CreateRuledSurface(prof(0), curve(3, clamped(3, {1, 1}), 6, 0), r); return true; }); for (double e : {1.0, 4.0, 6.283185307179586}) add("CreateRevolvedSurface", [=](S2& r) { return NurbsSurface::CreateRevolvedSurface(XYZ(0, 0, 0), XYZ(0, 0, 1), e, seg(XYZ(2, 0, 0), XYZ(3, 0, 4)), r); }); add("GlobalInterpolation", [=](S2& r) { NurbsSurface::GlobalInterpolation(grid(5, 4), 3, 2, r); return true; }); add("GlobalApproximation", [=](S2& r) { return NurbsSurface::GlobalApproximation(grid(8, 7), 3, 2, 5, 4, r); }); add("BicubicLocalInterpolation", [=](S2& r) { return NurbsSurface::BicubicLocalInterpolation(grid(4, 5), r); });
    add("CreateLoftSurface", [=](S2& r) { std::vector<C1> s; for (int i = 0; i < 4; i++) { C1 x = curve(2, clamped(2, std::vector<int>(1 + i % 2, 1)), 1, 0); for (auto& p : x.ControlPoints) p = XYZW(p.ToXYZ(true) + XYZ(0, i * 0.3, i * 2.0), 1); s.push_back(x); } NurbsSurface::CreateLoftSurface(s, r); return true; }); add("CreateGeneralizedTranslationalSweepSurface", [=](S2& r) { NurbsSurface::CreateGeneralizedTranslationalSweepSurface(prof(1), curve(3, clamped(3, {1}), 6, 0), r); return true; });
    add("CreateGordonSurface", [=](S2& r) { std::vector<C1> u, v; std::vector<Pts> g = grid(3, 3); for (int i = 0; i < 3; i++) { C1 x; NurbsCurve::GlobalInterpolation(2, {g[0][i], g[1][i], g[2][i]}, x, {0, 0.5, 1}); u.push_back(x); C1 y; NurbsCurve::GlobalInterpolation(2, {g[i][0], g[i][1], g[i][2]}, y, {0, 0.5, 1}); v.push_back(y); } NurbsSurface::CreateGordonSurface(u, v, g, r); return true; }); add("CreateCoonsSurface", [=](S2& r) { NurbsSurface::CreateCoonsSurface(seg(XYZ(0, 5, 1), XYZ(0, 0, 0)), seg(XYZ(0, 0, 0), XYZ(6, 0, 2)), seg(XYZ(6, 0, 2), XYZ(6, 5, 0)), seg(XYZ(6, 5, 0), XYZ(0, 5, 1)), r); return true; }); for (auto d : {VolumeDirection::U, VolumeDirection::V, VolumeDirection::W}) add("volume Extract", [=](S2& r) { return NurbsVolume::Extract(volume(1, 2, 3, clamped(1, {1}), clamped(2, {1}), clamped(3, {}), 0, 1), 0.4, d, r); }); }
  auto& m = c.pick(M); int d = c.pick(3); c.shard(); std::string at = fmt("%s (%zu) into %d", m.name, (size_t)(&m - &M[0]), d); c.note("%s", at.c_str()); c.state(mc::hd(&m - &M[0], d)); S2 x{}, y = d == 0 ? surface(3, 2, clamped(3, {1, 1, 2}), clamped(2, {1, 1}), 0, 1) : d == 1 ? surface(1, 1, clamped(1, {}), clamped(1, {}), 0, 0) : S2{}, z{}; int a = m.f(x), b = m.f(y), e = m.f(z); c.trans(3); c.check(a == b && a == e && (a != 1 || (bit(x, y) && bit(x, z))), "construct", at + ": depends on what the result held before"); c.count(a == 1 ? "done" : "refused"); if (a != 1) c.count(at);
}
// splits into used curves, meshes
static void pieces(Ctx& c) {
  int k = c.pick(2), d = c.pick(2); c.shard(); c.note("pieces %d", k); c.state(k * 2 + d); std::string at = fmt("filling %d", k); C1 a = curve(3, clamped(3, {1, 1}), 0, 1); S2 s = surface(2, 2, clamped(2, {1}), clamped(2, {}), 0, 1);
  if (k == 0) { C1 l = wide(), r = slim(), x, y; bool r1 = NurbsCurve::SplitAt(a, 0.4, x, y), r2 = NurbsCurve::SplitAt(a, 0.4, l, r); c.trans(2); c.check(r1 == r2 && bit(x, l) && bit(y, r), "fill", at + ": a split keeps old contents"); }
  else { LN_Mesh m1 = NurbsSurface::Triangulate(s, 5, 6, d), m2 = NurbsSurface::Triangulate(s, 5, 6, d); c.trans(2); c.check(m1.Vertices.size() == m2.Vertices.size() && m1.Faces == m2.Faces, "again", at + ": a second mesh differs"); } c.count("filled");
}
// neighbours: the same request about a shape that differs in one place only, right after the first
template <class T> static void after(Ctx& c, const std::vector<Act<T>>& acts, const T& a, const std::vector<T>& near, const T& other, const std::string& desc) {
  auto& f = c.pick(acts); int k = c.pick((int)near.size()); c.shard(); std::string at = f.name + fmt(" (change %d) of ", k) + desc; c.note("%s", at.c_str()); c.state(mc::mix(mc::hd(gen::hash(near[k]), &f - &acts[0]), 3)); const T& b = near[k];
  mc::g_random = 1; f.f(other); mc::g_random = 1; uint64_t e = f.f(b); f.f(a); mc::g_random = 1; uint64_t g = f.f(b); c.trans(4); c.check(g == e, "neighbour", at + ": the answer depends on the call before"); mc::g_random = 1; uint64_t x = f.f(a); f.f(other); mc::g_random = 1; c.trans(3); c.check(x == f.f(a), "neighbour", at + ": the answer depends on the call before (back)"); c.count("neighbours");
}
template <class T> static void mixed(Ctx& c, const std::vector<Act<T>>& acts, const T& a, const T& other, const std::string& desc) {
  auto& f = c.pick(acts); c.shard(); auto& g = c.pick(acts); std::string at = f.name + " after " + g.name + " of " + desc; c.note("%s", at.c_str()); c.state(mc::mix(mc::hd(gen::hash(a), &f - &acts[0]), 7 + (&g - &acts[0]))); mc::g_random = 1; f.f(other); mc::g_random = 1; uint64_t e = f.f(a); g.f(a); mc::g_random = 1; c.trans(4); c.check(f.f(a) == e, "mixed", at + ": the answer depends on the call before"); c.count("pairs of requests");
}
static XYZW moved(const XYZW& p, int how) { XYZ x = p.ToXYZ(true); return how == 0 ? XYZW(x + XYZ(0.3, -0.2, 0.4), p.GetW()) : XYZW(x, p.GetW() * 1.25); }
static void shiftKnots(std::vector<std::vector<double>>& out, const std::vector<double>& U, int p) { for (size_t i = p + 1; i + p + 1 < U.size(); i++) if (U[i] > U[i - 1] && U[i] < U.back()) { auto W = U; size_t j = i; while (U[j] == U[i]) j++; double d = 0.2 * std::min(U[i] - U[i - 1], U[j] - U[i]); for (size_t k = i; k < j; k++) W[k] += d; out.push_back(W); } auto W = U; for (double& x : W) x = 2 * x + 1; out.push_back(W); }
static std::vector<C1> nearOf(const C1& a) { std::vector<C1> r; for (size_t i = 0; i < a.ControlPoints.size(); i++) for (int h = 0; h < 2; h++) { C1 b = a; b.ControlPoints[i] = moved(b.ControlPoints[i], h); r.push_back(b); } std::vector<std::vector<double>> K; shiftKnots(K, a.KnotVector, a.Degree); for (auto& k : K) { C1 b = a; b.KnotVector = k; r.push_back(b); } return r; }
static std::vector<S2> nearOf(const S2& a) { std::vector<S2> r; for (size_t i = 0; i < a.ControlPoints.size(); i++) for (size_t j = 0; j < a.ControlPoints[0].size(); j++) for (int h = 0; h < 2; h++) { S2 b = a; b.ControlPoints[i][j] = moved(b.ControlPoints[i][j], h); r.push_back(b); } std::vector<std::vector<double>> K; shiftKnots(K, a.KnotVectorU, a.DegreeU); for (auto& k : K) { S2 b = a; b.KnotVectorU = k; r.push_back(b); } K.clear(); shiftKnots(K, a.KnotVectorV, a.DegreeV); for (auto& k : K) { S2 b = a; b.KnotVectorV = k; r.push_back(b); } return r; }
static std::vector<V3> nearOf(const V3& a) { std::vector<V3> r; for (size_t i = 0; i < a.ControlPoints.size(); i++) for (size_t j = 0; j < a.ControlPoints[0].size(); j++) for (size_t k = 0; k < a.ControlPoints[0][0].size(); k++) for (int h = 0; h < 2; h++) { V3 b = a; b.ControlPoints[i][j][k] = moved(b.ControlPoints[i][j][k], h); r.push_back(b); } std::vector<std::vector<double>> K; shiftKnots(K, a.KnotVectorU, a.DegreeU); for (auto& k : K) { V3 b = a; b.KnotVectorU = k; r.push_back(b); } K.clear(); shiftKnots(K, a.KnotVectorV, a.DegreeV); for (auto& k : K) { V3 b = a; b.KnotVectorV = k; r.push_back(b); } K.clear(); shiftKnots(K, a.KnotVectorW, a.DegreeW); for (auto& k : K) { V3 b = a; b.KnotVectorW = k; r.push_back(b); } return r; }
static void nearCurves(Ctx& c) { static const std::vector<C1> A = {curve(3, clamped(3, {1, 1}, 0, domains()[1]), 0, 1), curve(2, clamped(2, {1}), 6, 0), curve(1, clamped(1, {1, 1}), 0, 0)}; auto& a = c.pick(A); auto n = nearOf(a); if (c.flip()) mixed(c, curveActs(), a, wide(), str(a)); else after(c, curveActs(), a, n, wide(), str(a)); }
static void nearSurfaces(Ctx& c) { static const std::vector<S2> A = {surface(2, 2, clamped(2, {1}), clamped(2, {}), 0, 1), surface(1, 2, clamped(1, {}, 0, domains()[1]), clamped(2, {1}), 1, 0)}; auto& a = c.pick(A); auto n = nearOf(a); S2 o = surface(3, 2, clamped(3, {1, 1, 2}), clamped(2, {1, 1}), 0, 1); if (c.flip()) mixed(c, surfaceActs(), a, o, str(a)); else after(c, surfaceActs(), a, n, o, str(a)); }
static void nearVolumes(Ctx& c) { static const std::vector<V3> A = {volume(2, 1, 1, clamped(2, {1}), clamped(1, {}), clamped(1, {1}), 0, 1)}; auto& a = c.pick(A); auto n = nearOf(a); V3 o = volume(1, 2, 2, clamped(1, {1, 1}), clamped(2, {1}), clamped(2, {}), 0, 1); if (c.flip()) mixed(c, volumeActs(), a, o, "a volume"); else after(c, volumeActs(), a, n, o, "a volume"); }
MC_MAIN("C36", {{"nearCurves", nearCurves}, {"nearSurfaces", nearSurfaces}, {"nearVolumes", nearVolumes}, {"curves", curves}, {"unclamped", unclampedCurves}, {"surfaces", surfaces}, {"volumes", volumes}, {"makeCurves", makeCurves}, {"makeSurfaces", makeSurfaces}, {"pieces", pieces}})
