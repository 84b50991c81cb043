// C10: any sequence of operations on a curve or surface keeps the shape; constructions on top of them follow.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsVolume.h"
#include "UVW.h"
#include "BsplineSurface.h"
#include "Matrix4d.h"
#include "LNEnums.h"
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;

static const ld PI = 3.14159265358979323846264L;
typedef std::function<double(double)> F1;
// the model of a curve under operations: the source, the way back from a current parameter to a source parameter, and the motion
struct Model { LN_NurbsCurve src; std::vector<F1> back; ld m[3][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}};
  P3 at(double u, int s = -1) const { for (size_t i = back.size(); i-- > 0;) u = back[i](u); Curve A(src); u = std::min(std::max(u, A.lo()), A.hi()); P3 p = A.at(u, s); return {m[0][0] * p.x + m[0][1] * p.y + m[0][2] * p.z + m[0][3], m[1][0] * p.x + m[1][1] * p.y + m[1][2] * p.z + m[1][3], m[2][0] * p.x + m[2][1] * p.y + m[2][2] * p.z + m[2][3]}; }
  void move(int k) { // k = 0: rotation about z by 0.7 and translation; 1: scale by 2, 0.5, 3; 2: reflection in x = 1
    ld t[3][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}}; if (k == 0) { ld a = 0.7L; ld r[3][4] = {{std::cos(a), -std::sin(a), 0, 3}, {std::sin(a), std::cos(a), 0, -2}, {0, 0, 1, 5}}; std::copy(&r[0][0], &r[0][0] + 12, &t[0][0]); } else if (k == 1) { t[0][0] = 2; t[1][1] = 0.5L; t[2][2] = 3; }
    ld o[3][4]; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { o[i][j] = j == 3 ? t[i][3] : 0; for (int l = 0; l < 3; l++) o[i][j] += t[i][l] * m[l][j]; } std::copy(&o[0][0], &o[0][0] + 12, &m[0][0]); }
};
static Matrix4d matrix(int k) { if (k == 0) return Matrix4d::CreateTranslation(XYZ(3, -2, 5)).Multiply(Matrix4d::CreateRotation(XYZ(0, 0, 1), 0.7)); return Matrix4d::CreateScale(XYZ(2, 0.5, 3)); }
static bool full(const LN_NurbsCurve& a) { auto b = breaks(a.KnotVector, a.Degree); for (size_t i = 1; i + 1 < b.size(); i++) if (mult(a.KnotVector, b[i]) > a.Degree) return true; return false; }
static bool unit1(const LN_NurbsCurve& a) { for (auto& p : a.ControlPoints) if (p.GetW() != 1) return false; return true; }
static int maxMult(const LN_NurbsCurve& a) { int m = 0; auto b = breaks(a.KnotVector, a.Degree); for (size_t i = 1; i + 1 < b.size(); i++) m = std::max(m, mult(a.KnotVector, b[i])); return m; }
enum { NOPS = 18 };
// one operation; false: does not apply here
static bool step(Ctx& c, int op, LN_NurbsCurve& cur, Model& M, std::string& at) {
  Curve A(cur); double lo = A.lo(), hi = A.hi(), w = hi - lo; auto b = breaks(cur.KnotVector, cur.Degree); int p = cur.Degree; LN_NurbsCurve r; auto id = [](double u) { return u; };
  switch (op) {
    case 0: { double x = b[0] + 0.3 * (b[1] - b[0]); at += fmt("; insert %.6g", x); NurbsCurve::InsertKnot(cur, x, 1, r); M.back.push_back(id); break; }
    case 1: { if (b.size() < 3 || mult(cur.KnotVector, b[b.size() - 2]) >= p) return false; double x = b[b.size() - 2]; at += fmt("; insert %.6g again", x); NurbsCurve::InsertKnot(cur, x, 1, r); M.back.push_back(id); break; }
    case 2: { std::vector<double> X; for (size_t i = 0; i + 1 < b.size(); i++) X.push_back((b[i] + b[i + 1]) / 2); at += "; refine"; NurbsCurve::RefineKnotVector(cur, X, r); M.back.push_back(id); break; }
    case 3: if (p >= 6) return false; at += "; elevate"; NurbsCurve::ElevateDegree(cur, 1, r); M.back.push_back(id); break;
    case 4: { if (p < 2) return false; at += "; reduce"; if (!NurbsCurve::ReduceDegree(cur, r)) { c.count("not reducible"); return false; } M.back.push_back(id); break; }
    case 5: at += "; remove excessive knots"; NurbsCurve::RemoveExcessiveKnots(cur, r); M.back.push_back(id); break;
    case 6: at += "; reverse"; NurbsCurve::Reverse(cur, r); M.back.push_back([=](double u) { return lo + hi - u; }); break;
    case 7: at += "; to [-1,4]"; NurbsCurve::Reparametrize(cur, -1, 4, r); M.back.push_back([=](double u) { return lo + (u + 1) / 5 * w; }); break;
    case 8: { double al = 3, ga = 1, de = 1 - lo + w, be = 3 * de - 5; at += "; linear rational"; NurbsCurve::Reparametrize(cur, al, be, ga, de, r); M.back.push_back([=](double s) { return (be - de * s) / (ga * s - al); }); break; }
    case 9: case 10: at += op == 9 ? "; move" : "; scale"; NurbsCurve::CreateTransformed(cur, matrix(op - 9), r); M.move(op - 9); M.back.push_back(id); break;
    case 11: case 12: { LN_NurbsCurve l, q; double x = lo + 0.37 * w; at += op == 11 ? "; left part" : "; right part"; c.check(NurbsCurve::SplitAt(cur, x, l, q), "split", at + ": refused"); r = op == 11 ? l : q; M.back.push_back(id); break; }
    case 13: at += "; extract"; NurbsCurve::Extract(cur, lo + 0.2 * w, lo + 0.8 * w, r); M.back.push_back(id); break;
    case 14: { auto z = NurbsCurve::DecomposeToBeziers(cur); at += "; last Bezier"; c.check(z.size() == b.size() - 1, "pieces", at + fmt(": %zu pieces", z.size())); r = z.back(); Curve R(r); double l = R.lo(), h = R.hi(), s0 = b[b.size() - 2], s1 = b.back(); M.back.push_back([=](double u) { return s0 + (u - l) / (h - l) * (s1 - s0); }); break; }
    case 15: { if (!unit1(cur) || maxMult(cur) > 1 || p > 5 || b.size() > 6) return false; LN_NurbsCurve t; at += "; unclamp and clamp"; NurbsCurve::ToUnclampCurve(cur, t); NurbsCurve::ToClampCurve(t, r); c.trans(); M.back.push_back(id); break; }
    case 16: { if (b.size() < 3 || mult(cur.KnotVector, b[1]) >= p) return false; LN_NurbsCurve t; double x = lo + 0.23 * w; if (mult(cur.KnotVector, x)) return false; at += "; insert and remove"; NurbsCurve::InsertKnot(cur, x, 1, t); c.trans(); c.check(NurbsCurve::RemoveKnot(t, x, 1, r), "remove", at + ": refused"); M.back.push_back(id); break; }
    case 17: { LN_NurbsCurve l, q; double x = lo + 0.45 * w; at += "; split and merge"; c.check(NurbsCurve::SplitAt(cur, x, l, q), "split", at + ": refused"); c.trans(); c.check(NurbsCurve::Merge(l, q, r), "merge", at + ": refused"); M.back.push_back([=](double u) { return u < 0.5 ? lo + 2 * u * (x - lo) : x + (2 * u - 1) * (hi - x); }); break; }
  }
  cur = r; c.trans(); return true;
}
static void verify(Ctx& c, const char* key, const std::string& at, const LN_NurbsCurve& cur, const Model& M, ld tol) {
  Curve R(cur); std::string why; if (at.find("remove") != std::string::npos || at.find("reduce") != std::string::npos) tol = 1e-4L; // removal and reduction are exact to the library's tolerance
  c.check(R.valid(&why), fmt("%s-valid", key), at + ": " + why); ld s = std::max((ld)1, R.scl());
  for (double u : params(cur.KnotVector, cur.Degree, 2)) { P3 e = M.at(u), g = R.at(u); bool ok = near(g, e, tol * s); if (!ok) { double v = u; for (size_t i = M.back.size(); i-- > 0;) v = M.back[i](v); c.check(false, key, at + fmt(": at %.9g (source %.9g) the curve is at ", u, v) + str(g) + ", the model at " + str(e)); } P3 l = of(NurbsCurve::GetPointOnCurve(cur, u)); c.check(near(l, e, tol * s), fmt("%s-evaluated", key), at + fmt(": evaluates at %.9g to ", u) + str(l) + ", the model is at " + str(e)); }
}
static std::vector<LN_NurbsCurve> starts() {
  std::vector<LN_NurbsCurve> v; v.push_back(gen::curve(3, gen::clamped(3, {1, 2}, 1, {-2, 3}), 0, 1)); v.push_back(gen::curve(2, gen::clamped(2, {1, 1, 1}, 2, {4, 9.5}), 6, 0)); LN_NurbsCurve a; NurbsCurve::CreateArc(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0.3, 5.1, 4, 2, a); v.push_back(a); NurbsCurve::CreateLine(XYZ(1, 2, 3), XYZ(4, 0, -1), a); v.push_back(a);
  std::vector<XYZ> q; for (int i = 0; i < 6; i++) q.push_back(gen::pos(6, i, 6)); NurbsCurve::GlobalInterpolation(3, q, a); v.push_back(a); v.push_back(gen::curve(4, gen::clamped(4, {2}, 0, {0, 10}), 5, 1)); v.push_back(gen::curve(1, gen::clamped(1, {1, 1}, 0, {0, 1}), 1, 1)); NurbsCurve::CreateOpenConic(XYZ(-1, 1, 0), XYZ(1, -2, 0), XYZ(2, 4, 0), XYZ(1, 4, 0), XYZ(0, 0, 0), a); v.push_back(a); return v;
}
static const std::vector<LN_NurbsCurve>& S0() { static auto v = starts(); return v; }
static void curves(Ctx& c) {
  auto& S = S0(); int k = c.pick(mc::tier(5, (int)S.size())); Model M; M.src = S[k]; auto cur = M.src; std::string at = fmt("start %d ", k) + gen::str(cur).substr(0, 200); int depth = mc::tier(3, 4), cuts = 0; c.state(gen::hash(cur));
  for (int n = 0; n < depth; n++) { int op = c.pick((int)NOPS); if (n == 1) c.shard(); if (op >= 11 && op <= 14 && ++cuts > 2) c.skip(); if (cur.ControlPoints.size() > 60) c.skip(); c.note("%s then op %d", at.c_str(), op); if (!step(c, op, cur, M, at)) c.skip(); c.state(gen::hash(cur)); }
  c.note("%s", at.c_str()); verify(c, "curve", at, cur, M, 1e-7); c.count("curve histories");
}
// the parts of the model that are read off a curve: ends, length, closest parameter, straightness; after any history
static void queries(Ctx& c) {
  auto& S = S0(); int k = c.pick((int)S.size()); Model M; M.src = S[k]; auto cur = M.src; std::string at = fmt("start %d ", k) + gen::str(cur).substr(0, 200); int depth = mc::tier(2, 3);
  for (int n = 0; n < depth; n++) { int op = c.pick((int)NOPS); if (n == 1) c.shard(); c.note("%s then op %d", at.c_str(), op); if (!step(c, op, cur, M, at)) c.skip(); c.state(gen::hash(cur)); } c.note("%s", at.c_str()); Curve R(cur); if (full(cur)) c.skip();
  if (k != 6) c.check(NurbsCurve::IsLinear(cur) == (k == 3), "linear", at + ": IsLinear is wrong"); LN_ArcInfo info; (void)info; c.trans();
  bool scaled = at.find("; scale") != std::string::npos; if (cur.Degree > 1 && !scaled && k != 6) { ld L = 0; auto b = breaks(cur.KnotVector, cur.Degree); for (size_t i = 0; i + 1 < b.size(); i++) { static const int N = 400; P3 o = M.at(b[i]); for (int j = 1; j <= N; j++) { P3 x = M.at(b[i] + (b[i + 1] - b[i]) * j / N); L += dist(o, x); o = x; } } double g = NurbsCurve::ApproximateLength(cur); c.trans(); c.check(std::fabs(g - L) <= 2e-3L * L, "length", at + fmt(": length %.9g, the model's %.9Lg", g, L)); }
  for (double t : {0.1, 0.5, 0.83}) { double u = R.lo() + t * (R.hi() - R.lo()); P3 e = M.at(u); double g = NurbsCurve::GetParamOnCurve(cur, toXYZ(e)); c.trans(); c.check(g >= R.lo() - 1e-9 && g <= R.hi() + 1e-9 && dist(M.at(g), e) < 1e-3L * R.scl(), "inverse", at + fmt(": the point at %.9g is found at %.9g", u, g)); }
  c.count("query histories");
}
// split anywhere and merge again, after any history
static void rejoin(Ctx& c) {
  auto& S = S0(); int k = c.pick((int)S.size()); Model M; M.src = S[k]; auto cur = M.src; std::string at = fmt("start %d ", k) + gen::str(cur).substr(0, 200); int depth = mc::tier(1, 2); for (int n = 0; n < depth; n++) { int op = c.pick((int)NOPS); if (n == 0) c.shard(); c.note("%s then op %d", at.c_str(), op); if (!step(c, op, cur, M, at)) c.skip(); } Curve R(cur); double t = c.pick(std::vector<double>{0.15, 0.5, 0.8}); double lo = R.lo(), hi = R.hi(), x = lo + t * (hi - lo); int post = c.pick(4); at += fmt("; split at %.9g and merge; then %d", x, post); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(cur), x), post)); LN_NurbsCurve l, r, m; c.check(NurbsCurve::SplitAt(cur, x, l, r), "split", at + ": refused"); c.check(NurbsCurve::Merge(l, r, m), "merge", at + ": refused"); c.trans(2); M.back.push_back([=](double s) { return s <= 0.5 ? lo + 2 * s * (x - lo) : x + (2 * s - 1) * (hi - x); }); cur = m;
  if (post) { int op = post == 1 ? 6 : post == 2 ? 7 : 9; if (!step(c, op, cur, M, at)) c.skip(); } verify(c, "rejoin", at, cur, M, 1e-7); c.count("rejoined");
}
// surfaces
struct SModel { LN_NurbsSurface src; std::vector<std::function<void(double&, double&)>> back; P3 at(double u, double v) const { for (size_t i = back.size(); i-- > 0;) back[i](u, v); Surf A(src); return A.at(std::min(std::max(u, A.ulo()), A.uhi()), std::min(std::max(v, A.vlo()), A.vhi())); } };
static bool sstep(Ctx& c, int op, LN_NurbsSurface& cur, SModel& M, std::string& at) {
  Surf A(cur); LN_NurbsSurface r; auto id = [](double&, double&) {}; double ul = A.ulo(), uh = A.uhi(), vl = A.vlo(), vh = A.vhi(); bool iu = op % 2 == 0; auto& U = iu ? cur.KnotVectorU : cur.KnotVectorV; int p = iu ? cur.DegreeU : cur.DegreeV; auto b = breaks(U, p); const char* d = iu ? "u" : "v";
  switch (op) {
    case 0: case 1: { double x = b[0] + 0.3 * (b[1] - b[0]); at += fmt("; insert %s %.6g", d, x); NurbsSurface::InsertKnot(cur, x, 1, iu, r); M.back.push_back(id); break; }
    case 2: case 3: { std::vector<double> X; for (size_t i = 0; i + 1 < b.size(); i++) X.push_back((b[i] + b[i + 1]) / 2); at += fmt("; refine %s", d); NurbsSurface::RefineKnotVector(cur, X, iu, r); M.back.push_back(id); break; }
    case 4: case 5: if (p >= 6) return false; at += fmt("; elevate %s", d); NurbsSurface::ElevateDegree(cur, 1, iu, r); M.back.push_back(id); break;
    case 6: case 7: if (p < 2) return false; at += fmt("; reduce %s", d); if (!NurbsSurface::ReduceDegree(cur, iu, r)) { c.count("not reducible"); return false; } M.back.push_back(id); break;
    case 8: case 9: at += fmt("; reverse %s", d); NurbsSurface::Reverse(cur, iu ? SurfaceDirection::UDirection : SurfaceDirection::VDirection, r); M.back.push_back([=](double& u, double& v) { if (iu) u = ul + uh - u; else v = vl + vh - v; }); break;
    case 10: at += "; reverse both"; NurbsSurface::Reverse(cur, SurfaceDirection::All, r); M.back.push_back([=](double& u, double& v) { u = ul + uh - u; v = vl + vh - v; }); break;
    case 11: at += "; swap"; NurbsSurface::Swap(cur, r); M.back.push_back([](double& u, double& v) { std::swap(u, v); }); break;
    case 12: at += "; to [-1,4]x[2,3]"; NurbsSurface::Reparametrize(cur, -1, 4, 2, 3, r); M.back.push_back([=](double& u, double& v) { u = ul + (u + 1) / 5 * (uh - ul); v = vl + (v - 2) * (vh - vl); }); break;
    case 13: { auto z = NurbsSurface::DecomposeToBeziers(cur); at += "; last Bezier patch"; auto bu = breaks(cur.KnotVectorU, cur.DegreeU), bv = breaks(cur.KnotVectorV, cur.DegreeV); c.check(z.size() == (bu.size() - 1) * (bv.size() - 1), "patches", at + fmt(": %zu patches", z.size())); r = z.back(); Surf R(r); double a0 = bu[bu.size() - 2], a1 = bu.back(), c0 = bv[bv.size() - 2], c1 = bv.back(), l = R.ulo(), h = R.uhi(), l2 = R.vlo(), h2 = R.vhi(); M.back.push_back([=](double& u, double& v) { u = a0 + (u - l) / (h - l) * (a1 - a0); v = c0 + (v - l2) / (h2 - l2) * (c1 - c0); }); break; }
  }
  cur = r; c.trans(); return true;
}
static void sverify(Ctx& c, const char* key, const std::string& at, const LN_NurbsSurface& cur, const SModel& M, ld tol) {
  Surf R(cur); std::string why; if (at.find("reduce") != std::string::npos) tol = 1e-4L; c.check(R.valid(&why), fmt("%s-valid", key), at + ": " + why); ld s = R.scl(); for (double u : params(cur.KnotVectorU, cur.DegreeU, 1)) for (double v : params(cur.KnotVectorV, cur.DegreeV, 1)) { P3 e = M.at(u, v), g = R.at(u, v); c.check(near(g, e, tol * s), key, at + fmt(": at (%.9g,%.9g) the surface is at ", u, v) + str(g) + ", the model at " + str(e)); }
  // iso curves and evaluation follow
  double u = R.ulo() + 0.31 * (R.uhi() - R.ulo()), v = R.vlo() + 0.62 * (R.vhi() - R.vlo()); P3 e = M.at(u, v); c.check(near(of(NurbsSurface::GetPointOnSurface(cur, UV(u, v))), e, tol * s), "evaluated", at); auto a = NurbsSurface::GetIsoCurve(cur, u, false), b = NurbsSurface::GetIsoCurve(cur, v, true); c.trans(3); c.check(near(Curve(a).at(v), e, tol * s) && near(Curve(b).at(u), e, tol * s), "iso", at + ": iso curves do not pass through the point of the model");
}
static std::vector<LN_NurbsSurface> sstarts() {
  std::vector<LN_NurbsSurface> v; v.push_back(gen::surface(2, 3, gen::clamped(2, {1}, 1, {-2, 3}), gen::clamped(3, {2}, 0, {4, 9.5}), 0, 1)); LN_NurbsSurface s; auto& S = S0(); NurbsSurface::CreateRevolvedSurface(XYZ(9, 1, 0), XYZ(0, 1, 2), 2.1, S[1], s); v.push_back(s); NurbsSurface::CreateBilinearSurface(XYZ(0, 4, 1), XYZ(5, 4, 0), XYZ(0, 0, 0), XYZ(5, 0, 2), s); v.push_back(s); LN_NurbsCurve t; NurbsCurve::Reparametrize(S[0], 0, 1, t); NurbsSurface::CreateRuledSurface(S[2], t, s); v.push_back(s); NurbsSurface::CreateCylindricalSurface(XYZ(1, 1, 1), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 4, 2, 5, s); v.push_back(s); return v;
}
static void surfaces(Ctx& c) {
  static auto S = sstarts(); int k = c.pick(mc::tier(4, (int)S.size())); SModel M; M.src = S[k]; auto cur = M.src; std::string at = fmt("start %d ", k) + gen::str(cur).substr(0, 200); int depth = mc::tier(3, 4); if (mc::tier(0, 1)) depth = k < 3 ? 4 : 3; c.state(gen::hash(cur));
  for (int n = 0; n < depth; n++) { int op = c.pick(14); if (n == 1) c.shard(); if (cur.ControlPoints.size() * cur.ControlPoints[0].size() > 400) c.skip(); c.note("%s then op %d", at.c_str(), op); if (!sstep(c, op, cur, M, at)) c.skip(); c.state(gen::hash(cur)); } c.note("%s", at.c_str()); sverify(c, "surface", at, cur, M, 1e-7); c.count("surface histories");
}
// a curve after any history, made into a surface, operated on again: the profile is found at every section
static void lift(Ctx& c) {
  auto& S = S0(); int k = c.pick((int)S.size()); Model M; M.src = S[k]; auto cur = M.src; std::string at = fmt("start %d ", k) + gen::str(cur).substr(0, 200); int depth = mc::tier(1, 2); for (int n = 0; n < depth; n++) { int op = c.pick((int)NOPS); if (n == 0) c.shard(); c.note("%s then op %d", at.c_str(), op); if (!step(c, op, cur, M, at)) c.skip(); } int kind = c.pick(2), op = c.pick(14); LN_NurbsSurface s; ld rad = 1.9L; if (cur.Degree > 5) c.skip(); XYZ o(40, 3, -1); at += kind ? "; ruled" : "; revolved"; c.note("%s then op %d", at.c_str(), op);
  LN_NurbsCurve other; if (kind == 0) c.check(NurbsSurface::CreateRevolvedSurface(o, XYZ(0, 1, 1), (double)rad, cur, s), "revolve", at + ": refused"); else { NurbsCurve::CreateTransformed(cur, Matrix4d::CreateTranslation(XYZ(1, 2, 7)), other); NurbsSurface::CreateRuledSurface(cur, other, s); } c.trans(); SModel N; N.src = s; auto q = s; if (!sstep(c, op, q, N, at)) c.skip(); c.state(gen::hash(q)); c.note("%s", at.c_str()); sverify(c, "lift", at, q, N, 1e-7);
  // the source surface carries the model's curve: profile along v (revolved) or u (ruled)
  Surf R(s); Curve C(cur); bool profileIsU = kind == 1; for (double t : params(cur.KnotVector, cur.Degree, 1)) { P3 e = M.at(t); double t2 = (t - C.lo()) / (C.hi() - C.lo()); double pu = profileIsU ? R.ulo() + t2 * (R.uhi() - R.ulo()) : R.ulo(), pv = profileIsU ? R.vlo() : R.vlo() + t2 * (R.vhi() - R.vlo()); P3 g = R.at(pu, pv); c.check(near(g, e, 1e-7 * R.scl()), "profile", at + fmt(": at %.9g the profile of the surface is at ", t) + str(g) + ", the model at " + str(e)); if (kind == 0) { P3 O = of(o), ax = unit(P3{0, 1, 1}), g2 = R.at(R.uhi(), pv), d = e - O; P3 rot = std::cos(rad) * d + std::sin(rad) * cross(ax, d) + ((1 - std::cos(rad)) * dot(ax, d)) * ax; c.check(near(g2, O + rot, 1e-7 * R.scl()), "turned", at + fmt(": at %.9g the far end of the surface is at ", t) + str(g2) + ", the model at " + str(O + rot)); } } c.count("lifted");
}
// a parameter that rounding has put beside a knot does what the knot does
static void beside(Ctx& c) {
  auto a = pickCurve(c, mc::tier(3, 5), 2, 3, 3, mc::tier(2, 3), 3, false, {0, 6}, {0, 1}); c.shard(); if (full(a)) c.skip(); int p = a.Degree; auto b = breaks(a.KnotVector, p); int ki = c.pick((int)b.size()); bool end = ki == 0 || ki + 1 == (int)b.size(); double k = b[ki], h = b.back() - b[0]; int di = c.pick(mc::tier(4, 8)); double x = di == 0 ? (k == 0 ? 1e-16 * h : std::nextafter(k, 1e9)) : di == 1 ? (k == 0 ? -1e-16 * h : std::nextafter(k, -1e9)) : di == 2 ? k + 1e-14 * h : di == 3 ? k - 1e-14 * h : di == 4 ? k + 1e-12 * h : di == 5 ? k - 1e-12 * h : di == 6 ? k + 3 * (k == 0 ? 1e-16 * h : std::nextafter(k, 1e9) - k) : k - 3 * (k == 0 ? 1e-16 * h : k - std::nextafter(k, -1e9)); int s = mult(a.KnotVector, k), op = c.pick(9); if (end && ((op != 6 && op != 7) || x < b[0] || x > b.back())) c.skip(); std::string at = fmt("operation %d at %.17g beside the knot %.17g of ", op, x, k) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), di), op), k)); auto in = a; LN_NurbsCurve r, l; Curve A(a); auto cmp = [&](const char* key, const LN_NurbsCurve& r, double lo, double hi) { Curve R(r); std::string why; c.check(R.valid(&why), fmt("%s-valid", key), at + ": " + why); c.check(std::fabs(R.lo() - lo) < 1e-9 * (1 + std::fabs(lo)) && std::fabs(R.hi() - hi) < 1e-9 * (1 + std::fabs(hi)), fmt("%s-domain", key), at + ": " + str(r.KnotVector)); for (double u : params(a.KnotVector, p, 2)) if (u > lo + 1e-9 && u < hi - 1e-9) { P3 e = A.at(u), g = R.at(u), g2 = of(NurbsCurve::GetPointOnCurve(r, u)); c.check(near(g, e, 1e-7 * A.scl()) && near(g2, e, 1e-7 * A.scl()), key, at + fmt(": at %.9g ", u) + str(g) + " / " + str(g2) + " instead of " + str(e) + " result " + str(r)); } };
  switch (op) {
    case 0: { int t = 1; if (s + t > p) c.skip(); NurbsCurve::InsertKnot(a, x, t, r); cmp("insert-beside", r, b[0], b.back()); break; }
    case 1: { int t = p - s; if (t < 1) c.skip(); NurbsCurve::InsertKnot(a, x, t, r); cmp("insert-beside", r, b[0], b.back()); break; }
    case 2: if (s + 1 > p) c.skip(); NurbsCurve::RefineKnotVector(a, {x}, r); cmp("refine-beside", r, b[0], b.back()); break;
    case 3: { c.check(NurbsCurve::SplitAt(a, x, l, r), "split-beside", at + ": refused"); cmp("split-beside", l, b[0], k); cmp("split-beside", r, k, b.back()); c.check(gen::isClamped(l) && gen::isClamped(r), "split-beside-clamped", at + ": " + str(l.KnotVector) + " " + str(r.KnotVector)); LN_NurbsCurve m; c.check(NurbsCurve::Merge(l, r, m), "merge-beside", at + ": halves cannot be merged"); break; }
    case 4: NurbsCurve::Extract(a, x, b.back(), r); cmp("extract-beside", r, k, b.back()); break;
    case 5: NurbsCurve::Extract(a, b[0], x, r); cmp("extract-beside", r, b[0], k); break;
    case 6: { P3 e = A.at(x), g = of(NurbsCurve::GetPointOnCurve(a, x)), h2 = of(NurbsCurve::GetPointOnCurveByCornerCut(a, x)); c.check(near(g, e, 1e-8 * A.scl()) && near(h2, e, 1e-8 * A.scl()), "evaluate-beside", at + ": " + str(g) + " / " + str(h2) + " instead of " + str(e)); break; }
    case 7: { auto d = NurbsCurve::ComputeRationalCurveDerivatives(a, 1, x); int sp = span(p, a.KnotVector, k); auto R = A.der(k, 1, sp); int q = sp; if (!end) while (a.KnotVector[q] >= k) q--; auto L = A.der(k, 1, q); ld S = 1 + len(L[1]) + len(R[1]); c.check(near(of(d[1]), R[1], 1e-6 * S) || near(of(d[1]), L[1], 1e-6 * S), "derivative-beside", at + ": " + str(of(d[1]))); break; }
    case 8: { LN_NurbsCurve t; double y = (b[0] + b[1]) / 2; NurbsCurve::InsertKnot(a, y, 1, t); bool ok = NurbsCurve::RemoveKnot(t, di % 2 ? std::nextafter(y, -1e9) : std::nextafter(y, 1e9), 1, r); c.check(ok, "remove-beside", at + ": refused"); cmp("remove-beside", r, b[0], b.back()); c.check(r.KnotVector.size() == a.KnotVector.size(), "remove-beside", at); break; }
  }
  c.trans(); c.check(same(in, a), "input", at); c.count("beside knots");
}
static double besideOf(double k, int di) { return di == 0 ? k : di == 1 ? std::nextafter(k, 1e9) : di == 2 ? std::nextafter(k, -1e9) : di == 3 ? k + 1e-13 : di == 4 ? k - 1e-13 : di == 5 ? k + 3 * (std::nextafter(k, 1e9) - k) : k - 3 * (k - std::nextafter(k, -1e9)); }
static void besideSurface(Ctx& c) {
  int p = 1 + c.pick(mc::tier(3, 4)), m = 1 + c.pick(p), dom = c.pick(3); bool iu = c.flip(); c.shard(); auto D = domains()[dom]; auto U = gen::clamped(p, {m, 1}, 1, D), V = gen::clamped(2, {1}, 0, {0, 1}); auto s = iu ? gen::surface(p, 2, U, V, 0, 1) : gen::surface(2, p, V, U, 0, 1); auto b = breaks(U, p); double k = b[1 + c.pick(2)]; int di = c.pick(mc::tier(5, 7)), op = c.pick(5); double x = besideOf(k, di); int mm = mult(U, k); std::string at = fmt("operation %d at %.17g beside the knot %.17g of %s of ", op, x, k, iu ? "u" : "v") + str(s); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(s), di), op), k)); LN_NurbsSurface r; Surf A(s); SModel M; M.src = s;
  switch (op) { case 0: if (mm + 1 > p) c.skip(); NurbsSurface::InsertKnot(s, x, 1, iu, r); break; case 1: if (mm >= p) c.skip(); NurbsSurface::InsertKnot(s, x, p - mm, iu, r); break; case 2: if (mm + 1 > p) c.skip(); NurbsSurface::RefineKnotVector(s, {x}, iu, r); break;
    case 3: { auto cv = NurbsSurface::GetIsoCurve(s, x, !iu); for (double t : params(cv.KnotVector, cv.Degree, 1)) { P3 e = iu ? A.at(k, t) : A.at(t, k); c.check(near(Curve(cv).at(t), e, 1e-7 * A.scl()), "iso-beside", at + fmt(": at %.9g ", t) + str(Curve(cv).at(t)) + " instead of " + str(e)); } c.trans(); c.count("beside surface knots"); return; }
    case 4: { for (double t : {0.0, 0.3, 0.5, 1.0}) { UV uv = iu ? UV(x, t) : UV(t, x); P3 e = iu ? A.at(k, t) : A.at(t, k); P3 g = of(NurbsSurface::GetPointOnSurface(s, uv)); auto d = NurbsSurface::ComputeRationalSurfaceDerivatives(s, 1, uv); c.check(near(g, e, 1e-7 * A.scl()) && near(of(d[0][0]), e, 1e-7 * A.scl()), "evaluate-beside", at + ": " + str(g)); } c.trans(); c.count("beside surface knots"); return; } }
  c.trans(); sverify(c, "surface-beside", at, r, M, 1e-7); c.count("beside surface knots");
}
static void besideVolume(Ctx& c) {
  int p = 1 + c.pick(3), m = 1 + c.pick(p), dom = c.pick(2), d = c.pick(3); c.shard(); auto D = domains()[dom]; auto U = gen::clamped(p, {m, 1}, 1, D), V = gen::clamped(1, {}, 0, {0, 1}), W = gen::clamped(2, {}, 0, {2, 3}); auto s = d == 0 ? gen::volume(p, 1, 2, U, V, W, 1, 1) : d == 1 ? gen::volume(2, p, 1, W, U, V, 1, 1) : gen::volume(1, 2, p, V, W, U, 1, 1); auto b = breaks(U, p); double k = b[1 + c.pick(2)]; int di = c.pick(mc::tier(5, 7)), op = c.pick(5); double x = besideOf(k, di); int mm = mult(U, k); std::string at = fmt("volume operation %d at %.17g beside the knot %.17g (degree %d, multiplicity %d) along %c", op, x, k, p, mm, "uvw"[d]); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(s), di), op), k)); LN_NurbsVolume r, q; Vol A(s); auto dir = (VolumeDirection)d; ld S = 1; for (auto& x : A.P) for (auto& y : x) S = std::max(S, scale(y));
  auto pt = [&](const Vol& v, double t, double a, double b2) { return d == 0 ? v.at(t, a, 2 + b2) : d == 1 ? v.at(2 + b2, t, a) : v.at(a, 2 + b2, t); }; auto cmp = [&](const LN_NurbsVolume& v, double lo, double hi) { Vol R(v); std::string why; c.check(R.valid(&why), "volume-beside-valid", at + ": " + why); auto& K = d == 0 ? v.KnotVectorU : d == 1 ? v.KnotVectorV : v.KnotVectorW; c.check(std::fabs(K.front() - lo) < 1e-9 && std::fabs(K.back() - hi) < 1e-9 && mult(K, K.front(), 0) == p + 1 && mult(K, K.back(), 0) == p + 1, "volume-beside-domain", at + ": " + str(K)); for (double t : params(U, p, 2)) if (t > lo + 1e-9 && t < hi - 1e-9) for (double a : {0.0, 0.4, 1.0}) for (double b2 : {0.0, 0.7}) { P3 e = pt(A, t, a, b2), g = pt(R, t, a, b2); c.check(near(g, e, 1e-7 * S), "volume-beside", at + fmt(": at %.9g ", t) + str(g) + " instead of " + str(e)); } };
  switch (op) { case 0: if (mm + 1 > p) c.skip(); NurbsVolume::InsertKnot(s, x, 1, dir, r); cmp(r, D.a, D.b); break; case 1: if (mm >= p) c.skip(); NurbsVolume::InsertKnot(s, x, p - mm, dir, r); cmp(r, D.a, D.b); break; case 2: if (mm + 1 > p) c.skip(); NurbsVolume::RefineKnotVector(s, {x}, dir, r); cmp(r, D.a, D.b); break;
    case 3: c.check(NurbsVolume::SplitAt(s, x, dir, r, q), "volume-split-beside", at + ": refused"); cmp(r, D.a, k); cmp(q, k, D.b); break;
    case 4: { LN_NurbsSurface f; c.check(NurbsVolume::Extract(s, x, dir, f), "volume-extract-beside", at + ": refused"); Surf F(f); std::string why; c.check(F.valid(&why), "volume-extract-valid", at + ": " + why); for (double a : {0.0, 0.4, 1.0}) for (double b2 : {0.0, 0.7}) { P3 e = pt(A, k, a, b2), g = F.at(a, 2 + b2); c.check(near(g, e, 1e-7 * S), "volume-extract-beside", at + ": " + str(g) + " instead of " + str(e)); } break; } }
  c.trans(); c.count("beside volume knots");
}
MC_MAIN("C10", {{"curves", curves}, {"queries", queries}, {"rejoin", rejoin}, {"surfaces", surfaces}, {"lift", lift}, {"beside", beside}, {"besideSurface", besideSurface}, {"besideVolume", besideVolume}})
