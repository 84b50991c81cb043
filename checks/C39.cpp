// C39: derivative control nets, first derivatives, quadratic pieces from tangents, knot removal bounds.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "BezierCurve.h"
#include "Interpolation.h"
#include "ValidationUtils.h"
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;

template <class T> static std::vector<double> inner(const std::vector<double>& U, int k, T) { return std::vector<double>(U.begin() + k, U.end() - k); }
// the derivative control points, on the knots without the outer ones, make the derivative curve
static void derivCurve(Ctx& c) {
  auto a = pickCurve(c, mc::tier(5, 7), 2, mc::tier(2, 3), 3, mc::tier(2, 3), 3, true, {0, 5}, {0, 1}); c.shard(); if (a.Degree < 1) c.skip(); int p = a.Degree, n = a.ControlPoints.size(); for (double u : breaks(a.KnotVector, p)) if (u > a.KnotVector[p] && u < a.KnotVector[a.KnotVector.size() - p - 1] && mult(a.KnotVector, u) > p) c.skip(); int m = 1 + c.pick(p); std::string at = fmt("derivative control points of order %d of ", m) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(hash(a), m)); auto in = a; auto PK = BsplineCurve::ComputeControlPointsOfDerivatives(a, m, 0, n - 1); c.trans(); c.check(same(in, a), "input", at); Curve A(a); c.check((int)PK.size() == m + 1, "size", at + fmt(": %zu rows", PK.size()));
  std::vector<P4> W; for (auto& q : a.ControlPoints) W.push_back(of(q)); for (double u : params(a.KnotVector, p, 2)) { int s = span(p, a.KnotVector, u); auto e = ders(p, a.KnotVector, W, (ld)u, s, m); for (int k = 0; k <= m; k++) { bool left = true; for (int i = 1; i <= k; i++) left &= mult(a.KnotVector, u) <= p - k || true; std::vector<P4> Q; c.check((int)PK[k].size() >= n - k, "size", at); for (int i = 0; i < n - k; i++) { Q.push_back(of(PK[k][i])); } auto V = inner(a.KnotVector, k, 0); P4 g = deBoor(p - k, V, Q, (ld)u, s - k); ld S = 1 + std::fabs(e[k].x) + std::fabs(e[k].y) + std::fabs(e[k].z); for (auto& q : Q) S = std::max({S, std::fabs(q.x), std::fabs(q.y), std::fabs(q.z)}); c.check(std::fabs(g.x - e[k].x) + std::fabs(g.y - e[k].y) + std::fabs(g.z - e[k].z) + std::fabs(g.w - e[k].w) <= 1e-10L * S, "derivative-curve", at + fmt(": the curve of order %d differs at %.9g", k, u)); } } 
  // a window of spans gives the same control points
  for (int lo = 0; lo < n; lo++) for (int hi = lo + m; hi < n; hi++) { auto W2 = BsplineCurve::ComputeControlPointsOfDerivatives(a, m, lo, hi); for (int k = 0; k <= m; k++) for (int i = 0; i <= hi - lo - k; i++) { P4 x = of(W2[k][i]), y = of(PK[k][lo + i]); if (!std::isfinite((double)(y.x + y.y + y.z + y.w))) continue; ld S = 1 + std::fabs(y.x) + std::fabs(y.y) + std::fabs(y.z); c.check(std::fabs(x.x - y.x) + std::fabs(x.y - y.y) + std::fabs(x.z - y.z) + std::fabs(x.w - y.w) <= 1e-11L * S, "window", at + fmt(": control points %d-%d alone differ in row %d", lo, hi, k)); } c.trans(); } c.count("derivative curves");
}
static void derivSurface(Ctx& c) {
  auto s = pickSurface(c, 1, mc::tier(3, 4), 1, 2, 2, mc::tier(1, 2), 2, {0, 1}, {0, 1}); c.shard(); int p = s.DegreeU, q = s.DegreeV; auto full = [](const std::vector<double>& U, int p) { for (double u : breaks(U, p)) if (u > U[p] && u < U[U.size() - p - 1] && mult(U, u) > p) return true; return false; }; if (full(s.KnotVectorU, p) || full(s.KnotVectorV, q)) c.skip(); auto us = params(s.KnotVectorU, p, 1), vs = params(s.KnotVectorV, q, 1); double u = c.pick(us), v = c.pick(vs); int m = 1 + c.pick(mc::tier(3, 4)); std::string at = fmt("at (%.9g,%.9g), order %d, of ", u, v, m) + str(s); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(s), u), v), m));
  int su = span(p, s.KnotVectorU, u), sv = span(q, s.KnotVectorV, v); auto PKL = BsplineSurface::ComputeControlPointsOfDerivatives(s, m, su - p, su, sv - q, sv, UV(u, v)); XYZW d1[2][2]; BsplineSurface::ComputeFirstOrderDerivative(s, UV(u, v), d1); auto D = BsplineSurface::ComputeDerivativesByAllBasisFunctions(s, m, UV(u, v)); c.trans(3); int du = std::min(m, p), dv = std::min(m, q); for (int k = 0; k <= du; k++) for (int l = 0; l <= std::min(m - k, dv); l++) { // reference
      P4 e; for (int i = su - p; i <= su; i++) { ld b = dN(i, p, s.KnotVectorU, (ld)u, su, k); for (int j = sv - q; j <= sv; j++) e = e + (b * dN(j, q, s.KnotVectorV, (ld)v, sv, l)) * of(s.ControlPoints[i][j]); }
      P4 g; ld S = 1; for (int i = 0; i <= p - k; i++) for (int j = 0; j <= q - l; j++) { P4 x = of(PKL[k][l][i][j]); S = std::max({S, std::fabs(x.x), std::fabs(x.y), std::fabs(x.z)}); auto UU = inner(s.KnotVectorU, k, 0), VV = inner(s.KnotVectorV, l, 0); g = g + (N(su - p + i, p - k, UU, (ld)u, su - k) * N(sv - q + j, q - l, VV, (ld)v, sv - l)) * x; } auto diff = [](P4 a, P4 b) { return std::fabs(a.x - b.x) + std::fabs(a.y - b.y) + std::fabs(a.z - b.z) + std::fabs(a.w - b.w); }; c.check(diff(g, e) <= 1e-10L * S, "derivative-net", at + fmt(": net of order (%d,%d) gives (%.9g,%.9g,%.9g,%.9g)", k, l, (double)g.x, (double)g.y, (double)g.z, (double)g.w)); c.check(diff(of(D[k][l]), e) <= 1e-10L * S, "by-all-basis-functions", at + fmt(": order (%d,%d)", k, l)); if (k <= 1 && l <= 1) c.check(diff(of(d1[k][l]), e) <= 1e-10L * S, "first-order", at + fmt(": order (%d,%d)", k, l)); } c.count("derivative nets");
}
// rational quadratic pieces with given end tangents
static void middle(Ctx& c) {
  static const std::vector<P3> E = {{4, 0, 0}, {1, 2, -2}, {-0.3, 0.1, 0.2}, {120, -50, 30}}; static const std::vector<P3> O = {{0, 0, 0}, {3, -2, 7}}; P3 o = c.pick(O), e = o + c.pick(E), ch = unit(e - o), nn = unit(cross(ch, P3{0.3L, 0.2L, 1})), bb = cross(ch, nn); int na = mc::tier(12, 24); int ia = c.pick(na), ib = c.pick(na); int twist = c.pick(3); c.shard(); double la = c.pick(std::vector<double>{1, 5}); ld A = 2 * 3.14159265358979323846L * (ia + 0.25L) / na, B = 2 * 3.14159265358979323846L * (ib + 0.25L) / na; P3 m = twist == 0 ? nn : twist == 1 ? bb : unit(nn + bb); P3 ts = std::cos(A) * ch + std::sin(A) * nn, te = std::cos(B) * ch + std::sin(B) * m; std::string at = "quadratic pieces from " + str(o) + " along " + str(ts) + " to " + str(e) + " along " + str(te) + fmt(" times %g", la); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(ia, ib), twist), e.x), o.x), la)); std::vector<XYZW> M; bool ok = BezierCurve::ComputerMiddleControlPointsOnQuadraticCurve(toXYZ(o), toXYZ((ld)la * ts), toXYZ(e), toXYZ((ld)la * te), M); c.trans(); if (!ok) { c.count("refused"); return; } c.check(M.size() == 1 || M.size() == 3, "count", at + fmt(": %zu control points", M.size())); for (auto& x : M) c.check(std::isfinite(x.GetW()) && x.GetW() > 0, "weights", at + fmt(": weight %g", x.GetW())); std::vector<P3> P = {o}; for (auto& x : M) P.push_back(xyz(of(x))); P.push_back(e); ld L = dist(o, e); for (auto& x : P) L = std::max(L, dist(x, o)); c.check(dist(unit(P[1] - P[0]), ts) < 1e-5L, "start-tangent", at + ": starts along " + str(unit(P[1] - P[0]))); size_t z = P.size() - 1; c.check(dist(unit(P[z] - P[z - 1]), te) < 1e-5L, "end-tangent", at + ": ends along " + str(unit(P[z] - P[z - 1]))); if (M.size() == 3) c.check(len(cross(P[2] - P[1], unit(P[3] - P[1]))) < 1e-9L * L && dot(P[2] - P[1], P[3] - P[2]) > 0, "joint", at + ": a kink at the joint"); c.count(M.size() == 1 ? "one piece" : "two pieces");
}
// the weight: a circle for isosceles triangles, symmetric in the ends, invariant under scale, between 0 and 1
static void weights(Ctx& c) {
  static const std::vector<P3> Mid = {{2, 1, 0}, {2, 0.1L, 0}, {2, 9, 0}, {1, 1, 0}, {0.5L, 3, 0}, {3, 2, 0}, {-1, 2, 0}, {5, 1, 0}}; int k = c.pick((int)Mid.size()); double sc = c.pick(std::vector<double>{1, 1e-2, 1e3}); int rot = c.pick(3); c.shard(); P3 b = Mid[k], a{0, 0, 0}, e{4, 0, 0}; auto R = [&](P3 x) { P3 y = rot == 0 ? x : rot == 1 ? P3{x.y, x.x * 0.6L, x.x * 0.8L} : P3{x.x * 0.8L - x.y * 0.6L, 0, x.x * 0.6L + x.y * 0.8L}; return (ld)sc * (y + P3{1, 2, 3}); }; std::string at = fmt("weight of triangle %d at scale %g", k, sc); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(k, sc), rot)); double w = -1, v = -1, w0 = -1; bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(toXYZ(R(a)), toXYZ(R(b)), toXYZ(R(e)), w), ok2 = Interpolation::ComputerWeightForRationalQuadraticInterpolation(toXYZ(R(e)), toXYZ(R(b)), toXYZ(R(a)), v), ok3 = Interpolation::ComputerWeightForRationalQuadraticInterpolation(toXYZ(a), toXYZ(b), toXYZ(e), w0); c.trans(3); c.check(ok && ok2 && ok3, "weight", at + ": refused"); c.check(w > 0 && w < 1, "weight", at + fmt(": %g", w)); c.check(std::fabs(w - v) < 1e-6 && std::fabs(w - w0) < 1e-6, "weight", at + fmt(": %.12g, backwards %.12g, unscaled %.12g", w, v, w0)); ld sm = dist(a, b), em = dist(e, b), se = dist(a, e); if (std::fabs(sm - em) < 1e-12L) c.check(std::fabs(w - se / 2 / sm) < 1e-9L, "circle", at + fmt(": %.12g", w)); else { // between the two angle bisectors on the median
    P3 M = 0.5L * (a + e); auto cut = [&](P3 from, P3 to) { // ray from along to meets the median M + t (b - M)
      P3 d = b - M, r = to - from; ld det = r.x * -d.y + d.x * r.y; return (r.x * (M.y - from.y) * -1 + r.y * (M.x - from.x)) / det * -1; }; P3 D1 = e + (1 / (sm / se + 1)) * (b - e), D2 = a + (1 / (em / se + 1)) * (b - a); auto tof = [&](P3 from, P3 to) { P3 d = b - M, r = to - from; ld det = d.x * r.y - d.y * r.x; return ((from.x - M.x) * r.y - (from.y - M.y) * r.x) / det; }; (void)cut; ld s = 0.5L * (tof(a, D1) + tof(e, D2)); c.check(std::fabs(w - s / (1 - s)) < 1e-6L, "bisectors", at + fmt(": %.12g instead of %.12Lg", w, s / (1 - s))); } c.count("weights");
}
// knot removal bound: zero exactly for removable knots; bounded removal stays within the bound
static void bound(Ctx& c) {
  auto a = pickCurve(c, mc::tier(4, 5), 2, mc::tier(2, 3), 3, mc::tier(2, 3), 2, false, {0, 6}, {0}); c.shard(); int p = a.Degree; auto bk = breaks(a.KnotVector, p); int k = c.pick((int)bk.size() - 1); double u = bk[k] + 0.4 * (bk[k + 1] - bk[k]); std::string at = fmt("inserting %.9g into ", u) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(hash(a), u)); LN_NurbsCurve b; NurbsCurve::InsertKnot(a, u, 1, b); for (size_t i = p + 1; i + p + 1 < b.KnotVector.size(); i++) if (b.KnotVector[i] < b.KnotVector[i + 1]) { double x = b.KnotVector[i]; int s = mult(b.KnotVector, x); if (s > p) continue; double g = NurbsCurve::ComputerRemoveKnotErrorBound(b, i); c.trans(); Curve A(a); if (std::fabs(x - u) < 1e-12) c.check(g <= 1e-9 * (double)A.scl(), "removable", at + fmt(": bound %g for the inserted knot", g)); else { // jump of the derivative of order p - s + 1
        Curve B(b); int o = p - s + 1; auto r = B.der(x, o, (int)i), l = B.der(x, o, [&] { int q = (int)i; while (B.U[q] >= x) q--; return q; }()); ld j = dist(r[o], l[o]); if (j > 1e-3L) c.check(g > 1e-9, "not-removable", at + fmt(": bound %g for knot %.9g where derivative %d jumps by %Lg", g, x, o, j)); } c.count("bounds"); }
}
static void givenBound(Ctx& c) {
  auto a = pickCurve(c, mc::tier(3, 5), 3, mc::tier(1, 2), mc::tier(3, 5), mc::tier(2, 3), 2, false, {6, 1}, {0}); c.shard(); if (a.Degree < 2) c.skip(); Curve A(a); int np = c.pick(std::vector<int>{5, 20}); double e = c.pick(std::vector<double>{1e-3, 0.2, 50}); bool ins = c.flip(); LN_NurbsCurve b = a; if (ins) { auto bk = breaks(a.KnotVector, a.Degree); NurbsCurve::RefineKnotVector(a, {bk[0] + 0.3 * (bk[1] - bk[0]), bk[0] + 0.6 * (bk[1] - bk[0])}, b); } std::string at = fmt("removing knots to %g at %d parameters of ", e, np) + str(b); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(b), np), e), ins)); std::vector<double> us, er(np, 0.0); for (int i = 0; i < np; i++) us.push_back(A.lo() + (A.hi() - A.lo()) * i / (np - 1)); LN_NurbsCurve r; NurbsCurve::RemoveKnotsByGivenBound(b, us, er, e, r); c.trans(); Curve Q(r); std::string why; c.check(Q.valid(&why), "valid", at + ": " + why); c.check(Q.lo() == A.lo() && Q.hi() == A.hi(), "domain", at); ld worst = 0; for (double u : us) worst = std::max(worst, dist(Q.at(u), A.at(u))); c.check(worst <= e * 1.0001L + 1e-5L, "within", at + fmt(": off by %Lg", worst)); for (int i = 0; i < np; i++) c.check(dist(Q.at(us[i]), A.at(us[i])) <= er[i] * 1.0001L + 1e-5L, "reported", at + fmt(": reports error %g at %.9g", er[i], us[i])); for (double x : er) c.check(x <= e * 1.0001 + 1e-6, "errors", at + fmt(": reports error %g", x)); if (r.KnotVector.size() < b.KnotVector.size()) c.count("removed"); else c.count("kept"); if (ins) c.check(r.KnotVector.size() < b.KnotVector.size(), "redundant", at + ": redundant knots are kept");
}
static void tolerance(Ctx& c) { int n = 1 + c.pick(4); std::vector<XYZW> P; ld w = 1, d = 0; uint64_t h = n; for (int i = 0; i < n; i++) { double x = c.pick(std::vector<double>{0, 3, -40}), y = c.pick(std::vector<double>{1, 0.25, 4}); P.push_back(XYZW(XYZ(x, 2, -1), y)); w = std::min(w, (ld)y); d = std::max(d, len(P3{x, 2, -1})); h = mc::hd(mc::hd(h, x), y); } c.shard(); c.note("tolerance of %d points", n); c.state(h); double g = ValidationUtils::ComputeCurveModifyTolerance(P); c.trans(); c.check(std::fabs(g - 1e-4L * w / (1 + d)) < 1e-15L, "tolerance", fmt("%g", g)); c.count("tolerances"); }
MC_MAIN("C39", {{"derivCurve", derivCurve}, {"derivSurface", derivSurface}, {"middle", middle}, {"weights", weights}, {"bound", bound}, {"givenBound", givenBound}, {"tolerance", tolerance}})
