// C34: shape editing of curves moves what it was asked to, by how much it was asked to, and nothing else.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;

static LN_NurbsCurve pick(Ctx& c, int maxP, bool unclamped = false) { return pickCurve(c, maxP, 2, mc::tier(1, 2), mc::tier(2, 3), mc::tier(1, 2), mc::tier(2, 3), unclamped, {0, 6}, {0, 1}); }
static ld R(const Curve& C, int i, double u) { int s = span(C.p, C.U, u); ld sum = 0, v = 0; for (int k = s - C.p; k <= s; k++) { ld t = N(k, C.p, C.U, (ld)u, s) * C.P[k].w; sum += t; if (k == i) v = t; } return v / sum; }
static void only(Ctx& c, const std::string& at, const LN_NurbsCurve& a, const LN_NurbsCurve& b, const std::vector<int>& moved, bool positions = true) {   // nothing else differs
  c.check(b.Degree == a.Degree && b.KnotVector == a.KnotVector && b.ControlPoints.size() == a.ControlPoints.size(), "structure", at + ": degree or knots changed"); Curve A(a), B(b); for (size_t i = 0; i < A.P.size(); i++) { bool m = std::count(moved.begin(), moved.end(), (int)i); P3 x = xyz(A.P[i]), y = xyz(B.P[i]); if (!m) c.check(near(y, x, 1e-12L * A.scl()) && std::fabs(A.P[i].w - B.P[i].w) <= 1e-12L * A.P[i].w, "others", at + fmt(": control point %zu changed", i)); else if (positions) c.check(std::fabs(A.P[i].w - B.P[i].w) <= 1e-12L * A.P[i].w, "weight-kept", at + fmt(": the weight of control point %zu changed", i)); else c.check(near(y, x, 1e-10L * A.scl()), "position-kept", at + fmt(": control point %zu moved", i)); }
}
static const XYZ DIR[] = {XYZ(1, 0, 0), XYZ(0.3, -2, 5), XYZ(0, 0, 0.01)};
static void reposition(Ctx& c) {
  auto a = pick(c, mc::tier(3, 5), true); c.shard(); Curve A(a); auto us = params(a.KnotVector, a.Degree, 2); double u = c.pick(us); int i = c.pick((int)A.P.size()); XYZ d = DIR[c.pick(3)]; double m = c.pick(std::vector<double>{2, -0.25, 40}); std::string at = fmt("moving control point %d so that the point at %.9g moves %g along ", i, u, m) + str(of(d)) + " of " + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), u), i), m + d.X())); ld r = R(A, i, u); if (r > 1e-12L && r < 2e-3L) c.skip(); LN_NurbsCurve b; bool ok = NurbsCurve::ControlPointReposition(a, u, i, d, m, b); c.trans();
  if (r <= 1e-12L) { c.check(!ok, "no-influence", at + ": done although the point has no influence"); c.count("no influence"); return; }
  c.check(ok, "reposition", at + ": refused"); only(c, at, a, b, {i}); P3 e = A.at(u) + unit(of(d)) * (ld)m, g = Curve(b).at(u); c.check(near(g, e, 1e-9L * (A.scl() + std::fabs(m)) / r), "reposition", at + ": moved to " + str(g) + ", expected " + str(e)); c.count("moved");
}
static void weightMove(Ctx& c) {
  auto a = pick(c, mc::tier(3, 5), true); c.shard(); Curve A(a); auto us = params(a.KnotVector, a.Degree, 2); double u = c.pick(us); int i = c.pick((int)A.P.size()); double f = c.pick(std::vector<double>{0.3, -0.1, 0.9, -0.5}); ld r = R(A, i, u); P3 x = A.at(u), q = xyz(A.P[i]); ld D = dist(x, q); double m = (double)(f * D); ld k = r > 0 ? 1 + m / (r * (D - m)) : 0; std::string at = fmt("changing weight %d so that the point at %.9g moves %g towards it of ", i, u, m) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), u), i), f)); LN_NurbsCurve b;
  if (r <= 1e-12L) { if (std::fabs(m) < 1e-3) c.skip(); bool t = false; try { NurbsCurve::WeightModification(a, u, i, m, b); } catch (const std::invalid_argument&) { t = true; } c.trans(); c.check(t, "weight-no-influence", at + ": done although the point has no influence"); c.count("no influence"); return; }
  if (r < 2e-3L || D < 0.05L || std::fabs(m) < 1e-3 || k < 0.05L) c.skip(); NurbsCurve::WeightModification(a, u, i, m, b); c.trans(); only(c, at, a, b, {i}, false); P3 e = x + unit(q - x) * (ld)m, g = Curve(b).at(u); c.check(near(g, e, 1e-8L * A.scl() / r), "weight", at + ": moved to " + str(g) + ", expected " + str(e)); c.count("weights");
}
static void neighbours(Ctx& c) {
  auto a = pick(c, mc::tier(4, 5), false); c.shard(); if (a.Degree < 2) c.skip(); Curve A(a); auto us = params(a.KnotVector, a.Degree, 2); double u = c.pick(us); int i = c.pick((int)A.P.size() - 1); double f = c.pick(std::vector<double>{0.3, -0.2, 0.8}); ld r0 = R(A, i, u), r1 = R(A, i + 1, u); if (r0 < 0.02L || r1 < 0.02L || r0 + r1 > 0.98L) c.skip(); Curve T = A; T.P[i].w = 0; T.P[i].x = T.P[i].y = T.P[i].z = 0; T.P[i + 1] = T.P[i]; P3 x = A.at(u), rr = T.at(u), p = xyz(A.P[i]), q = xyz(A.P[i + 1]); P3 Q = (r0 * p + r1 * q) * (1 / (r0 + r1)); ld room = f > 0 ? dist(x, Q) : dist(x, rr); if (room < 0.05L || dist(x, rr) < 0.05L || dist(p, q) < 0.05L) c.skip(); if (len(cross(unit(q - p), unit(x - rr))) < 0.1L) c.skip(); double m = (double)(f * room);
  std::string at = fmt("changing weights %d and %d so that the point at %.9g moves %g towards their leg of ", i, i + 1, u, m) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), u), i), f)); LN_NurbsCurve b; bool ok = NurbsCurve::NeighborWeightsModification(a, u, i, m, 1.0, b); c.trans(); c.check(ok, "neighbours", at + ": refused"); only(c, at, a, b, {i, i + 1}, false); P3 e = x + unit(Q - x) * (ld)m, g = Curve(b).at(u); c.check(near(g, e, 1e-6L * A.scl()), "neighbours", at + ": moved to " + str(g) + ", expected " + str(e)); c.count("weight pairs");
}
static void warp(Ctx& c) {
  auto a = pick(c, mc::tier(3, 4), false); c.shard(); Curve A(a); auto b0 = breaks(a.KnotVector, a.Degree); int n = A.P.size(); double d = c.pick(std::vector<double>{0.4, -0.75, 3, -2.5}); XYZ nrm = DIR[c.pick(3)]; int sh = c.pick(3); std::vector<double> s(n); for (int i = 0; i < n; i++) s[i] = sh == 0 ? 1 : sh == 1 ? (i % 3) * 0.5 : (i == n / 2 ? 1 : 0); int k0 = c.pick((int)b0.size() - 1), k1 = k0 + 1 + c.pick((int)b0.size() - 1 - k0); double u0 = b0[k0], u1 = b0[k1]; double h = 0.5 * (u0 + u1); if (mult(a.KnotVector, h) > a.Degree - 1) c.skip(); P3 t = A.der(h, 1)[1]; P3 w = cross(t, of(nrm)); if (len(w) < 0.02L * len(t) * len(of(nrm)) || len(t) < 1e-2L) c.skip();
  std::string at = fmt("warping by %g normal ", d) + str(of(nrm)) + fmt(" range [%.9g,%.9g] shape %d of ", u0, u1, sh) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(hash(a), d), sh * 100 + k0 * 10 + k1), nrm.Z())); LN_NurbsCurve b; NurbsCurve::Warping(a, s, d, nrm, u0, u1, b); c.trans(); std::vector<int> all; for (int i = 0; i < n; i++) if (s[i] != 0) all.push_back(i); only(c, at, a, b, all); Curve B(b); w = unit(w); for (int i = 0; i < n; i++) { P3 e = xyz(A.P[i]) + w * (ld)(s[i] * d); c.check(near(xyz(B.P[i]), e, 1e-9L * A.scl()), "warp", at + fmt(": control point %d at ", i) + str(xyz(B.P[i])) + ", expected " + str(e)); } c.count("warped");
}
static std::vector<int> inside(const LN_NurbsCurve& a, double u0, double u1) { std::vector<int> r; int s0 = span(a.Degree, a.KnotVector, u0), s1 = span(a.Degree, a.KnotVector, u1); for (int i = s0; i <= s1 - a.Degree - 1; i++) r.push_back(i); return r; }
static LN_NurbsCurve many(Ctx& c, int maxP) { int p = 1 + c.pick(7); if (p > maxP) { int k = c.pick(std::vector<int>{p + 2, 2 * p + 3}); return curve(p, clamped(p, std::vector<int>(k, 1), 0, domains()[0]), 6, 1); } int k = c.pick(std::vector<int>{p + 1, 2 * p + 2, 2 * p + 5}); int dm = c.pick(2), fam = c.pick(2); return curve(p, clamped(p, std::vector<int>(k, 1), fam, domains()[dm * 2]), c.pick(std::vector<int>{0, 6}), c.pick(2)); }
static void outside(Ctx& c, const std::string& at, const Curve& A, const Curve& B, double u0, double u1) { for (double u : params(A.U, A.p, 2)) if (u <= u0 || u >= u1) c.check(near(B.at(u), A.at(u), 1e-9L * A.scl()), "outside", at + fmt(": the curve outside the range changed at %.9g", u)); }
static void flatten(Ctx& c) {
  auto a = many(c, mc::tier(3, 4)); c.shard(); Curve A(a); auto b0 = breaks(a.KnotVector, a.Degree); int k0 = c.pick((int)b0.size() - 1), k1 = k0 + 1 + c.pick((int)b0.size() - 1 - k0); double u0 = b0[k0], u1 = b0[k1]; auto in = inside(a, u0, u1); static const XYZ L[][2] = {{XYZ(-200, -3, 2), XYZ(220, 5, -3)}, {XYZ(-3, -100, 0), XYZ(-3, 100, 0.5)}, {XYZ(-1, -2, -1), XYZ(2, 3, 1)}}; int l = c.pick(3); P3 p = of(L[l][0]), q = of(L[l][1]); std::string at = "flattening to " + str(p) + "-" + str(q) + fmt(" range [%.9g,%.9g] of ", u0, u1) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(hash(a), l * 1000 + k0 * 30 + k1)); LN_NurbsCurve b; bool ok = NurbsCurve::Flattening(a, L[l][0], L[l][1], u0, u1, b); c.trans(); Curve B(b); std::vector<int> moved; bool close = false; for (int i : in) { ld t = dot(xyz(A.P[i]) - p, q - p) / dot(q - p, q - p); if (std::fabs(t) < 1e-4L || std::fabs(t - 1) < 1e-4L) close = true; if (t >= 0 && t <= 1) moved.push_back(i); } if (close) c.skip();
  only(c, at, a, b, moved); for (int i : moved) { ld t = dot(xyz(A.P[i]) - p, q - p) / dot(q - p, q - p); P3 e = p + t * (q - p); c.check(near(xyz(B.P[i]), e, 1e-9L * (A.scl() + 300)), "foot", at + fmt(": control point %d at ", i) + str(xyz(B.P[i])) + ", expected " + str(e)); } c.check(ok == ((int)moved.size() >= a.Degree + 1), "flat-reported", at + fmt(": %zu control points on the line, reported %d", moved.size(), ok)); outside(c, at, A, B, u0, u1);
  for (double u : params(B.U, B.p, 2)) { int s = span(B.p, B.U, u); bool allIn = true; for (int i = s - B.p; i <= s; i++) allIn &= std::count(moved.begin(), moved.end(), i) > 0; if (allIn) { c.check(len(cross(B.at(u) - p, unit(q - p))) <= 1e-8L * (A.scl() + 300), "flat", at + fmt(": not on the line at %.9g", u)); c.count("points on the line"); } } c.count(ok ? "flattened" : "too few");
}
static void bend(Ctx& c) {
  auto a = many(c, mc::tier(3, 4)); c.shard(); Curve A(a); auto b0 = breaks(a.KnotVector, a.Degree); int k0 = c.pick((int)b0.size() - 1), k1 = k0 + 1 + c.pick((int)b0.size() - 1 - k0); double u0 = b0[k0], u1 = b0[k1]; auto in = inside(a, u0, u1); XYZ o = c.pick(std::vector<XYZ>{XYZ(0.3, 50, 0), XYZ(-20, 0.7, 31)}); double rad = c.pick(std::vector<double>{10, 45}), cr = c.pick(std::vector<double>{1, 1.5, 0.5}); std::string at = "bending about " + str(of(o)) + fmt(" radius %g ratio %g range [%.9g,%.9g] of ", rad, cr, u0, u1) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hash(a), rad * 10 + cr), o.X() + k0 * 1000 + k1)); LN_NurbsCurve b; NurbsCurve::Bending(a, u0, u1, o, rad, cr, b); c.trans(); only(c, at, a, b, in); Curve B(b); for (int i : in) { P3 p = xyz(A.P[i]); ld s = rad / dist(p, of(o)); ld t = cr * s / (1 + (cr - 1) * s); P3 e = of(o) + t * (p - of(o)); c.check(near(xyz(B.P[i]), e, 1e-9L * (A.scl() + 100)), "bend", at + fmt(": control point %d at ", i) + str(xyz(B.P[i])) + ", expected " + str(e)); if (cr == 1) c.check(std::fabs(dist(xyz(B.P[i]), of(o)) - rad) < 1e-8L * (A.scl() + 100), "circle", at + fmt(": control point %d is not on the circle", i)); } outside(c, at, A, B, u0, u1); c.count("bent");
}
static void constraint(Ctx& c) {
  auto a = pick(c, mc::tier(3, 4), false); c.shard(); Curve A(a); auto b0 = breaks(a.KnotVector, a.Degree); std::vector<double> us; for (size_t i = 0; i + 1 < b0.size(); i++) { us.push_back(b0[i] + 0.3 * (b0[i + 1] - b0[i])); } us.push_back(b0.back()); if (mc::tier(0, 1)) us.push_back(b0[0] + 0.7 * (b0[1] - b0[0])); int n = A.P.size(); int nc = 1 + c.pick(std::min(2, n - 1)); std::vector<double> up; std::vector<XYZ> D; std::vector<int> ri, dk; std::string at = "constraints"; std::set<std::pair<int, int>> seen; for (int i = 0; i < nc; i++) { int k = c.pick((int)us.size()), d = c.pick(std::min(a.Degree, 2) + 1); if (!seen.insert({k, d}).second) c.skip(); up.push_back(us[k]); ri.push_back(i); dk.push_back(d); D.push_back(i ? XYZ(0.2, 0.5, -0.1) : XYZ(1, -2, 0.3)); at += fmt(" order %d at %.9g", d, us[k]); }
  int fix = c.pick(4); std::vector<int> fx; if (fix == 1) fx = {0}; if (fix == 2) fx = {0, n - 1}; if (fix == 3) for (int i = 0; i < n; i += 2) fx.push_back(i); at += fmt(" fixed %d of ", fix) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hash(a), gen::hashv(up)), fix * 10000 + dk[0] * 1000 + (nc > 1 ? dk[1] * 100 + 10 : 0)));
  // the system: rational basis derivatives of the free control points the library may move
  std::vector<std::vector<ld>> B; for (int i = 0; i < nc; i++) { int s = span(A.p, A.U, up[i]); std::vector<ld> row(n, 0); for (int j = s - A.p; j <= s; j++) { Curve E = A; for (auto& q : E.P) q.x = 0, q.y = q.z = 0; E.P[j].x = E.P[j].w; row[j] = E.der(up[i], dk[i], s)[dk[i]].x; } B.push_back(row); } std::vector<std::vector<ld>> G(nc, std::vector<ld>(nc, 0)), G2 = G; for (int i = 0; i < nc; i++) for (int j = 0; j < nc; j++) for (int k = 0; k < n; k++) { bool big = false; for (int l = 0; l < nc; l++) big |= B[l][k] * B[l][k] > 1e-5L; bool small = false; for (int l = 0; l < nc; l++) small |= B[l][k] * B[l][k] > 1e-9L && B[l][k] * B[l][k] < 1e-3L; if (small && !big) c.skip(); if (std::count(fx.begin(), fx.end(), k)) continue; if (big) G[i][j] += B[i][k] * B[j][k]; }
  ld det = nc == 1 ? G[0][0] : G[0][0] * G[1][1] - G[0][1] * G[1][0]; ld nd = nc == 1 ? (G[0][0] > 0 ? 1 : 0) : (G[0][0] > 0 && G[1][1] > 0 ? det / (G[0][0] * G[1][1]) : 0); LN_NurbsCurve b; bool threw = false; try { NurbsCurve::ConstraintBasedModification(a, up, D, ri, dk, fx, b); } catch (const std::invalid_argument&) { threw = true; } c.trans();
  if (nd < 1e-16L) { bool none = false; for (int i = 0; i < nc; i++) none |= G[i][i] == 0; c.check(threw || !none, "dependent", at + ": constraints that cannot be met are accepted"); c.count("cannot be met"); return; } if (nd < 1e-4L) c.skip(); { ld a = G[0][0], b = a; for (int i = 1; i < nc; i++) { a = std::min<ld>(a, G[i][i]); b = std::max<ld>(b, G[i][i]); } if (b > 1e12L * a) c.skip(); } c.check(!threw, "constraint", at + ": refused"); only(c, at, a, b, [&] { std::vector<int> m; for (int k = 0; k < n; k++) if (!std::count(fx.begin(), fx.end(), k)) m.push_back(k); return m; }()); Curve C(b); for (int i = 0; i < nc; i++) { int s = span(A.p, A.U, up[i]); P3 e = A.der(up[i], dk[i], s)[dk[i]] + of(D[i]), g = C.der(up[i], dk[i], s)[dk[i]]; ld sc = 1 + len(e) + std::sqrt(G[i][i]) * A.scl(); c.check(near(g, e, 1e-8L * sc / nd), "constraint", at + fmt(": the derivative of order %d at %.9g is ", dk[i], up[i]) + str(g) + ", expected " + str(e)); } c.count("met");
}
MC_MAIN("C34", {{"reposition", reposition}, {"weightMove", weightMove}, {"neighbours", neighbours}, {"warp", warp}, {"flatten", flatten}, {"bend", bend}, {"constraint", constraint}})
