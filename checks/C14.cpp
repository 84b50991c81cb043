// C14: interpolating curves pass through their data (points, tangents) at the documented parameters.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "Interpolation.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;
// every polyline made of steps from a small alphabet
static const std::vector<XYZ>& steps() { static std::vector<XYZ> s = {XYZ(1, 0, 0), XYZ(0, 2, 0), XYZ(-1, 1, 0.5), XYZ(0.03, -0.1, 0.02), XYZ(0.3, -0.4, 1), XYZ(40, 30, 0)}; return s; }
static std::vector<XYZ> pickPoints(Ctx& c, int n, int alphabet, XYZ o, std::string& w) { std::vector<XYZ> q = {o}; for (int i = 1; i < n; i++) { int k = c.pick(alphabet); w += fmt("%d", k); q.push_back(q.back() + steps()[k]); } return q; }
// many points: an algorithm may treat long sequences differently; the steps follow a fixed pattern
static std::vector<XYZ> pattern(int n, int k, XYZ o, std::string& w) { std::vector<XYZ> q = {o}; static const std::vector<XYZ> S = {XYZ(1, 0, 0), XYZ(0, 2, 0), XYZ(-1, 1, 0.5), XYZ(0.6, -0.5, 0.2), XYZ(0.3, -0.4, 1)}; for (int i = 1; i < n; i++) { int a = k == 0 ? i % 2 : k == 1 ? (i * i + i / 3) % 5 : (i / 2 + (i % 2) * 3) % 5; if (i > 1 && w.back() == '0' + a) a = (a + 1) % 5; w += fmt("%d", a); q.push_back(q.back() + S[a]); } return q; }
static int manyN(Ctx& c, int p) { static const int N[] = {12, 16, 25, 33, 50, 65, 100}; int n = N[c.pick(mc::tier(6, 7))]; return std::max(n, p + 1); }
static uint64_t hp(const std::vector<XYZ>& q, uint64_t h) { for (auto& p : q) h = mc::hd(mc::hd(mc::hd(h, p.GetX()), p.GetY()), p.GetZ()); return h; }
static std::vector<ld> chord(const std::vector<XYZ>& q, bool cent) { std::vector<ld> u = {0}; for (size_t i = 1; i < q.size(); i++) { ld d = dist(of(q[i]), of(q[i - 1])); u.push_back(u.back() + (cent ? std::sqrt(d) : d)); } ld t = u.back(); for (auto& x : u) x /= t; return u; }
static void knotsMatch(Ctx& c, const std::string& at, const std::vector<double>& K, int p, const std::vector<ld>& uk) {
  int n = uk.size() - 1; c.check((int)K.size() == n + p + 2, "avg-size", at + fmt(": %zu knots", K.size())); for (int i = 0; i <= p; i++) c.check(K[i] == 0 && K[K.size() - 1 - i] == 1, "avg-clamp", at + str(K));
  for (int j = 1; j <= n - p; j++) { ld s = 0; for (int i = j; i <= j + p - 1; i++) s += uk[i]; c.check(std::fabs(K[p + j] - (double)(s / p)) < 1e-9, "avg-knots", at + ": averaged knot vector " + str(K)); }
}
static void parametersOf(Ctx& c, int n, const std::vector<XYZ>& q, const std::string& w) {
  c.note("parameters of %s", w.c_str()); c.state(hp(q, n)); std::string at = "points " + w;
  for (int cent = 0; cent < 2; cent++) { auto got = cent ? Interpolation::GetCentripetalParameterization(q) : Interpolation::GetChordParameterization(q); c.trans(); auto want = chord(q, cent); c.check(got.size() == want.size(), "par-size", at);
    for (size_t i = 0; i < got.size(); i++) c.check(std::fabs(got[i] - (double)want[i]) < 1e-10, "par", at + (cent ? ": centripetal" : ": chord") + fmt(" parameter %zu is %.9g", i, got[i])); }
  ld L = 0, S = 0; for (int i = 1; i < n; i++) { ld d = dist(of(q[i]), of(q[i - 1])); L += d; S += std::sqrt(d); }
  c.check(std::fabs(Interpolation::GetTotalChordLength(q) - (double)L) < 1e-9, "chordlen", at); c.check(std::fabs(Interpolation::GetCentripetalLength(q) - (double)S) < 1e-9, "centlen", at); c.trans(2);
  std::vector<double> uk; for (ld x : chord(q, false)) uk.push_back((double)x);
  for (int p = 1; p < std::min(n, 8); p++) { auto K = Interpolation::AverageKnotVector(p, uk); c.trans(); knotsMatch(c, at + fmt(" degree %d", p), K, p, chord(q, false)); }
  // knot vectors for approximation: valid, clamped, every span holds a parameter
  for (int p = 1; p <= (n > 8 ? 7 : 3); p++) for (int cnt = p + 1; cnt < n; cnt += n > 33 ? 7 : 1) { auto K = Interpolation::ComputeKnotVector(p, cnt, uk); c.trans(); c.check((int)K.size() == cnt + p + 1 && std::is_sorted(K.begin(), K.end()), "ck-valid", at + str(K)); for (int i = 0; i <= p; i++) c.check(K[i] == 0 && K[K.size() - 1 - i] == 1, "ck-clamp", at + str(K));
    for (int j = p; j + 1 < (int)K.size() - p; j++) { bool has = false; for (double u : uk) if (u >= K[j] && (u < K[j + 1] || (K[j + 1] == 1 && u == 1))) has = true; c.check(has, "ck-span", at + fmt(" degree %d count %d: a knot span without parameter in ", p, cnt) + str(K)); } }
  // tangent estimates: Bessel (three points), weighted (five points)
  if (n >= 3) { auto T = Interpolation::ComputeTangent(q); c.trans(); c.check((int)T.size() == n, "bessel-size", at); std::vector<P3> d; auto u = chord(q, false); for (int i = 0; i + 1 < n; i++) d.push_back((1 / (u[i + 1] - u[i])) * (of(q[i + 1]) - of(q[i]))); std::vector<P3> D(n);
    for (int i = 1; i + 1 < n; i++) { ld a = (u[i] - u[i - 1]) / (u[i + 1] - u[i - 1]); D[i] = (1 - a) * d[i - 1] + a * d[i]; } D[0] = 2 * d[0] - D[1]; D[n - 1] = 2 * d[n - 2] - D[n - 2];
    for (int i = 0; i < n; i++) c.check(near(of(T[i]), D[i], 1e-8 * (1 + len(D[i]))), "bessel", at + fmt(": tangent %d is ", i) + str(of(T[i])) + " instead of the Bessel tangent " + str(D[i])); }
  std::vector<XYZ> T5; bool ok = Interpolation::ComputeTangent(q, T5); c.trans(); c.check(ok == (n >= 5), "tan5", at + fmt(": %d points, returned %d", n, (int)ok));
  if (ok) { std::vector<P3> e; for (int i = 1; i < n; i++) e.push_back(of(q[i]) - of(q[i - 1])); P3 e0 = 2 * e[0] - e[1], em = 2 * e0 - e[0], f0 = 2 * e[n - 2] - e[n - 3], f1 = 2 * f0 - e[n - 2]; std::vector<P3> x = {em, e0}; for (auto& v : e) x.push_back(v); x.push_back(f0); x.push_back(f1);
    for (int k = 0; k < n; k++) { ld a = len(cross(x[k], x[k + 1])), b = len(cross(x[k + 2], x[k + 3])); if (a + b < 1e-9) continue; ld al = a / (a + b); P3 V = unit((1 - al) * x[k + 1] + al * x[k + 2]); c.check(near(of(T5[k]), V, 1e-6), "tan5-value", at + fmt(": five point tangent %d is ", k) + str(of(T5[k])) + " instead of " + str(V)); } }
  c.count("parameters");
}
static void parameters(Ctx& c) { int n = 2 + c.pick(mc::tier(5, 6)); c.shard(); std::string w; auto q = pickPoints(c, n, mc::tier(5, 6), XYZ(1, -1, 2), w); parametersOf(c, n, q, w); }
static void globalOf(Ctx& c, int p, int n, int mode, const std::vector<XYZ>& q, const std::string& w) {
  auto uk = chord(q, mode == 1); std::vector<double> given; if (mode == 1) for (ld u : uk) given.push_back((double)u); if (mode == 2) { uk.clear(); for (int i = 0; i < n; i++) { given.push_back((double)i / (n - 1)); uk.push_back(given.back()); } }
  c.note("degree %d through %s mode %d", p, w.c_str(), mode); c.state(mc::mix(hp(q, p), mode)); std::string at = fmt("degree %d interpolation (%s parameters) of ", p, mode == 0 ? "default" : mode == 1 ? "centripetal" : "uniform") + w;
  LN_NurbsCurve r; NurbsCurve::GlobalInterpolation(p, q, r, given); c.trans(); std::string why; Curve R(r); c.check(R.valid(&why), "valid", at + ": " + why); c.check(r.Degree == p && (int)r.ControlPoints.size() == n, "shape", at);
  knotsMatch(c, at, r.KnotVector, p, uk); for (int i = 0; i < n; i++) c.check(near(R.at((double)uk[i]), of(q[i]), 1e-7 * scale(R.P)), "through", at + fmt(": misses point %d: ", i) + str(R.at((double)uk[i])) + " instead of " + str(of(q[i])));
  c.count(fmt("degree %d", p));
}
static void global(Ctx& c) { int p = 1 + c.pick(mc::tier(5, 7)); int n = p + 1 + c.pick(mc::tier(3, 3)); int mode = c.pick(3); int o = c.pick(2); if (n > mc::tier(7, 9)) c.skip(); c.shard(); std::string w; auto q = pickPoints(c, n, n > 6 ? 2 : mc::tier(3, 4), o ? XYZ(300, -200, 100) : XYZ(0, 0, 0), w); globalOf(c, p, n, mode, q, w); }
static void tangentsOf(Ctx& c, int p, int n, double f, int tf, const std::vector<XYZ>& q, const std::string& w) {
  std::vector<XYZ> T;
  for (int i = 0; i < n; i++) T.push_back(tf == 0 ? XYZ(1, 0.5 * i, -1) : tf == 1 ? gen::pos(0, i + 2, n) : (i == 0 ? q[1] - q[0] : q[i] - q[i - 1]));
  c.note("degree %d through %s tangents %d factor %g", p, w.c_str(), tf, f); c.state(mc::hd(mc::mix(hp(q, p), tf), f)); std::string at = fmt("degree %d interpolation with tangents (family %d, factor %g) of ", p, tf, f) + w; LN_NurbsCurve r; NurbsCurve::GlobalInterpolation(p, q, T, f, r); c.trans();
  std::string why; Curve R(r); c.check(R.valid(&why), "t-valid", at + ": " + why + str(r.KnotVector)); c.check((int)r.ControlPoints.size() == 2 * n && r.Degree == p, "t-shape", at); auto uk = chord(q, false);
  for (int i = 0; i < n; i++) { auto d = R.der((double)uk[i], 1); c.check(near(d[0], of(q[i]), 1e-6 * scale(R.P)), "t-point", at + fmt(": misses point %d: ", i) + str(d[0]) + " instead of " + str(of(q[i])) + str(r.KnotVector)); c.check(near(d[1], f * of(T[i]), 1e-6 * (1 + f * len(of(T[i]))) * scale(R.P)), "t-tangent", at + fmt(": tangent %d is ", i) + str(d[1])); }
  c.count(fmt("degree %d", p));
}
static void tangents(Ctx& c) { int p = 2 + c.pick(mc::tier(3, 3)); int n = p + 1 + c.pick(mc::tier(3, 4)); double f = c.pick(std::vector<double>{1, 0.5, 3}); int tf = c.pick(3); c.shard(); std::string w; auto q = pickPoints(c, n, n > 5 ? 2 : 3, XYZ(1, 2, 3), w); tangentsOf(c, p, n, f, tf, q, w); }
static void localOf(Ctx& c, int n, const std::vector<XYZ>& q, const std::string& w) {
  c.note("local cubic %s", w.c_str()); c.state(hp(q, n)); std::string at = "local cubic interpolation of " + w; LN_NurbsCurve r;
  for (int i = 2; i < n; i++) if (w[i - 1] == w[i - 2]) c.skip();                        // straight runs leave the tangent undefined
  bool ok = NurbsCurve::CubicLocalInterpolation(q, r); c.trans(); c.check(ok == (n >= 5), "l-return", at + fmt(": returned %d", (int)ok)); if (!ok) { c.count("too few points"); return; }
  std::string why; Curve R(r); c.check(R.valid(&why), "l-valid", at + ": " + why); c.check(r.Degree == 3, "l-degree", at); std::vector<XYZ> T; Interpolation::ComputeTangent(q, T);
  auto b = breaks(r.KnotVector, 3); c.check((int)b.size() == n, "l-knots", at + fmt(": %zu distinct knots for %d points", b.size(), n)); if ((int)b.size() != n) return;
  for (int i = 0; i < n; i++) { auto d = R.der(b[i], 1); c.check(near(d[0], of(q[i]), 1e-7 * scale(R.P)), "l-point", at + fmt(": misses point %d: ", i) + str(d[0])); c.check(dist(unit(d[1]), unit(of(T[i]))) < 1e-6, "l-tangent", at + fmt(": tangent direction %d is ", i) + str(unit(d[1])) + " instead of " + str(of(T[i]))); }
  c.count("local");
}
static void local(Ctx& c) { int n = 2 + c.pick(mc::tier(5, 6)); c.shard(); std::string w; auto q = pickPoints(c, n, mc::tier(5, 6), XYZ(1, 2, 3), w); localOf(c, n, q, w); }
static void many(Ctx& c) { int what = c.pick(4); int p = what == 1 ? 1 + c.pick(7) : what == 2 ? 2 + c.pick(4) : 3; int k = c.pick(3), n = manyN(c, p); c.shard(); std::string w; auto q = pattern(n, k, k == 1 ? XYZ(30, -20, 10) : XYZ(1, 2, 3), w); if (what == 0) parametersOf(c, n, q, w); else if (what == 1) globalOf(c, p, n, c.pick(3), q, w); else if (what == 2) tangentsOf(c, p, n, c.pick(std::vector<double>{1, 0.5}), c.pick(3), q, w); else localOf(c, n, q, w); }
MC_MAIN("C14", {{"many", many}, {"parameters", parameters}, {"global", global}, {"tangents", tangents}, {"local", local}})
