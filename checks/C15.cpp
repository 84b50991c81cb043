// C15: least-squares and error-bounded approximation of point sequences.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "Interpolation.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static const std::vector<XYZ>& steps() { static std::vector<XYZ> s = {XYZ(1, 0, 0), XYZ(0.5, 2, 0), XYZ(-1, 1, 0.5), XYZ(0.1, -0.2, 0.1), XYZ(3, -4, 1)}; return s; }
static std::vector<XYZ> word(Ctx& c, int n, int alphabet, std::string& w) { std::vector<XYZ> q = {XYZ(1, -1, 2)}; for (int i = 1; i < n; i++) { int k = c.pick(alphabet); w += fmt("%d", k); q.push_back(q.back() + steps()[k]); } return q; }
static std::vector<XYZ> family(int f, int n) { std::vector<XYZ> q; for (int i = 0; i < n; i++) { double t = i / (n - 1.0); q.push_back(f == 0 ? XYZ(i, std::sin(i * 0.7) * 2, 0) : f == 1 ? XYZ(10 * t * t, t * t * t * 7, std::cos(5 * t)) : f == 2 ? XYZ(1 + 4 * t, 2 - t, 3 * t) : XYZ(std::cos(6 * t) * 1000, std::sin(6 * t) * 1000, 300 * t)); } return q; }
static uint64_t hp(const std::vector<XYZ>& q, uint64_t h) { for (auto& p : q) h = mc::hd(mc::hd(mc::hd(h, p.GetX()), p.GetY()), p.GetZ()); return h; }
static ld size(const std::vector<XYZ>& q) { ld s = 1; for (auto& p : q) s = std::max(s, len(of(p))); return s; }
static std::vector<double> chord(const std::vector<XYZ>& q) { std::vector<ld> u = {0}; for (size_t i = 1; i < q.size(); i++) u.push_back(u.back() + dist(of(q[i]), of(q[i - 1]))); std::vector<double> r; for (auto x : u) r.push_back((double)(x / u.back())); return r; }

static void lsq(Ctx& c, int p, int cnt, const std::vector<XYZ>& q, const std::string& at) {
  LN_NurbsCurve r; bool ok = NurbsCurve::LeastSquaresApproximation(p, q, cnt, r); c.trans();
  c.check(ok, "lsq-refused", at + ": refused"); int n = cnt - 1; ld s = size(q);
  std::string why; Curve R(r); c.check(r.Degree == p && (int)r.ControlPoints.size() == cnt && R.valid(&why), "lsq-valid", at + ": invalid " + why);
  c.check(std::fabs(R.lo()) < 1e-12 && std::fabs(R.hi() - 1) < 1e-12, "lsq-domain", at);
  for (auto& w : r.ControlPoints) c.check(std::fabs(w.GetW() - 1) < 1e-12, "lsq-weights", at);
  c.check(near(R.at(0), of(q.front()), 1e-9 * s) && near(R.at(1), of(q.back()), 1e-9 * s), "lsq-ends", at + ": the ends are not interpolated");
  auto u = chord(q);                                            // stationarity: no change of an inner control point can lower the squared error
  for (int i = 1; i < n; i++) { P3 g{0, 0, 0}; for (size_t k = 1; k + 1 < q.size(); k++) { ld N = ref::N(i, p, r.KnotVector, u[k]); P3 d = of(q[k]) - R.at(u[k]); g = g + d * N; }
    c.check(len(g) < 1e-7 * s, "lsq-optimal", at + fmt(": not the least-squares curve, gradient %Lg at control point %d", len(g), i)); }
  c.count(fmt("least squares, degree %d", p));
}
static void words(Ctx& c) { int p = 1 + c.pick(mc::tier(3, 5)); int m = p + 2 + c.pick(mc::tier(3, 4)); if (m > mc::tier(7, 8)) c.skip(); int cnt = p + 1 + c.pick(m - p - 1); c.shard(); std::string w; auto q = word(c, m, mc::tier(4, 5), w); c.note("least squares degree %d, %d control points, word %s", p, cnt, w.c_str()); c.state(hp(q, p * 100 + cnt)); lsq(c, p, cnt, q, fmt("degree %d, %d control points for word %s", p, cnt, w.c_str())); }
// many points: an algorithm may treat long sequences differently
static void large(Ctx& c) { static const int M[] = {20, 25, 33, 40, 64, 65, 100, 130}; int p = 1 + c.pick(7); int f = c.pick(4); int m = M[c.pick(mc::tier(7, 8))]; c.shard(); std::vector<int> C; for (int x : {p + 1, p + 2, p + 7, 17, 33, m / 2, 2 * m / 3, m - 1}) if (x > p && x < m && (p < 4 || x < m - 1)) C.push_back(x); int cnt = C[c.pick((int)C.size())]; auto q = family(f, m); c.note("least squares degree %d, %d control points, family %d of %d", p, cnt, f, m); c.state(hp(q, p * 100 + cnt)); lsq(c, p, cnt, q, fmt("degree %d, %d control points for %d points of family %d", p, cnt, m, f)); }
static void boundedLarge(Ctx& c) { static const int M[] = {12, 20, 33, 50}; int p = 1 + c.pick(7); int f = c.pick(4); int m = M[c.pick(mc::tier(3, 4))]; c.shard(); double e = c.pick(std::vector<double>{0.01, 0.5}); auto q = family(f, m); std::string at = fmt("degree %d, bound %g, %d points of family %d", p, e, m, f); c.note("%s", at.c_str()); c.state(hp(q, p));
  LN_NurbsCurve r; NurbsCurve::GlobalApproximationByErrorBound(p, q, e, r); c.trans(); Curve R(r); std::string why; c.check(r.Degree == p && R.valid(&why), "bounded-valid", at + ": " + why); auto u = chord(q);
  for (size_t i = 0; i < q.size(); i++) { ld d = dist(R.at(u[i]), of(q[i])); c.check(d <= e * 1.0001 + 1e-9, "bounded-error", at + fmt(": point %zu is missed by %Lg", i, d)); } c.count("bounded, many points"); }
static void families(Ctx& c) { int p = 1 + c.pick(mc::tier(5, 7)); int f = c.pick(4); int m = p + 2 + c.pick(mc::tier(12, 30)); int cnt = p + 1 + c.pick(m - p - 1); c.shard(); auto q = family(f, m); c.note("least squares degree %d, %d control points, family %d of %d", p, cnt, f, m); c.state(hp(q, p * 100 + cnt)); lsq(c, p, cnt, q, fmt("degree %d, %d control points for %d points of family %d", p, cnt, m, f)); }

// weighted and constrained: positive weight = approximate, negative = interpolate, zero = ignore
static void weighted(Ctx& c) {
  int p = 2 + c.pick(mc::tier(2, 3)); int m = p + 3 + c.pick(mc::tier(1, 3)); int cnt = p + 1 + c.pick(mc::tier(2, 3)); if (cnt > m) c.skip(); int f = c.pick(2); int nt = c.pick(3); int ti = nt ? c.pick(m) : 0; int tj = nt > 1 ? c.pick(m) : 0; if (nt > 1 && tj == ti) c.skip(); int tw = nt ? c.pick(2) : 0; c.shard();
  auto q = family(f, m); std::vector<double> w; int con = 0; std::string ws; for (int i = 0; i < m; i++) { double x = c.pick(std::vector<double>{1, -1, 2.5}); w.push_back(x); ws += x > 0 ? (x > 1 ? "+" : "1") : "-"; if (x < 0) con++; }
  std::vector<XYZ> T; std::vector<int> idx; std::vector<double> W; for (int k = 0; k < nt; k++) { T.push_back(k ? XYZ(3, -1, 2) : XYZ(2, 5, 1)); idx.push_back(k ? tj : ti); W.push_back(tw == k ? -1 : 0.7); if (tw == k) con++; }
  if (con > cnt - 2 || con == m) c.skip(); std::string at = fmt("degree %d, %d control points, %d points of family %d, weights %s, %d tangents at %d,%d", p, cnt, m, f, ws.c_str(), nt, ti, tj); c.note("%s", at.c_str()); c.state(mc::mix(hp(q, p * 100 + cnt), std::hash<std::string>()(at)));
  // skip systems that have no unique solution: constraints or data do not determine the control points
  auto u = chord(q); std::vector<double> K = Interpolation::ComputeKnotVector(p, cnt, u); c.trans();
  std::vector<std::vector<ld>> M, N; for (int i = 0; i < m; i++) { std::vector<ld> row; for (int j = 0; j < cnt; j++) row.push_back(ref::N(j, p, K, u[i])); (w[i] < 0 ? M : N).push_back(row); }
  for (int k = 0; k < nt; k++) { std::vector<ld> row; for (int j = 0; j < cnt; j++) row.push_back(ref::dN(j, p, K, u[idx[k]], 1)); (W[k] < 0 ? M : N).push_back(row); }
  auto rank = [&](std::vector<std::vector<ld>> A, ld& cond) { int r = 0; cond = 1e300; for (int col = 0; col < cnt && r < (int)A.size(); col++) { int b = r; for (int i = r; i < (int)A.size(); i++) if (std::fabs(A[i][col]) > std::fabs(A[b][col])) b = i; if (std::fabs(A[b][col]) < 1e-9) continue; std::swap(A[b], A[r]); cond = std::min(cond, std::fabs(A[r][col])); for (int i = r + 1; i < (int)A.size(); i++) { ld f = A[i][col] / A[r][col]; for (int j = col; j < cnt; j++) A[i][j] -= f * A[r][j]; } r++; } return r; };
  ld c1, c2; auto all = M; all.insert(all.end(), N.begin(), N.end()); if (rank(M, c1) < (int)M.size() || rank(all, c2) < cnt || c1 < 1e-3 || c2 < 1e-3) { c.count("no unique solution, skipped"); return; }
  LN_NurbsCurve r; bool ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, q, w, T, idx, W, cnt, r); c.trans();
  c.check(ok, "weighted-refused", at + ": refused"); Curve R(r); std::string why; ld s = size(q); c.check(r.Degree == p && (int)r.ControlPoints.size() == cnt && R.valid(&why), "weighted-valid", at + ": " + why);
  for (int i = 0; i < m; i++) if (w[i] < 0) c.check(near(R.at(u[i]), of(q[i]), 1e-6 * s), "constraint", at + fmt(": point %d is constrained but missed by %Lg", i, dist(R.at(u[i]), of(q[i]))));
  for (int k = 0; k < nt; k++) if (W[k] < 0) c.check(near(R.der(u[idx[k]], 1)[1], of(T[k]), 1e-5 * s), "tangent-constraint", at + fmt(": tangent %d is constrained but missed", k));
  // optimality: the gradient of the weighted squared error is orthogonal to every direction that keeps the constraints
  std::vector<P3> g(cnt); for (int j = 0; j < cnt; j++) { P3 a{0, 0, 0}; for (int i = 0; i < m; i++) if (w[i] > 0) a = a + (of(q[i]) - R.at(u[i])) * (ref::N(j, p, K, u[i]) * (ld)w[i]); for (int k = 0; k < nt; k++) if (W[k] > 0) a = a + (of(T[k]) - R.der(u[idx[k]], 1)[1]) * (ref::dN(j, p, K, u[idx[k]], 1) * (ld)W[k]); g[j] = a; }
  auto B = M; ld cc; std::vector<P3> gg = g;                        // project the gradient on the row space complement: eliminate with the constraint rows
  for (size_t a = 0; a < B.size(); a++) { for (size_t b = 0; b < a; b++) { ld d = 0; for (int j = 0; j < cnt; j++) d += B[a][j] * B[b][j]; for (int j = 0; j < cnt; j++) B[a][j] -= d * B[b][j]; } ld l = 0; for (auto x : B[a]) l += x * x; l = std::sqrt(l); for (auto& x : B[a]) x /= l; P3 d{0, 0, 0}; for (int j = 0; j < cnt; j++) d = d + gg[j] * B[a][j]; for (int j = 0; j < cnt; j++) gg[j] = gg[j] - d * B[a][j]; } (void)cc;
  for (int j = 0; j < cnt; j++) c.check(len(gg[j]) < 1e-5 * s, "weighted-optimal", at + fmt(": not optimal, projected gradient %Lg", len(gg[j])));
  c.count(fmt("weighted, %d constraints", con));
}
static void bounded(Ctx& c) {
  int p = 1 + c.pick(mc::tier(4, 5)); int kind = c.pick(2); int m = std::max(p + 2, 4) + c.pick(mc::tier(3, 6)); double e = c.pick(std::vector<double>{1e-3, 0.05, 0.5, 5}); c.shard(); std::string w; std::vector<XYZ> q = kind ? word(c, std::min(m, mc::tier(6, 7)), mc::tier(4, 5), w) : family(c.pick(4), m);
  c.note("error bound %g degree %d kind %d m %d word %s", e, p, kind, m, w.c_str()); c.state(hp(q, p)); std::string at = fmt("degree %d, bound %g, %zu points, word %s", p, e, q.size(), w.c_str());
  LN_NurbsCurve r; NurbsCurve::GlobalApproximationByErrorBound(p, q, e, r); c.trans(); Curve R(r); std::string why; c.check(r.Degree == p && R.valid(&why), "bounded-valid", at + ": " + why + gen::str(r).substr(0, 500)); auto u = chord(q);
  for (size_t i = 0; i < q.size(); i++) { ld d = dist(R.at(u[i]), of(q[i])); c.check(d <= e * 1.0001 + 1e-9, "bounded-error", at + fmt(": point %zu is missed by %Lg", i, d)); }
  c.count(fmt("bounded %d", (int)r.ControlPoints.size()));
}
// fit one conic / cubic segment to the points between two indices: success means every inner point lies within the bound
static ld distTo(const Curve& R, P3 q) { ld best = 1e300; double b = 0; int n = 400; for (int i = 0; i <= n; i++) { double u = i / (double)n; ld d = dist(R.at(u), q); if (d < best) { best = d; b = u; } } double h = 1.0 / n; for (int k = 0; k < 40; k++) { h /= 2; for (double u : {b - h, b + h}) if (u >= 0 && u <= 1) { ld d = dist(R.at(u), q); if (d < best) { best = d; b = u; } } } return best; }
static void fit(Ctx& c) {
  int cubic = c.pick(2); int shape = c.pick(4); int inner = c.pick(mc::tier(4, 5)); int lead = c.pick(2); double noise = c.pick(std::vector<double>{0, 0.02, 0.3}); double e = c.pick(std::vector<double>{1e-4, 0.05, 1}); c.shard(); int spacing = c.pick(2);
  // exact source segment
  LN_NurbsCurve src; src.Degree = cubic ? 3 : 2; src.KnotVector = cubic ? std::vector<double>{0, 0, 0, 0, 1, 1, 1, 1} : std::vector<double>{0, 0, 0, 1, 1, 1};
  if (!cubic) { static const double W[] = {1, 0.6, 2, 0.3}; src.ControlPoints = {XYZW(XYZ(0, 0, 0), 1), XYZW(XYZ(2, 3, shape > 1), W[shape]), XYZW(XYZ(5, 1, 0), 1)}; }
  else { static const XYZ A[] = {XYZ(1, 2, 0), XYZ(1, 2, 1), XYZ(0.5, 3, 0), XYZ(2, 1, -1)}, B[] = {XYZ(3, 2, 0), XYZ(3, 2, 0), XYZ(3, 2.5, 0.5), XYZ(3, 1.5, 0)}; src.ControlPoints = {XYZW(XYZ(0, 0, 0), 1), XYZW(A[shape], 1), XYZW(B[shape], 1), XYZW(XYZ(4, 0, 0), 1)}; }
  Curve S(src); std::vector<XYZ> q; if (lead) q.push_back(XYZ(-1, -1, 0)); for (int i = 0; i <= inner + 1; i++) { double u = i / (inner + 1.0); if (spacing) u = u * u * (3 - 2 * u); P3 p = S.at(u); if (i && i <= inner) p = p + P3{0, (i % 2 ? 1 : -1) * (ld)noise, 0}; q.push_back(toXYZ(p)); } if (lead) q.push_back(XYZ(6, -3, 0));
  if (q.size() < 3) c.skip(); int a = lead, b = lead + inner + 1; XYZ t0 = toXYZ(unit(S.der(0, 1)[1])), t1 = toXYZ(unit(S.der(1, 1)[1]));
  std::string at = fmt("%s shape %d, %d inner points, lead %d, noise %g, bound %g, spacing %d", cubic ? "cubic" : "conic", shape, inner, lead, noise, e, spacing); c.note("%s", at.c_str()); c.state(std::hash<std::string>()(at));
  auto K = [&](const char* k) { return std::string(cubic && inner ? "cubic-" : "") + k; };
  std::vector<XYZW> mid; bool ok = cubic ? NurbsCurve::FitWithCubic(q, a, b, t0, t1, e, mid) : NurbsCurve::FitWithConic(q, a, b, t0, t1, e, mid); c.trans();
  if (!ok) { c.check(noise > 0 || inner == 0 || cubic, K("fit-refused"), at + ": points of an exact conic segment are refused"); c.count("fit refused"); return; }
  c.check((int)mid.size() == (cubic ? 2 : 1), K("fit-points"), at + fmt(": %zu middle control points", mid.size()));
  LN_NurbsCurve r = src; for (size_t i = 0; i < mid.size(); i++) r.ControlPoints[1 + i] = mid[i]; Curve R(r); std::string why; c.check(R.valid(&why), K("fit-valid"), at + why);
  auto d0 = R.der(0, 1)[1], d1 = R.der(1, 1)[1]; c.check(len(cross(unit(d0), of(t0))) < 1e-4 && dot(d0, of(t0)) > 0 && len(cross(unit(d1), of(t1))) < 1e-4 && dot(d1, of(t1)) > 0, K("fit-tangents"), at + ": end tangents are wrong");
  for (int i = a + 1; i < b; i++) { ld d = distTo(R, of(q[i])); c.check(d <= e * 1.001 + 1e-5, K("fit-error"), at + fmt(": reported as fitted but point %d is %Lg away", i, d)); }
  c.count(fmt("%s fitted", cubic ? "cubic" : "conic"));
}
MC_MAIN("C15", {{"words", words}, {"families", families}, {"large", large}, {"bounded-large", boundedLarge}, {"weighted", weighted}, {"bounded", bounded}, {"fit", fit}})
