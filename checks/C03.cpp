// C03: Bernstein polynomials, Bezier evaluation, power-basis conversion.
#include "../mc/gen.hpp"
#include "Polynomials.h"
#include "MathUtils.h"
#include "ValidationUtils.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static ld binom(int n, int k) { ld r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
static ld bern(int i, int n, ld t) { return binom(n, i) * std::pow(t, (ld)i) * std::pow(1 - t, (ld)(n - i)); }
static const std::vector<double> T = {0, 1, 0.5, 0.25, 0.75, 0.1, 0.9, 1.0 / 3, 0.01, 0.99, 0.6180339887, 1e-3};

static void bernstein(Ctx& c) {
  int n = c.pick(mc::tier(16, 21)); double t = c.pick(T); c.shard();
  c.note("Bernstein degree=%d t=%.12g", n, t); c.state(mc::hd(n, t));
  auto all = Polynomials::AllBernstein(n, t); c.trans(); ld sum = 0;
  c.check((int)all.size() == n + 1, "size", fmt("degree %d: %zu values", n, all.size()));
  for (int i = 0; i <= n; i++) {
    double b = Polynomials::Bernstein(i, n, t); c.trans(); ld e = bern(i, n, t); sum += all[i];
    c.check(std::fabs(b - e) < 1e-10, "bernstein", fmt("B(%d,%d)(%.12g) = %.15g, expected %.15g", i, n, t, b, (double)e));
    c.check(std::fabs(all[i] - e) < 1e-10, "allbernstein", fmt("AllB(%d,%d)(%.12g) = %.15g, expected %.15g", i, n, t, all[i], (double)e));
  }
  c.check(std::fabs(sum - 1) < 1e-10, "unity", "sum of Bernstein polynomials");
  c.count("bernstein");
}
static void horner(Ctx& c) {
  int n = 1 + c.pick(7); int f = c.pick(4); double t = c.pick(std::vector<double>{0, 1, 0.5, -1, 2, -0.3, 10, 0.37}); c.shard();
  std::vector<double> a; for (int i = 0; i <= n; i++) a.push_back(f == 0 ? i + 1.0 : f == 1 ? ((i * 7 + 3) % 11) - 5.0 : f == 2 ? (i == n) : (i % 2 ? -1.5 : 2.25));
  c.note("Horner degree=%d coeffs=%s t=%g", n, str(a).c_str(), t); c.state(mc::hd(gen::hashv(a), t));
  ld e = 0, tp = 1, mag = 1; for (int i = 0; i <= n; i++) { e += a[i] * tp; mag += std::fabs(a[i] * tp); tp *= t; }
  double g = Polynomials::Horner(n, a, t); c.trans();
  c.check(std::fabs(g - e) <= 1e-12 * mag, "horner", fmt("degree %d t=%g: %.15g, expected %.15g", n, t, g, (double)e));
  if (t >= 0 && t <= 1) for (int m = 1; m <= 4; m++) {
    std::vector<std::vector<double>> A; for (int i = 0; i <= n; i++) { A.emplace_back(); for (int j = 0; j <= m; j++) A.back().push_back(a[i] * (j + 1) + ((i * 3 + j * 5) % 4) - 1.0); }
    for (double v : {0.0, 1.0, 0.3, 0.8}) { UV uv(t, v); double r = Polynomials::Horner(n, m, A, uv); c.trans(); ld s = 0, mg = 1; for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) { ld x = A[i][j] * std::pow((ld)t, (ld)i) * std::pow((ld)v, (ld)j); s += x; mg += std::fabs(x); } c.check(std::fabs(r - s) <= 1e-12 * mg, "horner2", fmt("degrees %d,%d at (%g,%g): %.15g, expected %.15g", n, m, t, v, r, (double)s)); }
  }
  c.count("horner");
}
static void matrices(Ctx& c) {
  int n = 1 + c.pick(mc::tier(10, 14)); c.shard(); c.note("Bezier<->power degree=%d", n); c.state(n + 900);
  auto M = Polynomials::BezierToPowerMatrix(n); auto I = Polynomials::PowerToBezierMatrix(n, M); c.trans(2);
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) {
    ld e = j <= i ? binom(n, j) * binom(n - j, i - j) * (((i - j) % 2) ? -1 : 1) : 0;      // a_i = sum_j M[i][j] P_j
    c.check(std::fabs(M[i][j] - e) <= 1e-9 * (1 + std::fabs(e)), "b2p", fmt("degree %d: M[%d][%d] = %g, expected %g", n, i, j, M[i][j], (double)e));
    ld ei = j <= i ? binom(i, j) / binom(n, j) : 0;
    c.check(std::fabs(I[i][j] - ei) <= 1e-9 * (1 + std::fabs(ei)), "p2b", fmt("degree %d: M^-1[%d][%d] = %g, expected %g", n, i, j, I[i][j], (double)ei));
  }
  c.count("conversion matrices");
}
static void bezier(Ctx& c) {
  int n = 1 + c.pick(7), pf = c.pick(6), wf = c.pick(5); double t = c.pick(T); c.shard();
  c.note("Bezier curve degree=%d points#%d weights#%d t=%.12g", n, pf, wf, t); 
  LN_BezierCurve<XYZW> b; b.Degree = n; LN_BezierCurve<XYZ> q; q.Degree = n; P4 e; P3 e3;
  for (int i = 0; i <= n; i++) { XYZ x = gen::pos(pf, i, n + 1); b.ControlPoints.emplace_back(XYZW(x, gen::weight(wf, i))); q.ControlPoints.push_back(x); e = e + bern(i, n, t) * of(b.ControlPoints.back()); e3 = e3 + bern(i, n, t) * of(x); }
  uint64_t h = n; for (auto& w : b.ControlPoints) { h = mc::hd(h, w.GetWX()); h = mc::hd(h, w.GetW()); } c.state(mc::hd(h, t));
  ld sc = scale([&] { std::vector<P4> v; for (auto& w : b.ControlPoints) v.push_back(of(w)); return v; }()) * 10;
  auto g1 = of(BezierCurve::GetPointOnCurveByBernstein(b, t)), g2 = of(BezierCurve::GetPointOnCurveByDeCasteljau(b, t)); c.trans(2);
  auto cmp = [&](P4 g, const char* k) { ld d = std::max(std::max(std::fabs(g.x - e.x), std::fabs(g.y - e.y)), std::max(std::fabs(g.z - e.z), std::fabs(g.w - e.w))); c.check(d <= 1e-10 * sc, k, fmt("degree %d t=%g differs by %Lg", n, t, d)); };
  cmp(g1, "bezier-bernstein"); cmp(g2, "bezier-decasteljau");
  c.check(near(of(BezierCurve::GetPointOnCurveByBernstein(q, t)), e3, 1e-10 * sc), "bezier-bernstein3", fmt("degree %d t=%g", n, t));
  c.check(near(of(BezierCurve::GetPointOnCurveByDeCasteljau(q, t)), e3, 1e-10 * sc), "bezier-decasteljau3", fmt("degree %d t=%g", n, t)); c.trans(2);
  if (n == 2) { P3 g = of(BezierCurve::GetPointOnQuadraticArc(b.ControlPoints[0], b.ControlPoints[1], b.ControlPoints[2], t)); c.trans(); c.check(near(g, xyz(e), 1e-9 * sc), "quadratic-arc", fmt("weights#%d t=%g: %s, expected %s", wf, t, str(g).c_str(), str(xyz(e)).c_str())); c.count("quadratic arc"); }
  c.count("bezier curve");
}
static void bezierSurface(Ctx& c) {
  int n = 1 + c.pick(5), m = 1 + c.pick(5), pf = c.pick(4), wf = c.pick(3); c.shard(); double u = c.pick(T), v = c.pick(T);
  c.note("Bezier surface degrees=%d,%d net#%d weights#%d (%.9g,%.9g)", n, m, pf, wf, u, v);
  LN_BezierSurface<XYZW> b; b.DegreeU = n; b.DegreeV = m; P4 e; ld sc = 1; uint64_t h = n * 10 + m;
  for (int i = 0; i <= n; i++) { b.ControlPoints.emplace_back(); for (int j = 0; j <= m; j++) { XYZW w(gen::pos2(pf, i, j, n + 1, m + 1), gen::weight2(wf, i, j)); h = mc::hd(mc::hd(h, w.GetWX()), w.GetW()); b.ControlPoints.back().push_back(w); e = e + bern(i, n, u) * bern(j, m, v) * of(w); sc = std::max(sc, 10 * len(P3{w.GetWX(), w.GetWY(), w.GetWZ()})); } }
  c.state(mc::hd(mc::hd(h, u), v));
  P4 g = of(BezierSurface::GetPointOnSurfaceByDeCasteljau(b, UV(u, v))); c.trans();
  ld d = std::max(std::max(std::fabs(g.x - e.x), std::fabs(g.y - e.y)), std::max(std::fabs(g.z - e.z), std::fabs(g.w - e.w)));
  c.check(d <= 1e-10 * sc, "bezier-surface", fmt("degrees %d,%d at (%g,%g) differs by %Lg", n, m, u, v, d));
  c.count("bezier surface");
}
MC_MAIN("C03", {{"bernstein", bernstein}, {"horner", horner}, {"matrices", matrices}, {"bezier", bezier}, {"bezierSurface", bezierSurface}})
