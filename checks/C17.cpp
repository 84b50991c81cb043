// C17: arc length of curves, parameters at given lengths, quadrature rules.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "Integrator.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static const IntegratorType T[] = {IntegratorType::GaussLegendre, IntegratorType::Simpson, IntegratorType::Chebyshev}; static const char* TN[] = {"Gauss-Legendre", "Simpson", "Chebyshev"};
static void gl(int n, std::vector<ld>& x, std::vector<ld>& w) { x.resize(n); w.resize(n); const ld pi = 3.141592653589793238462643383279502884L; for (int i = 0; i < n; i++) { ld z = std::cos(pi * (i + 0.75L) / (n + 0.5L)), d = 1; for (int k = 0; k < 50; k++) { ld p0 = 1, p1 = z; for (int j = 2; j <= n; j++) { ld p2 = ((2 * j - 1) * z * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; } d = n * (z * p1 - p0) / (z * z - 1); ld s = p1 / d; z -= s; if (std::fabs(s) < 1e-18L) break; } x[i] = z; w[i] = 2 / ((1 - z * z) * d * d); } }
static ld lengthOf(const LN_NurbsCurve& cv, double a, double b) {
  static std::vector<ld> x, w; if (x.empty()) gl(12, x, w); Curve R(cv); auto br = breaks(cv.KnotVector, cv.Degree); ld L = 0;
  for (size_t i = 0; i + 1 < br.size(); i++) { double lo = std::max(a, br[i]), hi = std::min(b, br[i + 1]); if (hi <= lo) continue; int sp = span(cv.Degree, cv.KnotVector, (br[i] + br[i + 1]) / 2); int n = 12; for (int k = 0; k < n; k++) { ld l = lo + (hi - lo) * (ld)k / n, h = (hi - lo) / (ld)n; for (size_t j = 0; j < x.size(); j++) L += w[j] * h / 2 * len(R.der((double)(l + h * (1 + x[j]) / 2), 1, sp)[1]); } }
  return L;
}
static LN_NurbsCurve pick(Ctx& c, int maxP, const std::vector<int>& fam, int t) { bool q = t || !mc::thorough(); auto T2 = [&](int a, int b) { return q ? a : b; }; int p = 2 + c.pick(maxP); if (p > maxP) { static const std::vector<std::pair<int, std::vector<int>>> B = {{6, {}}, {7, {}}, {7, {1}}, {5, {1, 2}}, {3, std::vector<int>(12, 1)}, {2, std::vector<int>(20, 1)}, {4, {1, 1, 1, 1, 1}}}; auto& b = c.pick(B); int a = c.pick(fam), w = c.pick(2); c.shard(); return gen::curve(b.first, gen::clamped(b.first, b.second, 0, gen::domains()[0]), a, w); } auto k = gen::pickKnots(c, p, T2(2, 3), T2(2, 3), T2(3, 4), T2(2, 3), mc::tier(3, 5), false); int a = c.pick(fam), b = c.pick(T2(2, 3)); c.shard(); return gen::curve(p, k.U, a, b); }
static bool wild(const LN_NurbsCurve& cv) { double a = 1e9, b = 0; for (auto& q : cv.ControlPoints) a = std::min(a, q.GetW()), b = std::max(b, q.GetW()); return b > 20 * a; }   // steep weights: only Gauss-Legendre promises accuracy
static ld tolOf(int t, ld L, bool w) { return t == 0 ? (w ? 1e-2 : 2e-3) * L + 1e-6 : 3e-2 * L + 1e-3; }

static void whole(Ctx& c) {
  int t = c.pick(3); auto cv = pick(c, t ? 5 : mc::tier(5, 7), {0, 1, 3, 5, 6, 7}, t); c.note("length of %s by %s", gen::str(cv).c_str(), TN[t]); c.state(mc::hd(gen::hash(cv), t)); Curve R(cv); auto before = cv;
  double l = NurbsCurve::ApproximateLength(cv, T[t]); c.trans(); ld L = lengthOf(cv, R.lo(), R.hi()); c.check(gen::same(cv, before), "input", "input modified");
  c.check(std::fabs(l - L) <= tolOf(t, L, wild(cv)), std::string("length-") + TN[t], fmt("%s length %.9g, true length %.9Lg of ", TN[t], l, L) + gen::str(cv).substr(0, 800)); c.count(TN[t]);
}
static void part(Ctx& c) {
  int t = c.pick(3); auto cv = pick(c, t ? 4 : mc::tier(4, 5), {0, 6}, t); if (t == 1 && breaks(cv.KnotVector, cv.Degree).size() > 8) c.skip();   /* adaptive Simpson over many pieces at once promises nothing */ auto us = params(cv.KnotVector, cv.Degree, 1); std::sort(us.begin(), us.end()); us.erase(std::unique(us.begin(), us.end()), us.end()); int i = c.pick((int)us.size()), j = c.pick((int)us.size()); if (j <= i || us[j] - us[i] < 1e-3) c.skip();
  c.note("length of %s in [%g,%g] by %s", gen::str(cv).c_str(), us[i], us[j], TN[t]); c.state(mc::hd(mc::hd(gen::hash(cv), us[i]), us[j] + t)); double l = NurbsCurve::ApproximateLength(cv, us[i], us[j], T[t]); c.trans(); ld L = lengthOf(cv, us[i], us[j]);
  c.check(std::fabs(l - L) <= tolOf(t, L, wild(cv)), std::string("part-") + TN[t], fmt("%s length of [%.9g,%.9g] is %.9g, true %.9Lg, ", TN[t], us[i], us[j], l, L) + gen::str(cv).substr(0, 700)); c.count("part");
}
// straight curves: every word of positions on a line, back and forth
static void straight(Ctx& c) {
  int p = 1 + c.pick(mc::tier(3, 4)); int n = p + 1 + c.pick(mc::tier(2, 3)); int t = c.pick(3); int wf = c.pick(2); c.shard(); LN_NurbsCurve cv; cv.Degree = p; std::string w; static const double A[] = {0, 1, 2.5, 4}; std::vector<int> m(n - p - 1, 1); cv.KnotVector = gen::clamped(p, m, 0, gen::domains()[1]);
  bool distinct = true; double last = -1; for (int i = 0; i < n; i++) { int k = c.pick(4); w += fmt("%d", k); cv.ControlPoints.push_back(XYZW(XYZ(1 + A[k] * 2, 2 - A[k], A[k] * 2), gen::weight(wf, i))); distinct &= k != last; last = k; } (void)distinct;
  c.note("straight %s degree %d", w.c_str(), p); c.state(gen::hash(cv)); if (w.find_first_not_of(w[0]) == std::string::npos) c.skip();
  if (p == 1) { bool mono = true, up = true; up = std::is_sorted(w.begin(), w.end()); mono = up || std::is_sorted(w.rbegin(), w.rend()); if (!mono) c.skip(); }   // polylines are refused by design unless they are one straight run
  if (t == 1 && !std::is_sorted(w.begin(), w.end()) && !std::is_sorted(w.rbegin(), w.rend())) c.skip();   // the speed has kinks, where adaptive Simpson promises nothing
  Curve R(cv); double l = NurbsCurve::ApproximateLength(cv, T[t]); c.trans(); ld L = lengthOf(cv, R.lo(), R.hi()); c.check(std::fabs(l - L) <= 0.05 * L, "straight", fmt("%s length %.9g of the straight curve %s (degree %d), true %.9Lg", TN[t], l, w.c_str(), p, L)); c.count("straight");
}
static void at(Ctx& c) {
  int t = mc::thorough() ? c.pick(3) : 0; auto cv = pick(c, t ? 3 : mc::tier(3, 5), {0, 1, 6}, t); double f = c.pick(std::vector<double>{0.05, 0.31, 0.5, 0.77, 0.999, 1.3}); c.note("parameter at %g of the length of %s", f, gen::str(cv).c_str()); c.state(mc::hd(gen::hash(cv), f)); Curve R(cv); ld L = lengthOf(cv, R.lo(), R.hi()); double g = (double)(f * L);
  double u = NurbsCurve::GetParamOnCurve(cv, g, T[t]); c.trans(); std::string a = fmt("parameter at length %.9g (%g of the whole) of ", g, f) + gen::str(cv).substr(0, 700);
  c.check(u >= R.lo() - 1e-9 && u <= R.hi() + 1e-9, "at-range", a + fmt(": %.9g is outside the domain", u)); if (f > 1) { c.check(std::fabs(u - R.hi()) < 1e-9, "at-end", a + ": not the end"); c.count("beyond the end"); return; }
  ld l = lengthOf(cv, R.lo(), u); c.check(std::fabs(l - g) <= (t || wild(cv) ? 3e-2 : 2e-3) * L + 1e-3, "at-length", a + fmt(": returned %.9g, where the length is %.9Lg", u, l)); c.count("at length");
}
static void steps(Ctx& c) {
  auto cv = pick(c, mc::tier(3, 4), {0, 6}, 0); double f = c.pick(std::vector<double>{0.21, 0.34, 0.52, 1.2}); int t = 0; c.note("steps of %g of the length of %s", f, gen::str(cv).c_str()); c.state(mc::hd(gen::hash(cv), f)); Curve R(cv); ld L = lengthOf(cv, R.lo(), R.hi()); double g = (double)(f * L);
  auto us = NurbsCurve::GetParamsOnCurve(cv, g, T[t]); c.trans(); std::string a = fmt("steps of length %.9g of ", g) + gen::str(cv).substr(0, 700); size_t want = (size_t)(1 / f); c.check(us.size() == want, "steps-count", a + fmt(": %zu parameters, expected %zu", us.size(), want));
  double p = R.lo(); for (double u : us) { ld l = lengthOf(cv, p, u); c.check(u > p && std::fabs(l - g) <= (wild(cv) ? 3e-2 : 2e-3) * L + 1e-3, "steps-length", a + fmt(": from %.9g to %.9g the length is %.9Lg", p, u, l)); p = u; } c.count(fmt("%zu steps", us.size()));
}
// quadrature rules on polynomials: Simpson up to cubic (bicubic), Gauss-Legendre nodes up to degree 47, Clenshaw-Curtis to its epsilon
struct Mono : IntegrationFunction { int k; double operator()(double x, void*) override { return std::pow(x, k); } };
struct Mono2 : BinaryIntegrationFunction { int a, b; double operator()(double x, double y, void*) const override { return std::pow(x, a) * std::pow(y, b); } };
static void rules(Ctx& c) {
  int kind = c.pick(4); int k = c.pick(kind == 0 ? 4 : kind == 1 ? 16 : kind == 2 ? 40 : 12); double a = c.pick(std::vector<double>{0, -1, 0.5, -2}), b = a + c.pick(std::vector<double>{1, 2, 0.3, 3}); c.note("rule %d degree %d [%g,%g]", kind, k, a, b); c.state(mc::hd(mc::hd(kind * 100 + k, a), b));
  auto I = [](int k, ld a, ld b) { return (std::pow(b, (ld)(k + 1)) - std::pow(a, (ld)(k + 1))) / (k + 1); }; ld S = std::max((ld)1, std::pow(std::max(std::fabs((ld)a), std::fabs((ld)b)), (ld)k)) * (b - a);
  if (kind == 0) { Mono m; m.k = k; double r = Integrator::Simpson(m, nullptr, a, b); c.trans(); c.check(std::fabs(r - I(k, a, b)) < 1e-10 * S, "simpson", fmt("Simpson of x^%d over [%g,%g] is %.12g", k, a, b, r)); }
  else if (kind == 1) { Mono2 m; m.a = k / 4; m.b = k % 4; double r = Integrator::Simpson(m, nullptr, a, b, a - 1, b + 0.5); c.trans(); ld e = I(m.a, a, b) * I(m.b, a - 1, b + 0.5); c.check(std::fabs(r - e) < 1e-9 * (1 + std::fabs(e)) * 100, "simpson2", fmt("Simpson of x^%d y^%d over [%g,%g]x[%g,%g] is %.12g, not %.12Lg", m.a, m.b, a, b, a - 1, b + 0.5, r, e)); }
  else if (kind == 2) { ld s = 0; auto& X = Integrator::GaussLegendreAbscissae; auto& W = Integrator::GaussLegendreWeights; c.check(X.size() == 24 && W.size() == 24, "gauss-size", "order is not 24"); for (size_t i = 0; i < X.size(); i++) s += W[i] * std::pow((ld)((b - a) / 2 * X[i] + (a + b) / 2), (ld)k) * (b - a) / 2; c.trans(); c.check(std::fabs(s - I(k, a, b)) < 1e-9 * S, "gauss", fmt("Gauss-Legendre of x^%d over [%g,%g] is %.12Lg, not %.12Lg", k, a, b, s, I(k, a, b))); }
  else { Mono m; m.k = k; int h = c.pick(2); auto s = Integrator::ChebyshevSeries(); double r = h ? Integrator::ClenshawCurtisQuadrature2(m, nullptr, a, b, s) : Integrator::ClenshawCurtisQuadrature(m, nullptr, a, b, s); c.trans(); c.check(std::fabs(r - I(k, a, b)) < 1e-3 * S, "clenshaw", fmt("Clenshaw-Curtis of x^%d over [%g,%g] is %.12g, not %.12Lg", k, a, b, r, I(k, a, b)));
    double r2 = h ? Integrator::ClenshawCurtisQuadrature2(m, nullptr, a, b, s) : Integrator::ClenshawCurtisQuadrature(m, nullptr, a, b, s); c.trans(); c.check(std::fabs(r2 - r) < 1e-12 * S, "clenshaw-again", fmt("a second Clenshaw-Curtis with the same series gives %.12g instead of %.12g", r2, r)); }
  c.count(fmt("rule %d", kind));
}
MC_MAIN("C17", {{"whole", whole}, {"part", part}, {"straight", straight}, {"at", at}, {"steps", steps}, {"rules", rules}})
