// C16: point inversion on curves.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

// global minimum of the distance: dense sampling per span, then golden refinement around every local minimum
static ld minDist(const Curve& R, P3 q, const std::vector<double>& br, double* arg = nullptr) {
  ld best = 1e300; double b = 0; int n = 60; std::vector<double> us; for (size_t i = 0; i + 1 < br.size(); i++) for (int k = 0; k <= n; k++) us.push_back(br[i] + (br[i + 1] - br[i]) * k / n);
  std::vector<ld> d; for (double u : us) d.push_back(dist(R.at(u), q));
  for (size_t i = 0; i < us.size(); i++) { if ((i && d[i - 1] < d[i]) || (i + 1 < us.size() && d[i + 1] < d[i])) continue; double lo = us[i ? i - 1 : 0], hi = us[i + 1 < us.size() ? i + 1 : i]; for (int k = 0; k < 60; k++) { double a = lo + (hi - lo) * 0.382, c = lo + (hi - lo) * 0.618; if (dist(R.at(a), q) < dist(R.at(c), q)) hi = c; else lo = a; } double m = (lo + hi) / 2; ld x = std::min(d[i], dist(R.at(m), q)); if (x < best) { best = x; b = m; } }
  if (arg) *arg = b; return best;
}
static LN_NurbsCurve pick(Ctx& c) { auto cv = gen::pickCurve(c, mc::tier(4, 6), mc::tier(2, 3), mc::tier(2, 3), mc::tier(2, 4), mc::tier(1, 2), mc::tier(3, 4), false, mc::tier(std::vector<int>{0, 1, 3, 6, 2}, {0, 1, 2, 3, 5, 6, 7}), {0, 1}); c.shard(); return cv; }

static void on(Ctx& c) {
  auto cv = pick(c); auto us = params(cv.KnotVector, cv.Degree, mc::tier(3, 5)); double u = c.pick(us); c.note("on curve: %s at %.9g", gen::str(cv).c_str(), u); c.state(mc::hd(gen::hash(cv), u)); Curve R(cv); P3 q = R.at(u); auto before = cv;
  double t = NurbsCurve::GetParamOnCurve(cv, toXYZ(q)); c.trans(); std::string at = fmt("point at %.9g of ", u) + gen::str(cv).substr(0, 700); c.check(gen::same(cv, before), "input", at + ": input modified");
  c.check(t >= R.lo() - 1e-6 * (1 + std::fabs(R.lo())) && t <= R.hi() + 1e-6 * (1 + std::fabs(R.hi())), "on-range", at + fmt(": parameter %.9g outside the domain", t));
  t = std::min(std::max(t, R.lo()), R.hi()); ld d = dist(R.at(t), q); c.check(d <= 5e-4, "on-point", at + fmt(": returned %.9g whose point is %Lg away", t, d)); c.count("on the curve");
}
// weights so unequal that the sampling (100 per span) cannot resolve the curve
static bool uneven(const LN_NurbsCurve& c) { double a = 1e300, b = 0; for (auto& p : c.ControlPoints) { a = std::min(a, p.GetW()); b = std::max(b, p.GetW()); } return b > 50 * a; }
static void off(Ctx& c) {
  auto cv = pick(c); if (uneven(cv)) c.skip(); auto us = params(cv.KnotVector, cv.Degree, mc::tier(1, 2)); double u = c.pick(us); int dir = c.pick(mc::tier(4, 8)); double h = c.pick(std::vector<double>{0.02, 0.7, 5}); c.note("off curve: %s at %.9g dir %d by %g", gen::str(cv).c_str(), u, dir, h); c.state(mc::hd(mc::hd(gen::hash(cv), u), dir * 10 + h));
  static const P3 D[] = {{1, 0.2, 0.1}, {-0.3, 1, 0}, {0.1, -0.7, -0.7}, {0, 0, 1}, {-1, -0.2, 0.4}, {0, -1, 0}, {0.5, 0.5, -0.7}, {-0.4, 0.4, -0.8}}; Curve R(cv); P3 q = R.at(u) + (ld)h * unit(D[dir]); auto br = breaks(cv.KnotVector, cv.Degree);
  double t = NurbsCurve::GetParamOnCurve(cv, toXYZ(q)); c.trans(); std::string at = fmt("point %s (%g off parameter %.9g) of ", str(q).c_str(), h, u) + gen::str(cv).substr(0, 700);
  c.check(t >= R.lo() - 1e-6 * (1 + std::fabs(R.lo())) && t <= R.hi() + 1e-6 * (1 + std::fabs(R.hi())), "off-range", at + fmt(": parameter %.9g outside the domain", t)); t = std::min(std::max(t, R.lo()), R.hi());
  double b; ld m = minDist(R, q, br, &b), d = dist(R.at(t), q); c.check(d <= m + 1e-3 * (1 + m), "off-nearest", at + fmt(": returned %.9g at distance %Lg, but %.9g is at %Lg", t, d, b, m)); c.count("off the curve");
}
static void all(Ctx& c) {
  auto cv = pick(c); LN_ArcInfo ai; if (NurbsCurve::IsArc(cv, ai) && ai.IsCircle) c.skip(); auto us = params(cv.KnotVector, cv.Degree, mc::tier(2, 3)); double u = c.pick(us); c.note("all params: %s at %.9g", gen::str(cv).c_str(), u); c.state(mc::hd(gen::hash(cv), u)); Curve R(cv); P3 q = R.at(u);
  auto ts = NurbsCurve::GetAllParamsOnCurve(cv, toXYZ(q)); c.trans(); std::string at = fmt("all parameters of the point at %.9g of ", u) + gen::str(cv).substr(0, 700); bool hit = false;
  for (double t : ts) { c.check(t >= R.lo() - 1e-6 * (1 + std::fabs(R.lo())) && t <= R.hi() + 1e-6 * (1 + std::fabs(R.hi())), "all-range", at + fmt(": parameter %.9g outside the domain", t)); double s = std::min(std::max(t, R.lo()), R.hi()); hit |= dist(R.at(s), q) < 5e-4; }
  c.check(hit, "all-found", at + ": no returned parameter gives the point"); c.count(fmt("%zu parameters", ts.size()));
}
MC_MAIN("C16", {{"on", on}, {"off", off}, {"all", all}})
