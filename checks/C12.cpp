// C12: reversal, reparametrization, clamping and the shape predicates.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "KnotVectorUtils.h"
#include <set>
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;
static LN_NurbsCurve source(Ctx& c, bool unclamped) {
  return gen::pickCurve(c, mc::tier(6, 7), mc::tier(2, 3), mc::tier(4, 7), mc::tier(5, 8), mc::tier(3, 4), mc::tier(3, 5), unclamped, mc::tier(std::vector<int>{0, 3, 7}, {0, 1, 3, 4, 5, 7}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2, 4}));
}
static void reverse(Ctx& c) {
  auto cv = source(c, true); c.shard(); c.note("reverse %s", gen::str(cv).c_str()); c.state(gen::hash(cv)); std::string at = "reverse of " + gen::str(cv).substr(0, 600); auto before = cv;
  LN_NurbsCurve r; NurbsCurve::Reverse(cv, r); c.trans(); c.check(gen::same(cv, before), "input", at + ": input modified");
  double a = cv.KnotVector[0], b = cv.KnotVector.back(); c.check(r.Degree == cv.Degree, "rev-degree", at);
  c.check(r.KnotVector.size() == cv.KnotVector.size() && std::fabs(r.KnotVector[0] - a) < 1e-9 && std::fabs(r.KnotVector.back() - b) < 1e-9, "rev-domain", at + ": " + str(r.KnotVector));
  gen::sameCurve(c, "rev-shape", at, cv, r, 1e-8, [&](double u) { return a + b - u; });
  LN_NurbsCurve q = cv; NurbsCurve::Reverse(q, q); c.trans(); c.check(gen::same(q, r), "rev-alias", at + ": reversing in place differs from reversing into another curve");
  LN_NurbsCurve s; NurbsCurve::Reverse(r, s); c.trans(); gen::sameCurve(c, "rev-twice", at, cv, s, 1e-8); c.count("reversed");
}
static void affine(Ctx& c) {
  auto cv = source(c, true); c.shard(); static const std::vector<std::pair<double, double>> R = {{0, 1}, {-1, 1}, {2, 2.5}, {-5, -1}, {0, 100}, {100, 101.5}, {0, 1.0000001}};
  auto mm = c.pick(R); c.note("reparametrize to [%g,%g] %s", mm.first, mm.second, gen::str(cv).c_str()); c.state(mc::hd(mc::hd(gen::hash(cv), mm.first), mm.second));
  std::string at = fmt("reparametrize to [%g,%g] of ", mm.first, mm.second) + gen::str(cv).substr(0, 600); auto before = cv; LN_NurbsCurve r;
  NurbsCurve::Reparametrize(cv, mm.first, mm.second, r); c.trans(); c.check(gen::same(cv, before), "input", at + ": input modified");
  double a = cv.KnotVector[0], b = cv.KnotVector.back(), k = (mm.second - mm.first) / (b - a);
  c.check(r.KnotVector.size() == cv.KnotVector.size(), "rep-knots", at);
  for (size_t i = 0; i < r.KnotVector.size(); i++) c.check(std::fabs(r.KnotVector[i] - (mm.first + k * (cv.KnotVector[i] - a))) < 2e-6 * (1 + std::fabs(mm.second)), "rep-knots", at + ": " + str(r.KnotVector));
  double ra = r.KnotVector[0], rk = (r.KnotVector.back() - ra) / (b - a);
  gen::sameCurve(c, "rep-shape", at, cv, r, 1e-8, [&](double u) { return ra + rk * (u - a); });
  auto kv = KnotVectorUtils::Rescale(cv.KnotVector, mm.first, mm.second); c.trans();
  c.check(kv.size() == cv.KnotVector.size(), "rescale", at); for (size_t i = 0; i < kv.size(); i++) c.check(std::fabs(kv[i] - (mm.first + k * (cv.KnotVector[i] - a))) < 1e-9 * (1 + std::fabs(mm.second)), "rescale", at + ": " + str(kv));
  c.count("affine");
}
static void mobius(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(4, 6), mc::tier(2, 3), mc::tier(2, 5), mc::tier(3, 5), mc::tier(1, 2), 3, true, {0}, {0, 1}); c.shard();
  static const std::vector<double> G = {-2, -1, 0, 0.5, 1, 3}; double al = c.pick(G), be = c.pick(G), ga = c.pick(G), de = c.pick(G);
  double D = al * de - ga * be; double lo = cv.KnotVector[0], hi = cv.KnotVector.back(); double m0 = ga * lo + de, m1 = ga * hi + de;
  c.note("g(u)=(%g u + %g)/(%g u + %g) on %s", al, be, ga, de, gen::str(cv).c_str());
  std::string at = fmt("reparametrize g(u)=(%g u + %g)/(%g u + %g) of ", al, be, ga, de) + gen::str(cv).substr(0, 600);
  if (D > -1e-5 && D < 1e-5 && D != 0) c.skip();
  if (D > 0 && (m0 * m1 <= 0 || std::min(std::fabs(m0), std::fabs(m1)) < 0.05 * std::max(std::fabs(m0), std::fabs(m1)))) c.skip();   // pole in (or close to) the domain
  c.state(mc::hd(mc::hd(mc::hd(mc::hd(gen::hash(cv), al), be), ga), de)); auto before = cv; LN_NurbsCurve r;
  bool threw = false; try { NurbsCurve::Reparametrize(cv, al, be, ga, de, r); } catch (std::invalid_argument&) { threw = true; } c.trans();
  c.check(gen::same(cv, before), "input", at + ": input modified");
  c.check(threw == (D <= 0), "mob-guard", at + (threw ? ": rejected an increasing map" : ": accepted a map that is not increasing")); if (threw) { c.count("rejected"); return; }
  auto g = [&](double u) { return (al * u + be) / (ga * u + de); };
  c.check(r.KnotVector.size() == cv.KnotVector.size() && r.Degree == cv.Degree, "mob-knots", at);
  for (size_t i = 0; i < r.KnotVector.size(); i++) c.check(std::fabs(r.KnotVector[i] - g(cv.KnotVector[i])) < 1e-9 * (1 + std::fabs(g(cv.KnotVector[i]))), "mob-knots", at + ": " + str(r.KnotVector));
  gen::sameCurve(c, "mob-shape", at, cv, r, 1e-7, g); c.count("mobius");
}
static void clamp(Ctx& c) {
  int dir = c.pick(2); LN_NurbsCurve cv;
  if (dir == 0) { cv = source(c, true); if (gen::isClamped(cv)) {                                   // partially clamped: loosen l knots at the start, r at the end
      int p = cv.Degree, l = c.pick(p + 1), r = c.pick(p + 1), w = c.pick(2); if (l + r == 0) c.skip(); double h = w ? 0.25 : 1.5;
      for (int i = 0; i < l; i++) cv.KnotVector[i] -= h * (l - i); for (int i = 0; i < r; i++) cv.KnotVector[cv.KnotVector.size() - 1 - i] += h * (r - i); } }
  else { cv = gen::pickCurve(c, mc::tier(5, 6), mc::tier(4, 5), 1, 9, mc::tier(2, 4), 3, false, {0, 1, 3}, {0}); }
  c.shard(); c.note("%s %s", dir ? "unclamp" : "clamp", gen::str(cv).c_str()); c.state(gen::hash(cv)); std::string at = (dir ? "unclamp of " : "clamp of ") + gen::str(cv).substr(0, 600); auto before = cv; LN_NurbsCurve r;
  double a = cv.KnotVector[cv.Degree], b = cv.KnotVector[cv.KnotVector.size() - cv.Degree - 1];
  if (dir == 0) NurbsCurve::ToClampCurve(cv, r); else NurbsCurve::ToUnclampCurve(cv, r); c.trans(); c.check(gen::same(cv, before), "input", at + ": input modified");
  std::string key = dir ? "unclamp" : "clamp"; std::string why; c.check(Curve(r).valid(&why), key + "-valid", at + ": " + why + " " + gen::str(r).substr(0, 500));
  double ra = r.KnotVector[r.Degree], rb = r.KnotVector[r.KnotVector.size() - r.Degree - 1];
  c.check(std::fabs(ra - a) < 1e-9 * (1 + std::fabs(a)) && std::fabs(rb - b) < 1e-9 * (1 + std::fabs(b)), key + "-domain", at + fmt(": domain [%.9g,%.9g], expected [%.9g,%.9g]", ra, rb, a, b));
  bool isc = gen::isClamped(r); c.check(isc == (dir == 0), key + "-kind", at + ": result knots " + str(r.KnotVector));
  gen::sameCurve(c, key + "-shape", at, cv, r, 1e-7, nullptr, a, b); c.count(key);
  if (dir == 1) { LN_NurbsCurve t; NurbsCurve::ToClampCurve(r, t); c.trans(); gen::sameCurve(c, "roundtrip", at, cv, t, 1e-7, nullptr, a, b); }
}
static void isclamp(Ctx& c) {
  auto cv = source(c, true); c.shard(); int l = c.pick(cv.Degree + 2), r = c.pick(2);                 // additionally: loosen l knots at one end
  if (l) { int p = cv.Degree; double h = 0.25; for (int i = 0; i < l && i <= p; i++) { if (r) cv.KnotVector[cv.KnotVector.size() - 1 - i] += h * (l - i); else cv.KnotVector[i] -= h * (l - i); } if (l > p) c.skip(); }
  c.note("predicate on %s", gen::str(cv).c_str()); c.state(gen::hash(cv));
  bool got = NurbsCurve::IsClamp(cv); c.trans(); int p = cv.Degree; bool want = mult(cv.KnotVector, cv.KnotVector[0]) == p + 1 && mult(cv.KnotVector, cv.KnotVector.back()) == p + 1;
  c.check(got == want, "isclamp", fmt("IsClamp returned %d for ", (int)got) + gen::str(cv).substr(0, 500)); c.count(want ? "clamped" : "not clamped");
}
// every word over a small alphabet of positions as control polygon
static void words(Ctx& c) {
  static const std::vector<XYZ> A = {XYZ(0, 0, 0), XYZ(2, 1, 0), XYZ(4, 2, 0), XYZ(1, -2, 0.5), XYZ(-1, -0.5, 0)};
  int p = 1 + c.pick(mc::tier(3, 4)); int n = p + 1 + c.pick(mc::tier(3, 4)); if (n > mc::tier(5, 6)) c.skip(); int wf = c.pick(2); c.shard();
  std::vector<int> m; for (int i = 0; i < n - p - 1; i++) m.push_back(1); LN_NurbsCurve cv; cv.Degree = p; cv.KnotVector = gen::clamped(p, m); std::string w; std::vector<int> ix;
  for (int i = 0; i < n; i++) { int k = c.pick((int)A.size()); ix.push_back(k); w += fmt("%d", k); cv.ControlPoints.push_back(XYZW(A[k], gen::weight(wf, i))); }
  c.note("polygon %s p=%d wf=%d", w.c_str(), p, wf); c.state(gen::hash(cv)); std::string at = fmt("degree %d curve with control polygon %s (weights %d) ", p, w.c_str(), wf);
  bool closed = NurbsCurve::IsClosed(cv); c.trans(); c.check(closed == (ix[0] == ix.back()), "isclosed", at + fmt(": IsClosed returned %d", (int)closed));
  bool lin = true; std::set<int> s(ix.begin(), ix.end()); if (s.size() > 2) for (int k : s) if (k == 3) lin = false;      // 0,1,2,4 are collinear
  bool got = NurbsCurve::IsLinear(cv); c.trans(); c.check(got == lin, "islinear", at + fmt(": IsLinear returned %d", (int)got)); c.count(fmt("%s %s", closed ? "closed" : "open", lin ? "linear" : "bent"));
}
static void periodic(Ctx& c) {
  int p = 1 + c.pick(mc::tier(5, 6)); int own = p + 1 + c.pick(mc::tier(4, 5)); int dom = c.pick(3); int wf = c.pick(2); int broken = c.pick(3); c.shard();
  LN_NurbsCurve cv; cv.Degree = p; int n = own + p; auto d = gen::domains()[dom]; double h = (d.b - d.a) / own;
  for (int i = 0; i < n + p + 1; i++) cv.KnotVector.push_back(d.a + (i - p) * h);
  for (int i = 0; i < n; i++) cv.ControlPoints.push_back(XYZW(gen::pos(6, i % own, own), gen::weight(wf, i % own)));
  if (broken == 1) cv.ControlPoints.back() = XYZW(XYZ(50, 60, 70), 1); if (broken == 2) cv.KnotVector.back() += h / 2;
  c.note("periodic? broken=%d %s", broken, gen::str(cv).c_str()); c.state(gen::hash(cv));
  bool got = NurbsCurve::IsPeriodic(cv); c.trans(); c.check(got == (broken == 0), "isperiodic", fmt("IsPeriodic returned %d (%s) for ", (int)got, broken == 0 ? "wrapped control points, uniform knots" : broken == 1 ? "last control point moved" : "last knot moved") + gen::str(cv).substr(0, 500));
  if (!broken) { bool cl = NurbsCurve::IsClosed(cv); c.trans(); c.check(cl, "periodic-closed", "IsClosed is false for the periodic curve " + gen::str(cv).substr(0, 500)); }
  c.count(broken ? "broken" : "periodic");
}
MC_MAIN("C12", {{"reverse", reverse}, {"affine", affine}, {"mobius", mobius}, {"clamp", clamp}, {"isclamp", isclamp}, {"words", words}, {"periodic", periodic}})
