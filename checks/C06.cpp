// C06: knot insertion and refinement change the description of a curve, never the curve.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "KnotVectorUtils.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static std::vector<double> insertable(const LN_NurbsCurve& cv, int perSpan) {   // interior parameters: knots and span interiors
  std::vector<double> r; auto us = params(cv.KnotVector, cv.Degree, perSpan); for (double u : us) if (u > us.front() && u < us.back()) r.push_back(u); std::sort(r.begin(), r.end()); return r;
}
static void insert(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(5, 7), mc::tier(2, 3), mc::tier(4, 7), mc::tier(4, 7), mc::tier(2, 4), mc::tier(3, 5), true, mc::tier(std::vector<int>{0, 5}, {0, 1, 3, 4, 5, 7}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2, 4})); c.shard();
  auto us = insertable(cv, mc::tier(2, 3)); if (us.empty()) c.skip(); double u = c.pick(us); int p = cv.Degree; int times = 1 + c.pick(p + 1);
  c.note("insert %.9g x%d into %s", u, times, gen::str(cv).c_str()); c.state(mc::mix(mc::hd(gen::hash(cv), u), times));
  std::string at = fmt("insert knot %.9g %d time(s) into ", u, times) + gen::str(cv).substr(0, 800);
  int m0 = mult(cv.KnotVector, u); auto before = cv; LN_NurbsCurve r;
  int k = NurbsCurve::InsertKnot(cv, u, times, r); c.trans();
  c.check(gen::same(cv, before), "input", at + ": the input curve was modified");
  c.check(k >= std::min(times, p - m0) && k <= times && m0 + k <= p + 1 && k >= 0, "count", at + fmt(": reported %d insertions, multiplicity was %d", k, m0));
  auto want = cv.KnotVector; for (int i = 0; i < k; i++) want.push_back(u); std::sort(want.begin(), want.end());
  c.check(r.Degree == p, "degree", at + ": degree changed");
  c.check(r.KnotVector.size() == want.size(), "knots", at + fmt(": %zu knots, expected %zu", r.KnotVector.size(), want.size()));
  for (size_t i = 0; i < want.size(); i++) c.check(std::fabs(r.KnotVector[i] - want[i]) < 1e-9, "knots", at + ": knot vector " + str(r.KnotVector) + ", expected " + str(want));
  gen::sameCurve(c, "shape", at, cv, r, 1e-9); if (m0 + k > p) c.count("inserted to full order");
  c.count(k == 0 ? "nothing inserted" : k < times ? "clipped" : "inserted");
}
static void refine(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(4, 6), mc::tier(1, 2), mc::tier(2, 3), mc::tier(3, 4), mc::tier(1, 2), 3, false, mc::tier(std::vector<int>{0, 5}, {0, 3, 5, 7}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2})); c.shard();
  int p = cv.Degree; auto us = insertable(cv, 2); if (us.size() > 12) us = gen::thin(us, 7);
  // every multiset of insertion parameters (non-decreasing sequences) that keeps multiplicities <= p
  int len = 1 + c.pick(mc::tier(3, 4)); std::vector<double> X; size_t from = 0;
  for (int i = 0; i < len; i++) { size_t k = from + c.pick((int)(us.size() - from)); from = k; X.push_back(us[k]); }
  for (double x : X) { int m = mult(cv.KnotVector, x); for (double y : X) if (std::fabs(x - y) < 1e-9) m++; if (m > p) c.skip(); }
  c.note("refine %s with %s", gen::str(cv).c_str(), str(X).c_str()); c.state(gen::hashv(X, gen::hash(cv)));
  std::string at = "refine with " + str(X) + " " + gen::str(cv).substr(0, 800); auto before = cv;
  LN_NurbsCurve r; NurbsCurve::RefineKnotVector(cv, X, r); c.trans();
  c.check(gen::same(cv, before), "input", at + ": the input curve was modified");
  auto want = cv.KnotVector; want.insert(want.end(), X.begin(), X.end()); std::sort(want.begin(), want.end());
  c.check(r.Degree == p && r.KnotVector.size() == want.size(), "r-knots", at + ": wrong number of knots");
  for (size_t i = 0; i < want.size(); i++) c.check(std::fabs(r.KnotVector[i] - want[i]) < 1e-9, "r-knots", at + ": knot vector " + str(r.KnotVector) + ", expected " + str(want));
  gen::sameCurve(c, "r-shape", at, cv, r, 1e-9);
  // conformance of the two algorithms: refinement equals one-by-one insertion
  LN_NurbsCurve s = cv; for (double x : X) { LN_NurbsCurve t; int k = NurbsCurve::InsertKnot(s, x, 1, t); c.trans(); c.check(k == 1, "r-one", at + ": single insertion refused"); s = t; }
  c.check(s.ControlPoints.size() == r.ControlPoints.size(), "r-agree", at + ": refinement and repeated insertion give different sizes");
  for (size_t i = 0; i < s.ControlPoints.size(); i++) { P4 d = of(s.ControlPoints[i]) - of(r.ControlPoints[i]); c.check(std::fabs(d.x) + std::fabs(d.y) + std::fabs(d.z) + std::fabs(d.w) <= 1e-8 * scale(Curve(cv).P) * 10, "r-agree", at + fmt(": control point %zu differs between refinement and repeated insertion", i)); }
  c.count(fmt("refine %d", len));
}
// all insertion orders of a set of knots lead to the same curve description
static void orders(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(4, 5), mc::tier(1, 2), 2, 2, 1, 2, true, {0}, {0, 1}); c.shard();
  auto us = insertable(cv, 2); if (us.size() > 12) us = gen::thin(us, 6); int p = cv.Degree; int depth = mc::tier(3, 4); LN_NurbsCurve s = cv; std::vector<double> X;
  for (int i = 0; i < depth; i++) { double x = c.pick(us); if (mult(s.KnotVector, x) >= p) c.skip(); LN_NurbsCurve t; int k = NurbsCurve::InsertKnot(s, x, 1, t); c.trans(); X.push_back(x);
    c.note("insert history %s into %s", str(X).c_str(), gen::str(cv).c_str()); c.state(gen::hash(t));
    c.check(k == 1, "h-count", "single insertion refused: " + str(X) + gen::str(cv)); s = t; }
  gen::sameCurve(c, "h-shape", "history " + str(X), cv, s, 1e-9); c.count("history");
}
MC_MAIN("C06", {{"insert", insert}, {"refine", refine}, {"orders", orders}})
