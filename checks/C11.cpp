// C11: splitting, extracting and merging keep the points of a curve.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static std::vector<double> inner(const LN_NurbsCurve& cv, int k) { auto us = params(cv.KnotVector, cv.Degree, k); std::sort(us.begin(), us.end()); return std::vector<double>(us.begin() + 1, us.end() - 1); }
static double lo(const LN_NurbsCurve& c) { return c.KnotVector[c.Degree]; }
static double hi(const LN_NurbsCurve& c) { return c.KnotVector[c.KnotVector.size() - c.Degree - 1]; }
static LN_NurbsCurve source(Ctx& c, bool unclamped) {
  return gen::pickCurve(c, mc::tier(5, 7), mc::tier(2, 3), mc::tier(4, 7), mc::tier(4, 7), mc::tier(2, 3), mc::tier(3, 5), unclamped, mc::tier(std::vector<int>{0, 5}, {0, 1, 3, 4, 5, 7}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2, 4}));
}
static void checkPiece(Ctx& c, const std::string& key, const std::string& at, const LN_NurbsCurve& cv, const LN_NurbsCurve& r, double a, double b, bool clampA, bool clampB) {
  c.check(r.Degree == cv.Degree, key + "-degree", at + ": degree changed");
  std::string why; c.check(Curve(r).valid(&why), key + "-valid", at + ": result is not a valid NURBS curve: " + why + " " + gen::str(r).substr(0, 600));
  ld tol = 1e-9 * (1 + std::fabs(a) + std::fabs(b));
  c.check(std::fabs(lo(r) - a) <= tol && std::fabs(hi(r) - b) <= tol, key + "-domain", at + fmt(": result is defined on [%.9g,%.9g] instead of [%.9g,%.9g]", lo(r), hi(r), a, b));
  auto& K = r.KnotVector; int p = r.Degree;
  if (clampA) for (int i = 0; i <= p; i++) c.check(std::fabs(K[i] - a) <= tol, key + "-clamp", at + ": start is not clamped " + str(K));
  if (clampB) for (int i = 0; i <= p; i++) c.check(std::fabs(K[K.size() - 1 - i] - b) <= tol, key + "-clamp", at + ": end is not clamped " + str(K));
  gen::sameCurve(c, key, at, cv, r, 1e-9, nullptr, a, b);
}
static void split(Ctx& c) {
  auto cv = source(c, true); c.shard();
  auto us = inner(cv, mc::tier(2, 4)); us.push_back(lo(cv)); us.push_back(hi(cv)); us.push_back(lo(cv) - 1); us.push_back(hi(cv) + 1); double u = c.pick(us);
  bool in = u > lo(cv) && u < hi(cv); c.note("split at %.9g of %s", u, gen::str(cv).c_str()); c.state(mc::hd(gen::hash(cv), u));
  std::string at = fmt("split at %.9g of ", u) + gen::str(cv).substr(0, 600); auto before = cv; LN_NurbsCurve l, r;
  bool ok = NurbsCurve::SplitAt(cv, u, l, r); c.trans();
  c.check(gen::same(cv, before), "input", at + ": input modified");
  c.check(ok == in, "split-return", at + fmt(": returned %d for a parameter %s the domain", (int)ok, in ? "inside" : "outside or at an end of"));
  if (!ok) { c.count("refused"); return; }
  bool cl = gen::isClamped(cv);
  checkPiece(c, "split-left", at, cv, l, lo(cv), u, cl, true); checkPiece(c, "split-right", at, cv, r, u, hi(cv), true, cl); c.count("split");
}
static void extract(Ctx& c) {
  auto cv = source(c, false); c.shard();
  auto us = inner(cv, mc::tier(1, 3)); us.insert(us.begin(), lo(cv)); us.push_back(hi(cv)); int n = us.size();
  int i = c.pick(n - 1), j = i + 1 + c.pick(n - 1 - i); double a = us[i], b = us[j];
  c.note("extract [%.9g,%.9g] of %s", a, b, gen::str(cv).c_str()); c.state(mc::hd(mc::hd(gen::hash(cv), a), b)); std::string at = fmt("extract [%.9g,%.9g] of ", a, b) + gen::str(cv).substr(0, 600);
  auto before = cv; LN_NurbsCurve r; NurbsCurve::Extract(cv, a, b, r); c.trans(); c.check(gen::same(cv, before), "input", at + ": input modified");
  checkPiece(c, "extract", at, cv, r, a, b, true, true); c.count(i == 0 && j == n - 1 ? "whole" : i == 0 ? "head" : j == n - 1 ? "tail" : "middle");
}
// b starts where a ends
static void checkMerge(Ctx& c, const std::string& at, const LN_NurbsCurve& a, const LN_NurbsCurve& b, const LN_NurbsCurve& r) {
  c.check(r.Degree == std::max(a.Degree, b.Degree), "merge-degree", at + fmt(": degree %d", r.Degree));
  std::string why; c.check(Curve(r).valid(&why), "merge-valid", at + ": " + why);
  c.check(std::fabs(lo(r)) < 1e-9 && std::fabs(hi(r) - 1) < 1e-9, "merge-domain", at + ": domain is not [0,1] " + str(r.KnotVector));
  gen::sameCurve(c, "merge-left", at, a, r, 1e-8, [&](double u) { double t = (u - lo(a)) / (hi(a) - lo(a)); return 0.5 * t - (t > 1 - 1e-12 ? 1e-13 : 0); });
  gen::sameCurve(c, "merge-right", at, b, r, 1e-8, [&](double u) { return 0.5 + 0.5 * (u - lo(b)) / (hi(b) - lo(b)); });
}
static void merge(Ctx& c) {
  auto a = gen::pickCurve(c, mc::tier(4, 6), mc::tier(1, 2), 2, mc::tier(2, 4), mc::tier(1, 2), 3, false, {0, 5}, {0, 1}); c.shard();
  auto b = gen::pickCurve(c, mc::tier(4, 6), mc::tier(1, 2), 2, 2, 1, 3, false, {6, 5}, {0, 1});
  int gap = c.pick(6);   // 0: joined with equal weight, 1: gap below tolerance; others: apart
  P3 e = xyz(of(a.ControlPoints.back())), s = xyz(of(b.ControlPoints[0])); double w = a.ControlPoints.back().GetW() / b.ControlPoints[0].GetW();
  static const double g[] = {0, 1e-8, 0.01, -0.05, 1, -1000};
  for (auto& p : b.ControlPoints) { P3 q = xyz(of(p)); double nw = p.GetW() * w; p = XYZW(XYZ((double)(q.x - s.x + e.x) + g[gap], (double)(q.y - s.y + e.y), (double)(q.z - s.z + e.z)), nw); }
  c.note("merge %s with %s", gen::str(a).c_str(), gen::str(b).c_str()); c.state(mc::mix(gen::hash(a), gen::hash(b)));
  std::string at = fmt("merge (gap %g) ", g[gap]) + gen::str(a).substr(0, 400) + " with " + gen::str(b).substr(0, 400); auto a0 = a, b0 = b; LN_NurbsCurve r;
  bool ok = NurbsCurve::Merge(a, b, r); c.trans(); c.check(gen::same(a, a0) && gen::same(b, b0), "input", at + ": input modified");
  c.check(ok == (gap < 2), "merge-return", at + fmt(": returned %d", (int)ok)); if (!ok) { c.count("apart"); return; }
  ld t = gap == 1 ? 1e-7 : 0; (void)t; checkMerge(c, at, a, b, r); c.count(a.Degree == b.Degree ? "joined" : "joined, degrees differ");
}
// histories: split repeatedly (every choice of piece and parameter), then merge everything back
static void history(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(4, 5), mc::tier(2, 2), mc::tier(3, 5), mc::tier(3, 5), 1, 3, false, {0, 3}, {0, 1}); c.shard();
  int depth = mc::tier(2, 3); std::vector<LN_NurbsCurve> parts = {cv}; std::string h;
  for (int d = 0; d < depth; d++) {
    int k = c.pick((int)parts.size()); auto us = gen::thin(inner(parts[k], mc::tier(1, 2)), 9); if (us.empty()) c.skip(); double u = c.pick(us); LN_NurbsCurve l, r;
    h += fmt(" split %d at %.9g;", k, u); c.note("%s on %s", h.c_str(), gen::str(cv).c_str());
    bool ok = NurbsCurve::SplitAt(parts[k], u, l, r); c.trans(); c.check(ok, "h-split", h + " refused: " + gen::str(parts[k]));
    parts[k] = l; parts.insert(parts.begin() + k + 1, r); c.state(mc::mix(gen::hash(l), gen::hash(r)));
  }
  std::string at = h + " on " + gen::str(cv).substr(0, 500);
  for (size_t k = 0; k < parts.size(); k++) checkPiece(c, "h-piece", at + fmt(" piece %zu", k), cv, parts[k], lo(parts[k]), hi(parts[k]), true, true);
  for (size_t k = 0; k + 1 < parts.size(); k++) c.check(std::fabs(hi(parts[k]) - lo(parts[k + 1])) < 1e-9, "h-cover", at + ": pieces do not cover the domain");
  LN_NurbsCurve m = parts[0];
  for (size_t k = 1; k < parts.size(); k++) { LN_NurbsCurve t; bool ok = NurbsCurve::Merge(m, parts[k], t); c.trans(); c.check(ok, "h-merge", at + ": merging neighbouring pieces refused"); checkMerge(c, at, m, parts[k], t); m = t; }
  // a merged curve can be split at the joint again
  LN_NurbsCurve l, r; bool ok = NurbsCurve::SplitAt(m, 0.5, l, r); c.trans(); c.check(ok, "h-resplit", at + ": splitting the merged curve at the joint refused");
  gen::sameCurve(c, "h-resplit", at, parts.back(), r, 1e-8, [&](double u) { return 0.5 + 0.5 * (u - lo(parts.back())) / (hi(parts.back()) - lo(parts.back())); });
  c.count("history");
}
MC_MAIN("C11", {{"split", split}, {"extract", extract}, {"merge", merge}, {"history", history}})
