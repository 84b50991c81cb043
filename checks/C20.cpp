// C20: shape preserving modifications of surfaces: insertion, refinement, Bezier decomposition, elevation, reduction, removal.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static LN_NurbsSurface pick(Ctx& c, int maxP, const std::vector<int>& pf, int nb) { auto s = gen::pickSurface(c, 1, maxP, nb, mc::tier(3, 4), mc::tier(3, 4), 2, mc::tier(2, 4), pf, {0, 1}); c.shard(); return s; }
static std::vector<double>& K(LN_NurbsSurface& s, bool u) { return u ? s.KnotVectorU : s.KnotVectorV; }
static const std::vector<double>& K(const LN_NurbsSurface& s, bool u) { return u ? s.KnotVectorU : s.KnotVectorV; }
static int D(const LN_NurbsSurface& s, bool u) { return u ? s.DegreeU : s.DegreeV; }
static std::vector<double> inserted(std::vector<double> U, double x, int k) { for (int i = 0; i < k; i++) U.insert(std::upper_bound(U.begin(), U.end(), x), x); return U; }

static void insert(Ctx& c) {
  auto s = pick(c, mc::tier(3, 6), mc::tier(std::vector<int>{1}, {0, 1}), mc::tier(1, 2)); bool ud = c.flip(); auto us = params(K(s, ud), D(s, ud), 2); std::sort(us.begin(), us.end()); us.erase(std::unique(us.begin(), us.end()), us.end()); double x = c.pick(us); int t = 1 + c.pick(D(s, ud) + 1); int m = mult(K(s, ud), x);
  std::string at = gen::str(s).substr(0, 400) + fmt(" insert %.9g x%d in %s", x, t, ud ? "u" : "v"); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), x * 10 + t + 100 * ud)); auto before = s; LN_NurbsSurface r; NurbsSurface::InsertKnot(s, x, t, ud, r); c.trans();
  int eff = std::max(0, std::min(t, D(s, ud) - m)); gen::sameSurface(c, "insert", at, s, r, 1e-9); c.check(K(r, ud) == inserted(K(s, ud), x, eff) && K(r, !ud) == K(s, !ud), "insert-knots", at + ": wrong knots"); c.check(gen::same(s, before), "input", at + ": input modified");
  NurbsSurface::InsertKnot(s, x, t, ud, s); c.trans(); c.check(gen::same(s, r), "insert-alias", at + ": inserting in place gives another result"); c.count(fmt("insert %d", eff));
}
static void refine(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), {1}, mc::tier(1, 2)); bool ud = c.flip(); auto us = params(K(s, ud), D(s, ud), 2); std::sort(us.begin(), us.end()); us.erase(std::unique(us.begin(), us.end()), us.end()); us.erase(us.begin()); us.pop_back(); us = gen::thin(us, 9); std::vector<double> X; int n = 1 + c.pick(mc::tier(2, 3)); int from = 0; std::vector<double> full = K(s, ud); for (int i = 0; i < n; i++) { int j = from + c.pick((int)us.size() - from); X.push_back(us[j]); full = inserted(full, us[j], 1); if (mult(full, us[j]) > D(s, ud)) c.skip(); from = j; }
  std::string at = gen::str(s).substr(0, 400) + " refine " + str(X) + (ud ? " in u" : " in v"); c.note("%s", at.c_str()); c.state(mc::mix(gen::hash(s), gen::hashv(X, ud))); auto before = s; LN_NurbsSurface r; NurbsSurface::RefineKnotVector(s, X, ud, r); c.trans(); gen::sameSurface(c, "refine", at, s, r, 1e-9); c.check(K(r, ud) == full && K(r, !ud) == K(s, !ud), "refine-knots", at + ": wrong knots " + str(K(r, ud))); c.check(gen::same(s, before), "input", at + ": input modified"); NurbsSurface::RefineKnotVector(s, X, ud, s); c.trans(); c.check(gen::same(s, r), "refine-alias", at + ": refining in place gives another result"); c.count("refine");
}
static void decompose(Ctx& c) {
  auto s = pick(c, mc::tier(4, 5), mc::tier(std::vector<int>{1}, {0, 1}), mc::tier(2, 3)); std::string at = gen::str(s).substr(0, 500); c.note("decompose %s", at.c_str()); c.state(gen::hash(s)); auto bu = breaks(s.KnotVectorU, s.DegreeU), bv = breaks(s.KnotVectorV, s.DegreeV); Surf R(s); ld tol = 1e-9 * R.scl();
  auto B = NurbsSurface::DecomposeToBeziers(s); c.trans(); size_t nu = bu.size() - 1, nv = bv.size() - 1; c.check(B.size() == nu * nv, "decompose-count", at + fmt(": %zu patches, expected %zu", B.size(), nu * nv));
  for (size_t a = 0; a < nu; a++) for (size_t b = 0; b < nv; b++) { Surf P(B[a * nv + b]); std::string why; c.check(P.valid(&why) && (int)P.P.size() == s.DegreeU + 1 && (int)P.P[0].size() == s.DegreeV + 1, "decompose-valid", at + fmt(": patch %zu is not a Bezier patch of the same degrees ", a * nv + b) + why);
    ld su = std::nextafter(bu[a], 1e9), sv = std::nextafter(bv[b], 1e9); (void)su; (void)sv; int spu = span(s.DegreeU, s.KnotVectorU, (bu[a] + bu[a + 1]) / 2), spv = span(s.DegreeV, s.KnotVectorV, (bv[b] + bv[b + 1]) / 2); double l = P.U.front(), h = P.U.back(), l2 = P.V.front(), h2 = P.V.back();
    for (int i = 0; i <= 3; i++) for (int j = 0; j <= 3; j++) { double fu = i / 3.0, fv = j / 3.0; P3 e = R.at(bu[a] + fu * (bu[a + 1] - bu[a]), bv[b] + fv * (bv[b + 1] - bv[b]), spu, spv), g = P.at(l + fu * (h - l), l2 + fv * (h2 - l2)); c.check(near(g, e, tol), "decompose", at + fmt(": patch (%zu,%zu) at (%g,%g) of its domain is ", a, b, fu, fv) + str(g) + ", the surface " + str(e)); } }
  c.count(fmt("%zu patches", B.size()));
}
static void elevate(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), mc::tier(std::vector<int>{1}, {0, 1}), mc::tier(2, 2)); bool ud = c.flip(); int t = 1 + c.pick(mc::tier(2, 3)); if (D(s, ud) + t > 7) c.skip(); std::string at = gen::str(s).substr(0, 400) + fmt(" elevate %d in %s", t, ud ? "u" : "v"); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), t * 2 + ud)); auto before = s; LN_NurbsSurface r; NurbsSurface::ElevateDegree(s, t, ud, r); c.trans(); gen::sameSurface(c, "elevate", at, s, r, 1e-7); c.check(D(r, ud) == D(s, ud) + t && D(r, !ud) == D(s, !ud) && K(r, !ud) == K(s, !ud), "elevate-degree", at + ": wrong degrees or knots"); c.check(gen::same(s, before), "input", at + ": input modified");
  LN_NurbsSurface q = r; if (breaks(K(s, ud), D(s, ud)).size() == 2) for (int i = 0; i < t; i++) { LN_NurbsSurface o; bool ok = NurbsSurface::ReduceDegree(q, ud, o); c.trans(); c.check(ok, "reduce-refused", at + ": reducing the elevated surface is refused"); q = o; } c.check(D(q, ud) == D(s, ud) || breaks(K(s, ud), D(s, ud)).size() > 2, "reduce-degree", at + ": wrong degree after reduction"); gen::sameSurface(c, "reduce", at + " and reduced back", s, q, 2e-3);
  NurbsSurface::ElevateDegree(s, t, ud, s); c.trans(); c.check(gen::same(s, r), "elevate-alias", at + ": elevating in place gives another result"); c.count(fmt("elevate %d", t));
}
static void reduceGeneric(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), {0, 1}, 1); bool ud = c.flip(); if (D(s, ud) < 2) c.skip(); std::string at = gen::str(s).substr(0, 400) + fmt(" reduce in %s", ud ? "u" : "v"); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), ud)); LN_NurbsSurface r; bool ok = NurbsSurface::ReduceDegree(s, ud, r); c.trans(); if (!ok) { c.count("refused"); return; } gen::sameSurface(c, "reduce-generic", at, s, r, 5e-3); c.count("reduced");
}
static void removeBack(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), mc::tier(std::vector<int>{1}, {0, 1}), mc::tier(1, 2)); bool ud = c.flip(); auto us = params(K(s, ud), D(s, ud), 2); std::sort(us.begin(), us.end()); us.erase(std::unique(us.begin(), us.end()), us.end()); double x = us[1 + c.pick((int)us.size() - 2)]; int m = mult(K(s, ud), x); int t = 1 + c.pick(std::max(1, D(s, ud) - m)); if (t + m > D(s, ud)) c.skip(); int back = 1 + c.pick(t);
  std::string at = gen::str(s).substr(0, 400) + fmt(" insert %.9g x%d, remove x%d in %s", x, t, back, ud ? "u" : "v"); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), x * 100 + t * 10 + back + 1000 * ud)); LN_NurbsSurface r, q; NurbsSurface::InsertKnot(s, x, t, ud, r); auto before = r; NurbsSurface::RemoveKnot(r, x, back, ud, q); c.trans(2); gen::sameSurface(c, "remove", at, s, q, 1e-3); c.check(K(q, ud) == inserted(K(s, ud), x, t - back), "remove-knots", at + ": knots after removal are " + str(K(q, ud))); c.check(gen::same(r, before), "input", at + ": input modified"); c.count(fmt("remove %d", back));
}
static void removeGeneric(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), {0, 1}, mc::tier(1, 2)); bool ud = c.flip(); auto br = breaks(K(s, ud), D(s, ud)); if (br.size() < 3) c.skip(); double x = br[1 + c.pick((int)br.size() - 2)]; int t = 1 + c.pick(mult(K(s, ud), x)); std::string at = gen::str(s).substr(0, 400) + fmt(" remove %.9g x%d in %s", x, t, ud ? "u" : "v"); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), x * 100 + t * 10 + 1000 * ud));
  LN_NurbsSurface q; NurbsSurface::RemoveKnot(s, x, t, ud, q); c.trans(); Surf Q(q); std::string why; bool ok = Q.valid(&why), even0 = (D(s, ud) - mult(K(s, ud), x)) % 2 == 0; c.check(ok, even0 ? "remove-generic-even" : "remove-generic-valid", at + ": " + why); if (K(q, ud) == K(s, ud)) gen::sameSurface(c, "remove-refused", at, s, q, 1e-9); else { bool even = (D(s, ud) - mult(K(s, ud), x)) % 2 == 0; gen::sameSurface(c, even ? "remove-generic-even" : "remove-generic", at, s, q, 1e-2); } c.count(K(q, ud) == K(s, ud) ? "nothing removed" : "removed");
}
MC_MAIN("C20", {{"insert", insert}, {"refine", refine}, {"decompose", decompose}, {"elevate", elevate}, {"reduceGeneric", reduceGeneric}, {"remove", removeBack}, {"removeGeneric", removeGeneric}})
