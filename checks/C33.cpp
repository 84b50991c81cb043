// C33: knot vector utilities: multiplicities, continuity, rescaling, common refinement, midpoint refinement, uniformity.
#include "../mc/knots.hpp"
#include "KnotVectorUtils.h"
#include "Polynomials.h"
using namespace LNLib; using mc::Ctx; using mc::fmt; typedef std::vector<double> V;

static std::string ks(const V& v) { std::string s = "{"; for (double x : v) s += fmt(" %.9g", x); return s + " }"; }
static uint64_t hk(uint64_t h, const V& v) { for (double x : v) h = mc::hd(h, x); return h; }
static std::map<double, int> mm(const V& v) { std::map<double, int> m; for (double x : v) m[x]++; return m; }
// every non-decreasing sequence over a grid: multiplicities of each grid value in 0..max
static V grid(Ctx& c, int values, int maxMult, const V& g) { V v; for (int i = 0; i < values; i++) { int m = c.pick(maxMult + 1); for (int k = 0; k < m; k++) v.push_back(g[i]); } return v; }
static const std::vector<V>& grids() { static std::vector<V> g = {{0, 0.25, 0.5, 0.75, 1}, {-3, -1, 0.1, 4, 10}, {100, 100.02, 100.5, 101, 1000}, {0, 0.001, 0.002, 0.5, 0.501}}; return g; }

static void maps(Ctx& c) {
  auto& g = c.pick(grids()); V v = grid(c, mc::tier(4, 5), 3, g); c.shard(); if (v.empty()) c.skip(); std::string at = ks(v); c.note("%s", at.c_str()); c.state(hk(1, v)); auto m = mm(v); c.check(KnotVectorUtils::GetKnotMultiplicityMap(v) == m, "map", at); c.trans();
  for (double x : g) { if (x < v[0] || x > v.back()) continue; int e = m.count(x) ? m[x] : 0; c.check(Polynomials::GetKnotMultiplicity(v, x) == e, "multiplicity", at + fmt(" at %g", x)); c.trans(); for (int p = 1; p <= 7; p++) { c.check(KnotVectorUtils::GetContinuity(p, v, x) == p - e, "continuity", at + fmt(" degree %d at %g", p, x)); c.trans(); } }
  if (m.size() > 1) { auto in = m; in.erase(in.begin()); in.erase(std::prev(in.end())); c.check(KnotVectorUtils::GetInternalKnotMultiplicityMap(v) == in, "internal", at); c.trans();
    for (auto d : std::vector<std::pair<double, double>>{{0, 1}, {-5, 20}, {3, 3.01}, {1000, 4000}}) { V r = KnotVectorUtils::Rescale(v, d.first, d.second); c.trans(); c.check(r.size() == v.size(), "rescale", at); for (size_t i = 0; i < r.size(); i++) { double e = d.first + (d.second - d.first) * ((v[i] - v[0]) / (v.back() - v[0])); c.check(std::fabs(r[i] - e) <= 1e-12 * (std::fabs(d.first) + std::fabs(d.second)), "rescale", at + fmt(" to [%g,%g]: knot %zu is %.12g, expected %.12g", d.first, d.second, i, r[i], e)); c.check(i == 0 || (v[i] == v[i - 1]) == (r[i] == r[i - 1]), "rescale-multiplicity", at); } c.check(r[0] == d.first, "rescale-end", at); } }
  c.count("sequences");
}
static V merged(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); return a; }
static V unite(const std::vector<V>& l) { std::map<double, int> m; for (auto& v : l) for (auto& e : mm(v)) m[e.first] = std::max(m[e.first], e.second); V r; for (auto& e : m) for (int i = 0; i < e.second; i++) r.push_back(e.first); return r; }
static void pairs(Ctx& c) {
  auto& g = c.pick(grids()); int deep = c.pick(2), n = deep ? 2 : 4, M = deep ? 8 : mc::tier(2, 3); V a = grid(c, n, M, g); c.shard(); V b = grid(c, n, M, g); std::string at = ks(a) + " and " + ks(b); c.note("%s", at.c_str()); c.state(hk(hk(1, a), b)); V x, y, e = unite({a, b}); KnotVectorUtils::GetInsertedKnotElement(a, b, x, y); c.trans(); c.check(merged(a, x) == e, "union-first", at + ": insert " + ks(x)); c.check(merged(b, y) == e, "union-second", at + ": insert " + ks(y)); c.check(std::is_sorted(x.begin(), x.end()) && std::is_sorted(y.begin(), y.end()), "sorted", at); c.count("pairs");
}
static void lists(Ctx& c) {
  auto& g = c.pick(grids()); int deep = c.pick(2), n = 1 + c.pick(deep ? 3 : mc::tier(3, 4)); std::vector<V> l; std::string at; uint64_t h = n + 10 * deep; for (int i = 0; i < n; i++) { l.push_back(deep ? grid(c, 2, 4, g) : grid(c, 3, 2, g)); if (i == 0) c.shard(); at += ks(l.back()) + " "; h = hk(mc::mix(h, 7), l.back()); } c.note("%s", at.c_str()); c.state(h); V e = unite(l); auto r = KnotVectorUtils::GetInsertedKnotElements(l); c.trans(); c.check(r.size() == l.size(), "count", at); for (int i = 0; i < n; i++) { c.check(merged(l[i], r[i]) == e, "union", at + fmt("%d: insert ", i) + ks(r[i])); c.check(std::is_sorted(r[i].begin(), r[i].end()), "sorted", at); } c.count(fmt("lists of %d", n));
}
static void midpoints(Ctx& c) {
  static const V S = {1, 0.001, 1e-6, 300}; double s = S[c.pick(4)]; auto& g = c.pick(grids()); V v = grid(c, mc::tier(4, 5), 2, g); c.shard(); for (double& x : v) x = (x - g[0]) * s; int n = c.pick(mc::tier(7, 12)); if (v.empty()) c.skip(); std::string at = ks(v) + fmt(" %d knots", n); c.note("%s", at.c_str()); c.state(hk(n, v)); if (mm(v).size() < 2) { bool t = false; try { KnotVectorUtils::GetInsertedKnotElements(n, v); } catch (const std::exception&) { t = true; } c.trans(); c.check(t || n == 0, "no-span", at + ": accepted"); c.count("no span"); return; }
  V r = KnotVectorUtils::GetInsertedKnotElements(n, v); c.trans(); c.check((int)r.size() == n, "number", at + fmt(": %zu", r.size())); c.check(std::is_sorted(r.begin(), r.end()), "sorted", at);
  // every insertion halves a longest span: the spans left are the multiset that any order of halving longest spans gives
  V w = v; w.erase(std::unique(w.begin(), w.end()), w.end()); std::multiset<double> sp; for (size_t i = 0; i + 1 < w.size(); i++) sp.insert(w[i + 1] - w[i]); for (int i = 0; i < n; i++) { double L = *sp.rbegin(); sp.erase(std::prev(sp.end())); sp.insert(L / 2); sp.insert(L / 2); } V z = merged(w, r), got; for (size_t i = 0; i + 1 < z.size(); i++) got.push_back(z[i + 1] - z[i]); std::sort(got.begin(), got.end()); size_t i = 0; double tol = 1e-5 * (w.back() - w[0]); for (double e : sp) { c.check(i < got.size() && std::fabs(got[i] - e) <= tol, "longest", at + ": inserted " + ks(r)); i++; } c.count("refinements");
}
static void ranges(Ctx& c) {
  int p = 1 + c.pick(mc::tier(4, 6)); auto k = gen::pickKnots(c, p, 3, 3, 4, 2, 3, true); c.shard(); V c0 = k.U; c0.erase(std::unique(c0.begin(), c0.end()), c0.end()); V cand; for (size_t i = 0; i < c0.size(); i++) { cand.push_back(c0[i]); if (i + 1 < c0.size()) cand.push_back(c0[i] + 0.37 * (c0[i + 1] - c0[i])); } int i = c.pick((int)cand.size() - 1); int j = i + 1 + c.pick((int)cand.size() - 1 - i); double a = cand[i], b = cand[j]; std::string at = ks(k.U) + fmt(" degree %d range [%.9g,%.9g]", p, a, b); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hk(p, k.U), a), b)); V r = KnotVectorUtils::GetInsertedKnotElement(p, k.U, a, b); c.trans(); auto m = mm(k.U); V e; for (double x : {a, b}) for (int n = m.count(x) ? m[x] : 0; n < p + 1; n++) e.push_back(x); c.check(r == e, "range", at + ": insert " + ks(r) + " expected " + ks(e)); c.count(k.clampedKind ? "clamped" : "unclamped");
}
static void uniform(Ctx& c) {
  // ends of multiplicity e0,e1; interior multiplicities each 1..2; one gap possibly different
  int e0 = 1 + c.pick(4), e1 = 1 + c.pick(4), n = c.pick(mc::tier(5, 6)); std::vector<int> m; for (int i = 0; i < n; i++) { m.push_back(1 + c.pick(2)); } c.shard(); double h = c.pick(V{1, 0.125, 0.01, 40}), o = c.pick(V{0, -3, 50}); int odd = c.pick(n + 2); V v; std::vector<int> mu = {e0}; mu.insert(mu.end(), m.begin(), m.end()); mu.push_back(e1); double x = o; for (size_t i = 0; i < mu.size(); i++) { for (int k = 0; k < mu[i]; k++) v.push_back(x); x += h * ((int)i == odd ? 1.4 : 1); } std::string at = ks(v); c.note("%s", at.c_str()); c.state(hk(3, v)); bool e = e0 == e1 && (n == 0 || odd == n + 1 || false); if (n == 0) e = e0 == e1; for (int i = 1; i < n; i++) if (m[i] != m[0]) e = false; c.check(KnotVectorUtils::IsUniform(v) == e, "uniform", at + (e ? ": not recognised" : ": taken for uniform")); c.trans(); c.count(e ? "uniform" : "not uniform"); if (n == 0 && odd == 0) { V one(e0, o); c.check(!KnotVectorUtils::IsUniform(one), "single", ks(one)); c.check(!KnotVectorUtils::IsUniform(V()), "single", "empty"); }
}
// long knot vectors: many distinct values with patterns of multiplicities
static V longOne(int n, int pat, double h) { V v; for (int i = 0; i < n; i++) { int m = pat == 0 ? 1 : pat == 1 ? 1 + i % 3 : pat == 2 ? (i % 5 == 0 ? 4 : i % 2) : pat == 3 ? (i * i % 7) / 2 : (i == 0 || i == n - 1 ? 8 : 1); for (int k = 0; k < m; k++) v.push_back(-1 + h * i + (pat == 3 ? 0.1 * h * (i % 2) : 0)); } return v; }
static void longVectors(Ctx& c) {
  static const int N[] = {12, 17, 33, 40, 65, 128}; int n = N[c.pick(mc::tier(5, 6))], pa = c.pick(5), pb = c.pick(5); double h = c.pick(V{1, 0.0625}); int m = N[c.pick(mc::tier(4, 6))]; c.shard(); V a = longOne(n, pa, h), b = longOne(m, pb, h); std::string at = fmt("long knot vectors of %d and %d values, patterns %d and %d, step %g", n, m, pa, pb, h); c.note("%s", at.c_str()); c.state(hk(hk(n, a), b));
  auto M = mm(a); c.check(KnotVectorUtils::GetKnotMultiplicityMap(a) == M, "map", at); c.trans(); auto in = M; in.erase(in.begin()); in.erase(std::prev(in.end())); c.check(KnotVectorUtils::GetInternalKnotMultiplicityMap(a) == in, "internal", at); c.trans(); for (auto& e : M) { c.check(Polynomials::GetKnotMultiplicity(a, e.first) == e.second, "multiplicity", at + fmt(" at %g", e.first)); c.check(KnotVectorUtils::GetContinuity(7, a, e.first) == 7 - e.second, "continuity", at + fmt(" at %g", e.first)); c.trans(2); }
  V x, y, e = unite({a, b}); KnotVectorUtils::GetInsertedKnotElement(a, b, x, y); c.trans(); c.check(merged(a, x) == e, "union-first", at); c.check(merged(b, y) == e, "union-second", at); c.check(std::is_sorted(x.begin(), x.end()) && std::is_sorted(y.begin(), y.end()), "sorted", at);
  std::vector<V> l = {a, b, longOne(9, (pa + 1) % 5, h), longOne(21, (pb + 2) % 5, h), b, longOne(5, 0, h)}; e = unite(l); auto r = KnotVectorUtils::GetInsertedKnotElements(l); c.trans(); c.check(r.size() == l.size(), "count", at); for (size_t i = 0; i < l.size(); i++) { c.check(merged(l[i], r[i]) == e, "union", at + fmt(", vector %zu", i)); c.check(std::is_sorted(r[i].begin(), r[i].end()), "sorted", at); }
  for (auto d : std::vector<std::pair<double, double>>{{0, 1}, {-50, 20}}) { V q = KnotVectorUtils::Rescale(a, d.first, d.second); c.trans(); c.check(q.size() == a.size(), "rescale", at); for (size_t i = 0; i < q.size(); i++) { double w = d.first + (d.second - d.first) * ((a[i] - a[0]) / (a.back() - a[0])); c.check(std::fabs(q[i] - w) <= 1e-12 * (std::fabs(d.first) + std::fabs(d.second)), "rescale", at + fmt(": knot %zu is %.12g, expected %.12g", i, q[i], w)); } } c.count("long vectors");
}
MC_MAIN("C33", {{"long", longVectors}, {"maps", maps}, {"pairs", pairs}, {"lists", lists}, {"midpoints", midpoints}, {"ranges", ranges}, {"uniform", uniform}})
