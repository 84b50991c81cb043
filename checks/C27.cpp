// C27: planar Delaunay triangulation and Voronoi diagram.
#include "../mc/mc.hpp"
#include "../mc/ref.hpp"
#include "Voronoi.h"
#include <map>
#include <set>
using namespace LNLib; using mc::Ctx; using mc::fmt; typedef long double ld;
struct Q { ld x, y; };
static ld orient(Q a, Q b, Q c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static ld d2(Q a, Q b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
struct Out { std::vector<std::vector<int>> tri; std::vector<std::pair<Q, Q>> vor, del; };
static Out collect(VoronoiDiagramGenerator& g) { Out o; o.tri = g.getTriangles(); float a, b, c, d; g.resetIterator(); while (g.getNext(a, b, c, d)) o.vor.push_back({{a, b}, {c, d}}); g.resetDelaunayEdgesIterator(); while (g.getNextDelaunay(a, b, c, d)) o.del.push_back({{a, b}, {c, d}}); return o; }
static Out run(VoronoiDiagramGenerator& g, const std::vector<Q>& P, ld lo, ld hi) { std::vector<float> x, y; for (auto& p : P) { x.push_back(p.x); y.push_back(p.y); } g.setGenerateVoronoi(true); g.setGenerateDelaunay(true); g.generateVoronoi(x.data(), y.data(), P.size(), lo, hi, lo, hi, 0); return collect(g); }
static ld hullArea(std::vector<Q> P, int* onHull) { std::sort(P.begin(), P.end(), [](Q a, Q b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); std::vector<Q> H; for (int pass = 0; pass < 2; pass++) { size_t base = H.size(); for (auto& p : P) { while (H.size() >= base + 2 && orient(H[H.size() - 2], H.back(), p) <= 0) H.pop_back(); H.push_back(p); } H.pop_back(); std::reverse(P.begin(), P.end()); } ld a = 0; for (size_t i = 0; i < H.size(); i++) a += H[i].x * H[(i + 1) % H.size()].y - H[i].y * H[(i + 1) % H.size()].x; *onHull = H.size(); return std::fabs(a) / 2; }
static std::string show(const std::vector<Q>& P) { std::string s; for (auto& p : P) s += fmt("(%Lg,%Lg)", p.x, p.y); return s; }
static void judge(Ctx& c, const std::string& at, const std::vector<Q>& P, const Out& o, ld lo, ld hi, bool grid = false) {
  ld S = 0; for (auto& p : P) S = std::max(S, std::max(std::fabs(p.x), std::fabs(p.y))); int n = P.size(); int h; ld A = hullArea(P, &h), sum = 0; std::set<std::pair<int, int>> te; std::map<std::pair<int, int>, int> cnt;
  for (auto& t : o.tri) { c.check(t.size() == 3 && t[0] >= 0 && t[1] >= 0 && t[2] >= 0 && t[0] < n && t[1] < n && t[2] < n, "triangle", at + ": a triangle has a vertex that is not a site"); Q a = P[t[0]], b = P[t[1]], e = P[t[2]]; ld w = orient(a, b, e); sum += std::fabs(w) / 2; c.check(!grid || std::fabs(w) > 0.5, "flat", at + fmt(": triangle %d %d %d is flat", t[0], t[1], t[2]));
    if (w < 0) std::swap(b, e); for (int i = 0; i < n; i++) { if (i == t[0] || i == t[1] || i == t[2] || std::fabs(w) < 1e-3 * S * S) continue; Q p = P[i]; ld ax = a.x - p.x, ay = a.y - p.y, bx = b.x - p.x, by = b.y - p.y, cx = e.x - p.x, cy = e.y - p.y; ld det = (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay); c.check(det <= 1e-4 * S * S * S * S, "delaunay", at + fmt(": site %d lies inside the circle of triangle %d %d %d", i, t[0], t[1], t[2])); }
    for (int k = 0; k < 3; k++) { int x = t[k], y = t[(k + 1) % 3]; te.insert({std::min(x, y), std::max(x, y)}); cnt[{std::min(x, y), std::max(x, y)}]++; } }
  c.check(std::fabs(sum - A) <= 1e-4 * (S * S), "cover", at + fmt(": the triangles cover %.9Lg of the %.9Lg of the convex hull", sum, A)); for (auto& e : cnt) c.check(e.second <= 2, "manifold", at + fmt(": edge %d-%d belongs to %d triangles", e.first.first, e.first.second, e.second));
  auto site = [&](Q q) { for (int i = 0; i < n; i++) if (d2(P[i], q) < 1e-8 * S * S) return i; return -1; }; std::set<std::pair<int, int>> de; for (auto& e : o.del) { int x = site(e.first), y = site(e.second); c.check(x >= 0 && y >= 0 && x != y, "edge", at + ": a Delaunay edge does not join two sites"); de.insert({std::min(x, y), std::max(x, y)}); } for (auto& e : te) c.check(de.count(e), "edge-missing", at + fmt(": triangle edge %d-%d is not among the Delaunay edges", e.first, e.second)); if (A > 1e-6 * S * S) for (auto& e : de) c.check(te.count(e), "edge-extra", at + fmt(": Delaunay edge %d-%d bounds no triangle", e.first, e.second));
  // the Voronoi edge of two sites: the part of their bisector, inside the borders, no other site is nearer to
  std::vector<std::pair<Q, Q>> V; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { Q m{(P[i].x + P[j].x) / 2, (P[i].y + P[j].y) / 2}, d{-(P[j].y - P[i].y), P[j].x - P[i].x}; ld l = std::sqrt(d.x * d.x + d.y * d.y); d.x /= l; d.y /= l; ld t0 = -1e9, t1 = 1e9; auto cut = [&](ld f, ld g) { /* f + g t >= 0 */ if (std::fabs(g) < 1e-12) { if (f < -1e-9 * S) t1 = -2e9; } else if (g > 0) t0 = std::max(t0, -f / g); else t1 = std::min(t1, -f / g); };
    cut(m.x - lo, d.x); cut(hi - m.x, -d.x); cut(m.y - lo, d.y); cut(hi - m.y, -d.y); for (int k = 0; k < n; k++) if (k != i && k != j) cut(((P[k].x * P[k].x + P[k].y * P[k].y) - (P[i].x * P[i].x + P[i].y * P[i].y)) / 2 - m.x * (P[k].x - P[i].x) - m.y * (P[k].y - P[i].y), -(d.x * (P[k].x - P[i].x) + d.y * (P[k].y - P[i].y))); if (t1 - t0 > 1e-2 * S) V.push_back({{m.x + t0 * d.x, m.y + t0 * d.y}, {m.x + t1 * d.x, m.y + t1 * d.y}}); }
  auto like = [&](std::pair<Q, Q> a, std::pair<Q, Q> b) { ld e = 1e-5 * S * S; return (d2(a.first, b.first) < e && d2(a.second, b.second) < e) || (d2(a.first, b.second) < e && d2(a.second, b.first) < e); };
  for (auto& v : V) { bool hit = false; for (auto& w : o.vor) hit |= like(v, w); c.check(hit, "voronoi-missing", at + fmt(": the Voronoi edge (%Lg,%Lg)-(%Lg,%Lg) is missing", v.first.x, v.first.y, v.second.x, v.second.y)); }
  for (auto& w : o.vor) { if (d2(w.first, w.second) < 4e-4 * S * S) continue; bool hit = false; for (auto& v : V) hit |= like(v, w); c.check(hit, "voronoi-extra", at + fmt(": (%Lg,%Lg)-(%Lg,%Lg) is not a Voronoi edge", w.first.x, w.first.y, w.second.x, w.second.y)); }
}
static bool same(const Out& a, const Out& b) { auto eq = [](const std::vector<std::pair<Q, Q>>& x, const std::vector<std::pair<Q, Q>>& y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (d2(x[i].first, y[i].first) > 0 || d2(x[i].second, y[i].second) > 0) return false; return true; }; return a.tri == b.tri && eq(a.vor, b.vor) && eq(a.del, b.del); }
static std::vector<Q> points(Ctx& c, int maxN, int map) {
  int G = 4; int n = 2 + c.pick(maxN - 1); std::vector<int> s; int from = 0; for (int k = 0; k < n; k++) { int i = from + c.pick(G * G - n + k + 1 - from); s.push_back(i); from = i + 1; }
  std::vector<Q> P; static const ld gx[] = {0, 1, 2, 3}; for (int i : s) { ld x = gx[i % G], y = gx[i / G]; if (map == 1) { ld a = x + 0.13L * y * y - 0.07L * x * y, b = y + 0.11L * x + 0.05L * x * x * y + 0.043L * x * x; x = a; y = b; } if (map == 2) { x = 10 * x - 7; y = 3 * y + x / 128 - 20; } P.push_back({(ld)(float)x, (ld)(float)y}); } return P;
}
static void subsets(Ctx& c) {
  int map = c.pick(3); auto P = points(c, map == 0 ? mc::tier(5, 7) : mc::tier(5, 6), map); int order = c.pick(3); c.shard(); if (order == 1) std::reverse(P.begin(), P.end()); if (order == 2) std::rotate(P.begin(), P.begin() + P.size() / 2, P.end()); std::string at = "sites " + show(P); c.note("%s", at.c_str()); uint64_t h = map; for (auto& p : P) h = mc::hd(mc::hd(h, p.x), p.y); c.state(h);
  VoronoiDiagramGenerator g; auto o = run(g, P, -60, 60); c.trans(); judge(c, at, P, o, -60, 60, map == 0); c.count(fmt("%zu sites", P.size()));
}
// a generator used again gives what a new one gives
static void again(Ctx& c) {
  int n = 2 + c.pick(3); std::vector<std::vector<Q>> H; static const std::vector<std::vector<Q>> W = {{{0, 0}, {3, 0.5}, {1, 2}, {2.5, 3}}, {{0, 0}, {1, 1}, {2, 2}}, {{1, 0}, {0, 1}, {2, 1.5}}, {{-3, 0}, {0, 5}, {4, 1}, {1, 1}, {0.5, -2}, {3, -3}}, {{0, 0}, {1, 0}, {0, 1}, {1, 1}}}; std::string at = "histories of generations "; uint64_t h = 0; std::vector<int> w; std::vector<bool> rs; for (int i = 0; i < n; i++) { w.push_back(c.pick((int)W.size())); rs.push_back(c.flip()); at += fmt("%d%s ", w[i], rs[i] ? "r" : ""); h = mc::hd(h, w[i] * 2 + rs[i]); } c.shard(); c.note("%s", at.c_str()); c.state(h);
  VoronoiDiagramGenerator g; for (int i = 0; i < n; i++) { if (rs[i]) g.reset(); auto o = run(g, W[w[i]], -20, 20); VoronoiDiagramGenerator f; auto e = run(f, W[w[i]], -20, 20); c.trans(2); c.check(same(o, e), "history", at + fmt(": generation %d gives %zu triangles, %zu Voronoi and %zu Delaunay edges, a new generator %zu, %zu and %zu", i, o.tri.size(), o.vor.size(), o.del.size(), e.tri.size(), e.vor.size(), e.del.size())); } c.count(fmt("%d generations", n));
}
// larger sets: every size up to a bound on three layouts
static void layouts(Ctx& c) {
  int k = c.pick(4), n = 3 + c.pick(mc::tier(60, 200)); c.shard(); std::vector<Q> P; for (int i = 0; i < n; i++) { ld x, y; if (k == 0) { x = 5 * std::fmod(i * 0.618033988749L, 1); y = 5 * std::fmod(i * 0.414213562373L + 0.1L * i, 1); } else if (k == 1) { ld r = std::sqrt((ld)i + 0.5L), a = 2.399963229728653L * i; x = r * std::cos(a); y = r * std::sin(a); } else if (k == 2) { x = i; y = 0.02L * i * i; } else { x = 3 * std::cos(0.37L * i) * (1 + 0.02L * i); y = 3 * std::sin(0.37L * i) * (1 + 0.02L * i) + 0.01L * i; } P.push_back({(ld)(float)x, (ld)(float)y}); }
  std::string at = fmt("layout %d of %d sites", k, n); c.note("%s", at.c_str()); c.state(mc::hd(k, n)); VoronoiDiagramGenerator g; auto o = run(g, P, -300, 300); c.trans(); int h; ld A = hullArea(P, &h), sum = 0; ld S = 0; for (auto& p : P) S = std::max(S, std::max(std::fabs(p.x), std::fabs(p.y))); bool ok = true; for (auto& t : o.tri) { if (t[0] < 0 || t[1] < 0 || t[2] < 0 || t[0] >= n || t[1] >= n || t[2] >= n) { ok = false; continue; } sum += std::fabs(orient(P[t[0]], P[t[1]], P[t[2]])) / 2; } c.check(ok, "layout-triangle", at + ": a triangle has a vertex that is not a site"); c.check(std::fabs(sum - A) <= 1e-3 * S * S, "layout-cover", at + fmt(": the triangles cover %.9Lg of the %.9Lg of the convex hull", sum, A)); if (k < 2) judge(c, at, P, o, -300, 300); c.count(fmt("layout %d", k));
}
MC_MAIN("C27", {{"subsets", subsets}, {"again", again}, {"layouts", layouts}})
