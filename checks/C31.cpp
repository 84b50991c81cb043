// C31: octree: structure, radius search (both algorithms) and k nearest neighbours against brute force.
#include "../mc/knots.hpp"
#include "Octree.h"
#include "OctreeCollector.h"
#include <memory>
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static void structure(Ctx& c, const std::string& at, Octant* r, const std::vector<XYZ>& db, int leaf, double minExtent) {
  std::vector<int> seen(db.size(), 0); std::function<void(Octant*, int)> walk = [&](Octant* o, int depth) {
    c.check(depth < 2000, "depth", at + ": the tree does not end"); ld tol = 1e-9L * (1 + std::fabs(o->Center.X()) + std::fabs(o->Center.Y()) + std::fabs(o->Center.Z()) + o->Extent); c.check(!o->PointIndices.empty(), "empty", at + ": an octant has no points"); for (int i : o->PointIndices) { c.check(i >= 0 && i < (int)db.size(), "index", at + fmt(": index %d", i)); P3 d = of(db[i]) - of(o->Center); c.check(std::fabs(d.x) <= o->Extent + tol && std::fabs(d.y) <= o->Extent + tol && std::fabs(d.z) <= o->Extent + tol, "cube", at + fmt(": point %d lies outside its octant by ", i) + str(d) + fmt(" of %.9g", o->Extent)); }
    if (o->IsLeaf) { c.check((int)o->PointIndices.size() <= leaf || o->Extent <= minExtent, "leaf-size", at + fmt(": a leaf of %zu points", o->PointIndices.size())); for (int i : o->PointIndices) seen[i]++; for (auto* k : o->Children) c.check(k == nullptr, "leaf-children", at + ": a leaf has children"); }
    else { size_t n = 0; for (auto* k : o->Children) if (k) { n += k->PointIndices.size(); c.check(std::fabs(k->Extent - o->Extent / 2) <= 1e-12 * (1 + o->Extent), "extent", at + ": a child is not half as large"); walk(k, depth + 1); } c.check(n == o->PointIndices.size(), "partition", at + ": children do not partition the points"); } };
  c.check(r != nullptr, "root", at + ": no tree"); walk(r, 0); c.check((int)r->PointIndices.size() == (int)db.size(), "all", at + ": root misses points"); for (size_t i = 0; i < db.size(); i++) c.check(seen[i] == 1, "leaf", at + fmt(": point %zu is in %d leaves", i, seen[i]));
}
static void query(Ctx& c, const std::string& at, Octant* r, const std::vector<XYZ>& db, const XYZ& q, ld unit) {
  std::vector<ld> d; for (auto& p : db) d.push_back(dist(of(p), of(q))); std::sort(d.begin(), d.end());
  for (int k = 1; k <= (int)db.size() + 1; k++) { KnnResultSet s(k); OctreeKnnSearch(r, db, s, q); c.trans(); std::string w = at + fmt(" %d nearest of (%.9g,%.9g,%.9g)", k, q.X(), q.Y(), q.Z()); c.check(s.Size() == std::min(k, (int)db.size()), "knn-size", w + fmt(": %d found", s.Size())); c.check(s.Full() == (k <= (int)db.size()), "knn-full", w); if (k <= (int)db.size()) c.check(std::fabs(s.WorstDist() - d[k - 1]) <= 4e-6L * (1 + d[k - 1]), "knn", w + fmt(": the farthest is at %.9g, expected %.9Lg", s.WorstDist(), d[k - 1])); }
  std::vector<ld> rs = {0.37L * unit, 1.13L * unit, 2.9L * unit, 30 * unit}; for (size_t i = 0; i + 1 < d.size(); i++) rs.push_back((d[i] + d[i + 1]) / 2); for (ld rad : rs) { int e = 0; bool close = false; for (ld x : d) { if (std::fabs(x - rad) <= 6e-6L * (1 + rad)) close = true; e += x <= rad; } if (close) continue; RadiusNnResultSet a((double)rad), b((double)rad); OctreeRadiusSearch(r, db, a, q); OctreeRadiusSearchFast(r, db, b, q); c.trans(2); std::string w = at + fmt(" within %.9Lg of (%.9g,%.9g,%.9g)", rad, q.X(), q.Y(), q.Z()); c.check(a.Size() == e, "radius", w + fmt(": %d found, expected %d", a.Size(), e)); c.check(b.Size() == e, "radius-fast", w + fmt(": %d found, expected %d", b.Size(), e)); }
}
static XYZ place(int g, int n, double s, const XYZ& o) { return XYZ(o.X() + s * (g % n), o.Y() + s * (g / n % n), o.Z() + s * (g / n / n) * 0.9); }
static void subsets(Ctx& c) {   // every subset of a 2x2x2 (3x3x2) grid with duplicates, at several scales and offsets
  double s = c.pick(std::vector<double>{1, 0.01, 40}); static const XYZ O[] = {XYZ(0, 0, 0), XYZ(-3, 7, 0.3), XYZ(1e5, -2e5, 3e4)}; int oi = c.pick(3); if (oi == 2 && s < 1) c.skip(); XYZ o = O[oi]; int leaf = 1 + c.pick(2); int mask = 1 + c.pick(mc::tier(255, 4095)); c.shard(); std::vector<XYZ> db; for (int i = 0; i < 12; i++) if (mask >> i & 1) db.push_back(i < 8 ? place(i, 2, s, o) : XYZ(o.X() + s * (0.3 + 0.1 * i), o.Y() + s * 0.55, o.Z() + s * 0.1 * (i - 8))); if (mask % 5 == 0) db.push_back(db[0]);
  double me = s * 0.01; std::string at = fmt("grid subset %#x scale %g offset (%g,%g,%g) leaf %d", mask, s, o.X(), o.Y(), o.Z(), leaf); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mask, s), leaf * 10 + oi)); std::unique_ptr<Octant> r(OctreeConstruction(db, leaf, me)); c.trans(); structure(c, at, r.get(), db, leaf, me); for (XYZ q : {place(0, 2, s, o), XYZ(o.X() + 0.5 * s, o.Y() + 0.5 * s, o.Z() + 0.45 * s), XYZ(o.X() + 1.3 * s, o.Y() - 0.4 * s, o.Z() + 0.2 * s), XYZ(o.X() - 4 * s, o.Y() + 9 * s, o.Z() + s)}) query(c, at, r.get(), db, q, s); c.count(fmt("%zu points", db.size()));
}
static void clouds(Ctx& c) {   // larger clouds of several layouts
  int n = c.pick(mc::tier(std::vector<int>{1, 2, 9, 33, 64}, {1, 2, 5, 9, 17, 33, 64, 125, 300})), lay = c.pick(6), leaf = c.pick(std::vector<int>{1, 4, 16}); double s = c.pick(std::vector<double>{1, 1e-2, 100}); c.shard(); std::vector<XYZ> db; for (int i = 0; i < n; i++) { double a = i * 0.7, f = (i * 37 % 101) / 101.0, g = (i * 53 % 97) / 97.0, h = (i * 71 % 89) / 89.0; XYZ p; switch (lay) { case 0: p = XYZ(f, g, h); break; case 1: p = XYZ(i * 0.1, 0, 0); break; case 2: p = XYZ(std::cos(a), std::sin(a), 0); break; case 3: p = XYZ(i % 4, i / 4 % 4, i / 16); break; case 4: p = XYZ(1, 2, 3); break; default: p = XYZ(f < 0.5 ? f * 1e-3 : f * 10, g * 1e-2, h * 5); } db.push_back(XYZ(p.X() * s, p.Y() * s, p.Z() * s)); }
  double me = s * 1e-3; std::string at = fmt("%d points of layout %d scale %g leaf %d", n, lay, s, leaf); c.note("%s", at.c_str()); c.state(mc::hd(n * 100 + lay * 10 + leaf, s)); std::unique_ptr<Octant> r(OctreeConstruction(db, leaf, me)); c.trans(); structure(c, at, r.get(), db, leaf, me); std::vector<XYZ> qs; for (int i = 0; i < n; i += std::max(1, n / 5)) { qs.push_back(db[i]); qs.push_back(XYZ(db[i].X() + 0.03 * s, db[i].Y() - 0.07 * s, db[i].Z() + 0.11 * s)); } qs.push_back(XYZ(-7 * s, 3 * s, 12 * s)); for (auto& q : qs) query(c, at, r.get(), db, q, 0.3L * s); c.count(fmt("layout %d", lay));
}
static void empty(Ctx& c) { int leaf = 1 + c.pick(3); c.shard(); c.state(leaf); std::vector<XYZ> db; Octant* r = OctreeConstruction(db, leaf, 0.1); c.trans(); c.check(r == nullptr, "none", "a tree of no points"); KnnResultSet k(3); OctreeKnnSearch(r, db, k, XYZ(1, 2, 3)); RadiusNnResultSet a(5), b(5); OctreeRadiusSearch(r, db, a, XYZ()); OctreeRadiusSearchFast(r, db, b, XYZ()); c.trans(3); c.check(k.Size() == 0 && !k.Full() && a.Size() == 0 && b.Size() == 0, "none", "neighbours of no points"); c.count("empty"); }
// the collectors alone: every order of insertion of up to 6 distances
static void collectors(Ctx& c) { int n = 1 + c.pick(mc::tier(5, 6)), k = 1 + c.pick(4); std::vector<double> v = {3, 1, 2, 1, 5, 0.5}; v.resize(n); std::vector<int> idx(n); for (int i = 0; i < n; i++) idx[i] = i; std::string at = fmt("capacity %d, distances", k); KnnResultSet s(k); RadiusNnResultSet r(2.5); std::vector<double> in; uint64_t h = k; for (int i = 0; i < n; i++) { int j = c.pick((int)idx.size()); if (i == 0) c.shard(); double d = v[idx[j]]; idx.erase(idx.begin() + j); at += fmt(" %g", d); h = mc::hd(h, d); s.AddPoint(d, i); r.AddPoint(d, i); c.trans(2); in.push_back(d); std::sort(in.begin(), in.end()); c.check(s.Size() == std::min(k, (int)in.size()), "collect-size", at); if ((int)in.size() >= k) c.check(std::fabs(s.WorstDist() - in[k - 1]) < 1e-5, "collect", at + fmt(": the farthest is %g, expected %g", s.WorstDist(), in[k - 1])); c.check(r.Size() == std::count_if(in.begin(), in.end(), [](double x) { return x <= 2.5; }), "collect-radius", at); } c.note("%s", at.c_str()); c.state(h); c.count("orders"); }
MC_MAIN("C31", {{"subsets", subsets}, {"clouds", clouds}, {"empty", empty}, {"collectors", collectors}})
