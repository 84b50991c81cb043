// C18: surface evaluation, iso curves, bounding boxes, scaling.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "BsplineSurface.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static LN_NurbsSurface pick(Ctx& c, int maxP, const std::vector<int>& pf) { auto s = gen::pickSurface(c, 1, maxP, mc::tier(1, 2), mc::tier(3, 4), mc::tier(3, 4), mc::tier(2, 3), mc::tier(3, 5), pf, mc::tier(std::vector<int>{0, 1}, {0, 1, 2})); c.shard(); return s; }
static void unclampEnds(Ctx& c, LN_NurbsSurface& s) { int k = c.pick(4); if (k & 1) { auto& U = s.KnotVectorU; int p = s.DegreeU; for (int i = 0; i < p; i++) { U[i] = U[p] - (p - i) * 0.3; U[U.size() - 1 - i] = U[U.size() - 1 - p] + (p - i) * 0.4; } } if (k & 2) { auto& U = s.KnotVectorV; int p = s.DegreeV; for (int i = 0; i < p; i++) { U[i] = U[p] - (p - i) * 0.2; U[U.size() - 1 - i] = U[U.size() - 1 - p] + (p - i) * 0.5; } } }

static void evaluate(Ctx& c) {
  auto s = pick(c, mc::tier(5, 7), {0, 1, 3}); unclampEnds(c, s); auto before = s; Surf R(s); ld sc = R.scl(), tol = 1e-9 * sc; std::string at = gen::str(s).substr(0, 500); c.note("evaluate %s", at.c_str()); c.state(gen::hash(s));
  int p = s.DegreeU, q = s.DegreeV;
  for (double u : params(s.KnotVectorU, p, mc::tier(2, 3))) for (double v : params(s.KnotVectorV, q, mc::tier(2, 3))) {
    P3 e = R.at(u, v); P3 g = of(NurbsSurface::GetPointOnSurface(s, UV(u, v))); c.trans(); c.check(near(g, e, tol), "point", at + fmt(": GetPointOnSurface(%.9g,%.9g) is ", u, v) + str(g) + ", the rational sum " + str(e));
    P4 h = R.hom(u, v), d = of(BsplineSurface::GetPointOnSurface(s, UV(u, v))) - h; c.trans(); c.check(std::fabs(d.x) + std::fabs(d.y) + std::fabs(d.z) <= 4 * tol * (1 + h.w) && std::fabs(d.w) <= 1e-9 * h.w, "homogeneous", at + fmt(": homogeneous point at (%.9g,%.9g) differs", u, v));
    int su = span(p, s.KnotVectorU, u), sv = span(q, s.KnotVectorV, v); XYZ mn(1e300, 1e300, 1e300), mx(-1e300, -1e300, -1e300);
    for (int i = su - p; i <= su; i++) for (int j = sv - q; j <= sv; j++) { XYZ x = s.ControlPoints[i][j].ToXYZ(true); for (int a = 0; a < 3; a++) mn[a] = std::min(mn[a], x[a]), mx[a] = std::max(mx[a], x[a]); }
    c.check(g.x >= mn[0] - tol && g.y >= mn[1] - tol && g.z >= mn[2] - tol && g.x <= mx[0] + tol && g.y <= mx[1] + tol && g.z <= mx[2] + tol, "hull", at + fmt(": point (%.9g,%.9g) outside the hull of its active control points", u, v));
  }
  if (s.KnotVectorU[0] == s.KnotVectorU[p] && s.KnotVectorV[0] == s.KnotVectorV[q]) { double u[2] = {s.KnotVectorU.front(), s.KnotVectorU.back()}, v[2] = {s.KnotVectorV.front(), s.KnotVectorV.back()}; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { auto& r = a ? s.ControlPoints.back() : s.ControlPoints.front(); P3 e = of((b ? r.back() : r.front()).ToXYZ(true)), g = of(NurbsSurface::GetPointOnSurface(s, UV(u[a], v[b]))); c.check(near(g, e, tol), "corner", at + ": a corner of the surface is not the corner control point"); } c.count("corners"); }
  for (int k = 0; k < 4; k++) { double u = k == 0 ? s.KnotVectorU[0] - 0.5 : k == 1 ? s.KnotVectorU.back() + 0.5 : s.KnotVectorU[p], v = k == 2 ? s.KnotVectorV[0] - 0.5 : k == 3 ? s.KnotVectorV.back() + 0.5 : s.KnotVectorV[q]; bool t = false; try { NurbsSurface::GetPointOnSurface(s, UV(u, v)); } catch (const std::exception&) { t = true; } c.trans(); c.check(t, "range", at + fmt(": parameters (%g,%g) outside the knots are accepted", u, v)); }
  c.check(gen::same(s, before), "input", at + ": input modified"); c.count(fmt("degree %d x %d", p, q));
}
static void iso(Ctx& c) {
  auto s = pick(c, mc::tier(4, 7), {1, 3}); bool ud = c.flip(); Surf R(s); ld tol = 1e-9 * R.scl(); std::string at = gen::str(s).substr(0, 500); auto& K = ud ? s.KnotVectorV : s.KnotVectorU; int d = ud ? s.DegreeV : s.DegreeU; auto fs = params(K, d, 2); int fi = c.pick((int)fs.size()); double f = fs[fi]; int off = fi == 0 ? c.pick(3) : 0; double ask = off == 0 ? f : off == 1 ? K.front() - 1 : K.back() + 1; if (off == 1) f = K.front(); if (off == 2) f = K.back();
  c.note("iso %s dir %d at %g", at.c_str(), ud, ask); c.state(mc::hd(gen::hash(s), ask + ud)); auto cv = NurbsSurface::GetIsoCurve(s, ask, ud); c.trans(); Curve C(cv); std::string why; c.check(C.valid(&why), "iso-valid", at + why); auto& O = ud ? s.KnotVectorU : s.KnotVectorV; c.check(cv.KnotVector == O && cv.Degree == (ud ? s.DegreeU : s.DegreeV), "iso-knots", at + ": the iso curve does not have the knots of its direction");
  for (double t : params(O, cv.Degree, 2)) { P3 e = ud ? R.at(t, f) : R.at(f, t), g = C.at(t); c.check(near(g, e, tol), "iso", at + fmt(": iso curve (%s direction, fixed %.9g) at %.9g is ", ud ? "u" : "v", f, t) + str(g) + ", the surface point " + str(e)); } c.count(off ? "clamped" : "inside");
}
static void box(Ctx& c) {
  auto s = pick(c, mc::tier(3, 5), {0, 1, 2, 3, 4}); int sh = c.pick(4); XYZ o = sh == 0 ? XYZ(0, 0, 0) : sh == 1 ? XYZ(20, 30, 40) : sh == 2 ? XYZ(-50, -60, -70) : XYZ(5, -40, 0); for (auto& r : s.ControlPoints) for (auto& q : r) { double w = q.GetW(); q = XYZW(q.ToXYZ(true) + o, w); }
  Surf R(s); ld tol = 1e-9 * R.scl(); std::string at = gen::str(s).substr(0, 500) + fmt(" shift %d", sh); c.note("box %s", at.c_str()); c.state(gen::hash(s)); auto b = NurbsSurface::GetBoundingBox(s); auto ob = NurbsSurface::GetOrientedBoundingBox(s); c.trans(2);
  XYZ mn(1e300, 1e300, 1e300), mx(-1e300, -1e300, -1e300); for (auto& r : s.ControlPoints) for (auto& q : r) { XYZ x = q.ToXYZ(true); for (int a = 0; a < 3; a++) mn[a] = std::min(mn[a], x[a]), mx[a] = std::max(mx[a], x[a]); }
  P3 lo = of(b.MinPoint), hi = of(b.MaxPoint); c.check(lo.x <= hi.x + tol && lo.y <= hi.y + tol && lo.z <= hi.z + tol, "box-order", at + ": empty box"); for (int a = 0; a < 3; a++) c.check(b.MinPoint[a] >= mn[a] - tol && b.MaxPoint[a] <= mx[a] + tol, "box-tight", at + fmt(": the box [%g,%g] in coordinate %d is larger than that of the control net [%g,%g]", b.MinPoint[a], b.MaxPoint[a], a, mn[a], mx[a]));
  P3 ax[3]; for (int a = 0; a < 3; a++) ax[a] = of(ob.Axes[a]); for (int a = 0; a < 3; a++) for (int k = 0; k < 3; k++) c.check(std::fabs(dot(ax[a], ax[k]) - (a == k)) < 1e-9, "obb-axes", at + ": axes are not orthonormal");
  for (int a = 0; a < 3; a++) { ld l = 1e300, h = -1e300; for (auto& r : s.ControlPoints) for (auto& q : r) { ld d = dot(of(q.ToXYZ(true)), ax[a]); l = std::min(l, d); h = std::max(h, d); } c.check(ob.HalfExtents[a] <= (h - l) / 2 + tol, "obb-tight", at + ": oriented box larger than the control net"); }
  for (double u : params(s.KnotVectorU, s.DegreeU, 3)) for (double v : params(s.KnotVectorV, s.DegreeV, 3)) { P3 e = R.at(u, v); bool knot = std::count(s.KnotVectorU.begin(), s.KnotVectorU.end(), u) && std::count(s.KnotVectorV.begin(), s.KnotVectorV.end(), v); if (knot || (s.DegreeU == 1 && s.DegreeV == 1)) c.check(e.x >= lo.x - tol && e.y >= lo.y - tol && e.z >= lo.z - tol && e.x <= hi.x + tol && e.y <= hi.y + tol && e.z <= hi.z + tol, "box", at + fmt(": the surface point at (%.9g,%.9g) ", u, v) + str(e) + " is outside the box " + str(lo) + ".." + str(hi)); P3 d = e - of(ob.Center); for (int a = 0; a < 3; a++) c.check(std::fabs(dot(d, ax[a])) <= ob.HalfExtents[a] + tol, "obb", at + fmt(": the surface point at (%.9g,%.9g) ", u, v) + str(e) + " is outside the oriented box"); }
  c.count(fmt("shift %d", sh));
}
// The surface of the stable test Test_NurbsSurface.Box, whose pinned box leaves surface points out: the known finding.
static void pinned(Ctx& c) {
  c.shard(); static const double Z[6][6] = {{0, 4, 22, 22, 4, 0}, {0, 9.950068, 9.65541838, 47.21371742, -11.56982167, 0}, {0, -7.9001371, 46.6891632, -28.4274348, 35.1396433, 0}, {0, 29.2877911, -30.4644718, 129.158299, -62.1717142, 0}, {0, -10.384636, 59.21371742, -37.7272976, 45.1599451, 0}, {0, 0, 0, 0, 0, 0}}, X[6] = {0, 6.6666667, 16.6666667, 33.3333333, 43.3333333, 50};
  LN_NurbsSurface s; s.DegreeU = s.DegreeV = 3; s.KnotVectorU = s.KnotVectorV = {0, 0, 0, 0, 0.4, 0.6, 1, 1, 1, 1}; s.ControlPoints.assign(6, std::vector<XYZW>(6)); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) s.ControlPoints[i][j] = XYZW(XYZ(X[j], X[i], Z[i][j]), 1);
  c.note("pinned"); c.state(gen::hash(s)); Surf R(s); auto b = NurbsSurface::GetBoundingBox(s); c.trans(); P3 lo = of(b.MinPoint), hi = of(b.MaxPoint); for (int i = 0; i <= 20; i++) for (int j = 0; j <= 20; j++) { P3 e = R.at(i / 20.0, j / 20.0); c.check(e.x >= lo.x - 1e-3 && e.y >= lo.y - 1e-3 && e.z >= lo.z - 1e-3 && e.x <= hi.x + 1e-3 && e.y <= hi.y + 1e-3 && e.z <= hi.z + 1e-3, "box-pinned", fmt("surface point at (%g,%g) ", i / 20.0, j / 20.0) + str(e) + " is outside the box " + str(lo) + ".." + str(hi)); } c.count("pinned");
}
static void scaling(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), {0, 1}); double f[3]; { static const double F[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {-0.5, 1, 3}, {2, -0.5, 0.25}}; int k = c.pick(6); for (int a = 0; a < 3; a++) f[a] = F[k][a]; } XYZ o = c.flip() ? XYZ(1, -2, 3) : XYZ(0, 0, 0); Surf R(s); ld tol = 1e-8 * R.scl(); std::string at = gen::str(s).substr(0, 500) + fmt(" scale (%g,%g,%g)", f[0], f[1], f[2]); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(gen::hash(s), f[0]), f[1]), f[2] + o.GetX()));
  auto t = s; t.ControlPoints = NurbsSurface::NonUniformScaling(s.ControlPoints, f[0], f[1], f[2], o); c.trans(); Surf B(t); std::string why; c.check(B.valid(&why), "scale-valid", at + why); P3 r = of(o);
  for (double u : params(s.KnotVectorU, s.DegreeU, 1)) for (double v : params(s.KnotVectorV, s.DegreeV, 1)) { P3 e = R.at(u, v) - r; e = P3{e.x * f[0], e.y * f[1], e.z * f[2]} + r; c.check(near(B.at(u, v), e, tol * 4), "scale", at + fmt(": the scaled surface at (%.9g,%.9g) is ", u, v) + str(B.at(u, v)) + ", the scaled point " + str(e)); } c.count("scaled");
}
MC_MAIN("C18", {{"evaluate", evaluate}, {"iso", iso}, {"box", box}, {"pinned", pinned}, {"scaling", scaling}})
