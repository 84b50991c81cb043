// C24: point inversion on surfaces, signed distance.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static LN_NurbsSurface pick(Ctx& c, bool many) { return gen::pickSurface(c, 1, mc::tier(many ? 3 : 2, 4), 1, 2, 2, mc::tier(1, 2), mc::tier(many ? 2 : 1, 3), mc::tier(std::vector<int>{0}, {0, 1, 3}), mc::tier(many ? std::vector<int>{0, 1} : std::vector<int>{1}, {0, 1, 2}), mc::tier(false, true)); }
static bool within(const Surf& R, UV t, ld tol = 1e-6) { ld a = tol * (1 + std::fabs(R.ulo()) + std::fabs(R.uhi())), b = tol * (1 + std::fabs(R.vlo()) + std::fabs(R.vhi())); return t.GetU() >= R.ulo() - a && t.GetU() <= R.uhi() + a && t.GetV() >= R.vlo() - b && t.GetV() <= R.vhi() + b; }
static P3 point(const Surf& R, UV t) { return R.at(std::min(std::max(t.GetU(), R.ulo()), R.uhi()), std::min(std::max(t.GetV(), R.vlo()), R.vhi())); }
// least distance: a dense grid over every span pair, then compass search from the best local minima of the grid
static ld minDist(const Surf& R, P3 q, const std::vector<double>& bu, const std::vector<double>& bv, double* au, double* av) {
  int n = 24; std::vector<double> us, vs; auto fill = [&](const std::vector<double>& b, std::vector<double>& o) { for (size_t i = 0; i + 1 < b.size(); i++) for (int k = 0; k < n; k++) o.push_back(b[i] + (b[i + 1] - b[i]) * k / n); o.push_back(b.back()); }; fill(bu, us); fill(bv, vs);
  std::vector<std::vector<ld>> d(us.size(), std::vector<ld>(vs.size())); for (size_t i = 0; i < us.size(); i++) for (size_t j = 0; j < vs.size(); j++) d[i][j] = dist(R.at(us[i], vs[j]), q);
  ld best = 1e300; for (size_t i = 0; i < us.size(); i++) for (size_t j = 0; j < vs.size(); j++) { bool lo = true; for (int a = -1; a <= 1 && lo; a++) for (int b = -1; b <= 1; b++) { size_t x = i + a, y = j + b; if (x < us.size() && y < vs.size() && d[x][y] < d[i][j]) { lo = false; break; } } if (!lo) continue; double u = us[i], v = vs[j], hu = (bu.back() - bu[0]) / n / 2, hv = (bv.back() - bv[0]) / n / 2; ld m = d[i][j];
    for (int k = 0; k < 4000 && (hu > 1e-9 * (bu.back() - bu[0])); k++) { bool moved = false; for (int a = -1; a <= 1 && !moved; a++) for (int b = -1; b <= 1 && !moved; b++) { if (!a && !b) continue; double x = std::min(std::max(u + a * hu, bu[0]), bu.back()), y = std::min(std::max(v + b * hv, bv[0]), bv.back()); ld e = dist(R.at(x, y), q); if (e < m) { m = e; u = x; v = y; moved = true; } } if (!moved) { hu /= 2; hv /= 2; } }
    if (m < best) { best = m; *au = u; *av = v; } }
  return best;
}
static void on(Ctx& c) {
  auto s = pick(c, true); Surf R(s); auto us = params(s.KnotVectorU, s.DegreeU, mc::tier(1, 2)), vs = params(s.KnotVectorV, s.DegreeV, mc::tier(1, 2)); double u = c.pick(us), v = c.pick(vs); c.shard(); P3 q = R.at(u, v); std::string at = fmt("point at (%.9g,%.9g) of ", u, v) + gen::str(s).substr(0, 500); c.note("on %s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(s), u), v)); auto before = s;
  UV t = NurbsSurface::GetParamOnSurface(s, toXYZ(q)); c.trans(); c.check(gen::same(s, before), "input", at + ": input modified"); c.check(within(R, t), "on-range", at + fmt(": parameter (%.9g,%.9g) outside the domain", t.GetU(), t.GetV())); ld d = dist(point(R, t), q); c.check(d <= 5e-4, "on-point", at + fmt(": returned (%.9g,%.9g) whose point is %Lg away", t.GetU(), t.GetV(), d)); c.count("on");
}
static const P3 D[] = {{0, 0, 1}, {-0.3, 1, 0}, {0.1, -0.7, -0.7}, {1, 0.2, 0.1}, {-1, -0.2, 0.4}, {0, -1, 0}};
static void off(Ctx& c) {
  auto s = pick(c, false); Surf R(s); auto us = params(s.KnotVectorU, s.DegreeU, 1), vs = params(s.KnotVectorV, s.DegreeV, 1); double u = c.pick(us), v = c.pick(vs); int dir = c.pick(mc::tier(3, 6)); double h = c.pick(mc::tier(std::vector<double>{0.05, 3}, {0.05, 1.5, 6})); c.shard(); P3 q = R.at(u, v) + (ld)h * unit(D[dir]); std::string at = fmt("point %s of ", str(q).c_str()) + gen::str(s).substr(0, 500); c.note("off %s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(s), q.x), q.y + q.z));
  UV t = NurbsSurface::GetParamOnSurface(s, toXYZ(q)); c.trans(); c.check(within(R, t), "off-range", at + fmt(": parameter (%.9g,%.9g) outside the domain", t.GetU(), t.GetV())); double a = 0, b = 0; auto bu = breaks(s.KnotVectorU, s.DegreeU), bv = breaks(s.KnotVectorV, s.DegreeV); ld m = minDist(R, q, bu, bv, &a, &b), d = dist(point(R, t), q), tol = 1e-3 * (1 + m);
  // two minima of a fold inside one cell of the sampling (100 per span) are told apart only up to that cell
  double cu = 0, cv = 0; for (size_t i = 1; i < bu.size(); i++) cu = std::max(cu, (bu[i] - bu[i - 1]) / 50); for (size_t i = 1; i < bv.size(); i++) cv = std::max(cv, (bv[i] - bv[i - 1]) / 50); if (std::fabs(t.GetU() - a) <= cu && std::fabs(t.GetV() - b) <= cv) tol += dist(R.at(a, b), point(R, t));
  c.check(d <= m + tol, "off-nearest", at + fmt(": returned (%.9g,%.9g) at distance %Lg, but (%.9g,%.9g) is at %Lg", t.GetU(), t.GetV(), d, a, b, m));
  double f = NurbsSurface::ComputeSignedDistanceFunction(s, toXYZ(q)); c.trans(); c.check(std::fabs(std::fabs(f) - d) <= 1e-6 * (1 + d), "distance", at + fmt(": signed distance %.9g, but the nearest point is %Lg away", f, d));
  UV k(std::min(std::max(t.GetU(), R.ulo()), R.uhi()), std::min(std::max(t.GetV(), R.vlo()), R.vhi())); auto e = R.der(k.GetU(), k.GetV(), 1); P3 n = cross(e[1][0], e[0][1]); if (len(n) > 1e-3 * (1e-3 + len(e[1][0]) * len(e[0][1]))) { ld w = dot(q - e[0][0], unit(n)); if (std::fabs(w) > 1e-2 * d && d > 1e-2) { c.check((w > 0) == (f > 0), "sign", at + fmt(": signed distance %.9g, but the point is %Lg along the normal", f, w)); c.count(w > 0 ? "outside" : "inside"); } }
  c.count("off");
}
static void all(Ctx& c) {
  auto s = pick(c, false); Surf R(s); auto us = params(s.KnotVectorU, s.DegreeU, 1), vs = params(s.KnotVectorV, s.DegreeV, 1); double u = c.pick(us), v = c.pick(vs); c.shard(); P3 q = R.at(u, v); std::string at = fmt("all parameters of the point at (%.9g,%.9g) of ", u, v) + gen::str(s).substr(0, 500); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(s), u), v));
  auto ts = NurbsSurface::GetAllParamsOnSurface(s, toXYZ(q)); c.trans(); bool hit = false; for (UV t : ts) { c.check(within(R, t), "all-range", at + fmt(": parameter (%.9g,%.9g) outside the domain", t.GetU(), t.GetV())); hit |= dist(point(R, t), q) < 5e-4; } c.check(hit, "all-found", at + ": no returned parameter gives the point"); c.count(fmt("%zu", ts.size()));
}
// closed surfaces: cylinders, spheres, tori; distances are known
static void closed(Ctx& c) {
  int kind = c.pick(3); double r = c.pick(std::vector<double>{0.5, 2, 40}); int ia = c.pick(mc::tier(9, 17)), ib = c.pick(mc::tier(5, 9)); double k = c.pick(std::vector<double>{1, 0.7, 1.6}); bool swap = c.flip(); c.shard(); LN_NurbsSurface s; bool ok; ld th = 2 * M_PIl * ia / mc::tier(9, 17), ph; P3 q; ld d; const double o[3] = {3, -2, 1};
  if (kind == 0) { ok = NurbsSurface::CreateCylindricalSurface(XYZ(o[0], o[1], o[2]), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 2 * M_PI, r, 3 * r, s); ph = 3 * r * (ld)ib / mc::tier(4, 8); q = {o[0] + k * r * std::cos(th), o[1] + k * r * std::sin(th), o[2] + ph}; d = r * std::fabs(k - 1); }
  else { LN_NurbsCurve prof; ld R0 = kind == 1 ? 0 : 2.5L * r; ok = NurbsCurve::CreateArc(XYZ(o[0] + R0, o[1], o[2]), XYZ(0, 0, 1), XYZ(1, 0, 0), kind == 1 ? 0 : 0, kind == 1 ? M_PI : 2 * M_PI, r, r, prof) && NurbsSurface::CreateRevolvedSurface(XYZ(o[0], o[1], o[2]), XYZ(0, 0, 1), 2 * M_PI, prof, s); ph = kind == 1 ? M_PIl * ((ld)ib + 0.5L) / mc::tier(5, 9) : 2 * M_PIl * ib / mc::tier(5, 9); ld w = R0 + (kind == 1 ? k * r * std::sin(ph) : k * r * std::cos(ph)), z = k * r * (kind == 1 ? std::cos(ph) : std::sin(ph)); q = {o[0] + w * std::cos(th), o[1] + w * std::sin(th), o[2] + z}; d = r * std::fabs(k - 1); }
  static const char* N[] = {"cylinder", "sphere", "torus"}; std::string at = fmt("%s of radius %g, point %s%s", N[kind], r, str(q).c_str(), swap ? ", directions swapped" : ""); c.note("closed %s", at.c_str()); c.state(mc::hd(mc::hd(kind * 100 + ia * 10 + ib, r), k)); if (!ok) { c.fail("closed-made", at + ": the surface is refused"); return; } if (swap) { LN_NurbsSurface x; NurbsSurface::Swap(s, x); s = x; }
  Surf R(s); UV t = NurbsSurface::GetParamOnSurface(s, toXYZ(q)); c.trans(); c.check(within(R, t), "closed-range", at + fmt(": parameter (%.9g,%.9g) outside the domain", t.GetU(), t.GetV())); ld g = dist(point(R, t), q); c.check(std::fabs(g - d) <= 1e-4 * (1 + r), "closed-nearest", at + fmt(": returned (%.9g,%.9g) at distance %Lg, true %Lg", t.GetU(), t.GetV(), g, d));
  if (k != 1) { double f = NurbsSurface::ComputeSignedDistanceFunction(s, toXYZ(q)), f2 = NurbsSurface::ComputeSignedDistanceFunction(s, toXYZ(P3{o[0], o[1], o[2]} + P3{kind == 2 ? 2.5L * r : 0.1L * r, 0.1L * r, kind == 0 ? r : 0.05L * r})); c.trans(2); c.check(std::fabs(std::fabs(f) - d) <= 1e-4 * (1 + r), "closed-distance", at + fmt(": signed distance %.9g, true %Lg", f, d)); c.check((f * f2 > 0) == (k < 1), "closed-side", at + fmt(": signed distance %.9g although an inner point has %.9g", f, f2)); }
  c.count(N[kind]);
}
MC_MAIN("C24", {{"on", on}, {"off", off}, {"all", all}, {"closed", closed}})
