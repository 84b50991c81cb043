// C22: surface constructions with a closed form: bilinear, cylinder, ruled, revolved, translational sweep, Coons.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;
static std::vector<double> sorted(std::vector<double> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static const double PI = 3.14159265358979323846;
static std::string S(const XYZ& p) { return str(of(p)); }
// orthonormal frames, one of them oblique
static void frame(int k, P3& x, P3& y, P3& z) { if (k == 0) x = {1, 0, 0}, y = {0, 1, 0}; else if (k == 1) x = {0, 0, 1}, y = {1, 0, 0}; else if (k == 2) x = {0, -1, 0}, y = {1, 0, 0}; else { x = unit(P3{1, 2, 2}); y = unit(P3{2, 1, -2}); } z = cross(x, y); }
static void bilinear(Ctx& c) {
  static const std::vector<XYZ> A = {XYZ(0, 0, 0), XYZ(4, 0, 1), XYZ(-3, 50, 2), XYZ(0.01, 0.02, -7), XYZ(1000, -200, 30)}; c.shard(); XYZ q[4]; uint64_t h = 1; for (auto& p : q) { p = c.pick(A); h = mc::hd(mc::hd(h, p.GetX()), p.GetY()); } LN_NurbsSurface s; std::string at = "bilinear " + S(q[0]) + S(q[1]) + S(q[2]) + S(q[3]); c.note("%s", at.c_str()); c.state(h);
  NurbsSurface::CreateBilinearSurface(q[0], q[1], q[2], q[3], s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "bilinear-valid", at + why); ld tol = 1e-9 * R.scl();
  c.check(s.KnotVectorU.front() == 0 && s.KnotVectorU.back() == 1 && s.KnotVectorV.front() == 0 && s.KnotVectorV.back() == 1, "bilinear-domain", at + ": domain is not [0,1]x[0,1]");
  for (int i = 0; i <= 8; i++) for (int j = 0; j <= 8; j++) { ld u = i / 8.0, v = j / 8.0; P3 e = (1 - u) * ((1 - v) * of(q[0]) + v * of(q[1])) + u * ((1 - v) * of(q[2]) + v * of(q[3])); c.check(near(R.at(u, v), e, tol), "bilinear", at + fmt(": at (%g,%g) ", (double)u, (double)v) + str(R.at(u, v)) + ", expected " + str(e)); }
  c.count("bilinear");
}
static void cylinder(Ctx& c) {
  c.shard(); P3 x, y, z; frame(c.pick(4), x, y, z); static const double L[] = {1, 3, 0.25, 40}; int ll = c.pick(mc::tier(4, 12)); double lx = L[ll % 3], ly = L[ll % 4]; static const XYZ O[] = {XYZ(0, 0, 0), XYZ(5, -7, 11), XYZ(-300, 20, 0.5)}; XYZ o = O[c.pick(3)]; static const double A[] = {0, PI / 6, PI / 2, 2, PI, 4, 3 * PI / 2, 5.5, 2 * PI, -PI / 3, -2}; double a = A[c.pick(11)], b = A[c.pick(11)]; if (b <= a || b - a > 2 * PI + 1e-9) c.skip(); static const double R_[] = {1, 0.05, 250}; double r = R_[c.pick(3)]; double h = R_[c.pick(3)] * 1.5;
  std::string at = "cylinder x=" + str(x) + fmt(" lengths %g %g", lx, ly) + " o=" + S(o) + fmt(" angles %g..%g r=%g h=%g", a, b, r, h); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(gen::hashv({(double)x.x, (double)y.x, lx, ly, o.GetX()}), a), b), r), h));
  LN_NurbsSurface s; XYZ ax = toXYZ(lx * x), ay = toXYZ(ly * y), ax0 = ax, ay0 = ay; bool ok = NurbsSurface::CreateCylindricalSurface(o, ax, ay, a, b, r, h, s); c.trans(); c.check(ok, "cylinder-refused", at + ": refused"); c.check(ax.IsAlmostEqualTo(ax0) && ay.IsAlmostEqualTo(ay0), "cylinder-input", at + ": modified the axes it was given"); Surf R(s); std::string why; bool vl = R.valid(&why); c.check(vl, "cylinder-valid", at + why); ld sc = R.scl(), tol = 1e-9 * sc + 1e-7 * r;
  ld prev = -1; bool first = true; for (double v : sorted(params(s.KnotVectorV, s.DegreeV, 3))) { ld ang = 0; for (double u : params(s.KnotVectorU, s.DegreeU, 3)) { P3 p = R.at(u, v) - of(o); ld px = dot(p, x), py = dot(p, y), pz = dot(p, z); c.check(std::fabs(std::sqrt(px * px + py * py) - r) <= tol, "cylinder-radius", at + fmt(": point (%g,%g) is %g from the axis", u, v, (double)std::sqrt(px * px + py * py))); ld t = std::atan2(py, px) - a; while (t < -1e-7) t += 2 * PI; while (t >= 2 * PI - 1e-7) t -= 2 * PI; if (t < 1e-7 && !first) t = prev > PI ? t + 2 * PI : t; c.check(t <= b - a + 1e-6, "cylinder-angle", at + fmt(": angle of (%g,%g) outside the range", u, v)); if (u != s.KnotVectorU.front()) c.check(std::fabs(t - ang) < 1e-6, "cylinder-ruling", at + ": rulings are not parallel to the axis"); ang = t; c.check(std::fabs(pz - (1 - u) * h) <= tol, "cylinder-height", at + fmt(": height of (%g,%g) is %g", u, v, (double)pz)); }
    if (!first) c.check(ang > prev, "cylinder-monotone", at + ": angle does not increase along v"); else c.check(std::fabs(ang) < 1e-6, "cylinder-start", at + ": does not start at the start angle"); prev = ang; first = false; }
  c.check(std::fabs(prev - (b - a)) < 1e-6, "cylinder-end", at + fmt(": ends at angle %g", (double)prev)); c.count("cylinder");
}
static LN_NurbsCurve moved(LN_NurbsCurve a, XYZ o, double k) { for (auto& q : a.ControlPoints) { double w = q.GetW(); XYZ p = q.ToXYZ(true); q = XYZW(XYZ(p.GetY() * k, p.GetX() * k, p.GetZ()) + o, w); } return a; }
static const int BIG[][2] = {{4, 4}, {5, 2}, {2, 6}, {7, 7}, {1, 7}, {6, 5}};
static std::vector<std::vector<int>> bigPats(int p) { return {{}, std::vector<int>(9, 1), {p, 1}, {1, std::max(1, p - 1), 1, 1}}; }
static void ruled(Ctx& c) {
  int p = 1 + c.pick(mc::tier(3, 6) + 1), q; bool big = p == 1 + mc::tier(3, 6); if (big) { auto& b = BIG[c.pick(6)]; p = b[0]; q = b[1]; } else q = 1 + c.pick(mc::tier(3, 6)); auto& d = gen::domains()[c.pick(mc::tier(3, 5))]; auto pu = big ? bigPats(p) : gen::patterns(2, std::min(mc::tier(2, 3), p), mc::tier(3, 4)), pv = big ? bigPats(q) : gen::patterns(2, std::min(mc::tier(2, 3), q), mc::tier(3, 4)); auto& mu = c.pick(pu); auto& mv = c.pick(pv); c.shard(); int f0 = mu.empty() ? 0 : c.pick(2), f1 = mv.empty() ? 0 : c.pick(2); int w0 = c.pick(mc::tier(2, 3)), w1 = c.pick(mc::tier(2, 3));
  auto a = gen::curve(p, gen::clamped(p, mu, f0, d), 1, w0), b = moved(gen::curve(q, gen::clamped(q, mv, f1, d), 0, w1), XYZ(3, -2, 10), 1.5); std::string at = "ruled " + gen::str(a).substr(0, 300) + " / " + gen::str(b).substr(0, 300); c.note("%s", at.c_str()); c.state(mc::mix(gen::hash(a), gen::hash(b))); auto a0 = a, b0 = b;
  LN_NurbsSurface s; NurbsSurface::CreateRuledSurface(a, b, s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "ruled-valid", at + why); c.check(s.DegreeU == std::max(p, q) && s.DegreeV == 1, "ruled-degree", at + ": wrong degrees"); c.check(gen::same(a, a0) && gen::same(b, b0), "ruled-input", at + ": modified its input");
  Curve A(a), B(b); ld tol = 1e-8 * R.scl(); std::vector<double> us = params(a.KnotVector, p, 2); for (double u : params(b.KnotVector, q, 2)) us.push_back(u);
  for (double u : us) { P3 x = A.at(u), y = B.at(u); c.check(near(R.at(u, 0), x, tol), "ruled-first", at + fmt(": at (%.9g,0) ", u) + str(R.at(u, 0)) + ", the first curve is at " + str(x)); c.check(near(R.at(u, 1), y, tol), "ruled-second", at + fmt(": at (%.9g,1) ", u) + str(R.at(u, 1)) + ", the second curve is at " + str(y)); ld last = -1; for (double v : {0.25, 0.5, 0.8}) { P3 m = R.at(u, v); ld t = dot(m - x, y - x) / dot(y - x, y - x); c.check(near(m, x + t * (y - x), tol) && t > last && t > 0 && t < 1, "ruled-line", at + fmt(": point (%.9g,%g) is not on the ruling", u, v)); last = t; if (w0 == 0 && w1 == 0) c.check(std::fabs(t - v) < 1e-8, "ruled-linear", at + ": ruling not linear in v"); } }
  c.count(a.KnotVector == b.KnotVector ? "same knots" : p == q ? "merged knots" : "raised");
}
static void revolved(Ctx& c) {
  P3 x, y, z; frame(c.pick(4), x, y, z); static const double L[] = {1, 3, 0.25}; double la = L[c.pick(3)]; static const XYZ O[] = {XYZ(0, 0, 0), XYZ(5, -7, 11)}; XYZ o = O[c.pick(2)]; static const double A[] = {0.1, PI / 4, PI / 2, 1.7, 2.5, PI, 3.5, 3 * PI / 2, 5, 6.2, 2 * PI}; double a = A[c.pick(11)]; int p = 1 + c.pick(7); auto pats = p > mc::tier(3, 5) ? std::vector<std::vector<int>>{{1}, std::vector<int>(5, 1)} : gen::patterns(1, std::min(2, p), 2); auto U = gen::clamped(p, c.pick(pats), 0, gen::domains()[c.pick(p > mc::tier(3, 5) ? 1 : mc::tier(2, 3))]); c.shard(); int wf = c.pick(2), fam = c.pick(4); if (p > mc::tier(3, 5) && (la != 3 || fam % 2)) c.skip();
  auto pr = gen::curve(p, U, 1, wf); int n = pr.ControlPoints.size(); // profile families: off axis, touching the axis at an end, crossing near it, out of the half plane
  for (int i = 0; i < n; i++) { double w = pr.ControlPoints[i].GetW(); ld r = fam == 0 ? 2 + i % 3 : fam == 1 ? i : fam == 2 ? 30 - 2 * i : 0.5 + i, h = fam == 2 ? 0.3 * i : i * 2 - 1, t = fam == 3 ? 0.4 * i : 0; P3 q = of(o) + r * std::cos(t) * x + r * std::sin(t) * y + h * z; pr.ControlPoints[i] = XYZW(toXYZ(q), w); }
  std::string at = "revolve axis " + str(la * z) + " o=" + S(o) + fmt(" angle %.9g profile ", a) + gen::str(pr).substr(0, 400); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(pr), a), la)); auto p0 = pr;
  LN_NurbsSurface s; bool ok = NurbsSurface::CreateRevolvedSurface(o, toXYZ(la * z), a, pr, s); c.trans(); c.check(ok, "revolve-refused", at + ": refused"); c.check(gen::same(pr, p0), "revolve-input", at + ": modified its input"); Surf R(s); std::string why; bool vl = R.valid(&why); c.check(vl, "revolve-valid", at + why); Curve C(pr); ld tol = 1e-7 * R.scl();
  auto us = sorted(params(s.KnotVectorU, s.DegreeU, 3)); for (double v : params(pr.KnotVector, p, 2)) { P3 q = C.at(v) - of(o); ld h = dot(q, z); P3 f = q - h * z; ld r = len(f); ld last = -1e-9; for (double u : us) { P3 g = R.at(u, v) - of(o); c.check(std::fabs(dot(g, z) - h) <= tol, "revolve-height", at + fmt(": point (%.9g,%.9g) moves along the axis", u, v)); P3 e = g - dot(g, z) * z; c.check(std::fabs(len(e) - r) <= tol, "revolve-radius", at + fmt(": point (%.9g,%.9g) at distance %.9g from the axis, the profile at %.9g", u, v, (double)len(e), (double)r)); if (r > 1e-3) { ld t = std::atan2(dot(cross(f, e), z), dot(f, e)); if (t < -1e-7 || (t < 1e-7 && last > PI)) t += 2 * PI; if (u == us.front()) c.check(std::fabs(t) < 1e-7, "revolve-start", at + fmt(": at (%.9g,%.9g) not the profile", u, v)); else c.check(t > last, "revolve-monotone", at + fmt(": the angle at (%.9g,%.9g) does not increase", u, v)); last = t; } } if (r > 1e-3) c.check(std::fabs(last - a) < 1e-6, "revolve-end", at + fmt(": ends at angle %.9g", (double)last)); }
  c.count(fmt("profile family %d", fam));
}
static void translational(Ctx& c) {
  int p = 1 + c.pick(mc::tier(3, 6) + 1), q; bool big = p == 1 + mc::tier(3, 6); if (big) { auto& b = BIG[c.pick(6)]; p = b[0]; q = b[1]; } else q = 1 + c.pick(mc::tier(3, 6)); auto pu = big ? bigPats(p) : gen::patterns(2, std::min(2, p), 3), pv = big ? bigPats(q) : gen::patterns(2, std::min(2, q), 3); auto& mu = c.pick(pu); auto& mv = c.pick(pv); int d = c.pick(4); c.shard(); int w0 = c.pick(3), w1 = c.pick(3); auto a = gen::curve(p, gen::clamped(p, mu, 0, gen::domains()[d]), 1, w0), b = moved(gen::curve(q, gen::clamped(q, mv, 1, gen::domains()[(d + 1) % 4]), 3, w1), XYZ(1, 2, 3), 2);
  std::string at = "translational sweep " + gen::str(a).substr(0, 250) + " along " + gen::str(b).substr(0, 250); c.note("%s", at.c_str()); c.state(mc::mix(gen::hash(a), gen::hash(b))); LN_NurbsSurface s; NurbsSurface::CreateGeneralizedTranslationalSweepSurface(a, b, s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "sweep-valid", at + why); Curve A(a), B(b); for (double u : params(a.KnotVector, p, 2)) for (double v : params(b.KnotVector, q, 2)) { P3 e = A.at(u) + B.at(v); c.check(near(R.at(u, v), e, 1e-8 * R.scl()), "sweep", at + fmt(": at (%.9g,%.9g) ", u, v) + str(R.at(u, v)) + ", expected " + str(e)); } c.count("translational");
}
// Coons patch: four boundary curves, counter-clockwise, of independent degrees, knots, domains and weights
static void coons(Ctx& c) {
  LN_NurbsCurve b[4]; XYZ P[5] = {XYZ(0, 100, 10), XYZ(0, 0, 0), XYZ(60, 0, 50), XYZ(70, 90, 30), XYZ(0, 100, 10)}; uint64_t h = 3; int wf = c.pick(3); std::string at = "coons"; int mode = c.pick(mc::tier(2, 3));
  int same = c.pick(3); int p0 = 1 + c.pick(4), q0 = 1 + c.pick(4); c.shard();
  for (int k = 0; k < 4; k++) { int p = k == 0 ? p0 : k == 1 ? q0 : same == 0 ? b[k - 2].Degree : 1 + (b[k - 2].Degree + (k == 2 ? 0 : 1)) % (mode == 2 ? 5 : 4); auto pats = gen::patterns(mc::tier(1, 2), std::min(2, p), 2); auto& m = c.pick(pats); int dom = same == 2 ? (k + 1) % 5 : 0; b[k] = gen::curve(p, gen::clamped(p, m, k % 2, gen::domains()[dom]), 0, 0); int n = b[k].ControlPoints.size();
    for (int i = 0; i < n; i++) { double t = (double)i / (n - 1); XYZ q = P[k] * (1 - t) + P[k + 1] * t; if (i && i < n - 1) q = q + XYZ((i % 2 ? 5 : -3) * (k % 2 ? 0 : 1), (i % 2 ? -4 : 6) * (k % 2), 3 * i + k); b[k].ControlPoints[i] = XYZW(q, i && i < n - 1 && wf ? (wf == 1 ? 0.7 : 2.5) : 1); } h = mc::mix(h, gen::hash(b[k])); at += " | " + gen::str(b[k]).substr(0, 160); }
  c.note("%s", at.c_str()); c.state(h); LN_NurbsSurface s; NurbsSurface::CreateCoonsSurface(b[0], b[1], b[2], b[3], s); c.trans(); Surf R(s); bool pos = true; for (auto& r : s.ControlPoints) for (auto& q : r) if (!(q.GetW() > 0)) pos = false; std::string why; bool ok = R.valid(&why); if (!pos) { c.count("weights not positive"); return; } c.check(ok, "coons-valid", at + why); ld tol = 1e-7 * R.scl();
  c.check(s.KnotVectorU.front() == 0 && s.KnotVectorU.back() == 1 && s.KnotVectorV.front() == 0 && s.KnotVectorV.back() == 1, "coons-domain", at + ": domain is not the unit square");
  // u = 0 is the bottom curve, u = 1 the top, v = 0 the left, v = 1 the right one; left and top run backwards
  Curve C[4]; for (int k = 0; k < 4; k++) C[k] = Curve(b[k]); auto on = [&](int k, double t) { return C[k].at(std::min(std::max(C[k].lo() + (k == 0 || k == 3 ? 1 - t : t) * (C[k].hi() - C[k].lo()), C[k].lo()), C[k].hi())); };
  for (double t : params(s.KnotVectorU, s.DegreeU, 2)) { c.check(near(R.at(t, 0), on(0, t), tol), "coons-left", at + fmt(": at u=%.9g v=0 ", t) + str(R.at(t, 0)) + ", the left curve is at " + str(on(0, t))); c.check(near(R.at(t, 1), on(2, t), tol), "coons-right", at + fmt(": at u=%.9g v=1 ", t) + str(R.at(t, 1)) + ", the right curve is at " + str(on(2, t))); }
  for (double t : params(s.KnotVectorV, s.DegreeV, 2)) { c.check(near(R.at(0, t), on(1, t), tol), "coons-bottom", at + fmt(": at u=0 v=%.9g ", t) + str(R.at(0, t)) + ", the bottom curve is at " + str(on(1, t))); c.check(near(R.at(1, t), on(3, t), tol), "coons-top", at + fmt(": at u=1 v=%.9g ", t) + str(R.at(1, t)) + ", the top curve is at " + str(on(3, t))); }
  if (!wf) for (double u : {0.2, 0.5, 0.7}) for (double v : {0.3, 0.6}) { P3 e = (1 - v) * on(0, u) + v * on(2, u) + (1 - u) * on(1, v) + u * on(3, v) - ((1 - u) * ((1 - v) * of(P[1]) + v * of(P[2])) + u * ((1 - v) * of(P[0]) + v * of(P[3]))); c.check(near(R.at(u, v), e, tol), "coons", at + fmt(": at (%g,%g) ", u, v) + str(R.at(u, v)) + ", the boolean sum is " + str(e)); }
  c.count(wf ? "rational coons" : "polynomial coons");
}
static void refused(Ctx& c) {
  c.shard(); int k = c.pick(9); bool threw = false; LN_NurbsSurface s; XYZ x(1, 0, 0), y(0, 1, 0), z(0, 0, 0); auto a = gen::curve(2, gen::clamped(2, {1}), 1, 0), b = gen::curve(2, gen::clamped(2, {1}, 0, gen::domains()[2]), 0, 0); c.note("refused %d", k); c.state(k);
  try { bool r = true; if (k == 0) r = NurbsSurface::CreateCylindricalSurface(z, z, y, 0, 1, 1, 1, s); if (k == 1) r = NurbsSurface::CreateCylindricalSurface(z, x, z, 0, 1, 1, 1, s); if (k == 2) r = NurbsSurface::CreateCylindricalSurface(z, x, y, 1, 1, 1, 1, s); if (k == 3) r = NurbsSurface::CreateCylindricalSurface(z, x, y, 0, 1, 0, 1, s); if (k == 4) r = NurbsSurface::CreateCylindricalSurface(z, x, y, 0, 1, 1, -1, s); if (k == 5) NurbsSurface::CreateRuledSurface(a, b, s); if (k == 6) r = NurbsSurface::CreateRevolvedSurface(z, z, 1, a, s); if (k == 7) r = NurbsSurface::CreateCylindricalSurface(z, x, y, 2, 1, 1, 1, s); if (k == 8) NurbsSurface::CreateCoonsSurface(a, a, b, a, s); if (!r) threw = true; } catch (const std::exception&) { threw = true; } c.trans(); c.check(threw, "refused", fmt("invalid construction %d accepted", k)); c.count("refused");
}
MC_MAIN("C22", {{"bilinear", bilinear}, {"cylinder", cylinder}, {"ruled", ruled}, {"revolved", revolved}, {"translational", translational}, {"coons", coons}, {"refused", refused}})
