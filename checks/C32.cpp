// C32: elementary intersections and projections: rays, line and plane, point to line, stereographic projection.
#include "../mc/knots.hpp"
#include "Intersection.h"
#include "Projection.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static XYZ sc(const XYZ& v, double s) { return XYZ(v.X() * s, v.Y() * s, v.Z() * s); }
static P3 cr(const P3& a, const P3& b) { return cross(a, b); }
// every direction of the {-1,0,1} cube and some oblique ones
static const std::vector<XYZ>& dirs() { static std::vector<XYZ> d; if (d.empty()) { for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) d.push_back(XYZ(x, y, z)); d.push_back(XYZ(0.3, -0.7, 2.1)); d.push_back(XYZ(1, 0.06, 0)); d.push_back(XYZ(-0.02, 0.01, 1)); d.push_back(XYZ(5, 4, -3)); } return d; }
static const std::vector<double> LEN = {1, 0.01, 250};
static const std::vector<XYZ>& spots() { static std::vector<XYZ> d = {XYZ(0, 0, 0), XYZ(1.5, -2, 0.7), XYZ(-40, 33, 900)}; return d; }
static std::string v3(const XYZ& a) { return str(of(a)); }

static void rays(Ctx& c) {
  XYZ d0 = c.pick(dirs()), d1 = c.pick(dirs()); c.shard(); P3 u0 = unit(of(d0)), u1 = unit(of(d1)); P3 nn = cr(u0, u1); if (len(nn) < 0.05L) c.skip();
  XYZ v0 = sc(d0, c.pick(LEN)), v1 = sc(d1, c.pick(LEN)); XYZ x = c.pick(spots()); static const double T[] = {0, 1, -2.5, 30}; double t0 = T[c.pick(4)], t1 = T[c.pick(4)]; double off = c.pick(std::vector<double>{0, 0.02, -3});
  // the lines meet at x (moved apart by off along the common normal), at distances t0 and t1 from their origins
  P3 n = unit(nn); P3 o0 = of(x) - u0 * (ld)t0, o1 = of(x) + n * (ld)off - u1 * (ld)t1; XYZ p0((double)o0.x, (double)o0.y, (double)o0.z), p1((double)o1.x, (double)o1.y, (double)o1.z);
  double a = 777, b = 777; XYZ q(9e9, 9e9, 9e9); std::string at = "rays " + v3(p0) + "+t" + v3(v0) + " and " + v3(p1) + "+s" + v3(v1) + fmt(" gap %g", off); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(t0 * 64 + t1, v0.X()), v0.Y() * 3 + v1.Y()), v1.X() * 7 + v1.Z() + 11 * v0.Z()), off + 100 * x.X()));
  auto r = Intersection::ComputeRays(p0, v0, p1, v1, a, b, q); c.trans(); ld l0 = len(of(v0)), l1 = len(of(v1)); ld tol = 1e-7L * (1 + std::fabs(x.X()) + std::fabs(x.Y()) + std::fabs(x.Z()) + 30) / len(nn);
  if (off == 0) { c.check(r == CurveCurveIntersectionType::Intersecting, "meet", at + fmt(": type %d", (int)r)); c.check(near(of(q), of(x), tol), "point", at + ": meet at " + v3(x) + " got " + v3(q)); c.count("meeting"); }
  else { c.check(r == CurveCurveIntersectionType::Skew, "skew", at + fmt(": type %d", (int)r)); c.check(near(of(q), of(x), tol), "nearest", at + ": nearest on the first is " + v3(x) + " got " + v3(q)); c.count("skew"); }
  c.check(std::fabs(a * l0 - t0) <= tol && std::fabs(b * l1 - t1) <= tol, "params", at + fmt(": parameters %.9g, %.9g; expected %.9Lg, %.9Lg", a, b, t0 / l0, t1 / l1));
}
static void parallel(Ctx& c) {
  XYZ d = c.pick(dirs()); c.shard(); P3 u = unit(of(d)); double s = c.pick(LEN), k = c.pick(LEN) * (c.flip() ? 1 : -1); XYZ v0 = sc(d, s), v1 = sc(d, k); XYZ x = c.pick(spots()); double slide = c.pick(std::vector<double>{0, 0.5, -12}), off = c.pick(std::vector<double>{0, 0.02, 7}); P3 w = std::fabs(u.x) < 0.6L ? P3{1, 0, 0} : P3{0, 1, 0}; P3 n = unit(cr(u, w)); P3 o1 = of(x) + u * (ld)slide + n * (ld)off; XYZ p1((double)o1.x, (double)o1.y, (double)o1.z);
  double a = 777, b = 777; XYZ q(9e9, 9e9, 9e9); std::string at = "rays " + v3(x) + "+t" + v3(v0) + " and " + v3(p1) + "+s" + v3(v1); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(slide * 10 + off, s), k), d.X() * 9 + d.Y() * 3 + d.Z() + 100 * x.X())); auto r = Intersection::ComputeRays(x, v0, p1, v1, a, b, q); c.trans();
  if (off) { c.check(r == CurveCurveIntersectionType::Parallel, "parallel", at + fmt(": type %d", (int)r)); c.count("parallel"); }
  else { bool id = slide == 0 && s == k; c.check(r == (id ? CurveCurveIntersectionType::Intersecting : CurveCurveIntersectionType::Coincident), "coincident", at + fmt(": type %d", (int)r)); c.check(a == 0 && b == 0 && dist(of(q), of(x)) <= 1e-9L, "coincident-point", at + fmt(": params %g,%g point ", a, b) + v3(q)); c.count(id ? "identical" : "coincident"); }
}
static void zero(Ctx& c) {
  XYZ d = c.pick(dirs()); c.shard(); bool first = c.flip(); XYZ x = c.pick(spots()), y = c.pick(spots()); XYZ z(0, 0, 0); c.note("zero vector"); c.state(mc::hd(mc::hd(first, d.X() * 9 + d.Y() * 3 + d.Z()), x.X() * 100 + y.X())); double a, b; XYZ q; bool t = false; try { Intersection::ComputeRays(x, first ? z : d, y, first ? d : z, a, b, q); } catch (const std::exception&) { t = true; } c.trans(); c.check(t, "zero", "a ray without direction is accepted"); c.count("refused");
}
static void plane(Ctx& c) {
  XYZ n = c.pick(dirs()), d = c.pick(dirs()); c.shard(); P3 un = unit(of(n)), ud = unit(of(d)); ld cs = dot(un, ud); if (std::fabs(cs) > 1e-12L && std::fabs(cs) < 0.02L) c.skip(); double nl = c.pick(LEN), dl = c.pick(LEN); XYZ o = c.pick(spots()); double h = c.pick(std::vector<double>{0, 0.3, -20}); int slide = c.pick(2);
  P3 w = std::fabs(un.x) < 0.6L ? P3{1, 0, 0} : P3{0, 1, 0}; P3 e = unit(cr(un, w)); P3 p = of(o) + un * (ld)h + e * (ld)(slide * 4.3); XYZ pl((double)p.x, (double)p.y, (double)p.z); XYZ q(9e9, 9e9, 9e9); std::string at = "plane " + v3(o) + " normal " + v3(sc(n, nl)) + " line " + v3(pl) + " direction " + v3(sc(d, dl)); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(n.X() * 9 + n.Y() * 3 + n.Z(), d.X() * 9 + d.Y() * 3 + d.Z()), nl * 3 + dl), h * 10 + slide + 100 * o.X()));
  auto r = Intersection::ComputeLineAndPlane(sc(n, nl), o, pl, sc(d, dl), q); c.trans(); ld S = 1e-8L * (50 + std::fabs(o.X()) + std::fabs(o.Y()) + std::fabs(o.Z()));
  if (std::fabs(cs) <= 1e-12L) { if (h == 0) { c.check(r == LinePlaneIntersectionType::On, "on", at + fmt(": type %d", (int)r)); c.check(std::fabs(dot(of(q) - of(o), un)) <= S && len(cr(of(q) - p, ud)) <= S, "on-point", at + ": " + v3(q)); c.count("on"); } else { c.check(r == LinePlaneIntersectionType::Parallel, "plane-parallel", at + fmt(": type %d", (int)r)); c.count("parallel"); } }
  else { c.check(r == LinePlaneIntersectionType::Intersecting, "crosses", at + fmt(": type %d", (int)r)); P3 ex = p + ud * (-(ld)h / cs); c.check(near(of(q), ex, S / std::fabs(cs)), "cross-point", at + ": crosses at " + str(ex) + " got " + v3(q)); c.count("crossing"); }
}
static void foot(Ctx& c) {
  XYZ d = c.pick(dirs()); c.shard(); P3 u = unit(of(d)); double L = c.pick(std::vector<double>{1, 0.004, 300}); XYZ o = c.pick(spots()); static const double T[] = {0, 0.25, 0.9, 1, -0.02, 1.02, -40, 7}; double t = T[c.pick(8)], off = c.pick(std::vector<double>{0, 0.3, 50}); int turn = c.pick(3); P3 w = std::fabs(u.x) < 0.6L ? P3{1, 0, 0} : P3{0, 1, 0}; P3 e = unit(cr(u, w)), f = cr(u, e); P3 n = unit(e * std::cos(2.1L * turn) + f * std::sin(2.1L * turn));
  P3 b = of(o) + u * (ld)L; XYZ end((double)b.x, (double)b.y, (double)b.z); P3 ft = of(o) + u * ((ld)L * t), pp = ft + n * (ld)off; XYZ pt((double)pp.x, (double)pp.y, (double)pp.z); ld S = 1e-9L * (400 + std::fabs(o.X()) + std::fabs(o.Y()) + std::fabs(o.Z())); std::string at = "segment " + v3(o) + "-" + v3(end) + " point " + v3(pt); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(d.X() * 9 + d.Y() * 3 + d.Z(), L), t * 100 + off), turn + 100 * o.X()));
  XYZ q(9e9, 9e9, 9e9); bool in = t >= 0 && t <= 1; bool r = Projection::PointToLine(o, end, pt, q); c.trans(); if ((t == 0 || t == 1) && (ld)std::numeric_limits<double>::epsilon() * 4000 * 1000 > 1e-7L * L) ; else c.check(r == in, "inside", at + fmt(": foot at %g of the segment, reported %d", t, r)); if (r) { c.check(near(of(q), ft, S), "foot", at + ": " + v3(q) + " expected " + str(ft)); c.count("foot"); } else c.count("outside");
  XYZ g = Projection::PointToRay(o, sc(d, L), pt); c.trans(); c.check(near(of(g), ft, S), "ray-foot", at + ": on the line " + v3(g) + " expected " + str(ft)); XYZ g2 = Projection::PointToRay(o, sc(d, -L * 3), pt); c.trans(); c.check(near(of(g2), ft, S), "ray-foot", at + " reversed: on the line " + v3(g2) + " expected " + str(ft)); XYZ z; c.check(!Projection::PointToLine(o, o, pt, z), "no-segment", at + ": a segment without length has a foot");
}
static void stereo(Ctx& c) {
  double r = c.pick(std::vector<double>{1, 0.05, 300}); int i = c.pick(13); c.shard(); int j = c.pick(mc::tier(24, 72)), J = mc::tier(24, 72); ld th = -M_PIl / 2 + M_PIl * i / 13, ph = 2 * M_PIl * j / J; P3 p{r * std::cos(th) * std::cos(ph), r * std::cos(th) * std::sin(ph), r + r * std::sin(th)}; std::string at = fmt("radius %g point ", r) + str(p); c.note("%s", at.c_str()); c.state(mc::hd(i * 1000 + j, r)); XYZ q = Projection::Stereographic(XYZ((double)p.x, (double)p.y, (double)p.z), r); c.trans();
  ld f = 2 * r / (2 * r - p.z); P3 ex{p.x * f, p.y * f, 0}; c.check(near(of(q), ex, 1e-9L * (r + len(ex))), "stereographic", at + ": " + v3(q) + " expected " + str(ex)); c.count("points");
}
MC_MAIN("C32", {{"rays", rays}, {"parallel", parallel}, {"zero", zero}, {"plane", plane}, {"foot", foot}, {"stereo", stereo}})
