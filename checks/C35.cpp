// C35: extending curves, one conic arc and its split.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "LNEnums.h"
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;

static LN_NurbsCurve pick(Ctx& c, int maxP) { return pickCurve(c, maxP, 2, mc::tier(1, 2), mc::tier(2, 3), mc::tier(1, 2), 3, false, {0, 1, 2, 6}, {0, 1, 2}); }
struct End { P3 p, t, n; ld k; };
static End frame(const Curve& A, bool start) { auto d = A.der(start ? A.lo() : A.hi(), 2); End e; e.p = d[0]; e.t = unit(d[1]); P3 x = d[2] - dot(d[2], e.t) * e.t; e.k = len(x) / dot(d[1], d[1]); e.n = unit(x); return e; }
// the original is the other half of the result's domain [0,1]
static void kept(Ctx& c, const std::string& key, const std::string& at, const LN_NurbsCurve& a, const LN_NurbsCurve& b, bool start, double mid) { Curve A(a), B(b); std::string why; c.check(B.valid(&why), key + "-valid", at + ": " + why); for (double u : params(a.KnotVector, a.Degree, 2)) { double f = (u - A.lo()) / (A.hi() - A.lo()); double v = start ? mid + f * (B.hi() - mid) : B.lo() + f * (mid - B.lo()); int s = -1; if (start && u == A.lo()) s = -1; if (!start && u == A.hi()) { s = span(B.p, B.U, mid) ; while (B.U[s] >= mid - 1e-9) s--; } c.check(near(B.at(v, s), A.at(u), 1e-8L * A.scl()), key + "-original", at + fmt(": the original at %.9g is not kept: ", u) + str(B.at(v, s)) + " instead of " + str(A.at(u))); } }
static ld arcLen(const Curve& B, double u0, double u1, bool) { ld L = 0; const int n = 60; int s = span(B.p, B.U, (u0 + u1) / 2); for (int i = 0; i < n; i++) { static const ld x[] = {-0.7745966692414834L, 0, 0.7745966692414834L}, w[] = {5.0L / 9, 8.0L / 9, 5.0L / 9}; for (int k = 0; k < 3; k++) { ld u = u0 + (ld)(u1 - u0) * (i + 0.5L + 0.5L * x[k]) / n; L += w[k] * len(B.der((double)u, 1, s)[1]) * (u1 - u0) / n / 2; } } return L; }
static void tangent(Ctx& c) {
  auto a = pick(c, mc::tier(4, 5)); c.shard(); bool start = c.flip(); double d = c.pick(std::vector<double>{0.5, 10, 200}); Curve A(a); End e = frame(A, start); std::string at = fmt("extending by %g straight from the %s of ", d, start ? "start" : "end") + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hash(a), start), d)); LN_NurbsCurve b; NurbsCurve::Extend(a, d, start, ExtensionType::Tangent, b); c.trans(); kept(c, "tangent", at, a, b, start, 0.5); Curve B(b); c.check(b.Degree == a.Degree, "tangent-degree", at); for (int i = 0; i <= 8; i++) { double f = i / 8.0; double v = start ? 0.5 - 0.5 * f : 0.5 + 0.5 * f; int s = span(B.p, B.U, start ? 0.25 : 0.75); P3 x = e.p + e.t * (ld)((start ? -d : d) * f); c.check(near(B.at(v, s), x, 1e-8L * (A.scl() + d)), "tangent", at + fmt(": at %g of the extension ", f) + str(B.at(v, s)) + ", expected " + str(x)); } c.count("straight");
}
static void osculating(Ctx& c) {
  auto a = pick(c, mc::tier(4, 5)); c.shard(); bool start = c.flip(); double f = c.pick(std::vector<double>{0.2, 1.5, 4}); Curve A(a); End e = frame(A, start); bool straight = e.k < 1e-9L; if (!straight && (e.k < 1e-3L || e.k > 1e3L)) c.skip(); double d = straight ? f : (double)(f / e.k); std::string at = fmt("extending by %.9g along the osculating circle from the %s of ", d, start ? "start" : "end") + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hash(a), start), f)); LN_NurbsCurve b; NurbsCurve::Extend(a, d, start, ExtensionType::Arc, b); c.trans(); if (straight) { c.check(same(a, b), "straight", at + ": a curve with a straight end changed"); c.count("straight"); return; }
  kept(c, "arc", at, a, b, start, 0.5); Curve B(b); ld r = 1 / e.k; P3 o = e.p + r * e.n; std::vector<double> us = params(B.U, B.p, 3); ld worst = 0; ld S = 1e-7L * (A.scl() + r); for (double v : us) if (start ? v <= 0.5 : v >= 0.5) { int s = v == 0.5 ? (start ? span(B.p, B.U, 0.499999) : span(B.p, B.U, 0.5)) : -1; P3 x = B.at(v, s); c.check(std::fabs(dist(x, o) - r) <= S && std::fabs(dot(x - o, cross(e.t, e.n))) <= S, "circle", at + ": the extension leaves the osculating circle at " + str(x)); worst = std::max(worst, dist(x, o)); } ld th = d / r * (start ? -1 : 1); P3 x = e.p + r * (std::sin(th) * e.t + (1 - std::cos(th)) * e.n); P3 g = start ? B.at(B.lo()) : B.at(B.hi()); c.check(near(g, x, S), "arc-end", at + ": ends at " + str(g) + ", expected " + str(x));
  int s = span(B.p, B.U, start ? 0.499999 : 0.5); P3 t = unit(B.der(0.5, 1, s)[1]); c.check(near(t, e.t, 1e-6L), "arc-tangent", at + ": the direction breaks at the joint"); ld L = 0; auto bb = breaks(b.KnotVector, b.Degree); for (size_t i = 0; i + 1 < bb.size(); i++) if (start ? bb[i + 1] <= 0.5 : bb[i] >= 0.5) L += arcLen(B, bb[i], bb[i + 1], start); c.check(std::fabs(L - d) <= 1e-5L * d, "arc-length", at + fmt(": the extension is %.9Lg long", L)); c.count("arcs");
}
static void natural(Ctx& c) {
  auto a = pick(c, mc::tier(4, 5)); c.shard(); bool start = c.flip(); double f = c.pick(std::vector<double>{0.05, 0.3}); Curve A(a); auto bk = breaks(a.KnotVector, a.Degree); ld last = arcLen(A, start ? bk[0] : bk[bk.size() - 2], start ? bk[1] : bk.back(), start); double d = (double)(f * last); if (d < 1e-2) c.skip(); double u = start ? A.lo() : A.hi(); auto D = A.der(u, a.Degree); ld fac = 1; for (int k = 1; k <= a.Degree; k++) { fac *= k; D[k] = D[k] * (1 / fac); }
  std::string at = fmt("extending by %.9g naturally from the %s of ", d, start ? "start" : "end") + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hash(a), start), f)); LN_NurbsCurve b; NurbsCurve::Extend(a, d, start, ExtensionType::Natural, b); c.trans(); Curve B(b); std::string why; c.check(B.valid(&why), "natural-valid", at + ": " + why); c.check(b.Degree == a.Degree && (start ? B.hi() == A.hi() && B.lo() < A.lo() : B.lo() == A.lo() && B.hi() > A.hi()), "natural-domain", at + fmt(": domain [%.9g,%.9g]", B.lo(), B.hi())); for (double v : params(a.KnotVector, a.Degree, 2)) c.check(near(B.at(v), A.at(v), 1e-9L * A.scl()), "natural-original", at + fmt(": the original changed at %.9g", v)); double w = start ? B.lo() : B.hi(); ld S = 0; for (int k = 0; k <= a.Degree; k++) S += len(D[k]) * std::pow(std::fabs((ld)w - u), k); for (int i = 1; i <= 8; i++) { double v = u + (w - u) * i / 8; if (i == 8) v = w; P3 e; for (int k = a.Degree; k >= 0; k--) e = e * (ld)(v - u) + D[k]; int s = span(B.p, B.U, (u + w) / 2); c.check(near(B.at(v, s), e, 1e-9L * S), "natural", at + fmt(": at %.9g ", v) + str(B.at(v, s)) + ", expected " + str(e)); }
  ld L = arcLen(B, std::min(u, w), std::max(u, w), start); ld lo = 1e300L, hi = 0; int sp = span(B.p, B.U, (u + w) / 2); for (int i = 0; i <= 20; i++) { ld v = len(B.der(u + (w - u) * i / 20, 1, sp)[1]); lo = std::min(lo, v); hi = std::max(hi, v); } if (lo > 0.4L * hi) c.check(std::fabs(L - d) <= 0.02L * d, "natural-length", at + fmt(": the extension is %.9Lg long", L)); c.count("natural");
}
static void none(Ctx& c) { auto a = pick(c, 3); c.shard(); bool start = c.flip(); double d = c.pick(std::vector<double>{0, -1}); int t = c.pick(3); std::string at = fmt("extending by %g type %d ", d, t) + str(a); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(hash(a), start), d * 10 + t)); LN_NurbsCurve b; NurbsCurve::Extend(a, d, start, (ExtensionType)t, b); c.trans(); c.check(same(a, b), "none", at + ": changed"); c.count("unchanged"); }
// one conic arc: start, end, the shoulder weight and the point at any parameter of it are given by the conic it came from
static void conic(Ctx& c) {
  static const std::vector<P3> P0 = {{0, 0, 0}, {3, -2, 1}}, P1 = {{1, 2, 0.5}, {7, 5, -3}, {0.3, 4, 2}}, P2 = {{4, 0.5, 1}, {8, -1, 0}}; P3 a = c.pick(P0), b = c.pick(P1), e = c.pick(P2); c.shard(); double w = c.pick(std::vector<double>{0.3, 0.75, 1, 2.5, 10}), t = c.pick(std::vector<double>{0.5, 0.2, 0.7, 0.05}); double l0 = c.pick(std::vector<double>{1, 0.05, -30}), l1 = c.pick(std::vector<double>{1, -4}); ld q = 1 - (ld)t; P3 pt = (q * q * a + 2 * q * t * (ld)w * b + (ld)t * t * e) * (1 / (q * q + 2 * q * t * (ld)w + (ld)t * t)); XYZ pr; double g = -1; std::string at = "conic " + str(a) + str(b) + str(e) + fmt(" weight %g through its point at %g, tangents scaled %g %g", w, t, l0, l1); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(w, t), l0), l1), b.x), a.x), e.x)); bool ok = NurbsCurve::CreateOneConicArc(toXYZ(a), toXYZ((b - a) * (ld)l0), toXYZ(e), toXYZ((e - b) * (ld)l1), toXYZ(pt), pr, g); c.trans(); c.check(ok, "conic", at + ": refused"); c.check(near(of(pr), b, 1e-7L * 10), "shoulder", at + ": shoulder " + str(of(pr))); c.check(std::fabs(g - w) <= 1e-6 * w, "conic-weight", at + fmt(": weight %.9g", g));
  XYZ s0, sp, s1; double iw; NurbsCurve::SplitArc(toXYZ(a), toXYZ(b), w, toXYZ(e), s0, sp, s1, iw); c.trans(); P3 m = (a + 2 * (ld)w * b + e) * (1 / (2 + 2 * (ld)w)); c.check(near(of(sp), m, 1e-9L * 10), "split-point", at + ": split at " + str(of(sp)) + ", expected " + str(m)); for (int side = 0; side < 2; side++) for (ld u : {0.25L, 0.5L, 0.8L}) { P3 x = side ? of(sp) : a, y = side ? of(s1) : of(s0), z = side ? e : of(sp); P3 v = ((1 - u) * (1 - u) * x + 2 * u * (1 - u) * (ld)iw * y + u * u * z) * (1 / ((1 - u) * (1 - u) + 2 * u * (1 - u) * (ld)iw + u * u)); /* on the conic: barycentric u1^2 = 4 w^2 u0 u2 */ P3 n = cross(b - a, e - a); ld A = dot(n, n); ld u1 = dot(cross(v - a, e - a), n) / A, u2 = dot(cross(b - a, v - a), n) / A, u0 = 1 - u1 - u2; c.check(std::fabs(u1 * u1 - 4 * (ld)w * w * u0 * u2) <= 1e-7L * (1 + w * w), "split-halves", at + fmt(": half %d leaves the conic", side)); } c.count("conics");
}
MC_MAIN("C35", {{"tangent", tangent}, {"osculating", osculating}, {"natural", natural}, {"none", none}, {"conic", conic}})
