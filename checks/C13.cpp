// C13: lines, arcs, ellipses, conics and Hermite curves are exactly the curves they are named after.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "Constants.h"
#include "Interpolation.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;
static const double PI = 3.14159265358979323846;
struct Frame { XYZ o, x, y; };
static const std::vector<Frame>& frames() {
  static std::vector<Frame> f = {{XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0)}, {XYZ(3, -2, 1), XYZ(0, 0, 2), XYZ(0.5, 0, 0)}, {XYZ(100, 50, -20), XYZ(1, 1, 0), XYZ(-1, 1, 3)}, {XYZ(-1, 4, 2), XYZ(0, -1, 0), XYZ(1, 0, 0)}};
  // make y perpendicular to x (non unit on purpose)
  static bool done = false; if (!done) { done = true; for (auto& g : f) { double d = g.x.DotProduct(g.y) / g.x.DotProduct(g.x); g.y = g.y - d * g.x; } } return f;
}
static P3 mapF(const Frame& f, ld a, ld b) { return of(f.o) + a * unit(of(f.x)) + b * unit(of(f.y)); }
static void line(Ctx& c) {
  static const std::vector<double> A = {-3, 0, 0.5, 1e-5, 200}; XYZ s(c.pick(A), c.pick(A), c.pick(A)), e(c.pick(A), c.pick(A), c.pick(A)); c.note("line"); c.state(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(1, s.GetX()), s.GetY()), s.GetZ()), e.GetX()), e.GetY()), e.GetZ()));
  std::string at = "line " + str(of(s)) + " to " + str(of(e)); ld d = dist(of(s), of(e)); if (d > 0 && d < 1e-4) c.skip();
  LN_NurbsCurve r; bool threw = false; try { NurbsCurve::CreateLine(s, e, r); } catch (std::invalid_argument&) { threw = true; } c.trans();
  c.check(threw == (d == 0), "line-guard", at + (threw ? ": rejected" : ": a line between equal points was accepted")); if (threw) { c.count("rejected"); return; }
  std::string why; Curve R(r); c.check(R.valid(&why), "line-valid", at + why);
  for (int i = 0; i <= 4; i++) { double t = i / 4.0; c.check(near(R.at(R.lo() + t * (R.hi() - R.lo())), of(s) + t * (of(e) - of(s)), 1e-10 * (1 + 200)), "line", at + ": not the straight segment"); }
  c.check(NurbsCurve::IsLinear(r), "line-linear", at + ": IsLinear is false"); c.count("line");
}
static void arc(Ctx& c) {
  int fi = c.pick((int)frames().size()); Frame f = frames()[fi]; static const std::vector<double> S = {0, 0.4, PI / 2, -1.2, 3, 5.5, -7}; static const std::vector<double> Rr = {1, 10, 0.05, 300, 2.5};
  double s = c.pick(S); int steps = mc::tier(24, 96); int k = 1 + c.pick(steps); double th = k == steps ? 2 * PI : 2 * PI * k / steps; double rx = c.pick(Rr), ry = c.pick(Rr); c.shard();
  c.note("arc frame %d start %.6g sweep %.6g radii %g %g", fi, s, th, rx, ry); c.state(mc::hd(mc::hd(mc::hd(mc::hd(fi, s), th), rx), ry)); std::string at = fmt("arc frame %d start %.6g sweep %.6g radii %g %g", fi, s, th, rx, ry);
  LN_NurbsCurve r; bool ok = NurbsCurve::CreateArc(f.o, f.x, f.y, s, s + th, rx, ry, r); c.trans(); c.check(ok, "arc-created", at + ": refused");
  std::string why; Curve R(r); c.check(R.valid(&why), "arc-valid", at + ": " + why + gen::str(r)); c.check(r.Degree == 2, "arc-degree", at);
  ld sc = std::max(rx, ry); auto us = params(r.KnotVector, 2, 6); std::sort(us.begin(), us.end()); ld prev = -1e-9;
  for (double u : us) {
    P3 d = R.at(u) - of(f.o); ld a = dot(d, unit(of(f.x))) / rx, b = dot(d, unit(of(f.y))) / ry; ld off = len(d - (a * rx) * unit(of(f.x)) - (b * ry) * unit(of(f.y)));
    c.check(off <= 1e-9 * (sc + 100) && std::fabs(a * a + b * b - 1) <= 1e-7, "arc-on", at + fmt(": the point at %.6g is off the ellipse: normalized radius^2 %.9Lg, out of plane %.3Lg", u, a * a + b * b, off));
    ld ang = std::atan2(b, a) - s; while (ang < -1e-6) ang += 2 * PI; while (ang > 2 * PI + 1e-6) ang -= 2 * PI; if (u == us.front()) { if (ang > PI) ang -= 2 * PI; } if (u == us.back() && ang < 1e-5) ang += 2 * PI;
    c.check(ang >= prev - 1e-6, "arc-sweep", at + fmt(": angle %.9Lg at %.6g after %.9Lg", ang, u, prev)); prev = ang;
    if (u == us.front()) c.check(std::fabs(ang) < 1e-6, "arc-start", at + ": does not start at the start angle"); if (u == us.back()) c.check(std::fabs(ang - th) < 1e-6, "arc-end", at + fmt(": ends at angle %.9Lg", ang));
  }
  LN_ArcInfo info; bool is = NurbsCurve::IsArc(r, info); c.trans();
  if (rx == ry && th > 0.2) { c.check(is, "isarc", at + ": IsArc is false"); c.check(near(of(info.Center), of(f.o), 1e-5 * (1 + sc)) && std::fabs(info.Radius - rx) < 1e-5 * (1 + sc), "isarc-info", at + fmt(": IsArc reports radius %.9g center ", info.Radius) + str(of(info.Center))); c.check(info.IsCircle == (k == steps), "isarc-circle", at + ": IsCircle wrong"); c.count(k == steps ? "circle" : "circular arc"); }
  else { if (th > 2 && rx != ry && std::max(rx, ry) < 1000 * std::min(rx, ry)) c.check(!is, "isarc-ellipse", at + ": IsArc is true for an ellipse"); c.count("ellipse"); }
}
static void badarc(Ctx& c) {
  int what = c.pick(6); Frame f = frames()[c.pick((int)frames().size())]; double s = 0.3, e = 1.5, rx = 1, ry = 2; LN_NurbsCurve r; c.note("bad arc %d", what); c.state(what);
  if (what == 0) f.x = XYZ(0, 0, 0); if (what == 1) f.y = XYZ(0, 0, 0); if (what == 2) e = s; if (what == 3) e = s - 1; if (what == 4) rx = 0; if (what == 5) ry = -1;
  bool threw = false; try { NurbsCurve::CreateArc(f.o, f.x, f.y, s, e, rx, ry, r); } catch (std::exception&) { threw = true; } c.trans(); c.check(threw, "arc-guard", fmt("invalid arc definition %d accepted", what)); c.count("rejected");
}
// IsArc on curves which are not arcs: every word over a small alphabet, degree 2..3
static void notarc(Ctx& c) {
  static const std::vector<XYZ> A = {XYZ(0, 0, 0), XYZ(2, 1, 0), XYZ(4, 2, 0), XYZ(1, -2, 0.5), XYZ(3, 4, 0)}; int p = 2 + c.pick(2); int n = p + 1 + c.pick(2); c.shard(); LN_NurbsCurve cv; cv.Degree = p; cv.KnotVector = gen::clamped(p, std::vector<int>(n - p - 1, 1)); std::string w;
  for (int i = 0; i < n; i++) { int k = c.pick(5); w += fmt("%d", k); cv.ControlPoints.push_back(XYZW(A[k], 1)); } c.note("polynomial curve %s", w.c_str()); c.state(gen::hash(cv)); LN_ArcInfo info; bool is = NurbsCurve::IsArc(cv, info); c.trans();
  c.check(!is, "isarc-false", fmt("IsArc is true for the polynomial curve of degree %d with control polygon %s", p, w.c_str())); c.count("not an arc");
}
// conics from their definition: ellipse / parabola / hyperbola arcs between two parameters, through a third
static void conic(Ctx& c) {
  int kind = c.pick(3); int fi = c.pick((int)frames().size()); Frame f = frames()[fi]; double a = c.pick(std::vector<double>{1, 3}), b = c.pick(std::vector<double>{1, 2}); int N = mc::tier(8, 12); c.shard();
  int i = c.pick(N), j = c.pick(N), m = c.pick(N); int mag = c.pick(3); static const double mg[] = {1, 0.3, 4}; double t0, t1, tm;
  if (kind == 0) { if (!(j > i)) c.skip(); t0 = 0.3 + 2 * PI * i / N; t1 = 0.3 + 2 * PI * j / N; tm = t0 + (t1 - t0) * (m + 1) / (N + 1); if (t1 - t0 > 5.5) c.skip(); }
  else { t0 = -2 + 4.0 * i / N; t1 = -2 + 4.0 * j / N; if (!(t1 > t0)) c.skip(); tm = t0 + (t1 - t0) * (m + 1) / (N + 1); }
  auto at_ = [&](double t) { return kind == 0 ? mapF(f, a * std::cos((ld)t), b * std::sin((ld)t)) : kind == 1 ? mapF(f, a * t, b * (ld)t * t) : mapF(f, a * std::cosh((ld)t), b * std::sinh((ld)t)); };
  auto der_ = [&](double t) { P3 o = of(f.o); return (kind == 0 ? mapF(f, -a * std::sin((ld)t), b * std::cos((ld)t)) : kind == 1 ? mapF(f, a, 2 * b * (ld)t) : mapF(f, a * std::sinh((ld)t), b * std::cosh((ld)t))) - o; };
  XYZ P0 = toXYZ(at_(t0)), P2 = toXYZ(at_(t1)), M = toXYZ(at_(tm)), T0 = toXYZ((ld)mg[mag] * der_(t0)), T2 = toXYZ((ld)(mag == 2 ? 0.5 : 1) * der_(t1)); static const char* nm[] = {"ellipse", "parabola", "hyperbola"};
  c.note("%s frame %d a=%g b=%g from %.6g to %.6g through %.6g mag %d", nm[kind], fi, a, b, t0, t1, tm, mag); c.state(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(kind * 10 + fi, a), b), t0), t1), tm * (mag + 1)));
  std::string at = fmt("%s (frame %d, a=%g b=%g) from %.6g to %.6g through %.6g", nm[kind], fi, a, b, t0, t1, tm); LN_NurbsCurve r;
  bool ok = NurbsCurve::CreateOpenConic(P0, T0, P2, T2, M, r); c.trans(); c.check(ok, "conic-created", at + ": refused");
  std::string why; Curve R(r); c.check(R.valid(&why), "conic-valid", at + ": " + why + gen::str(r));
  c.check(near(R.at(0), of(P0), 1e-8 * 200) && near(R.at(1), of(P2), 1e-8 * 200), "conic-ends", at + ": end points differ");
  auto us = params(r.KnotVector, 2, 5); std::sort(us.begin(), us.end()); bool pass = false; ld best = 1e9;
  for (double u : us) { P3 d = R.at(u) - of(f.o); ld x = dot(d, unit(of(f.x))) / a, y = dot(d, unit(of(f.y))) / b; ld off = len(d - (a * x) * unit(of(f.x)) - (b * y) * unit(of(f.y)));
    ld g = kind == 0 ? x * x + y * y - 1 : kind == 1 ? y - x * x : x * x - y * y - 1; ld s = 1 + x * x + y * y;
    c.check(off <= 1e-6 && std::fabs(g) <= 1e-6 * s, "conic-on", at + fmt(": the point at %.6g is off the conic (residual %.3Lg) ", u, g) + gen::str(r));
    // on the requested arc, not on its complement
    ld t = kind == 0 ? std::atan2(y, x) : kind == 1 ? x : std::asinh(y); if (kind == 0) { while (t < t0 - 1e-5) t += 2 * PI; while (t > t0 + 2 * PI - 1e-5) t -= 2 * PI; }
    c.check(t >= t0 - 1e-5 && t <= t1 + 1e-5 && (kind != 2 || x > 0), "conic-arc", at + fmt(": the point at %.6g lies at %.6Lg, outside the requested arc ", u, t) + gen::str(r)); }
  (void)pass; (void)best; auto d0 = R.der(0, 1)[1], d1 = R.der(1, 1)[1]; c.check(dist(unit(d0), unit(of(T0))) < 1e-5 && dist(unit(d1), unit(of(T2))) < 1e-5, "conic-tangent", at + ": end tangents differ " + str(unit(d0)) + " " + str(unit(d1)));
  c.count(nm[kind]);
}
static void hermite(Ctx& c) {
  int n = 4 + c.pick(mc::tier(3, 5)); int pf = c.pick(std::vector<int>{0, 1, 5, 6}); int tf = c.pick(3); int closing = c.pick(3); c.shard();
  std::vector<XYZ> Q, T; for (int i = 0; i < n; i++) { Q.push_back(gen::pos(pf, i, n)); T.push_back(tf == 0 ? gen::pos(0, i + 3, n) : tf == 1 ? XYZ(1, 0.5 * i, -1) : XYZ(0.1 * (i + 1), 0, 0.2)); }
  if (closing) { Q.back() = Q[0]; if (closing == 1) T.back() = T[0]; else T.back() = T[0] + XYZ(0, 1, 0); }
  c.note("hermite n=%d points %d tangents %d closing %d", n, pf, tf, closing); c.state(((n * 10 + pf) * 10 + tf) * 10 + closing); std::string at = fmt("Hermite curve through %d points (family %d, tangents %d, closing %d)", n, pf, tf, closing);
  LN_NurbsCurve r; NurbsCurve::CreateCubicHermite(Q, T, r); c.trans(); std::string why; Curve R(r); c.check(R.valid(&why), "hermite-valid", at + ": " + why); c.check(r.Degree == 3, "hermite-degree", at);
  // parameters: the distinct knots of the domain
  auto b = breaks(r.KnotVector, 3); c.check((int)b.size() == n, "hermite-knots", at + fmt(": %zu breakpoints", b.size())); ld tot = 0; std::vector<ld> ch(n, 0); for (int i = 1; i < n; i++) ch[i] = tot += dist(of(Q[i]), of(Q[i - 1]));
  for (int i = 0; i < n; i++) { c.check(std::fabs(b[i] - (double)(ch[i] / tot)) < 1e-6, "hermite-param", at + ": parameters are not chord lengths"); auto d = R.der(b[i], 1); c.check(near(d[0], of(Q[i]), 1e-8 * scale(R.P)), "hermite-point", at + fmt(": misses point %d", i) + str(d[0])); c.check(near(d[1], of(T[i]), 1e-6 * (1 + len(of(T[i])))), "hermite-tangent", at + fmt(": tangent %d is ", i) + str(d[1]) + " instead of " + str(of(T[i])));
    if (i) { auto e = R.der(b[i], 1, std::max(span(3, r.KnotVector, (b[i] + b[i - 1]) / 2), 3)); c.check(near(e[1], of(T[i]), 1e-6 * (1 + len(of(T[i])))), "hermite-tangent-left", at + fmt(": left tangent %d is ", i) + str(e[1])); } }
  c.count("hermite");
}
MC_MAIN("C13", {{"line", line}, {"arc", arc}, {"badarc", badarc}, {"notarc", notarc}, {"conic", conic}, {"hermite", hermite}})
