// C05: curve derivatives of every order and the differential invariants derived from them are exact.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "BsplineCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static ld fac(int n) { ld f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }

static void derivs(Ctx& c) {
  auto cv = gen::pickCurve(c, 7, mc::tier(2, 3), mc::tier(2, 6), mc::tier(3, 7), mc::tier(2, 4), 3, true, mc::tier(std::vector<int>{0, 5}, {0, 1, 2, 3, 5, 6, 7}), mc::tier(std::vector<int>{0, 1, 2}, {0, 1, 2, 3, 4}));
  c.shard();
  auto us = params(cv.KnotVector, cv.Degree, mc::tier(3, 6)); double u = c.pick(us);
  int m = 1 + c.pick(mc::tier(5, 8)); int p = cv.Degree;
  c.note("derivatives order<=%d of %s u=%.12g", m, gen::str(cv).c_str(), u); c.state(mc::mix(mc::hd(gen::hash(cv), u), m));
  Curve R(cv); std::string at = gen::str(cv).substr(0, 900) + fmt(" u=%.12g order<=%d: ", u, m); ld s = scale(R.P), h = gen::hmin(cv.KnotVector);
  auto e = R.der(u, m);
  auto g = NurbsCurve::ComputeRationalCurveDerivatives(cv, m, u); c.trans();
  c.check((int)g.size() == m + 1, "shape", at + "number of derivatives");
  ld mx = 0;
  ld wr = 1; { ld a = 1e300, b = 0; for (auto& q : R.P) { a = std::min(a, q.w); b = std::max(b, q.w); } wr = b / a; }
  for (int k = 0; k <= m; k++) {
    ld f = s * fac(k); for (int i = 0; i < k; i++) f *= 2 * p * wr / h;     // bound on the size of intermediate quantities
    mx = std::max(mx, len(e[k]));
    c.check(near(of(g[k]), e[k], 1e-9 * (len(e[k]) + s) + 1e-13 * f), "rational", at + fmt("derivative %d is ", k) + str(of(g[k])) + ", exact " + str(e[k]));
  }
  // homogeneous and non-rational B-spline derivatives, both algorithms
  int sp = span(p, cv.KnotVector, u); std::vector<P4> hp; for (auto& q : cv.ControlPoints) hp.push_back(of(q));
  auto he = ders(p, cv.KnotVector, hp, (ld)u, sp, m);
  auto h1 = BsplineCurve::ComputeDerivatives(cv, m, u); auto h2 = BsplineCurve::ComputeDerivativesByAllBasisFunctions(cv, m, u); c.trans(2);
  LN_BsplineCurve<XYZ> nb; nb.Degree = p; nb.KnotVector = cv.KnotVector; std::vector<P4> np; for (auto& q : cv.ControlPoints) { nb.ControlPoints.push_back(q.ToXYZ(true)); P3 x = of(q.ToXYZ(true)); np.push_back({x.x, x.y, x.z, 0}); }
  auto ne = ders(p, cv.KnotVector, np, (ld)u, sp, m);
  auto n1 = BsplineCurve::ComputeDerivatives(nb, m, u); auto n2 = BsplineCurve::ComputeDerivativesByAllBasisFunctions(nb, m, u); c.trans(2);
  c.check((int)h1.size() == m + 1 && (int)h2.size() == m + 1 && (int)n1.size() == m + 1 && (int)n2.size() == m + 1, "shape-b", at + "number of B-spline derivatives");
  for (int k = 0; k <= m; k++) {
    ld f = s * 5; for (int i = 0; i < k; i++) f *= 2 * p / h;
    auto d4 = [&](P4 a, P4 b) { P4 d = a - b; return std::sqrt(d.x * d.x + d.y * d.y + d.z * d.z + d.w * d.w); };
    c.check(d4(of(h1[k]), he[k]) <= 1e-9 * f * 1e-2 + 1e-9 * d4(he[k], P4()), "bspline4", at + fmt("homogeneous derivative %d", k));
    c.check(d4(of(h2[k]), he[k]) <= 1e-9 * f * 1e-2 + 1e-9 * d4(he[k], P4()), "bspline4-all", at + fmt("homogeneous derivative %d (all basis functions) is (%g %g %g %g), exact (%g %g %g %g)", k, h2[k].GetWX(), h2[k].GetWY(), h2[k].GetWZ(), h2[k].GetW(), (double)he[k].x, (double)he[k].y, (double)he[k].z, (double)he[k].w));
    P3 x{ne[k].x, ne[k].y, ne[k].z};
    c.check(near(of(n1[k]), x, 1e-9 * f * 1e-2 + 1e-9 * len(x)), "bspline3", at + fmt("B-spline derivative %d ", k) + str(of(n1[k])) + " exact " + str(x));
    c.check(near(of(n2[k]), x, 1e-9 * f * 1e-2 + 1e-9 * len(x)), "bspline3-all", at + fmt("B-spline derivative %d (all basis functions) ", k) + str(of(n2[k])) + " exact " + str(x));
  }
  if (m >= 3) {                                               // invariants (regular, non-inflection points)
    P3 d1 = e[1], d2 = e[2], d3 = e[3], cr = cross(d1, d2); ld l = len(d1), lc = len(cr);
    if (l > 1e-3 * s) {
      ld k = lc / (l * l * l); double gk = NurbsCurve::Curvature(cv, u); c.trans();
      c.check(std::fabs(gk - k) <= 1e-7 * (1 + k), "curvature", at + fmt("curvature %.12g, exact %.12g", gk, (double)k));
      if (lc > 1e-3 * l * len(d2) && lc > 1e-4) {
        ld t = dot(cr, d3) / (lc * lc); double gt = NurbsCurve::Torsion(cv, u); c.trans();
        c.check(std::fabs(gt - t) <= 1e-6 * (1 + std::fabs(t)), "torsion", at + fmt("torsion %.12g, exact %.12g", gt, (double)t));
        P3 b = unit(cr), nrm = cross(b, unit(d1));
        P3 gb = of(NurbsCurve::Normal(cv, CurveNormal::Binormal, u)), gn = of(NurbsCurve::Normal(cv, CurveNormal::Normal, u)); c.trans(2);
        c.check(near(gb, b, 1e-6), "binormal", at + "binormal " + str(gb) + ", exact " + str(b));
        c.check(near(gn, nrm, 1e-6), "normal", at + "principal normal " + str(gn) + ", exact " + str(nrm));
        c.count("regular, non-inflection");
      } else c.count("regular, inflection");
    } else c.count("singular");
  }
}

// curves with unit speed at the evaluated parameter (arc-length-like parametrization at one point only)
static void unitSpeed(Ctx& c) {
  int p = 2 + c.pick(mc::tier(3, 6)); auto k = gen::pickKnots(c, p, 1, mc::tier(1, 2), 2, 2, 1, false); int pf = c.pick(std::vector<int>{0, 1, 6, 5}), wf = c.pick(3); c.shard();
  auto cv = gen::curve(p, k.U, pf, wf); Curve R0(cv); auto us = params(cv.KnotVector, p, 2); double u = c.pick(us);
  ld l = len(R0.der(u, 1)[1]); if (l < 1e-6) c.skip();
  for (auto& q : cv.ControlPoints) { XYZ x = q.ToXYZ(true) / (double)l; q = XYZW(x, q.GetW()); }
  if (u < cv.KnotVector[p]) c.skip();
  c.note("unit speed %s u=%.9g", gen::str(cv).c_str(), u); c.state(mc::hd(gen::hash(cv), u));
  std::string at = gen::str(cv).substr(0, 900) + fmt(" u=%.12g: ", u);
  Curve R(cv); auto e = R.der(u, 3); P3 cr = cross(e[1], e[2]); ld lc = len(cr), kk = lc / std::pow(len(e[1]), 3);
  double gk = NurbsCurve::Curvature(cv, u); c.trans();
  c.check(std::fabs(gk - kk) <= 1e-7 * (1 + kk), "curvature", at + fmt("curvature %.12g, exact %.12g (unit speed at this parameter)", gk, (double)kk));
  if (lc > 1e-3 * len(e[2]) && lc > 1e-3) {
    ld t = dot(cr, e[3]) / (lc * lc); double gt = NurbsCurve::Torsion(cv, u); c.trans();
    c.check(std::fabs(gt - t) <= 1e-6 * (1 + std::fabs(t)), "torsion", at + fmt("torsion %.12g, exact %.12g (unit speed)", gt, (double)t));
    P3 b = unit(cr), nrm = cross(b, unit(e[1]));
    P3 gb = of(NurbsCurve::Normal(cv, CurveNormal::Binormal, u)), gn = of(NurbsCurve::Normal(cv, CurveNormal::Normal, u)); c.trans(2);
    c.check(near(gb, b, 1e-6), "binormal", at + "binormal " + str(gb) + ", exact " + str(b) + " (unit speed)");
    c.check(near(gn, nrm, 1e-6), "normal", at + "principal normal " + str(gn) + ", exact " + str(nrm) + " (unit speed)");
  }
  c.count("unit speed");
}
// differentiability test and projected normals
static void frames(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(4, 6), 2, mc::tier(4, 6), mc::tier(4, 6), 1, 2, false, {0, 1, 3, 6}, {0, 1}); c.shard();
  int p = cv.Degree; c.note("frames %s", gen::str(cv).c_str()); c.state(gen::hash(cv)); Curve R(cv); std::string at = gen::str(cv).substr(0, 900);
  for (double u : params(cv.KnotVector, p, 2)) {
    int s = span(p, cv.KnotVector, u); bool got = NurbsCurve::CanComputeDerivative(cv, u); c.trans();
    bool end = u == cv.KnotVector.front() || u == cv.KnotVector.back();
    if (end) { c.check(got, "differentiable", at + fmt(" u=%.9g: end of the domain reported as not differentiable", u)); continue; }
    int mu = mult(cv.KnotVector, u);
    P3 r = R.der(u, 1, s)[1], l = mu ? R.der(u, 1, s - mu)[1] : r; ld jump = dist(l, r);
    ld d2 = std::max(len(R.der(u, 2, s)[2]), mu ? len(R.der(u, 2, s - mu)[2]) : 0);
    if (jump > 0.05 * (1 + std::max(len(l), len(r)))) { c.check(!got, "corner", at + fmt(" u=%.9g: tangent jump %.3g reported as differentiable", u, (double)jump)); c.count("corner"); }
    else if (jump < 1e-9 && d2 < 20 && scale(R.P) < 15) { c.check(got, "smooth", at + fmt(" u=%.9g: smooth point reported as not differentiable", u)); c.count("smooth"); }
  }
  // projected normals: unit vectors perpendicular to the curve at every knot
  bool regular = true; for (double u : cv.KnotVector) if (len(R.der(u, 1)[1]) < 1e-3) regular = false;
  if (!regular) { c.count("tangent vanishes at a knot"); return; }
  mc::g_random = 1 + c.pick(mc::tier(18, 40));                  // every answer of the random device within the bound
  auto B = NurbsCurve::ProjectNormal(cv); c.trans();
  c.check(B.size() == cv.KnotVector.size(), "frame-size", at + ": one normal per knot expected");
  bool closed = dist(R.at(R.lo()), R.at(R.hi())) < 1e-9;
  P3 t0 = unit(R.der(R.lo(), 1)[1]), t1 = unit(R.der(R.hi(), 1)[1]);
  bool smoothSeam = dist(t0, t1) < 1e-9;
  for (size_t i = 0; i < B.size(); i++) {
    if (closed && !smoothSeam && cv.KnotVector[i] == R.hi()) continue;
    P3 t = unit(R.der(cv.KnotVector[i], 1)[1]);
    c.check(std::fabs(dot(of(B[i]), t)) < 1e-6, "frame-perp", at + fmt(": normal at knot %zu is not perpendicular to the tangent: ", i) + str(of(B[i])) + " tangent " + str(t));
    c.check(std::fabs(len(of(B[i])) - 1) < 1e-6, "frame-unit", at + fmt(": normal at knot %zu has length %.9g", i, (double)len(of(B[i]))));
  }
  if (closed) c.check(near(of(B.front()), of(B.back()), 1e-6), "frame-closed", at + ": closed curve, first and last normal differ");
  c.count(closed ? "projected normals, closed" : "projected normals, open");
}
MC_MAIN("C05", {{"derivatives", derivs}, {"unit-speed", unitSpeed}, {"frames", frames}})
