// C04: a NURBS curve evaluates to its defining rational sum at every parameter.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
#include "BsplineCurve.h"
#include "Matrix4d.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static void evaluate(Ctx& c) {
  auto cv = gen::pickCurve(c, 7, mc::tier(2, 4), mc::tier(3, 7), mc::tier(4, 8), mc::tier(2, 4), 3, true, mc::tier(std::vector<int>{0, 3, 5}, {0, 1, 2, 3, 4, 5, 6, 7}), mc::tier(std::vector<int>{0, 1, 2}, {0, 1, 2, 3, 4}));
  c.shard();
  auto us = params(cv.KnotVector, cv.Degree, mc::tier(4, 8)); double u = c.pick(us);
  c.note("evaluate %s u=%.12g", gen::str(cv).c_str(), u); c.state(mc::hd(gen::hash(cv), u));
  Curve R(cv); std::string at = gen::str(cv).substr(0, 900) + fmt(" u=%.12g: ", u); ld tol = 1e-9 * scale(R.P);
  P3 e = R.at(u);
  XYZ g = NurbsCurve::GetPointOnCurve(cv, u); c.trans();
  c.check(near(of(g), e, tol), "point", at + "GetPointOnCurve " + str(of(g)) + ", rational sum " + str(e));
  XYZ k = NurbsCurve::GetPointOnCurveByCornerCut(cv, u); c.trans();
  c.check(near(of(k), e, tol), "corner", at + "GetPointOnCurveByCornerCut " + str(of(k)) + ", rational sum " + str(e));
  P4 h = R.hom(u); XYZW hw = BsplineCurve::GetPointOnCurve(cv, u); c.trans(); P4 d = of(hw) - h;
  c.check(std::fabs(d.x) + std::fabs(d.y) + std::fabs(d.z) <= tol * 4 * (1 + h.w) && std::fabs(d.w) <= 1e-9 * h.w, "homogeneous", at + "homogeneous B-spline point differs");
  LN_BsplineCurve<XYZ> nb; nb.Degree = cv.Degree; nb.KnotVector = cv.KnotVector; std::vector<P4> np; for (auto& q : cv.ControlPoints) { nb.ControlPoints.push_back(q.ToXYZ(true)); P3 x = of(q.ToXYZ(true)); np.push_back({x.x, x.y, x.z, 1}); }
  P4 ne = deBoor(cv.Degree, cv.KnotVector, np, (ld)u, span(cv.Degree, cv.KnotVector, u));
  XYZ ng = BsplineCurve::GetPointOnCurve(nb, u); c.trans();
  c.check(near(of(ng), xyz(ne), tol), "bspline", at + "non-rational B-spline point " + str(of(ng)) + " expected " + str(xyz(ne)));
  // strong convex hull (axis-aligned consequence): inside the box of the p+1 active control points
  int s = span(cv.Degree, cv.KnotVector, u); XYZ mn(1e300, 1e300, 1e300), mx(-1e300, -1e300, -1e300);
  for (int i = s - cv.Degree; i <= s; i++) { XYZ q = cv.ControlPoints[i].ToXYZ(true); for (int a = 0; a < 3; a++) { mn[a] = std::min(mn[a], q[a]); mx[a] = std::max(mx[a], q[a]); } }
  for (int a = 0; a < 3; a++) c.check(g[a] >= mn[a] - tol && g[a] <= mx[a] + tol, "hull", at + "point outside the hull of the active control points");
  // local support: moving a control point that is not active does not move the point
  auto far = cv; for (size_t i = 0; i < far.ControlPoints.size(); i++) if ((int)i < s - cv.Degree || (int)i > s) far.ControlPoints[i] = XYZW(XYZ(77, -55, 33), 4);
  XYZ g2 = NurbsCurve::GetPointOnCurve(far, u); c.trans();
  c.check(near(of(g2), e, tol), "local", at + "a non-active control point influences the curve point");
  if (gen::isClamped(cv)) {
    if (u == cv.KnotVector.front()) c.check(near(of(g), of(cv.ControlPoints.front().ToXYZ(true)), tol), "start", at + "start point is not the first control point");
    if (u == cv.KnotVector.back()) c.check(near(of(g), of(cv.ControlPoints.back().ToXYZ(true)), tol), "end", at + "end point is not the last control point");
  }
  c.count(fmt("degree %d", cv.Degree));
}

static Matrix4d matrixOf(int m) {
  switch (m) {
    case 0: return Matrix4d();
    case 1: return Matrix4d::CreateTranslation(XYZ(3, -4, 7.5));
    case 2: return Matrix4d::CreateRotation(XYZ(1, 2, 2), 0.9);
    case 3: return Matrix4d::CreateScale(XYZ(2, 0.5, 3));
    case 4: return Matrix4d::CreateReflection(XYZ(0, 0.6, 0.8));
    case 5: return Matrix4d::CreateRotation(XYZ(0, 0, 1), -2.2).Multiply(Matrix4d::CreateTranslation(XYZ(1, 2, 3)));
    default: return Matrix4d::CreateScale(XYZ(1, 2, 1)).Multiply(Matrix4d::CreateRotation(XYZ(1, 0, 0), 1.1));
  }
}
static void affine(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(4, 7), 2, mc::tier(2, 3), mc::tier(3, 6), 2, 3, true, {0, 1, 5}, {0, 1, 2}); c.shard();
  int m = c.pick(7); Matrix4d M = matrixOf(m);
  c.note("transform %s matrix %d", gen::str(cv).c_str(), m); c.state(mc::mix(gen::hash(cv), m));
  LN_NurbsCurve t; NurbsCurve::CreateTransformed(cv, M, t); c.trans();
  Curve A(cv), B(t); std::string why; c.check(B.valid(&why), "transform-valid", gen::str(cv) + why);
  for (double u : params(cv.KnotVector, cv.Degree, 2)) {
    P3 a = A.at(u); XYZ in = toXYZ(a); P3 want = of(M.OfPoint(in));
    P3 got = of(NurbsCurve::GetPointOnCurve(t, u)); c.trans();
    c.check(near(got, want, 1e-7 * std::max(scale(A.P), scale(B.P))), "affine", gen::str(cv) + fmt(" matrix %d u=%.9g: transformed curve at ", m, u) + str(got) + ", transformed point " + str(want));
  }
  for (size_t i = 0; i < cv.ControlPoints.size(); i++) c.check(std::fabs(t.ControlPoints[i].GetW() - cv.ControlPoints[i].GetW()) < 1e-12, "affine-weight", "weights changed by an affine map");
  c.count(fmt("matrix %d", m));
}
MC_MAIN("C04", {{"evaluate", evaluate}, {"affine", affine}})
