// C08: degree elevation and exact degree reduction preserve the curve.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static void elevate(Ctx& c) {
  auto cv = gen::pickCurve(c, mc::tier(5, 6), mc::tier(2, 3), mc::tier(3, 6), mc::tier(4, 6), mc::tier(2, 4), mc::tier(3, 5), false, mc::tier(std::vector<int>{0, 5}, {0, 1, 3, 5, 7}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2, 4})); c.shard();
  int p = cv.Degree, t = 1 + c.pick(mc::tier(3, 4));
  c.note("elevate by %d %s", t, gen::str(cv).c_str()); c.state(mc::mix(gen::hash(cv), t)); std::string at = fmt("elevate by %d ", t) + gen::str(cv).substr(0, 800); auto before = cv;
  LN_NurbsCurve r; NurbsCurve::ElevateDegree(cv, t, r); c.trans();
  c.check(gen::same(cv, before), "input", at + ": the input curve was modified");
  c.check(r.Degree == p + t, "degree", at + fmt(": degree %d", r.Degree));
  for (double b : breaks(cv.KnotVector, p)) c.check(mult(r.KnotVector, b, 1e-7) == mult(cv.KnotVector, b) + t, "mult", at + fmt(": multiplicity of knot %.9g is %d, expected %d; knots ", b, mult(r.KnotVector, b, 1e-7), mult(cv.KnotVector, b) + t) + str(r.KnotVector));
  gen::sameCurve(c, "shape", at, cv, r, 1e-8);
  c.count(fmt("elevate %d", t));
}
// a knot of full multiplicity, as inserting a knot that often gives: the curve may jump there, and both sides are elevated
static void torn(Ctx& c) {
  int p = 1 + c.pick(5); static const std::vector<std::vector<int>> M = {{9}, {9, 1}, {1, 9}, {9, 9}, {2, 9, 1}}; auto m = c.pick(M); for (int& x : m) x = std::min(x, x == 9 ? p + 1 : p); auto U = gen::clamped(p, m, c.pick(2), gen::domains()[c.pick(3)]); int pf = c.pick(std::vector<int>{0, 5}), wf = c.pick(2), t = 1 + c.pick(mc::tier(2, 4)); bool whole = c.flip(); c.shard(); auto cv = gen::curve(p, U, pf, wf);
  if (whole) for (size_t i = p + 1; i + 1 < cv.KnotVector.size(); i++) if (i < cv.ControlPoints.size() && cv.KnotVector[i] == cv.KnotVector[i + p] && cv.KnotVector[i] > cv.KnotVector[0]) cv.ControlPoints[i] = cv.ControlPoints[i - 1];
  c.note("elevate by %d %s", t, gen::str(cv).c_str()); c.state(mc::mix(gen::hash(cv), t)); std::string at = fmt("elevate by %d ", t) + gen::str(cv).substr(0, 800); LN_NurbsCurve r; NurbsCurve::ElevateDegree(cv, t, r); c.trans();
  c.check(r.Degree == p + t, "degree", at + fmt(": degree %d", r.Degree)); for (double b : breaks(cv.KnotVector, p)) c.check(mult(r.KnotVector, b, 1e-7) == mult(cv.KnotVector, b) + t, "mult", at + fmt(": multiplicity of knot %.9g is %d, expected %d; knots ", b, mult(r.KnotVector, b, 1e-7), mult(cv.KnotVector, b) + t) + str(r.KnotVector));
  gen::sameCurve(c, "torn", at, cv, r, 1e-8); c.count("torn");
}
// a Bezier curve that is an elevated one reduces back to it; a reduction that is accepted is faithful
static void reduce(Ctx& c) {
  int p = 1 + c.pick(6); auto U = gen::clamped(p, {}, 0, gen::domains()[c.pick(3)]); int pf = c.pick(std::vector<int>{0, 1, 2, 3, 4, 6}), wf = c.pick(4); int kind = c.pick(3); c.shard();
  auto base = gen::curve(p, U, pf, wf); LN_NurbsCurve cv;
  if (kind == 0) { NurbsCurve::ElevateDegree(base, 1, cv); c.trans(); }            // exactly reducible
  else cv = base;
  if (kind == 2) { LN_NurbsCurve t; NurbsCurve::ElevateDegree(base, 1, t); cv = t; P4 q = of(cv.ControlPoints[(p + 1) / 2]); ld w = q.w; cv.ControlPoints[(p + 1) / 2] = XYZW((double)(q.x + 0.5 * w), (double)q.y, (double)q.z, (double)q.w); c.trans(); }
  c.note("reduce kind %d %s", kind, gen::str(cv).c_str()); c.state(gen::hash(cv)); std::string at = fmt("reduce (case %d) ", kind) + gen::str(cv).substr(0, 800); auto before = cv;
  LN_NurbsCurve r; bool ok = NurbsCurve::ReduceDegree(cv, r); c.trans();
  c.check(gen::same(cv, before), "input", at + ": the input curve was modified");
  if (kind == 0) c.check(ok, "reducible", at + ": an exactly reducible curve was refused");
  if (kind == 2 && cv.Degree >= 2) c.check(!ok, "irreducible", at + ": a curve that is not of lower degree was reduced");
  if (ok) { c.check(r.Degree == cv.Degree - 1, "r-degree", at + fmt(": degree %d", r.Degree)); gen::sameCurve(c, "r-shape", at, cv, r, kind == 0 ? 1e-7 : 2e-4); }
  c.count(ok ? "reduced" : "refused");
}
// a curve with interior knots cannot be reduced by the Bezier algorithm and must be refused
static void refuse(Ctx& c) {
  auto cv = gen::pickCurve(c, 5, 2, 2, 3, 1, 3, false, {0}, {0, 1}); c.shard(); if (cv.ControlPoints.size() == (size_t)cv.Degree + 1) c.skip();
  c.note("reduce spline %s", gen::str(cv).c_str()); c.state(gen::hash(cv)); LN_NurbsCurve r; bool ok = NurbsCurve::ReduceDegree(cv, r); c.trans();
  if (ok) gen::sameCurve(c, "r-shape", "reduce " + gen::str(cv).substr(0, 800), cv, r, 2e-4); c.count(ok ? "spline reduced" : "spline refused");
}
MC_MAIN("C08", {{"elevate", elevate}, {"torn", torn}, {"reduce", reduce}, {"refuse", refuse}})
