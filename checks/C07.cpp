// C07: decomposition into Bezier pieces reproduces the curve piece by piece.
#include "../mc/knots.hpp"
#include "NurbsCurve.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static void run(Ctx& c, LN_NurbsCurve cv);
static void decompose(Ctx& c) {
  auto cv = gen::pickCurve(c, 7, mc::tier(3, 4), mc::tier(4, 7), mc::tier(6, 9), mc::tier(2, 4), mc::tier(3, 5), false, mc::tier(std::vector<int>{0, 5}, {0, 1, 3, 5, 7}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2, 4})); c.shard(); run(c, cv);
}
// interior knots up to multiplicity degree + 1: the curve may jump there, as merged curves formally may
static void jumps(Ctx& c) {
  int p = 1 + c.pick(mc::tier(5, 7)); auto pats = gen::patterns(mc::tier(3, 4), p + 1, mc::tier(3, 4) * (p + 1)); auto m = c.pick(pats); bool full = false; for (int k : m) full |= k == p + 1; if (!full) c.skip();
  auto d = gen::domains()[c.pick(mc::tier(3, 5))]; int fam = c.pick(2); int wf = c.pick(2); c.shard(); run(c, gen::curve(p, gen::clamped(p, m, fam, d), 0, wf));
}
static void run(Ctx& c, LN_NurbsCurve cv) {
  int p = cv.Degree; c.note("decompose %s", gen::str(cv).c_str()); c.state(gen::hash(cv)); std::string at = "decompose " + gen::str(cv).substr(0, 900); auto before = cv;
  auto b = NurbsCurve::DecomposeToBeziers(cv); c.trans();
  c.check(gen::same(cv, before), "input", at + ": the input curve was modified");
  auto br = breaks(cv.KnotVector, p);
  c.check(b.size() == br.size() - 1, "pieces", at + fmt(": %zu pieces for %zu spans", b.size(), br.size() - 1));
  Curve R(cv); ld s = scale(R.P);
  for (size_t i = 0; i < b.size(); i++) {
    c.check(b[i].Degree == p && (int)b[i].ControlPoints.size() == p + 1 && (int)b[i].KnotVector.size() == 2 * p + 2, "bezier", at + fmt(": piece %zu is not a Bezier segment of the same degree", i));
    for (int k = 0; k <= p; k++) c.check(b[i].KnotVector[k] == b[i].KnotVector[0] && b[i].KnotVector[p + 1 + k] == b[i].KnotVector[p + 1] && b[i].KnotVector[p + 1] > b[i].KnotVector[0], "bezier", at + fmt(": piece %zu has interior knots", i));
    Curve B(b[i]); std::string why; c.check(B.valid(&why), "valid", at + fmt(": piece %zu invalid: ", i) + why); int sp = span(p, cv.KnotVector, (br[i] + br[i + 1]) / 2);
    for (double f : {0.0, 0.3, 0.5, 0.77, 1.0}) {
      double u = br[i] + f * (br[i + 1] - br[i]), v = B.lo() + f * (B.hi() - B.lo()); P3 x = R.at(u, sp), y = B.at(v);
      c.check(near(y, x, 1e-9 * s), "shape", at + fmt(": piece %zu at %.2g is ", i, f) + str(y) + ", the curve is at " + str(x));
    }
    if (i && mult(cv.KnotVector, br[i]) <= p) c.check(near(of(b[i].ControlPoints.front().ToXYZ(true)), of(b[i - 1].ControlPoints.back().ToXYZ(true)), 1e-9 * s), "joined", at + fmt(": pieces %zu and %zu do not join", i - 1, i));
  }
  c.count(fmt("%zu pieces", b.size()));
}
MC_MAIN("C07", {{"decompose", decompose}, {"jumps", jumps}})
