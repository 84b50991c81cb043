// C01: span lookup, multiplicity and B-spline basis functions agree with the Cox-de Boor definition.
#include "../mc/knots.hpp"
#include "Polynomials.h"
#include "KnotVectorUtils.h"
#include "Constants.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static void basis(Ctx& c) {
  int p = 1 + c.pick(7);
  auto k = gen::pickKnots(c, p, mc::tier(3, 5), mc::tier(3, 7), mc::tier(6, 9), 4, 4, true);
  c.shard();
  auto& U = k.U; int n = (int)U.size() - p - 2;
  auto us = params(U, p, mc::tier(5, 8)); 
  double u = us[c.pick((int)us.size())];
  c.note("basis p=%d U=%s u=%.12g", p, str(U).c_str(), u);
  c.state(mc::hd(gen::hashv(U, p), u));
  std::string at = fmt("p=%d U=%s u=%.12g: ", p, str(U).c_str(), u);
  // span
  int s = span(p, U, u), got = Polynomials::GetKnotSpanIndex(p, U, u); c.trans();
  c.check(got == s, "span", at + fmt("span %d, expected %d", got, s));
  // multiplicity and continuity
  int m = mult(U, u), gm = Polynomials::GetKnotMultiplicity(U, u); c.trans();
  c.check(gm == m, "mult", at + fmt("multiplicity %d, expected %d", gm, m));
  int co = KnotVectorUtils::GetContinuity(p, U, u); c.trans();
  c.check(co == p - m, "continuity", at + fmt("continuity %d, expected %d", co, p - m));
  // nonzero functions
  double N_[Constants::NURBSMaxDegree + 1]; for (double& x : N_) x = -7;
  Polynomials::BasisFunctions(s, p, U, u, N_); c.trans(); ld sum = 0;
  auto all = Polynomials::AllBasisFunctions(s, p, U, u); c.trans();
  for (int j = 0; j <= p; j++) {
    ld e = N(s - p + j, p, U, u, s); sum += N_[j];
    c.check(N_[j] >= -1e-12, "negative", at + fmt("basis %d negative %.17g", j, N_[j]));
    c.check(std::fabs(N_[j] - e) < 1e-10, "basis", at + fmt("basis %d = %.17g, expected %.17g", j, N_[j], (double)e));
    for (int d = 0; d <= p; d++) if (j <= d) {
      ld ed = N(s - d + j, d, U, u, s);
      c.check(std::fabs(all[j][d] - ed) < 1e-10, "all", at + fmt("all-degree basis [%d][%d] = %.17g, expected %.17g", j, d, all[j][d], (double)ed));
    }
  }
  c.check(std::fabs(sum - 1) < 1e-10, "unity", at + fmt("sum %.17g", (double)sum));
  // every single function, including those that vanish here
  if (k.clampedKind || (u > U[p] && u < U[n + 1])) for (int i = 0; i <= n; i++) {
    double g = Polynomials::OneBasisFunction(i, p, U, u); c.trans();
    ld e = N(i, p, U, u, s);
    c.check(std::fabs(g - e) < 4e-6, "one", at + fmt("function %d = %.17g, expected %.17g", i, g, (double)e));
  }
  c.count(m ? "at a knot" : "between knots");
}
// parameters a hair away from a knot, inside and outside the comparison tolerance
static void nearKnot(Ctx& c) {
  int p = 1 + c.pick(5);
  auto k = gen::pickKnots(c, p, 2, 3, 4, 3, 4, false);
  c.shard();
  auto& U = k.U; auto b = breaks(U, p);
  double kn = b[c.pick((int)b.size())]; static const double eps[] = {1e-14, 1e-9, 1e-7, 3e-4, 5e-4, 1e-3};
  double e = eps[c.pick(6)] * (c.flip() ? -1 : 1), u = kn + e;
  if (u < U[0] || u > U.back()) c.skip();
  c.note("near-knot p=%d U=%s u=%.16g", p, str(U).c_str(), u); c.state(mc::mix(gen::hashv(U, p), (uint64_t)(u * 1e15)));
  std::string at = fmt("p=%d U=%s u=%.16g: ", p, str(U).c_str(), u);
  int s = Polynomials::GetKnotSpanIndex(p, U, u); c.trans();
  double tol = 1e-6 * (1 + std::fabs(kn)) * 1.01;
  c.check(s >= p && s <= (int)U.size() - p - 2 && U[s] < U[s + 1], "span-range", at + fmt("span %d is empty or out of range", s));
  c.check(u >= U[s] - tol && u <= U[s + 1] + tol, "span-contains", at + fmt("span %d does not contain the parameter", s));
  if (std::fabs(e) > tol) c.check(s == span(p, U, u), "span-near", at + fmt("span %d, expected %d", s, span(p, U, u)));
  int m = Polynomials::GetKnotMultiplicity(U, u); c.trans();
  int em = std::fabs(e) < tol / 1.5 ? mult(U, kn) : std::fabs(e) > tol ? 0 : m;
  c.check(m == em, "mult-near", at + fmt("multiplicity %d, expected %d", m, em));
  double N_[Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctions(s, p, U, u, N_); c.trans(); ld sum = 0;
  for (int j = 0; j <= p; j++) { sum += N_[j]; c.check(std::fabs(N_[j] - N(s - p + j, p, U, u, s)) < 1e-9, "basis-near", at + fmt("basis %d", j)); }
  c.check(std::fabs(sum - 1) < 1e-9, "unity-near", at + "sum");
  c.count("near a knot");
}
MC_MAIN("C01", {{"basis", basis}, {"nearKnot", nearKnot}})
