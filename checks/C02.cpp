// C02: derivatives of B-spline basis functions of every order agree with exact differentiation.
#include "../mc/knots.hpp"
#include "Polynomials.h"
#include "Constants.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static bool tinyIntermediate(int i, int p, const std::vector<double>& U, ld u, int s) {
  for (int d = 0; d <= p; d++) for (int j = 0; j + d <= p; j++) { ld v = N(i + j, d, U, u, s); if (v > 0 && v < 3e-6) return true;
    for (int o = 1; o <= d; o++) { ld w = std::fabs(dN(i + j, d, U, u, s, o)); if (w > 0 && w < 3e-6) return true; } }
  return false;
}
static void derivs(Ctx& c) {
  int p = 1 + c.pick(7);
  auto k = gen::pickKnots(c, p, mc::tier(2, 4), mc::tier(3, 7), mc::tier(5, 8), 4, 4, true);
  c.shard();
  auto& U = k.U; int n = (int)U.size() - p - 2;
  auto us = params(U, p, mc::tier(4, 8)); double u = us[c.pick((int)us.size())];
  int m = 1 + c.pick(p);                                      // highest order requested
  c.note("basis derivatives p=%d U=%s u=%.12g order<=%d", p, str(U).c_str(), u, m);
  c.state(mc::mix(mc::hd(gen::hashv(U, p), u), m));
  std::string at = fmt("p=%d U=%s u=%.12g order<=%d: ", p, str(U).c_str(), u, m);
  int s = span(p, U, u);
  double hmin = 1e9; for (size_t i = 0; i + 1 < U.size(); i++) if (U[i + 1] > U[i]) hmin = std::min(hmin, U[i + 1] - U[i]);
  auto D = Polynomials::BasisFunctionsDerivatives(s, p, m, U, u); c.trans();
  c.check((int)D.size() == m + 1, "shape", at + "number of orders");
  for (int o = 0; o <= m; o++) {
    ld sum = 0, tol = 1e-9; for (int i = 0; i < o; i++) tol *= 2 * p / hmin; tol += 1e-10;
    for (int j = 0; j <= p; j++) {
      ld e = dN(s - p + j, p, U, u, s, o); sum += D[o][j];
      c.check(std::fabs(D[o][j] - e) <= 1e-9 * (1 + std::fabs(e)) + 1e-5 * tol, "der", at + fmt("order %d function %d = %.15g, expected %.15g", o, j, D[o][j], (double)e));
    }
    c.check(std::fabs(sum - (o ? 0 : 1)) <= tol, "sum", at + fmt("order %d sum %.15g", o, (double)sum));
  }
  if (m == 1) {
    double F[2][Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctionsFirstOrderDerivative(s, p, U, u, F); c.trans();
    for (int o = 0; o <= 1; o++) for (int j = 0; j <= p; j++) { ld e = dN(s - p + j, p, U, u, s, o); c.check(std::fabs(F[o][j] - e) <= 1e-9 * (1 + std::fabs(e)), "first", at + fmt("first-order variant order %d function %d = %.15g, expected %.15g", o, j, F[o][j], (double)e)); }
  }
  if (u < U[n + 1]) for (int i = 0; i <= n; i++) {            // single function, any index (right-sided values)
    auto O = Polynomials::OneBasisFunctionDerivative(i, p, m, U, u); c.trans();
    c.check((int)O.size() == m + 1, "one-shape", at + "number of orders");
    bool strict = !tinyIntermediate(i, p, U, u, s);
    for (int o = 0; o <= m; o++) {
      ld e = dN(i, p, U, u, s, o), tol = 1e-9 * (1 + std::fabs(e)) , slack = 3e-6, f = 1; for (int q = 0; q < o; q++) f *= 2 * p / hmin; slack *= std::max<ld>(1, f);
      c.check(std::fabs(O[o] - e) <= tol + (strict ? 3e-12L * f : slack), "one", at + fmt("single function %d order %d = %.15g, expected %.15g", i, o, O[o], (double)e));
    }
    c.count(strict ? "single function, exact comparison" : "single function, values below comparison tolerance");
  }
  c.count(fmt("order %d", m));
}
MC_MAIN("C02", {{"derivatives", derivs}})
