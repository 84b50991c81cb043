// C19: surface derivatives, normals, curvatures.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "BsplineSurface.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static LN_NurbsSurface pick(Ctx& c, int maxP, const std::vector<int>& pf) { auto s = gen::pickSurface(c, 1, maxP, mc::tier(1, 2), mc::tier(3, 4), mc::tier(3, 4), mc::tier(2, 3), mc::tier(3, 5), pf, mc::tier(std::vector<int>{0, 1}, {0, 1, 2})); c.shard(); return s; }
static ld hU(const LN_NurbsSurface& s) { return std::min(gen::hmin(s.KnotVectorU), gen::hmin(s.KnotVectorV)); }

static void derivatives(Ctx& c) {
  auto s = pick(c, mc::tier(4, 7), {0, 1, 3}); int m = 1 + c.pick(mc::tier(4, 5)); Surf R(s); std::string at = gen::str(s).substr(0, 500) + fmt(" order %d", m); c.note("derivatives %s", at.c_str()); c.state(mc::hd(gen::hash(s), m)); ld h = std::min((ld)1, hU(s));
  for (double u : params(s.KnotVectorU, s.DegreeU, mc::tier(1, 2))) for (double v : params(s.KnotVectorV, s.DegreeV, mc::tier(1, 2))) {
    auto e = R.der(u, v, m); auto g = NurbsSurface::ComputeRationalSurfaceDerivatives(s, m, UV(u, v)); c.trans(); c.check((int)g.size() == m + 1, "der-size", at + ": wrong number of derivatives");
    for (int k = 0; k <= m; k++) for (int l = 0; k + l <= m; l++) { ld tol = 1e-7 * R.scl() * std::max((ld)1, len(e[k][l])) * std::pow(4 / h, (ld)(k + l)) * 0.05L + 1e-8 * R.scl(); c.check(near(of(g[k][l]), e[k][l], tol), "derivative", at + fmt(": derivative (%d,%d) at (%.9g,%.9g) is ", k, l, u, v) + str(of(g[k][l])) + ", true " + str(e[k][l])); }
    if (m <= 3) { auto H = R.homDer(u, v, m); auto B = BsplineSurface::ComputeDerivatives(s, m, UV(u, v)); auto A = BsplineSurface::ComputeDerivativesByAllBasisFunctions(s, m, UV(u, v)); c.trans(2);
      for (int k = 0; k <= m; k++) for (int l = 0; k + l <= m; l++) { ld n = std::fabs(H[k][l].x) + std::fabs(H[k][l].y) + std::fabs(H[k][l].z) + std::fabs(H[k][l].w), tol = 1e-9 * R.scl() * std::pow(4 / h, (ld)(k + l)) + 1e-9 * n; P4 d = of(B[k][l]) - H[k][l]; c.check(std::fabs(d.x) + std::fabs(d.y) + std::fabs(d.z) + std::fabs(d.w) <= tol * 10, "bspline", at + fmt(": homogeneous derivative (%d,%d) at (%.9g,%.9g) differs", k, l, u, v)); d = of(A[k][l]) - H[k][l]; c.check(std::fabs(d.x) + std::fabs(d.y) + std::fabs(d.z) + std::fabs(d.w) <= tol * 10, "all-basis", at + fmt(": homogeneous derivative (%d,%d) at (%.9g,%.9g) by derivative control points is (%.9g,%.9g,%.9g,%.9g), true (%.9Lg,%.9Lg,%.9Lg,%.9Lg)", k, l, u, v, A[k][l].GetWX(), A[k][l].GetWY(), A[k][l].GetWZ(), A[k][l].GetW(), H[k][l].x, H[k][l].y, H[k][l].z, H[k][l].w)); } }
    if (m == 1) { XYZ S, Su, Sv; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, UV(u, v), S, Su, Sv); c.trans(); ld t = 1e-8 * R.scl() * 4 / h; c.check(near(of(S), e[0][0], t) && near(of(Su), e[1][0], t + 1e-8 * len(e[1][0])) && near(of(Sv), e[0][1], t + 1e-8 * len(e[0][1])), "first", at + fmt(": first order derivatives at (%.9g,%.9g) differ: ", u, v) + str(of(Su)) + str(of(Sv)) + " true " + str(e[1][0]) + str(e[0][1])); } }
  c.count(fmt("order %d", m));
}
static void shape(Ctx& c) {
  auto s = pick(c, mc::tier(4, 6), {0, 1, 2}); Surf R(s); std::string at = gen::str(s).substr(0, 500); c.note("shape %s", at.c_str()); c.state(gen::hash(s)); static const SurfaceCurvature K[] = {SurfaceCurvature::Maximum, SurfaceCurvature::Minimum, SurfaceCurvature::Gauss, SurfaceCurvature::Mean, SurfaceCurvature::Abs, SurfaceCurvature::Rms}; static const char* KN[] = {"maximum", "minimum", "Gauss", "mean", "absolute", "rms"};
  for (double u : params(s.KnotVectorU, s.DegreeU, 2)) for (double v : params(s.KnotVectorV, s.DegreeV, 2)) {
    auto e = R.der(u, v, 2); P3 Su = e[1][0], Sv = e[0][1], n = cross(Su, Sv); ld nl = len(n); if (nl < 1e-2 * len(Su) * len(Sv) || nl < 1e-2) { c.count("singular"); continue; } n = unit(n);
    P3 g = of(NurbsSurface::Normal(s, UV(u, v))); c.trans(); c.check(near(g, n, 1e-6), "normal", at + fmt(": normal at (%.9g,%.9g) ", u, v) + str(g) + ", true " + str(n));
    ld L = dot(e[2][0], n), M = dot(e[1][1], n), N = dot(e[0][2], n), E = dot(Su, Su), F = dot(Su, Sv), G = dot(Sv, Sv), D = E * G - F * F, k = (L * N - M * M) / D, H = (E * N + G * L - 2 * F * M) / (2 * D), r = std::sqrt(std::max((ld)0, H * H - k)), k1 = H + r, k2 = H - r; ld ex[] = {k1, k2, k, H, std::fabs(k1) + std::fabs(k2), std::sqrt(k1 * k1 + k2 * k2)};
    if (D < 1e-2) { c.count("small patch"); continue; } ld m = std::max(std::fabs(k1), std::fabs(k2));
    for (int i = 0; i < 6; i++) { double x = NurbsSurface::Curvature(s, K[i], UV(u, v)); c.trans(); c.check(std::fabs(x - ex[i]) <= 1e-5 * (1 + m) + 1e-5 * std::fabs(ex[i]) + (i == 2 ? 1e-5 * m * m : 0), std::string("curvature-") + KN[i], at + fmt(": %s curvature at (%.9g,%.9g) is %.9g, true %.9Lg (principal %.9Lg, %.9Lg)", KN[i], u, v, x, ex[i], k1, k2)); }
    for (int a = 0; a < 4; a++) { ld x = a == 0 ? 1 : a == 1 ? 0 : a == 2 ? 0.5 : -2, y = a == 0 ? 0 : a == 1 ? 1 : a == 2 ? -1.5 : -0.25; P3 t = x * Su + y * Sv; UV o; bool ok = NurbsSurface::GetUVTangent(s, UV(u, v), toXYZ(t), o); c.trans(); c.check(ok && std::fabs(o.GetU() - x) < 1e-5 && std::fabs(o.GetV() - y) < 1e-5, "uv-tangent", at + fmt(": tangent (%Lg,%Lg) at (%.9g,%.9g) comes back as (%.9g,%.9g)", x, y, u, v, o.GetU(), o.GetV())); }
    c.count("shape"); }
}
MC_MAIN("C19", {{"derivatives", derivatives}, {"shape", shape}})
