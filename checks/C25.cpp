// C25: surface area.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "LNEnums.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static const std::vector<std::pair<ld, ld>>& gauss() {
  static std::vector<std::pair<ld, ld>> g; if (!g.empty()) return g; int n = 16;
  for (int i = 0; i < n; i++) { ld x = std::cos(M_PIl * (i + 0.75L) / (n + 0.5L)), d = 0; for (int k = 0; k < 100; k++) { ld a = 1, b = x; for (int j = 2; j <= n; j++) { ld t = ((2 * j - 1) * x * b - (j - 1) * a) / j; a = b; b = t; } d = n * (x * b - a) / (x * x - 1); ld s = b / d; x -= s; if (std::fabs(s) < 1e-18L) break; } g.push_back({x, 2 / ((1 - x * x) * d * d)}); } return g;
}
static ld tile(const Surf& R, double a, double b, double e, double f, int su, int sv) { ld s = 0; for (auto& x : gauss()) for (auto& y : gauss()) { auto d = R.der((a + b) / 2 + (b - a) / 2 * x.first, (e + f) / 2 + (f - e) / 2 * y.first, 1, su, sv); s += x.second * y.second * len(cross(d[1][0], d[0][1])); } return s * (b - a) * (f - e) / 4; }
static ld area(const Surf& R, int m, bool* good) {
  auto bu = breaks(R.U, R.p), bv = breaks(R.V, R.q); ld s[2] = {0, 0}; *good = true;
  for (int k = 0; k < 2; k++) { int n = m << k; for (size_t i = 0; i + 1 < bu.size(); i++) for (size_t j = 0; j + 1 < bv.size(); j++) { int su = span(R.p, R.U, bu[i]), sv = span(R.q, R.V, bv[j]); double hu = (bu[i + 1] - bu[i]) / n, hv = (bv[j + 1] - bv[j]) / n; for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) s[k] += tile(R, bu[i] + x * hu, bu[i] + (x + 1) * hu, bv[j] + y * hv, bv[j] + (y + 1) * hv, su, sv); } }
  *good = std::fabs(s[0] - s[1]) <= 1e-7L * (1e-9L + s[1]); return s[1];
}
static const IntegratorType T[] = {IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev}; static const char* TN[] = {"simpson", "gauss", "chebyshev"};
static void judge(Ctx& c, const std::string& at, const LN_NurbsSurface& s, ld A) {
  for (int i = 0; i < 3; i++) { auto k = s; double a = NurbsSurface::ApproximateArea(k, T[i]); c.trans(); ld tol = (i == 0 ? 1e-4L : i == 1 ? 1e-6L : 1e-5L) * A + (i == 0 ? 1e-3L : 1e-6L) + 1e-7L * Surf(s).scl() * Surf(s).scl(); c.check(gen::same(s, k), "input", at + ": input modified"); c.check(std::fabs(a - A) <= tol, std::string("area-") + TN[i], at + fmt(": area by %s %.12g, true %.12Lg", TN[i], a, A)); }
}
// height fields over a grid: regular, so that the integrand is smooth on every knot rectangle
static void generic(Ctx& c) {
  int p = 1 + c.pick(mc::tier(3, 5) + 1), q; bool big = p == 1 + mc::tier(3, 5); static const int BIG[][2] = {{4, 4}, {5, 2}, {2, 6}, {7, 7}, {1, 7}, {6, 5}, {3, 2}}; int bi = big ? c.pick(7) : 0; if (big) { p = BIG[bi][0]; q = BIG[bi][1]; } else q = 1 + c.pick(mc::tier(3, 5)); auto pu = big ? std::vector<std::vector<int>>{bi == 6 ? std::vector<int>(11, 1) : std::vector<int>{1}} : gen::patterns(mc::tier(1, 2), std::min(3, p), 3), pv = big ? std::vector<std::vector<int>>{bi == 6 ? std::vector<int>(7, 1) : std::vector<int>{}} : gen::patterns(mc::tier(1, 2), std::min(3, q), 3); auto& mu = c.pick(pu); auto& mv = c.pick(pv); int fam = c.pick(mc::tier(1, 3)), dom = c.pick(mc::tier(2, 4)), z = big ? 2 : c.pick(3), w = big ? 1 : c.pick(3); double sc = c.pick(mc::tier(std::vector<double>{1}, {0.2, 1, 8})); c.shard();
  LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = gen::clamped(p, mu, fam, gen::domains()[dom]); s.KnotVectorV = gen::clamped(q, mv, (fam + 1) % 3, gen::domains()[(dom + 1) % 4]); int n = s.KnotVectorU.size() - p - 1, m = s.KnotVectorV.size() - q - 1;
  for (int i = 0; i < n; i++) { std::vector<XYZW> r; for (int j = 0; j < m; j++) { double h = z == 0 ? 0.5 * i - 0.25 * j : z == 1 ? 0.3 * ((i + j) % 2) : 0.2 * (i * j % 3) + 0.1 * i, k = w == 0 ? 1 : w == 1 ? 1 + 0.4 * ((i + 2 * j) % 3) : 0.6 + 0.2 * (i % 2) + 0.1 * j; r.push_back(XYZW(XYZ(sc * i, sc * (j + 0.2 * i), sc * h), k)); } s.ControlPoints.push_back(r); }
  std::string at = gen::str(s).substr(0, 500) + fmt(" heights %d weights %d scale %g", z, w, sc); c.note("area %s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(s), sc), z * 3 + w)); Surf R(s); bool g; ld A = area(R, 1, &g); if (!g) A = area(R, 4, &g); if (!g) { c.count("no reference"); return; } judge(c, at, s, A); c.count("judged");
}
static void shapes(Ctx& c) {
  int kind = c.pick(6); double r = c.pick(std::vector<double>{0.3, 1, 7, 50}); double k = c.pick(std::vector<double>{0.5, 2, 3}); bool swap = c.flip(); int dom = c.pick(3); c.shard(); LN_NurbsSurface s; bool ok = true; ld A = 0; double ang = k * 2; static const char* N[] = {"parallelogram", "cylinder", "sphere", "torus", "cone", "collapsed to a line"};
  if (kind == 0) { NurbsSurface::CreateBilinearSurface(XYZ(0, 0, 0), XYZ(r, 0, 0), XYZ(k, k * r, 1), XYZ(k + r, k * r, 1), s); A = r * std::sqrt((ld)k * k * r * r + 1); }
  if (kind == 1) { ok = NurbsSurface::CreateCylindricalSurface(XYZ(1, 2, 3), XYZ(1, 0, 0), XYZ(0, 1, 0), 0.25, 0.25 + ang, r, k * r, s); A = (ld)ang * r * k * r; }
  if (kind == 5) NurbsSurface::CreateBilinearSurface(XYZ(0.1, 0.2, 0.3), XYZ(0.1 + r, 0.2 + r / 3, 0.3), XYZ(0.1 - k, 0.2 - k / 3, 0.3), XYZ(0.1 + 2 * r, 0.2 + 2 * r / 3, 0.3), s);
  if (kind >= 2 && kind < 5) { LN_NurbsCurve p; double R0 = kind == 3 ? (1 + k) * r : 0; if (kind == 4) NurbsCurve::CreateLine(XYZ(0, 0, k * r), XYZ(r, 0, 0), p); else ok = NurbsCurve::CreateArc(XYZ(R0, 0, 0), XYZ(0, 0, 1), XYZ(1, 0, 0), 0, kind == 2 ? M_PI : 2 * M_PI, r, r, p); ok = ok && NurbsSurface::CreateRevolvedSurface(XYZ(0, 0, 0), XYZ(0, 0, 1), ang, p, s); A = kind == 2 ? 2 * (ld)ang * r * r : kind == 3 ? (ld)ang * R0 * 2 * M_PIl * r : (ld)ang / 2 * r * std::sqrt((ld)r * r + (ld)k * k * r * r); }
  std::string at = fmt("%s of size %g, %g, domain %d%s", N[kind], r, k, dom, swap ? ", swapped" : ""); c.note("area %s", at.c_str()); c.state(mc::hd(mc::hd(kind * 10 + dom * 2 + swap, r), k)); if (!ok) { c.fail("made", at + ": refused"); return; } LN_NurbsSurface x; if (swap) { NurbsSurface::Swap(s, x); s = x; } if (dom) { NurbsSurface::Reparametrize(s, dom == 1 ? -3 : 2, dom == 1 ? -1 : 10, dom == 1 ? 5 : -0.5, dom == 1 ? 5.5 : 0.25, x); s = x; }
  judge(c, at, s, A); c.count(N[kind]);
}
MC_MAIN("C25", {{"generic", generic}, {"shapes", shapes}})
