// C23: surfaces through points and curves: mesh parametrization, global interpolation, global approximation, loft, Gordon.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include "Interpolation.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;
typedef std::vector<std::vector<XYZ>> Grid;
// grid families: 0 translational with irregular spacing, 1 every row spaced differently, 2 on a cylinder, 3 first row collapsed to a point, 4 large and far away
static const int LARGE[][4] = {{12, 5, 1, 1}, {5, 14, 3, 3}, {20, 20, 3, 2}, {9, 33, 5, 2}, {16, 9, 2, 6}, {9, 9, 7, 4}, {10, 12, 4, 7}, {34, 3, 1, 3}, {8, 8, 6, 5}};
static Grid grid(int fam, int rows, int cols) {
  static const double g7[] = {0, 1, 1.4, 3.4, 4, 7, 7.5}; std::vector<double> g; for (int i = 0; i < std::max(rows, cols); i++) g.push_back(g7[i % 7] + 8.2 * (i / 7)); Grid q(rows, std::vector<XYZ>(cols));
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { double x = g[j], y = g[i] * 1.3, z = rows > 7 || cols > 7 ? 1.5 * std::sin(0.9 * i) + 1.3 * std::cos(0.8 * j) : 0.5 * i * (i - 2) + 0.3 * j * j; if (fam == 1) { x = g[j] + 0.25 * i * (j % 2); y = y + 0.2 * j * (i % 2); z = ((3 * i + 5 * j + i * j) % 4) * 0.6; } if (fam == 2) { x = 4 * std::cos(0.3 * g[j]); z = 4 * std::sin(0.3 * g[j]) + 0.1 * i; y = g[i]; } if (fam == 3 && i == 0) { x = 0; y = 0; z = 0; } if (fam == 4) { x = 400 * x + 7 * j * i; y = 300 * y - 1000; z = 50 * z; } q[i][j] = XYZ(x, y, z); }
  return q;
}
static std::string str(const Grid& q) { std::string s; for (auto& r : q) { s += "["; for (auto& p : r) s += ref::str(of(p)); s += "]"; } return s; }
static uint64_t hash(const Grid& q) { uint64_t h = q.size(); for (auto& r : q) for (auto& p : r) h = mc::hd(mc::hd(mc::hd(h, p.GetX()), p.GetY()), p.GetZ()); return h; }
// mean chord-length parameters of the lines of a grid (A9.3): lines of zero length do not take part
static std::vector<ld> mean(const std::vector<std::vector<P3>>& lines) { int n = lines[0].size(); std::vector<ld> r(n, 0); int cnt = 0; for (auto& l : lines) { ld t = 0; for (int i = 1; i < n; i++) t += dist(l[i], l[i - 1]); if (t < 1e-6) continue; cnt++; ld d = 0; for (int i = 1; i < n; i++) { d += dist(l[i], l[i - 1]); r[i] += d / t; } } for (auto& x : r) x /= cnt; r[n - 1] = 1; return r; }
static void rc(const Grid& q, std::vector<ld>& alongRows, std::vector<ld>& alongCols) { std::vector<std::vector<P3>> a, b; for (auto& r : q) { a.emplace_back(); for (auto& p : r) a.back().push_back(of(p)); } for (size_t j = 0; j < q[0].size(); j++) { b.emplace_back(); for (size_t i = 0; i < q.size(); i++) b.back().push_back(of(q[i][j])); } alongRows = mean(a); alongCols = mean(b); }
static void mesh(Ctx& c) {
  c.shard(); int rows = 2 + c.pick(mc::tier(5, 6) + 1), cols; if (rows == 2 + mc::tier(5, 6)) { auto& L = LARGE[c.pick(9)]; rows = L[0]; cols = L[1]; } else cols = 2 + c.pick(mc::tier(5, 6)); auto q = grid(c.pick(5), rows, cols); bool flipped = c.flip(); if (flipped) { Grid t(cols, std::vector<XYZ>(rows)); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) t[j][i] = q[i][j]; q = t; std::swap(rows, cols); } bool dirty = c.flip(); std::string at = str(q).substr(0, 500); c.note("mesh %s", at.c_str()); c.state(hash(q)); std::vector<double> u, v; if (dirty) u = {0.5, 0.25, 9}, v = {1, 2, 3, 4, 5, 6, 7, 8, 9};
  bool ok = Interpolation::GetSurfaceMeshParameterization(q, u, v); c.trans(); c.check(ok, "mesh-refused", at + ": refused"); std::vector<ld> r, k; rc(q, r, k); c.check(u.size() == k.size() && v.size() == r.size(), "mesh-size", at + ": wrong number of parameters"); for (size_t i = 0; i < k.size(); i++) c.check(std::fabs(u[i] - k[i]) < 1e-9, "mesh-u", at + fmt(": u parameter %d is %.9g, the mean of the columns' chord parameters %.9g", (int)i, u[i], (double)k[i])); for (size_t i = 0; i < r.size(); i++) c.check(std::fabs(v[i] - r[i]) < 1e-9, "mesh-v", at + fmt(": v parameter %d is %.9g, the mean of the rows' chord parameters %.9g", (int)i, v[i], (double)r[i])); c.count("mesh");
}
static void interpolate(Ctx& c) {
  int rows = 2 + c.pick(mc::tier(5, 6) + 1), cols, p, q; if (rows == 2 + mc::tier(5, 6)) { auto& L = LARGE[c.pick(9)]; rows = L[0]; cols = L[1]; p = std::min(L[2], cols - 1); q = std::min(L[3], rows - 1); } else { cols = 2 + c.pick(mc::tier(5, 6)); p = 1 + c.pick(std::min(cols - 1, mc::tier(4, 6))), q = 1 + c.pick(std::min(rows - 1, mc::tier(4, 6))); } c.shard(); auto g = grid(c.pick(5), rows, cols); std::string at = fmt("interpolate degrees %d %d ", p, q) + str(g).substr(0, 600); c.note("%s", at.c_str()); c.state(mc::mix(hash(g), p * 10 + q)); LN_NurbsSurface s; NurbsSurface::GlobalInterpolation(g, p, q, s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "interpolate-valid", at + ": " + why); c.check(s.DegreeU == p && s.DegreeV == q, "interpolate-degree", at + ": other degrees"); c.check((int)s.ControlPoints.size() == cols && (int)s.ControlPoints[0].size() == rows, "interpolate-size", at + ": control net size"); std::vector<ld> u, v; rc(g, u, v); ld tol = 1e-6 * R.scl();
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { P3 e = of(g[i][j]), x = R.at(u[j], v[i]); c.check(near(x, e, tol), "interpolate", at + fmt(": at the parameters of row %d column %d the surface is at ", i, j) + ref::str(x) + ", the point is " + ref::str(e)); } c.count(rows == cols ? "square" : "rectangular"); c.count(p == q ? "equal degrees" : "different degrees");
}
static void approximate(Ctx& c) {
  int rows = 3 + c.pick(5), cols, p, q, nc, nr; if (rows == 7) { auto& L = LARGE[c.pick(9)]; rows = L[0]; cols = L[1]; p = std::min(L[2], cols - 2); q = std::min(L[3], rows - 2); int k = c.pick(3); nc = k == 0 ? p + 1 : k == 1 ? (p + cols) / 2 : cols * 2 / 3; nr = k == 0 ? rows * 2 / 3 : k == 1 ? (q + rows) / 2 : q + 1; nc = std::max(nc, p + 1); nr = std::max(nr, q + 1); } else { cols = 3 + c.pick(4); p = 1 + c.pick(3), q = 1 + c.pick(3); nc = p + 1 + c.pick(3), nr = q + 1 + c.pick(3); } c.shard(); int fam = c.pick(3); if (nc >= cols || nr >= rows) c.skip(); auto g = grid(fam == 2 ? 4 : fam, rows, cols); if (fam == 2) for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) g[i][j] = g[i][0] + (g[0][j] - g[0][0]); std::string at = fmt("approximate degrees %d %d, %d columns and %d rows of control points ", p, q, nc, nr) + str(g).substr(0, 600); c.note("%s", at.c_str()); c.state(mc::mix(hash(g), ((p * 10 + q) * 10 + nc) * 10 + nr)); LN_NurbsSurface s; bool ok = NurbsSurface::GlobalApproximation(g, p, q, nr, nc, s); c.trans(); if (!ok) { c.count("not possible"); return; }
  Surf R(s); std::string why; bool vl = R.valid(&why); c.check(vl, "approximate-valid", at + ": " + why); c.check(s.DegreeU == p && s.DegreeV == q && (int)s.ControlPoints.size() == nc && (int)s.ControlPoints[0].size() == nr, "approximate-shape", at + ": degrees or control net size"); ld tol = 1e-7 * R.scl(); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { P3 e = of(g[a ? rows - 1 : 0][b ? cols - 1 : 0]), x = R.at(b, a); c.check(near(x, e, tol), "approximate-corner", at + fmt(": corner %d,%d is ", a, b) + ref::str(x) + ", the point " + ref::str(e)); }
  if (fam != 1) { // translational data: the fit is the sum of the fits of its first row and first column
    std::vector<XYZ> r = g[0], k; for (auto& x : g) k.push_back(x[0]); LN_NurbsCurve A, B; bool x = NurbsCurve::LeastSquaresApproximation(p, r, nc, A), y = NurbsCurve::LeastSquaresApproximation(q, k, nr, B); if (x && y) { Curve a(A), b(B); for (double u : params(s.KnotVectorU, p, 2)) for (double v : params(s.KnotVectorV, q, 2)) { P3 e = a.at(u) + b.at(v) - of(g[0][0]); c.check(near(R.at(u, v), e, 1e-6 * R.scl()), "approximate", at + fmt(": at (%.9g,%.9g) ", u, v) + ref::str(R.at(u, v)) + ", expected " + ref::str(e)); } c.count("translational"); } } else c.count("general");
}
static void loft(Ctx& c) {
  int n = 2 + c.pick(mc::tier(3, 4) + 1); int kind, p; bool big = n == 2 + mc::tier(3, 4); if (big) { static const int L[][3] = {{8, 0, 4}, {12, 1, 2}, {20, 0, 3}, {7, 1, 6}, {9, 0, 7}, {10, 1, 5}, {33, 0, 1}}; auto& l = L[c.pick(7)]; n = l[0]; kind = l[1]; p = l[2]; } else { kind = c.pick(4); p = 1 + c.pick(3); } int dom = c.pick(2); c.shard(); int wf = kind == 0 ? c.pick(3) : kind == 1 ? 3 * c.pick(2) : 0; int custom = c.pick(3); bool apex = c.flip(); std::vector<LN_NurbsCurve> sec; std::string at = fmt("loft kind %d wf %d custom %d apex %d:", kind, wf, custom, apex); int maxp = 0;
  for (int k = 0; k < n; k++) { int d = kind == 2 || kind == 3 ? 1 + (p + k) % 3 : p; auto pats = gen::patterns(1, std::min(2, d), 2); auto& m = big ? pats[k % pats.size()] : kind == 0 && k ? pats[0] : c.pick(pats); std::vector<double> U = kind == 0 && k ? sec[0].KnotVector : gen::clamped(d, m, kind == 3 ? k % 2 : 0, gen::domains()[dom]); auto s = gen::curve(d, U, 1, wf % 3); if (wf == 3) for (size_t i = 0; i < s.ControlPoints.size(); i++) s.ControlPoints[i] = XYZW(s.ControlPoints[i].ToXYZ(true), 1 + (big ? 0.002 : 0.08) * ((i + k) % 3)); for (auto& q : s.ControlPoints) { double w = q.GetW(); XYZ x = q.ToXYZ(true); q = XYZW(XYZ(x.GetX() * (1 + 0.2 * k), x.GetY() - (big ? 2 * std::sin(0.4 * k) : 0.3 * k * k), x.GetZ() + 2 * k), w); } if (apex) s.ControlPoints[0] = XYZW(XYZ(-3, 1, 2), s.ControlPoints[0].GetW()); sec.push_back(s); maxp = std::max(maxp, d); at += " " + gen::str(s).substr(0, 150); }
  std::vector<double> T; int q = maxp; if (custom) { q = 1 + (custom == 2 && n > 2 ? 1 : 0); T.resize(n); for (int k = 0; k < n; k++) T[k] = (double)k * (k + 2) / ((n - 1) * (n + 1)); }
  c.note("%s", at.c_str()); uint64_t h = custom; for (auto& s : sec) h = mc::mix(h, gen::hash(s)); c.state(h); LN_NurbsSurface s; bool threw = false; try { if (custom) NurbsSurface::CreateLoftSurface(sec, s, q, T); else NurbsSurface::CreateLoftSurface(sec, s); } catch (const std::invalid_argument&) { threw = true; } c.trans(); if (n <= q) { c.check(threw, "loft-few", at + ": too few sections for the degree were accepted"); c.count("too few sections"); return; } c.check(!threw, "loft-refused", at + ": refused");
  Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "loft-valid", at + ": " + why); c.check(s.DegreeU == maxp && s.DegreeV == q, "loft-degree", at + ": degrees"); ld tol = 1e-6 * R.scl();
  // position of every section along v: the given ones, or some increasing ones
  ld last = -1; for (int k = 0; k < n; k++) { Curve A(sec[k]); auto us = params(sec[k].KnotVector, sec[k].Degree, 2); double v = 0; if (custom) v = T[k]; else if (k == n - 1) v = 1; else if (k) { // find it: nearest point search on the iso line through one point, then the whole section must match
      double best = 1e300; for (int i = 1; i < 120; i++) { double t = i / 120.0; ld e = 0; for (double u : us) { P3 x = R.at(u, t); P3 y = A.at(u); e = std::max(e, dist(x, y)); if (e > best) break; } if (e < best) best = e, v = t; } double lo = v - 1 / 120.0, hi = v + 1 / 120.0; auto E = [&](double t) { ld e = 0; for (double u : us) { ld z = dist(R.at(u, t), A.at(u)); e += z * z; } return e; }; for (int it = 0; it < 60; it++) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (E(a) < E(b)) hi = b; else lo = a; } v = (lo + hi) / 2; }
    for (double u : us) c.check(near(R.at(u, v), A.at(u), custom || !k || k == n - 1 ? tol : 1e-5 * R.scl()), "loft", at + fmt(": section %d is not in the surface: at u=%.9g v=%.9g ", k, u, v) + ref::str(R.at(u, v)) + ", the section is at " + ref::str(A.at(u))); c.check(v > last, "loft-order", at + ": sections out of order"); last = v; }
  c.count(fmt("kind %d", kind));
}
// Gordon: networks on an evenly spaced grid of a polynomial patch, so that all three parametrizations agree
static void gordon(Ctx& c) {
  int nu = 2 + c.pick(3), nv = 2 + c.pick(3); int p = 1 + c.pick(3), q = 1 + c.pick(3); c.shard(); int fam = c.pick(3); bool raised = c.flip(); if (nu <= p || nv <= q) c.skip();
  // graph surface z = f(x,y) over a grid evenly spaced in x and y; curve i along x at height y_i; exact Bezier graph curves
  auto f = [&](ld x, ld y) { return fam == 0 ? 0.0L : fam == 1 ? (p > 1 ? 0.3L * x * (1 - x) : 0.2L * x) + (q > 1 ? 0.2L * y * y : 0.1L * y) : (p > 1 ? x * x : x) * (q > 1 ? y * (1 - y) : y) * 0.5L; };
  auto graph = [&](int d, bool alongX, ld fixed) { LN_NurbsCurve cv; cv.Degree = d; cv.KnotVector = gen::clamped(d, {}); ld z0 = alongX ? f(0, fixed) : f(fixed, 0), z1 = alongX ? f(1, fixed) : f(fixed, 1), zm = alongX ? f(0.5, fixed) : f(fixed, 0.5); ld b = 2 * zm - (z0 + z1) / 2; for (int i = 0; i <= d; i++) { ld t = (ld)i / d, z = d == 1 ? (i ? z1 : z0) : d == 2 ? (i == 0 ? z0 : i == 1 ? b : z1) : (i == 0 ? z0 : i == 3 ? z1 : i == 1 ? z0 + 2 * (b - z0) / 3 : z1 + 2 * (b - z1) / 3); cv.ControlPoints.push_back(XYZW(alongX ? XYZ(10 * t, 8 * fixed, 10 * z) : XYZ(10 * fixed, 8 * t, 10 * z), 1)); } return cv; };
  std::vector<LN_NurbsCurve> U, V; Grid g(nu, std::vector<XYZ>(nv)); for (int i = 0; i < nu; i++) U.push_back(graph(p, true, (ld)i / (nu - 1))); for (int j = 0; j < nv; j++) V.push_back(graph(q, false, (ld)j / (nv - 1))); for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) { ld y = (ld)i / (nu - 1), x = (ld)j / (nv - 1); g[i][j] = XYZ(10 * x, 8 * y, 10 * f(x, y)); }
  if (raised) { auto e = U[0]; NurbsCurve::InsertKnot(e, 0.5, 1, U[0]); if (p < 3) { auto w = U.back(); NurbsCurve::ElevateDegree(w, 1, U.back()); if (nu <= p + 1) c.skip(); } }
  std::string at = fmt("gordon %d x %d curves of degree %d x %d, height %d, raised %d", nu, nv, p, q, fam, raised); c.note("%s", at.c_str()); c.state(mc::hd(1, ((((nu * 10 + nv) * 10 + p) * 10 + q) * 10 + fam) * 10 + raised)); LN_NurbsSurface s; NurbsSurface::CreateGordonSurface(U, V, g, s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "gordon-valid", at + ": " + why); ld tol = 0.02 * 10;
  for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) { double u = (double)j / (nv - 1), v = (double)i / (nu - 1); P3 x = R.at(u, v); if (fam == 0) tol = 1e-6; c.check(near(x, of(g[i][j]), tol), "gordon-points", at + fmt(": intersection %d,%d: ", i, j) + ref::str(x) + " against " + ref::str(of(g[i][j]))); }
  if (fam == 0) { for (int i = 0; i < nu; i++) for (double u : {0.2, 0.5, 0.7}) { P3 x = R.at(u, (double)i / (nu - 1)), e = Curve(U[i]).at(u); c.check(near(x, e, 1e-6), "gordon-u", at + fmt(": u curve %d at %g: ", i, u) + ref::str(x) + " against " + ref::str(e)); } for (int j = 0; j < nv; j++) for (double v : {0.2, 0.5, 0.7}) { P3 x = R.at((double)j / (nv - 1), v), e = Curve(V[j]).at(v); c.check(near(x, e, 1e-6), "gordon-v", at + fmt(": v curve %d at %g", j, v)); } }
  c.count(fmt("gordon height %d", fam));
}
// sweeps: every section is a rigid, right-handed copy of the profile (in the xy plane) across the trajectory
static void across(Ctx& c, const std::string& key, const std::string& at, const Surf& R, const LN_NurbsCurve& pr, double v, P3 o, P3 z, ld tol) {
  Curve A(pr); auto us = params(pr.KnotVector, pr.Degree, 2); std::vector<P3> g, e; for (double u : us) { g.push_back(R.at(u, v) - o); e.push_back(A.at(u)); }
  for (size_t i = 0; i < us.size(); i++) { c.check(std::fabs(dot(g[i], z)) <= tol, key + "-plane", at + fmt(": at u=%.9g v=%.9g the section is not in the plane across the trajectory", us[i], v)); for (size_t j = 0; j < us.size(); j++) c.check(std::fabs(dot(g[i], g[j]) - dot(e[i], e[j])) <= tol * (1 + len(e[i]) + len(e[j])) && std::fabs(dot(cross(g[i], g[j]), z) - cross(e[i], e[j]).z) <= tol * (1 + len(e[i]) + len(e[j])), key + "-rigid", at + fmt(": at v=%.9g the section is not a rigid copy of the profile", v)); }
}
static void sweep(Ctx& c) {
  int kind = c.pick(2), deg = 1 + c.pick(3), K = 2 + c.pick(5); static const P3 D[] = {{0, 0, 7}, {3, 0, 0}, {0, -20, 0}, {1, 2, -2}, {-400, 300, 5}, {2, -2, 2}}; P3 d = D[c.pick(6)], o = c.flip() ? P3{0, 0, 0} : P3{10, -20, 3}; int p = 1 + c.pick(3); c.shard(); auto pats = gen::patterns(1, std::min(2, p), 2); auto pr = gen::curve(p, gen::clamped(p, c.pick(pats), 0, gen::domains()[c.pick(2)]), 1, c.pick(2)); for (auto& q : pr.ControlPoints) { double w = q.GetW(); XYZ x = q.ToXYZ(true); q = XYZW(XYZ(x.GetX(), x.GetY(), 0), w); } bool knots = c.flip();
  LN_NurbsCurve tr; tr.Degree = deg; tr.KnotVector = gen::clamped(deg, knots ? std::vector<int>{1} : std::vector<int>{}); int n = tr.KnotVector.size() - deg - 1; for (int i = 0; i < n; i++) { double g = 0; for (int k = 1; k <= deg; k++) g += tr.KnotVector[i + k]; tr.ControlPoints.push_back(XYZW(toXYZ(o + (g / deg) * d), 1)); }
  int q = 1 + (K > 2 ? c.pick(2) : 0); std::string at = fmt("sweep %d along a line of degree %d, %d sections, direction ", kind, deg, K) + ref::str(d) + " profile " + gen::str(pr).substr(0, 300); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(pr), deg * 100 + K * 10 + kind + knots * 1000), (double)d.x + o.x)); if (!kind && std::max(K + 1, n) <= p) c.skip(); if (kind) { if (K <= q) c.skip(); } else if (q > 1) c.skip();
  LN_NurbsSurface s; if (kind) NurbsSurface::CreateSweepSurface(pr, tr, K, q, s); else NurbsSurface::CreateSweepSurface(pr, tr, K, s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "sweep-valid", at + ": " + why); ld tol = 1e-6 * R.scl(); P3 z = unit(d); for (double v : {0.0, 0.13, 0.5, 0.77, 1.0}) { P3 g = R.at(pr.KnotVector[0], v) - o; ld t = dot(g, z) / len(d); c.check(std::fabs(t - v) <= (kind ? 2e-2 : 1e-5) || (v > 0 && v < 1 && t > -1e-5 && t < 1 + 1e-5), "sweep-position", at + fmt(": at v=%g the section is at %g of the trajectory", v, (double)t)); if (v == 0 || v == 1) c.check(std::fabs(t - v) <= (kind ? 1e-3 : 1e-6), "sweep-ends", at + fmt(": the section at v=%g is at %g of the trajectory", v, (double)t)); across(c, "sweep", at, R, pr, v, o + t * d, z, tol); } c.count(kind ? "by length" : "interpolated");
}
static void curved(Ctx& c) {
  c.shard(); int kind = c.pick(2); LN_NurbsCurve tr; NurbsCurve::CreateArc(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 1.5, 20, 20, tr); LN_NurbsCurve pr; pr.Degree = 1; pr.KnotVector = {0, 0, 1, 1}; pr.ControlPoints = {XYZW(XYZ(-1, 0, 0), 1), XYZW(XYZ(2, 1, 0), 1)}; c.note("curved %d", kind); c.state(kind); LN_NurbsSurface s; if (kind) NurbsSurface::CreateSweepSurface(pr, tr, 6, 2, s); else NurbsSurface::CreateSweepSurface(pr, tr, 6, s); c.trans(); Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "curved-valid", why);
  for (int i = 0; i <= 10; i++) { ld w = dist(R.at(0, i / 10.0), R.at(1, i / 10.0)); c.check(std::fabs(w - std::sqrt(10.0L)) < 0.3, "curved-width", fmt("sweeping a segment of length 3.162 along an arc gives a strip %.4g wide at v=%g", (double)w, i / 10.0)); } c.count("curved");
}
static void local(Ctx& c) {
  int rows = 2 + c.pick(mc::tier(5, 6)), cols = 2 + c.pick(mc::tier(5, 6)), fam = c.pick(std::vector<int>{0, 1, 2, 4, 5}); c.shard(); auto g = grid(fam, rows, cols); if (fam == 5) for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { double u = (double)i / (rows - 1), v = (double)j / (cols - 1); g[i][j] = XYZ(9 * v, 7 * u, 2 * v - u); } std::string at = "local bicubic " + str(g).substr(0, 500); c.note("%s", at.c_str()); c.state(hash(g)); LN_NurbsSurface s; bool r = NurbsSurface::BicubicLocalInterpolation(g, s); c.trans(); if (!r) { c.count("local refused"); return; } Surf R(s); std::string why; bool ok = R.valid(&why); c.check(ok, "local-valid", at + why); ld tol = 1e-6 * R.scl(); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) c.check(near(R.at(a, b), of(g[a ? rows - 1 : 0][b ? cols - 1 : 0]), tol), "local-corner", at + ": a corner is not interpolated");
  // rows along u, columns along v, at chord parameters averaged with the line lengths as weights (A9.5)
  auto par = [&](bool alongCol) { int n = alongCol ? rows : cols, m = alongCol ? cols : rows; std::vector<ld> t(n, 0); for (int i = 1; i < n; i++) { t[i] = t[i - 1]; for (int l = 0; l < m; l++) t[i] += alongCol ? dist(of(g[i][l]), of(g[i - 1][l])) : dist(of(g[l][i]), of(g[l][i - 1])); } for (int i = 0; i < n; i++) t[i] /= t[n - 1]; return t; }; auto tu = par(true), tv = par(false);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { P3 x = R.at(tu[i], tv[j]), e = of(g[i][j]); c.check(near(x, e, tol), "local-points", at + fmt(": at the parameters of row %d column %d the surface is at ", i, j) + ref::str(x) + ", the point is " + ref::str(e)); }
  if (fam == 5) for (double u : params(s.KnotVectorU, 3, 2)) for (double v : params(s.KnotVectorV, 3, 2)) { P3 e = {9 * v, 7 * u, 2 * v - u}; c.check(near(R.at(u, v), e, tol), "local-plane", at + fmt(": evenly spaced points of a plane give ", 0) + ref::str(R.at(u, v)) + " instead of " + ref::str(e)); }
  c.count("local");
}
static void normals(Ctx& c) {
  auto k = gen::pickCurve(c, mc::tier(4, 6), 2, 2, 3, 2, 3, false, {1, 3}, {0, 1}); c.shard(); if (k.Degree == 1) c.skip(); std::string at = gen::str(k).substr(0, 500); c.note("normals %s", at.c_str()); c.state(gen::hash(k)); Curve C(k); for (double t : k.KnotVector) if (len(C.der(t, 1)[1]) < 1e-6) c.skip(); auto b = NurbsCurve::ProjectNormal(k); c.trans(); c.check(b.size() == k.KnotVector.size(), "normals-size", at + ": one normal per knot expected"); for (size_t i = 0; i < b.size(); i++) { P3 t = unit(C.der(k.KnotVector[i], 1)[1]); c.check(std::fabs(len(of(b[i])) - 1) < 1e-6, "normals-unit", at + fmt(": normal %d is not a unit vector", (int)i)); if (i + 1 == b.size() && dist(C.at(C.lo()), C.at(C.hi())) < 1e-3) { c.check(dist(of(b[i]), of(b[0])) < 1e-6, "normals-closed", at + ": a closed curve ends with another normal than it starts with"); continue; } c.check(std::fabs(dot(of(b[i]), t)) < 1e-6, "normals-across", at + fmt(": normal %d is not across the curve (%.9g)", (int)i, (double)dot(of(b[i]), t))); } c.count("normals");
}
static void refused(Ctx& c) { c.shard(); int k = c.pick(5); bool threw = false; LN_NurbsSurface s; auto g = grid(0, 3, 4); c.note("refused %d", k); c.state(k); try { if (k == 0) NurbsSurface::GlobalInterpolation(g, 4, 2, s); if (k == 1) NurbsSurface::GlobalInterpolation(g, 3, 3, s); if (k == 2) NurbsSurface::GlobalInterpolation({}, 1, 1, s); if (k == 3) NurbsSurface::GlobalApproximation(g, 2, 1, 2, 2, s); if (k == 4) NurbsSurface::GlobalApproximation(g, 1, 2, 2, 3, s); } catch (const std::invalid_argument&) { threw = true; } c.trans(); c.check(threw, "refused", fmt("invalid call %d accepted", k)); c.count("refused"); }
MC_MAIN("C23", {{"mesh", mesh}, {"interpolate", interpolate}, {"approximate", approximate}, {"loft", loft}, {"gordon", gordon}, {"sweep", sweep}, {"curved", curved}, {"local", local}, {"normals", normals}, {"refused", refused}})
