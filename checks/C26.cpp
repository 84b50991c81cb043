// C26: tessellation of curves and surfaces.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
#include "NurbsCurve.h"
#include <map>
#include <set>
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static ld segDist(P3 a, P3 b, P3 q) { P3 d = b - a; ld l = dot(d, d), t = l > 0 ? std::min((ld)1, std::max((ld)0, dot(q - a, d) / l)) : 0; return dist(a + t * d, q); }
// the polyline has its vertices on the curve, in order, from the start to the end, and stays within tol of it
static void follows(Ctx& c, const std::string& key, const std::string& at, const LN_NurbsCurve& cv, const std::vector<XYZ>& pts, ld tol) {
  Curve R(cv); ld s = R.scl(); c.check(pts.size() >= 2, key + "-size", at + ": fewer than two points"); c.check(near(of(pts.front()), R.at(R.lo()), 1e-7 * s) && near(of(pts.back()), R.at(R.hi()), 1e-7 * s), key + "-ends", at + ": ends " + str(of(pts.front())) + str(of(pts.back())) + " are not the ends of the curve " + str(R.at(R.lo())) + str(R.at(R.hi())));
  auto br = breaks(cv.KnotVector, cv.Degree); std::vector<double> us; int n = 400; for (size_t i = 0; i + 1 < br.size(); i++) for (int k = 0; k < n; k++) us.push_back(br[i] + (br[i + 1] - br[i]) * k / n); us.push_back(br.back()); std::vector<P3> S; for (double u : us) S.push_back(R.at(u));
  // walk the curve samples and the polyline together: a discrete Frechet match with a band
  size_t i = 0; for (size_t k = 0; k < S.size(); k++) { while (i + 2 < pts.size() && segDist(of(pts[i]), of(pts[i + 1]), S[k]) > tol) i++; c.check(segDist(of(pts[i]), of(pts[i + 1]), S[k]) <= tol, key + "-deviation", at + fmt(": no part of the polyline after its point %zu is within %Lg of the curve at %.9g", i, tol, us[k])); }
  size_t k = 0; ld step = 0; for (size_t j = 1; j < S.size(); j++) step = std::max(step, dist(S[j - 1], S[j])); for (size_t j = 0; j < pts.size(); j++) { P3 q = of(pts[j]); while (k + 2 < S.size() && segDist(S[k], S[k + 1], q) > tol + 0.02L * step) k++; c.check(segDist(S[k], S[k + 1], q) <= tol + 0.02L * step, key + "-order", at + fmt(": point %zu is not on the rest of the curve", j)); }
}
static LN_NurbsCurve pick(Ctx& c) { auto cv = gen::pickCurve(c, mc::tier(4, 6), mc::tier(2, 3), mc::tier(3, 4), mc::tier(3, 4), mc::tier(2, 3), mc::tier(2, 4), false, mc::tier(std::vector<int>{0, 1, 2, 3}, {0, 1, 2, 3, 5, 6, 7}), {0, 1}); c.shard(); return cv; }
static void curveTess(Ctx& c) { auto cv = pick(c); std::string at = gen::str(cv).substr(0, 700); c.note("tessellate %s", at.c_str()); c.state(gen::hash(cv)); auto before = cv; auto p = NurbsCurve::Tessellate(cv); c.trans(); c.check(gen::same(cv, before), "input", at + ": input modified"); follows(c, "curve", at, cv, p, 1e-3L * std::max((ld)1, Curve(cv).scl())); c.count(fmt("degree %d", cv.Degree)); }
// every word of control points on a small alphabet: inflections, symmetric spans, retraced lines
static void words(Ctx& c) { int p = 2 + c.pick(mc::tier(3, 4)); int extra = c.pick(2); int n = p + 1 + extra; LN_NurbsCurve cv; cv.Degree = p; for (int i = 0; i <= p; i++) cv.KnotVector.push_back(0); if (extra) cv.KnotVector.push_back(0.5); for (int i = 0; i <= p; i++) cv.KnotVector.push_back(1); for (int i = 0; i < n; i++) cv.ControlPoints.push_back(XYZW(i * 2.0, c.pick(3) * 2.0 - 2, 0, 1)); c.shard(); std::string at = gen::str(cv); c.note("words %s", at.c_str()); c.state(gen::hash(cv)); auto q = NurbsCurve::Tessellate(cv); c.trans(); follows(c, "word", at, cv, q, 1e-3L * Curve(cv).scl()); c.count(fmt("words %d", p)); }
static void curveEqual(Ctx& c) { auto cv = pick(c); std::string at = gen::str(cv).substr(0, 700); c.note("equally %s", at.c_str()); c.state(gen::hash(cv)); Curve R(cv); std::vector<XYZ> p; std::vector<double> u; NurbsCurve::EquallyTessellate(cv, p, u); c.trans(); c.check(p.size() == u.size() && u.size() >= 2, "equal-size", at + ": as many points as parameters are expected"); c.check(std::fabs(u.front() - R.lo()) < 1e-9 && std::fabs(u.back() - R.hi()) < 1e-9 * (1 + std::fabs(R.hi())), "equal-ends", at + ": does not span the domain"); for (size_t i = 0; i < u.size(); i++) { c.check(!i || u[i] >= u[i - 1] - 1e-12 * (1 + std::fabs(u[i])), "equal-order", at + fmt(": parameter %zu goes back", i)); double v = std::min(std::max(u[i], R.lo()), R.hi()); c.check(near(of(p[i]), R.at(v), 1e-8 * R.scl()), "equal-point", at + fmt(": point %zu is not the curve at %.9g", i, u[i])); } for (double b : breaks(cv.KnotVector, cv.Degree)) { bool hit = false; for (double x : u) hit |= std::fabs(x - b) < 1e-9 * (1 + std::fabs(b)); c.check(hit, "equal-break", at + fmt(": the break point %.9g is skipped", b)); } c.count("equal curve"); }
static LN_NurbsSurface pickS(Ctx& c) { auto s = gen::pickSurface(c, 1, mc::tier(3, 5), 1, mc::tier(2, 3), 2, mc::tier(1, 2), mc::tier(3, 4), mc::tier(std::vector<int>{0}, {0, 1}), mc::tier(std::vector<int>{0, 1}, {0, 1, 2})); return s; }
static void surfEqual(Ctx& c) {
  auto s = pickS(c); c.shard(); std::string at = gen::str(s).substr(0, 500); c.note("equally %s", at.c_str()); c.state(gen::hash(s)); Surf R(s); std::vector<XYZ> p; std::vector<UV> t; NurbsSurface::EquallyTessellate(s, p, t); c.trans(); c.check(p.size() == t.size() && !t.empty(), "grid-size", at + ": as many points as parameters are expected"); std::map<double, std::set<double>> rows; size_t st = mc::tier(37, 7);
  for (size_t i = 0; i < t.size(); i++) { double u = t[i].GetU(), v = t[i].GetV(); rows[u].insert(v); c.check(u >= R.ulo() - 1e-12 && u <= R.uhi() + 1e-12 && v >= R.vlo() - 1e-12 && v <= R.vhi() + 1e-12, "grid-range", at + fmt(": parameter (%.17g,%.17g) outside the domain", u, v)); if (i % st == 0 || i + 3 > t.size()) c.check(near(of(p[i]), R.at(u, v), 1e-8 * R.scl()), "grid-point", at + fmt(": point %zu is not the surface at (%.9g,%.9g)", i, u, v)); }
  size_t cells = 0; for (auto& r : rows) { cells += r.second.size(); c.check(r.second == rows.begin()->second, "grid-rows", at + fmt(": the row at %.9g has other parameters than the first", r.first)); } c.check(cells == t.size(), "grid-twice", at + ": a parameter pair is repeated");
  auto has = [&](double b, auto& m, auto get) { for (auto& x : m) if (std::fabs(get(x) - b) < 1e-9 * (1 + std::fabs(b))) return true; return false; };
  for (double b : breaks(s.KnotVectorU, s.DegreeU)) c.check(has(b, rows, [](auto& x) { return x.first; }), "grid-break", at + fmt(": the break point %.9g of u is skipped", b)); for (double b : breaks(s.KnotVectorV, s.DegreeV)) c.check(has(b, rows.begin()->second, [](double x) { return x; }), "grid-break", at + fmt(": the break point %.9g of v is skipped", b)); c.count("equal surface");
}
static ld cross2(UV a, UV b, UV c) { return ((ld)b.GetU() - a.GetU()) * ((ld)c.GetV() - a.GetV()) - ((ld)b.GetV() - a.GetV()) * ((ld)c.GetU() - a.GetU()); }
// the faces tile the parameter rectangle: one orientation, every inner edge in two faces, areas adding up
static void tiles(Ctx& c, const std::string& key, const std::string& at, const LN_NurbsSurface& s, const LN_Mesh& m, const std::vector<UV>& uv, double u0, double u1, double v0, double v1, ld slack) {
  std::map<std::pair<int, int>, int> E; ld sum = 0; int pos = 0, neg = 0; int n = m.Vertices.size();
  for (auto& f : m.Faces) { c.check(f.size() == 3 && f[0] >= 0 && f[1] >= 0 && f[2] >= 0 && f[0] < n && f[1] < n && f[2] < n && f[0] != f[1] && f[1] != f[2] && f[0] != f[2], key + "-face", at + ": a face is not three different vertices"); ld a = cross2(uv[f[0]], uv[f[1]], uv[f[2]]) / 2; sum += std::fabs(a); (a > 0 ? pos : neg)++; for (int k = 0; k < 3; k++) { int x = f[k], y = f[(k + 1) % 3]; E[{std::min(x, y), std::max(x, y)}]++; } }
  c.check(!m.Faces.empty(), key + "-empty", at + ": no faces"); ld A = ((ld)u1 - u0) * ((ld)v1 - v0); c.check(std::fabs(sum - A) <= slack * A, key + "-cover", at + fmt(": the faces cover %.9Lg of the %.9Lg of the parameter rectangle", sum, A)); (void)s;
  for (auto& e : E) { c.check(e.second <= 2, key + "-manifold", at + fmt(": edge %d-%d belongs to %d faces", e.first.first, e.first.second, e.second)); if (e.second == 1) { UV a = uv[e.first.first], b = uv[e.first.second]; auto eq = [](double x, double y, double r) { return std::fabs(x - y) < 1e-6 * r; }; bool edge = (eq(a.GetU(), u0, u1 - u0) && eq(b.GetU(), u0, u1 - u0)) || (eq(a.GetU(), u1, u1 - u0) && eq(b.GetU(), u1, u1 - u0)) || (eq(a.GetV(), v0, v1 - v0) && eq(b.GetV(), v0, v1 - v0)) || (eq(a.GetV(), v1, v1 - v0) && eq(b.GetV(), v1, v1 - v0)); c.check(edge || slack > 0.001L, key + "-hole", at + fmt(": edge (%.9g,%.9g)-(%.9g,%.9g) inside the surface belongs to one face only", a.GetU(), a.GetV(), b.GetU(), b.GetV())); } }
  (void)pos; (void)neg; c.count(fmt("%s", key.c_str()));
}
static void mesh(Ctx& c) {
  auto s = pickS(c); int nu = c.pick(std::vector<int>{2, 3, 5, 9}), nv = c.pick(std::vector<int>{2, 4, 7}); c.shard(); std::string at = gen::str(s).substr(0, 500) + fmt(" resolution %d x %d", nu, nv); c.note("mesh %s", at.c_str()); c.state(mc::hd(gen::hash(s), nu * 100 + nv)); Surf R(s); auto m = NurbsSurface::Triangulate(s, nu, nv, false); c.trans();
  c.check((int)m.Vertices.size() == nu * nv && m.UVs.size() == m.Vertices.size(), "mesh-size", at + fmt(": %zu vertices with %zu parameters", m.Vertices.size(), m.UVs.size())); c.check(m.UVIndices.size() == 3 * m.Faces.size(), "mesh-uv", at + ": wrong number of parameter indices"); for (size_t i = 0; i < m.Faces.size(); i++) for (int k = 0; k < 3; k++) c.check(m.UVIndices[3 * i + k] == m.Faces[i][k], "mesh-uv", at + ": parameter indices do not follow the faces");
  for (size_t i = 0; i < m.UVs.size(); i++) { double u = m.UVs[i].GetU(), v = m.UVs[i].GetV(); c.check(u >= R.ulo() - 1e-9 && u <= R.uhi() + 1e-9 && v >= R.vlo() - 1e-9 && v <= R.vhi() + 1e-9, "mesh-range", at + fmt(": vertex parameter (%.9g,%.9g) outside the domain", u, v)); u = std::min(std::max(u, R.ulo()), R.uhi()); v = std::min(std::max(v, R.vlo()), R.vhi()); c.check(near(of(m.Vertices[i]), R.at(u, v), 1e-7 * R.scl()), "mesh-vertex", at + fmt(": vertex %zu is not the surface at its parameter (%.9g,%.9g)", i, u, v)); }
  tiles(c, "mesh", at, s, m, m.UVs, R.ulo(), R.uhi(), R.vlo(), R.vhi(), 1e-9L);
  int pos = 0, neg = 0; for (auto& f : m.Faces) (cross2(m.UVs[f[0]], m.UVs[f[1]], m.UVs[f[2]]) > 0 ? pos : neg)++; c.check(!pos || !neg, "mesh-orientation", at + ": faces of both orientations");
}
// on a plane patch whose plane coordinates are its parameters the parameters of Delaunay vertices can be read off
static void delaunay(Ctx& c) {
  int shape = c.pick(3); double w = c.pick(std::vector<double>{1, 3, 20}), h = c.pick(std::vector<double>{1, 2.5}); double ox = c.pick(std::vector<double>{0, -5}), oy = c.pick(std::vector<double>{0, 4}); int nu = c.pick(std::vector<int>{2, 3, 6, 10}), nv = c.pick(std::vector<int>{2, 4, 7}); c.shard(); LN_NurbsSurface s; s.DegreeU = s.DegreeV = shape == 0 ? 1 : 2; s.KnotVectorU = shape == 0 ? std::vector<double>{ox, ox, ox + w, ox + w} : std::vector<double>{ox, ox, ox, ox + w, ox + w, ox + w}; s.KnotVectorV = shape == 0 ? std::vector<double>{oy, oy, oy + h, oy + h} : std::vector<double>{oy, oy, oy, oy + h, oy + h, oy + h}; int n = s.DegreeU;
  for (int i = 0; i <= n; i++) { std::vector<XYZW> r; for (int j = 0; j <= n; j++) r.push_back(XYZW(XYZ(ox + w * i / n, oy + h * j / n, shape == 2 ? 0.3 * w * (i == 1 && j == 1) : 0), 1)); s.ControlPoints.push_back(r); }
  std::string at = gen::str(s).substr(0, 400) + fmt(" resolution %d x %d", nu, nv); c.note("delaunay %s", at.c_str()); c.state(mc::hd(gen::hash(s), nu * 100 + nv)); Surf R(s); auto m = NurbsSurface::Triangulate(s, nu, nv, true); c.trans(); std::vector<UV> uv; for (auto& v : m.Vertices) { uv.push_back(UV(v.GetX(), v.GetY())); c.check(v.GetX() >= ox - 1e-6 * w && v.GetX() <= ox + w * (1 + 1e-6) && v.GetY() >= oy - 1e-6 * h && v.GetY() <= oy + h * (1 + 1e-6), "delaunay-range", at + ": a vertex lies beyond the surface"); P3 e = R.at(std::min(std::max(v.GetX(), R.ulo()), R.uhi()), std::min(std::max(v.GetY(), R.vlo()), R.vhi())); c.check(near(of(v), e, 1e-5 * R.scl()), "delaunay-vertex", at + ": a vertex is not on the surface"); }
  tiles(c, "delaunay", at, s, m, uv, ox, ox + w, oy, oy + h, 1e-4L);
}
// curved shapes, closed or not: vertices on the shape, faces covering its area
static void shapes(Ctx& c) {
  int kind = c.pick(4); double r = c.pick(std::vector<double>{0.5, 1, 12}); double ang = c.pick(std::vector<double>{1.5, 4.5, 2 * M_PI}); bool del = c.flip(), swap = c.flip(); int nu = c.pick(std::vector<int>{12, 21}), nv = c.pick(std::vector<int>{13, 20}); c.shard(); LN_NurbsSurface s; bool ok = true; ld A = 0; static const char* N[] = {"cylinder", "sphere", "torus", "cone"};
  if (kind == 0) { ok = NurbsSurface::CreateCylindricalSurface(XYZ(0, 0, 0), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, ang, r, 2 * r, s); A = (ld)ang * r * 2 * r; }
  else { LN_NurbsCurve p; if (kind == 3) NurbsCurve::CreateLine(XYZ(0.5 * r, 0, r), XYZ(r, 0, 0), p); else ok = NurbsCurve::CreateArc(XYZ(kind == 2 ? 3 * r : 0, 0, 0), XYZ(0, 0, 1), XYZ(1, 0, 0), 0, kind == 1 ? M_PI : 2 * M_PI, r, r, p); ok = ok && NurbsSurface::CreateRevolvedSurface(XYZ(0, 0, 0), XYZ(0, 0, 1), ang, p, s); A = kind == 1 ? 2 * (ld)ang * r * r : kind == 2 ? (ld)ang * 3 * r * 2 * M_PIl * r : (ld)ang * 0.75L * r * std::sqrt(1.25L) * r; }
  std::string at = fmt("%s radius %g angle %g%s%s resolution %d x %d", N[kind], r, ang, del ? ", Delaunay" : "", swap ? ", swapped" : "", nu, nv); c.note("shape %s", at.c_str()); c.state(mc::hd(mc::hd(kind * 1000 + nu * 4 + del * 2 + swap + nv * 4000, r), ang)); if (!ok) { c.fail("made", at + ": refused"); return; } if (swap) { LN_NurbsSurface x; NurbsSurface::Swap(s, x); s = x; }
  auto m = NurbsSurface::Triangulate(s, nu, nv, del); c.trans(); int n = m.Vertices.size(); for (auto& v : m.Vertices) { P3 q = of(v); ld rho = std::sqrt(q.x * q.x + q.y * q.y), d = kind == 0 ? rho - r : kind == 1 ? std::sqrt(rho * rho + q.z * q.z) - r : kind == 2 ? std::sqrt((rho - 3 * r) * (rho - 3 * r) + q.z * q.z) - r : rho - (r - 0.5L * q.z); c.check(std::fabs(d) < 1e-6 * r, "shape-vertex", at + ": vertex " + str(q) + " is not on the shape"); }
  ld sum = 0; std::map<std::pair<int, int>, int> E; for (auto& f : m.Faces) { c.check(f.size() == 3 && f[0] >= 0 && f[1] >= 0 && f[2] >= 0 && f[0] < n && f[1] < n && f[2] < n && f[0] != f[1] && f[1] != f[2] && f[0] != f[2], "shape-face", at + ": a face is not three different vertices"); P3 a = of(m.Vertices[f[0]]), b = of(m.Vertices[f[1]]), e = of(m.Vertices[f[2]]); sum += len(cross(b - a, e - a)) / 2; for (int k = 0; k < 3; k++) { int x = f[k], y = f[(k + 1) % 3]; E[{std::min(x, y), std::max(x, y)}]++; } } for (auto& e : E) c.check(e.second <= 2, "shape-manifold", at + fmt(": an edge belongs to %d faces", e.second));
  c.check(sum > 0.9L * A && sum < 1.1L * A, "shape-area", at + fmt(": the faces have area %.6Lg, the shape %.6Lg", sum, A)); c.count(fmt("%s%s", N[kind], del ? " Delaunay" : ""));
}
MC_MAIN("C26", {{"shapes", shapes}, {"curve", curveTess}, {"words", words}, {"curve-equal", curveEqual}, {"surface-equal", surfEqual}, {"mesh", mesh}, {"delaunay", delaunay}})
