// C28: volumes: points, derivatives, iso curves, sections, closedness, inversion, validity.
#include "../mc/knots.hpp"
#include "NurbsVolume.h"
#include "UVW.h"
#include "LNEnums.h"
#include "MathUtils.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static std::string S(const LN_NurbsVolume& v) { return fmt("p=%d q=%d r=%d U=", v.DegreeU, v.DegreeV, v.DegreeW) + str(v.KnotVectorU) + " V=" + str(v.KnotVectorV) + " W=" + str(v.KnotVectorW); }
static LN_NurbsVolume pick(Ctx& c, int maxP, int nb, const std::vector<int>& pf, const std::vector<int>& wf, int nDom) {
  int p = 1 + c.pick(maxP + 1); if (p > maxP) { auto& b = gen::bigVolumes()[c.pick((int)gen::bigVolumes().size())]; auto& D = gen::domains(); int d = c.pick(std::min(nDom, 2)), w = c.pick(wf); c.shard(); return gen::volume(b.u.p, b.v.p, b.w.p, gen::clamped(b.u.p, b.u.m, b.u.fam, D[d]), gen::clamped(b.v.p, b.v.m, b.v.fam, D[(d + 1) % D.size()]), gen::clamped(b.w.p, b.w.m, b.w.fam, D[(d + 2) % D.size()]), pf[0], w); }
  int q = 1 + c.pick(maxP), r = 1 + c.pick(maxP); auto pu = gen::patterns(nb, p, mc::tier(2, 3)), pv = gen::patterns(nb, q, mc::tier(2, 3)), pw = gen::patterns(nb, r, mc::tier(2, 3)); auto& mu = c.pick(pu); auto& mv = c.pick(pv); auto& mw = c.pick(pw);
  int d = c.pick(nDom), fam = mu.empty() && mv.empty() && mw.empty() ? 0 : (int)(mu.size() + 2 * mv.size() + mw.size() + p) % 4; auto& D = gen::domains(); auto U = gen::clamped(p, mu, fam, D[d]), V = gen::clamped(q, mv, (fam + 1) % 4, D[(d + 1) % D.size()]), W = gen::clamped(r, mw, (fam + 2) % 4, D[(d + 2) % D.size()]); int a = c.pick(pf), b = c.pick(wf); c.shard(); return gen::volume(p, q, r, U, V, W, a, b);
}
static ld scl(const Vol& R) { ld m = 1; for (auto& a : R.P) for (auto& b : a) m = std::max(m, scale(b)); return m; }

static void eval(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), 1, {0, 1}, {0, 1}, 2); std::string at = S(s); c.note("eval %s", at.c_str()); c.state(gen::hash(s)); auto h = gen::hash(s); Vol R(s); ld sc = scl(R); auto us = params(s.KnotVectorU, s.DegreeU, 1), vs = params(s.KnotVectorV, s.DegreeV, 1), ws = params(s.KnotVectorW, s.DegreeW, 1);
  for (double u : us) for (double v : vs) for (double w : ws) { P3 e = R.at(u, v, w), g = of(NurbsVolume::GetPointOnVolume(s, UVW(u, v, w))); c.trans(); c.check(near(g, e, 1e-9L * sc), "point", at + fmt(": at (%.9g,%.9g,%.9g) is ", u, v, w) + str(g) + ", expected " + str(e)); }
  c.check(gen::hash(s) == h, "input", at + ": volume modified"); c.count("volumes");
}
static void derivatives(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), 1, mc::tier(std::vector<int>{1}, {0, 1}), {0, 1}, mc::tier(1, 3)); std::string at = S(s); int m = c.pick(mc::tier(4, 5)); c.note("derivatives %d %s", m, at.c_str()); c.state(mc::hd(gen::hash(s), m)); Vol R(s);
  auto us = params(s.KnotVectorU, s.DegreeU, 1), vs = params(s.KnotVectorV, s.DegreeV, 1), ws = params(s.KnotVectorW, s.DegreeW, 1);
  for (size_t n = 0; n < std::max(us.size(), std::max(vs.size(), ws.size())) + mc::tier(1u, 4u); n++) { double u = us[n % us.size()], v = vs[(n * 2 + 1) % vs.size()], w = ws[(n + n / ws.size() + 2) % ws.size()]; auto D = NurbsVolume::ComputeVolumeRationalDerivatives(s, m, UVW(u, v, w)); c.trans(); auto E = R.der(u, v, w, m); c.check((int)D.size() == m + 1, "derivatives-size", at + ": wrong size");
    ld big = 1; for (int i = 0; i <= m; i++) for (int j = 0; j + i <= m; j++) for (int k = 0; i + j + k <= m; k++) big = std::max(big, len(E[i][j][k]));
    for (int i = 0; i <= m; i++) for (int j = 0; j + i <= m; j++) for (int k = 0; i + j + k <= m; k++) { ld b2 = 1; for (int a = 0; a <= i; a++) for (int b = 0; b <= j; b++) for (int d = 0; d <= k; d++) b2 = std::max(b2, len(E[a][b][d])); P3 g = of(D[i][j][k]); c.check(near(g, E[i][j][k], 1e-8L * std::max(b2, big * 1e-3L)), "derivative", at + fmt(": D(%d,%d,%d) at (%.9g,%.9g,%.9g) is ", i, j, k, u, v, w) + str(g) + ", expected " + str(E[i][j][k])); } }
  c.count(fmt("order %d", m));
}
static void iso(Ctx& c) {
  auto s = pick(c, mc::tier(3, 4), 1, mc::tier(std::vector<int>{1}, {0, 1}), {0, 1}, 2); int dir = c.pick(3); Vol R(s); ld sc = scl(R); std::string at = S(s); c.note("iso %d %s", dir, at.c_str()); c.state(mc::hd(gen::hash(s), dir)); const std::vector<double>* K[3] = {&s.KnotVectorU, &s.KnotVectorV, &s.KnotVectorW}; int D[3] = {s.DegreeU, s.DegreeV, s.DegreeW}; int d1 = (dir + 1) % 3, d2 = (dir + 2) % 3;
  for (double a : params(*K[d1], D[d1], 1)) for (double b : params(*K[d2], D[d2], 1)) { if (std::fabs(a + 1) < 1e-3 || std::fabs(b + 1) < 1e-3) continue; double x[3]; x[dir] = -1; x[d1] = a; x[d2] = b; LN_NurbsCurve q = NurbsVolume::GetIsoCurve(s, UVW(x[0], x[1], x[2])); c.trans(); Curve Q(q); std::string why; std::string w2 = at + fmt(" iso curve along %c at (%.9g,%.9g)", "uvw"[dir], a, b); c.check(Q.valid(&why), "iso-valid", w2 + ": " + why); c.check(q.Degree == D[dir] && q.KnotVector == *K[dir], "iso-knots", w2 + ": degree or knots differ");
    for (double t : params(*K[dir], D[dir], 1)) { x[dir] = t; P3 e = R.at(x[0], x[1], x[2]), g = Q.at(t); c.check(near(g, e, 1e-9L * sc), "iso", w2 + fmt(" at %.9g is ", t) + str(g) + ", the volume " + str(e)); } }
  c.count("iso");
}
static void extract(Ctx& c) {
  auto s = pick(c, 3, 1, mc::tier(std::vector<int>{1}, {0, 1}), {0, 1}, 2); int dir = c.pick(3); Vol R(s); ld sc = scl(R); std::string at = S(s); c.note("extract %d %s", dir, at.c_str()); c.state(mc::hd(gen::hash(s), dir)); const std::vector<double>* K[3] = {&s.KnotVectorU, &s.KnotVectorV, &s.KnotVectorW}; int D[3] = {s.DegreeU, s.DegreeV, s.DegreeW}; int d1 = (dir + 1) % 3, d2 = (dir + 2) % 3; auto h = gen::hash(s);
  for (double a : params(*K[dir], D[dir], 1)) { LN_NurbsSurface q; bool ok = NurbsVolume::Extract(s, a, (VolumeDirection)dir, q); c.trans(); std::string w2 = at + fmt(" section at %c=%.9g", "uvw"[dir], a); c.check(ok, "extract-refused", w2 + ": refused"); Surf Q(q); std::string why; c.check(Q.valid(&why), "extract-valid", w2 + ": " + why);
    for (double b : params(*K[d1], D[d1], 1)) for (double t : params(*K[d2], D[d2], 1)) { double x[3]; x[dir] = a; x[d1] = b; x[d2] = t; P3 e = R.at(x[0], x[1], x[2]), g = Q.at(b, t); c.check(near(g, e, 1e-9L * sc), "extract", w2 + fmt(" at (%.9g,%.9g) is ", b, t) + str(g) + ", the volume " + str(e)); } }
  c.check(gen::hash(s) == h, "input", at + ": volume modified"); c.count("sections");
}
static void closed(Ctx& c) {
  auto s = pick(c, 2, 1, {1}, {0, 1}, 1); int dir = c.pick(3); int n[3] = {(int)s.ControlPoints.size(), (int)s.ControlPoints[0].size(), (int)s.ControlPoints[0][0].size()}; int d1 = (dir + 1) % 3, d2 = (dir + 2) % 3; int open = c.pick(n[d1] * n[d2] + 1) - 1; auto P = [&](int a, int b, int t) -> XYZW& { int x[3]; x[dir] = t; x[d1] = a; x[d2] = b; return s.ControlPoints[x[0]][x[1]][x[2]]; };
  for (int a = 0; a < n[d1]; a++) for (int b = 0; b < n[d2]; b++) { XYZ f = P(a, b, 0).ToXYZ(true); double w = P(a, b, n[dir] - 1).GetW(); P(a, b, n[dir] - 1) = XYZW(f, w); if (a * n[d2] + b == open) P(a, b, n[dir] - 1) = XYZW(f + XYZ(0, 0.5, 0), w); }
  std::string at = S(s) + fmt(" closed along %c but for line %d", "uvw"[dir], open); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), dir)); bool g = NurbsVolume::IsClosed(s, (VolumeDirection)dir); c.trans(); c.check(g == (open < 0), "closed", at + fmt(": IsClosed says %d", g)); for (int o : {d1, d2}) { bool all = true; for (int a = 0; a < n[dir]; a++) for (int b = 0; b < n[o == d1 ? d2 : d1]; b++) { XYZ x = o == d1 ? P(0, b, a).ToXYZ(true) : P(b, 0, a).ToXYZ(true), y = o == d1 ? P(n[o] - 1, b, a).ToXYZ(true) : P(b, n[o] - 1, a).ToXYZ(true); if (x.Distance(y) > 1e-3) all = false; else if (x.Distance(y) > 1e-9) c.skip(); } bool k = NurbsVolume::IsClosed(s, (VolumeDirection)o); c.trans(); c.check(k == all, "closed", at + fmt(": IsClosed along %c says %d", "uvw"[o], k)); } c.count(open < 0 ? "closed" : "open");
}
static void invert(Ctx& c) {
  auto s = pick(c, mc::tier(2, 3), 1, {0}, mc::tier(std::vector<int>{1}, {0, 1}), mc::tier(1, 3)); Vol R(s); ld sc = scl(R); auto us = params(s.KnotVectorU, s.DegreeU, 1), vs = params(s.KnotVectorV, s.DegreeV, 1), ws = params(s.KnotVectorW, s.DegreeW, 1);
  size_t n = c.pick(mc::tier(2, 8)); size_t hsh = s.DegreeU + 2 * s.DegreeV + 3 * s.DegreeW + us.size() + n * 7; double u = us[(hsh * 5 + n) % us.size()], v = vs[(hsh * 3 + n * 2) % vs.size()], w = ws[(hsh + n) % ws.size()];
  if (n % 2) { double f = 0.137, g = 0.683, k = 0.291; u = s.KnotVectorU.front() * (1 - f) + s.KnotVectorU.back() * f; v = s.KnotVectorV.front() * (1 - g) + s.KnotVectorV.back() * g; w = s.KnotVectorW.front() * (1 - k) + s.KnotVectorW.back() * k; }
  std::string at = S(s) + fmt(" point of (%.9g,%.9g,%.9g)", u, v, w); c.note("invert %s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(gen::hash(s), u), v), w)); P3 e = R.at(u, v, w); UVW g = NurbsVolume::GetParamOnVolume(s, XYZ(e.x, e.y, e.z)); c.trans();
  c.check(g.GetU() >= us.front() - 1e-9 && g.GetU() <= s.KnotVectorU.back() + 1e-9 && g.GetV() >= s.KnotVectorV.front() - 1e-9 && g.GetV() <= s.KnotVectorV.back() + 1e-9 && g.GetW() >= s.KnotVectorW.front() - 1e-9 && g.GetW() <= s.KnotVectorW.back() + 1e-9, "invert-domain", at + fmt(": (%.9g,%.9g,%.9g) lies outside", g.GetU(), g.GetV(), g.GetW())); P3 b = R.at(g.GetU(), g.GetV(), g.GetW()); c.check(near(b, e, 3e-4L * std::max<ld>(1, sc)), "invert", at + fmt(": found (%.9g,%.9g,%.9g) at ", g.GetU(), g.GetV(), g.GetW()) + str(b) + ", the point is " + str(e)); c.count(n % 2 ? "inside" : "knots");
}
static void ring(Ctx& c) {
  double ang = c.pick(mc::tier(std::vector<double>{0, 1e-3, 0.4, 1.9, 3.14159265358979, 4.7, 6.1, 6.282}, {0, 1e-5, 1e-3, 0.01, 0.4, 1, 1.9, 2.5, 3.14159265358979, 4, 4.7, 5.5, 6.1, 6.27, 6.282, 6.28318})), rad = c.pick(mc::tier(std::vector<double>{1.3, 2.5}, {1, 1.3, 2.5})), z = c.pick(mc::tier(std::vector<double>{0, 2.2}, {0, 2.2, 3})); int dir = c.pick(3); c.shard(); LN_NurbsVolume s; s.DegreeU = 2; s.DegreeV = s.DegreeW = 1; s.KnotVectorU = {0, 0, 0, .25, .25, .5, .5, .75, .75, 1, 1, 1}; s.KnotVectorV = {2, 2, 5, 5}; s.KnotVectorW = {0, 0, 1, 1}; static const int X[9] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, Y[9] = {0, 1, 1, 1, 0, -1, -1, -1, 0};
  for (int i = 0; i < 9; i++) { s.ControlPoints.emplace_back(); for (int j = 0; j < 2; j++) { s.ControlPoints.back().emplace_back(); for (int k = 0; k < 2; k++) { double r = j ? 2.5 : 1; s.ControlPoints.back().back().push_back(XYZW(XYZ(r * X[i], r * Y[i], k ? 3.0 : 0.0), i % 2 ? std::sqrt(0.5) : 1)); } } }
  P3 e{rad * std::cos(ang), rad * std::sin(ang), z}; auto q = s; if (dir == 1) NurbsVolume::Swap(s, VolumeDirection::U, VolumeDirection::V, q); if (dir == 2) NurbsVolume::Swap(s, VolumeDirection::U, VolumeDirection::W, q); std::string at = fmt("ring, closed along %c, point at angle %.9g radius %g height %g", "uvw"[dir], ang, rad, z); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(dir, ang), rad), z)); UVW g = NurbsVolume::GetParamOnVolume(q, XYZ(e.x, e.y, e.z)); c.trans(); Vol R(q); c.check(g.GetU() >= R.U.front() - 1e-9 && g.GetU() <= R.U.back() + 1e-9 && g.GetV() >= R.V.front() - 1e-9 && g.GetV() <= R.V.back() + 1e-9 && g.GetW() >= R.W.front() - 1e-9 && g.GetW() <= R.W.back() + 1e-9, "invert-domain", at + fmt(": (%.9g,%.9g,%.9g) lies outside", g.GetU(), g.GetV(), g.GetW())); P3 b = R.at(g.GetU(), g.GetV(), g.GetW()); c.check(near(b, e, 3e-4L), "invert", at + fmt(": found (%.9g,%.9g,%.9g) at ", g.GetU(), g.GetV(), g.GetW()) + str(b)); c.count("ring");
}
static void valid(Ctx& c) {
  int p = 1 + c.pick(2), q = 1 + c.pick(2), r = 1 + c.pick(2); int kind = c.pick(10); if (mc::tier(0, 1) == 0 && kind >= 4 && !(p + q + r == 4 || p * q * r == 8)) c.skip(); int d = c.pick(mc::tier(1, 2)); auto& D = gen::domains(); c.shard(); auto s = gen::volume(p, q, r, gen::clamped(p, {1}, 0, D[d]), gen::clamped(q, {}, 0, D[d + 1]), gen::clamped(r, {}, 0, D[0]), 0, mc::tier(1, 2) == 1 ? (p + q + r + kind) % 2 : c.pick(2));
  auto& P = s.ControlPoints; bool ok = true; std::string what = "right-handed block"; auto mirror = [&](int axis) { for (auto& a : P) for (auto& b : a) for (auto& x : b) { double y[3] = {x.GetWX(), x.GetWY(), x.GetWZ()}; y[axis] = -y[axis]; x = XYZW(y[0], y[1], y[2], x.GetW()); } };
  if (kind == 1) { mirror(1); ok = false; what = "mirrored block"; } else if (kind == 2) { auto a = P[0]; P[0] = P[P.size() - 1]; P[P.size() - 1] = a; ok = false; what = "turned over block"; } else if (kind == 3) { mirror(0); mirror(2); what = "block turned by 180 degrees"; }
  else if (kind >= 4) { int axis = (kind - 4) / 2, side = kind % 2; ok = false; what = fmt("block folded at the %s of %c", side ? "end" : "start", "uvw"[axis]); int N[3] = {(int)P.size(), (int)P[0].size(), (int)P[0][0].size()}; for (int i = 0; i < N[0]; i++) for (int j = 0; j < N[1]; j++) for (int k = 0; k < N[2]; k++) { double x[3] = {1.0 * i, 1.0 * j, 1.0 * k}; int at = axis == 0 ? i : axis == 1 ? j : k; if (side && at == N[axis] - 1) x[axis] = at - 1.01; if (!side && at == 0) x[axis] = 1.01; P[i][j][k] = XYZW(x[0], x[1], x[2], 1); } }
  std::string at = S(s) + " " + what; c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), kind)); Vol R(s); bool pos = true; for (double u : params(s.KnotVectorU, p, 3)) for (double v : params(s.KnotVectorV, q, 3)) for (double w : params(s.KnotVectorW, r, 3)) { auto E = R.der(u, v, w, 1); ld j = dot(E[1][0][0], cross(E[0][1][0], E[0][0][1])); if (j < 1e-3) pos = false; } if (ok && !pos) c.skip(); bool g = NurbsVolume::Check(s); c.trans(); c.check(g == ok, "check", at + fmt(": Check says %d", g)); c.count(what);
}
MC_MAIN("C28", {{"eval", eval}, {"derivatives", derivatives}, {"iso", iso}, {"extract", extract}, {"closed", closed}, {"invert", invert}, {"ring", ring}, {"valid", valid}})
