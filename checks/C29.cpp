// C29: shape preserving operations on volumes: insertion, refinement, elevation, split, reverse, swap, and histories of them.
#include "../mc/knots.hpp"
#include "NurbsVolume.h"
#include "UVW.h"
#include "LNEnums.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static std::string S(const LN_NurbsVolume& v) { return fmt("p=%d q=%d r=%d U=", v.DegreeU, v.DegreeV, v.DegreeW) + str(v.KnotVectorU) + " V=" + str(v.KnotVectorV) + " W=" + str(v.KnotVectorW); }
static std::vector<double>& K(LN_NurbsVolume& s, int d) { return d == 0 ? s.KnotVectorU : d == 1 ? s.KnotVectorV : s.KnotVectorW; }
static const std::vector<double>& K(const LN_NurbsVolume& s, int d) { return d == 0 ? s.KnotVectorU : d == 1 ? s.KnotVectorV : s.KnotVectorW; }
static int D(const LN_NurbsVolume& s, int d) { return d == 0 ? s.DegreeU : d == 1 ? s.DegreeV : s.DegreeW; }
static std::vector<double> inserted(std::vector<double> U, double x, int k) { for (int i = 0; i < k; i++) U.insert(std::upper_bound(U.begin(), U.end(), x), x); return U; }
static LN_NurbsVolume pick(Ctx& c, int maxP, int nb, const std::vector<int>& wf, int nDom) {
  int p = 1 + c.pick(maxP + 1); if (p > maxP) { auto& b = gen::bigVolumes()[c.pick((int)gen::bigVolumes().size())]; auto& D = gen::domains(); int d = c.pick(std::min(nDom, 2)), w = c.pick(wf); c.shard(); return gen::volume(b.u.p, b.v.p, b.w.p, gen::clamped(b.u.p, b.u.m, b.u.fam, D[d]), gen::clamped(b.v.p, b.v.m, b.v.fam, D[(d + 1) % D.size()]), gen::clamped(b.w.p, b.w.m, b.w.fam, D[(d + 2) % D.size()]), 1, w); }
  int q = 1 + c.pick(maxP), r = 1 + c.pick(maxP); auto pu = gen::patterns(nb, p, mc::tier(2, 3)), pv = gen::patterns(nb, q, mc::tier(2, 3)), pw = gen::patterns(nb, r, mc::tier(2, 3)); auto& mu = c.pick(pu); auto& mv = c.pick(pv); auto& mw = c.pick(pw);
  int d = c.pick(nDom), fam = (int)(mu.size() + 2 * mv.size() + mw.size() + p) % 4; auto& D = gen::domains(); auto U = gen::clamped(p, mu, fam, D[d]), V = gen::clamped(q, mv, (fam + 1) % 4, D[(d + 1) % D.size()]), W = gen::clamped(r, mw, (fam + 2) % 4, D[(d + 2) % D.size()]); int b = c.pick(wf); c.shard(); return gen::volume(p, q, r, U, V, W, 1, b);
}
static ld scl(const Vol& R) { ld m = 1; for (auto& a : R.P) for (auto& b : a) m = std::max(m, scale(b)); return m; }
typedef std::function<void(double*)> Map;
// b shows the points of a: map takes parameters of a to parameters of b; lo/hi restrict direction d of a
static void same(Ctx& c, const std::string& key, const std::string& at, const LN_NurbsVolume& a, const LN_NurbsVolume& b, ld tol, Map map = nullptr, int d = -1, double lo = 0, double hi = 0) {
  Vol A(a), B(b); std::string why; c.check(B.valid(&why), key + "-valid", at + ": result is not a valid volume: " + why); ld s = scl(A); std::vector<double> ps[3]; for (int i = 0; i < 3; i++) { ps[i] = params(K(a, i), D(a, i), 1); if (i == d) { std::vector<double> t = {lo, hi, (lo + hi) / 2}; for (double x : ps[i]) if (x > lo && x < hi) t.push_back(x); ps[i] = t; } }
  for (double u : ps[0]) for (double v : ps[1]) for (double w : ps[2]) { double x[3] = {u, v, w}; if (map) map(x); for (int i = 0; i < 3; i++) { auto& k = K(b, i); x[i] = std::min(std::max(x[i], k.front()), k.back()); } P3 e = A.at(u, v, w), g = B.at(x[0], x[1], x[2]); c.check(near(g, e, tol * s), key, at + fmt(": at (%.9g,%.9g,%.9g) the source is ", u, v, w) + str(e) + fmt(", the result at (%.9g,%.9g,%.9g) ", x[0], x[1], x[2]) + str(g)); }
}
static void sorted(std::vector<double>& us) { std::sort(us.begin(), us.end()); us.erase(std::unique(us.begin(), us.end()), us.end()); }

static void insert(Ctx& c) {
  auto s = pick(c, mc::tier(2, 3), 1, {0, 1}, mc::tier(1, 3)); int d = c.pick(3); auto us = params(K(s, d), D(s, d), 1); sorted(us); double x = c.pick(us); int t = 1 + c.pick(D(s, d) + 1); int m0 = mult(K(s, d), x); if (m0 + t == D(s, d) + 1) c.skip(); int eff = m0 + t <= D(s, d) ? t : std::max(0, D(s, d) - m0);
  std::string at = S(s) + fmt(" insert %.9g x%d along %c", x, t, "uvw"[d]); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), x * 10 + t + 100 * d)); auto h = gen::hash(s); LN_NurbsVolume r; NurbsVolume::InsertKnot(s, x, t, (VolumeDirection)d, r); c.trans(); same(c, "insert", at, s, r, 1e-9); for (int i = 0; i < 3; i++) c.check(K(r, i) == (i == d ? inserted(K(s, d), x, eff) : K(s, i)) && D(r, i) == D(s, i), "insert-knots", at + ": wrong knots"); c.check(gen::hash(s) == h, "input", at + ": input modified"); NurbsVolume::InsertKnot(s, x, t, (VolumeDirection)d, s); c.trans(); c.check(gen::hash(s) == gen::hash(r), "insert-alias", at + ": inserting in place differs"); c.count(fmt("insert %d", eff));
}
static void refine(Ctx& c) {
  auto s = pick(c, mc::tier(2, 3), 1, {1}, mc::tier(1, 2)); int d = c.pick(3); auto us = params(K(s, d), D(s, d), 2); sorted(us); us.erase(us.begin()); us.pop_back(); std::vector<double> X, full = K(s, d); int n = 1 + c.pick(mc::tier(2, 4)), from = 0; for (int i = 0; i < n; i++) { int j = from + c.pick((int)us.size() - from); X.push_back(us[j]); full = inserted(full, us[j], 1); if (mult(full, us[j]) > D(s, d)) c.skip(); from = j; }
  std::string at = S(s) + " refine " + str(X) + fmt(" along %c", "uvw"[d]); c.note("%s", at.c_str()); c.state(mc::mix(gen::hash(s), gen::hashv(X, d))); auto h = gen::hash(s); LN_NurbsVolume r; NurbsVolume::RefineKnotVector(s, X, (VolumeDirection)d, r); c.trans(); same(c, "refine", at, s, r, 1e-9); for (int i = 0; i < 3; i++) c.check(K(r, i) == (i == d ? full : K(s, i)) && D(r, i) == D(s, i), "refine-knots", at + ": wrong knots"); c.check(gen::hash(s) == h, "input", at + ": input modified"); c.count(fmt("refine %d", n));
}
static void elevate(Ctx& c) {
  auto s = pick(c, mc::tier(2, 3), mc::tier(1, 2), {0, 1}, mc::tier(2, 3)); int d = c.pick(3), t = 1 + c.pick(mc::tier(2, 3)); if (D(s, d) + t > 7) c.skip(); std::string at = S(s) + fmt(" elevate %d along %c", t, "uvw"[d]); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), d * 10 + t)); auto h = gen::hash(s); LN_NurbsVolume r; NurbsVolume::ElevateDegree(s, t, (VolumeDirection)d, r); c.trans(); same(c, "elevate", at, s, r, 1e-7); for (int i = 0; i < 3; i++) c.check(D(r, i) == D(s, i) + (i == d ? t : 0) && (i == d || K(r, i) == K(s, i)), "elevate-degree", at + ": wrong degrees or knots"); for (double x : breaks(K(s, d), D(s, d))) c.check(mult(K(r, d), x) == mult(K(s, d), x) + t, "elevate-knots", at + fmt(": multiplicity of %.9g", x)); c.check(gen::hash(s) == h, "input", at + ": input modified"); c.count(fmt("elevate %d", t));
}
static void split(Ctx& c) {
  auto s = pick(c, mc::tier(2, 3), mc::tier(1, 2), mc::tier(std::vector<int>{1}, {0, 1}), mc::tier(2, 3)); int d = c.pick(3); auto us = params(K(s, d), D(s, d), 2); sorted(us); double x = us[1 + c.pick((int)us.size() - 2)]; std::string at = S(s) + fmt(" split at %.9g along %c", x, "uvw"[d]); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), x * 10 + d)); auto h = gen::hash(s); LN_NurbsVolume a, b; bool ok = NurbsVolume::SplitAt(s, x, (VolumeDirection)d, a, b); c.trans(); c.check(ok, "split-refused", at + ": refused"); same(c, "split-first", at, s, a, 1e-9, nullptr, d, us.front(), x); same(c, "split-second", at, s, b, 1e-9, nullptr, d, x, us.back()); c.check(K(a, d).front() == us.front() && K(a, d).back() == x && K(b, d).front() == x && K(b, d).back() == us.back(), "split-range", at + ": ranges " + str(K(a, d)) + " " + str(K(b, d))); for (auto* q : {&a, &b}) for (int i = 0; i < 3; i++) { int m = 0; auto& k = K(*q, i); for (double y : k) m += y == k.front(); c.check(D(*q, i) == D(s, i) && m == D(s, i) + 1, "split-clamped", at + ": not clamped"); } c.check(gen::hash(s) == h, "input", at + ": input modified"); c.count("split");
}
static void reverseSwap(Ctx& c) {
  auto s = pick(c, mc::tier(2, 4), 1, {0, 1}, mc::tier(1, 3)); int op = c.pick(12); std::string at = S(s); auto h = gen::hash(s); LN_NurbsVolume r; c.state(mc::hd(gen::hash(s), op));
  if (op < 3) { at += fmt(" reversed along %c", "uvw"[op]); c.note("%s", at.c_str()); NurbsVolume::Reverse(s, (VolumeDirection)op, r); c.trans(); double lo = K(s, op).front(), hi = K(s, op).back(); same(c, "reverse", at, s, r, 1e-9, [&](double* x) { x[op] = lo + hi - x[op]; }); for (int i = 0; i < 3; i++) c.check(D(r, i) == D(s, i) && (i == op || K(r, i) == K(s, i)) && std::fabs(K(r, i).front() - K(s, i).front()) < 1e-9 && std::fabs(K(r, i).back() - K(s, i).back()) < 1e-9, "reverse-knots", at + ": degrees or ranges change"); }
  else { int a = (op - 3) / 3, b = (op - 3) % 3; at += fmt(" %c and %c swapped", "uvw"[a], "uvw"[b]); c.note("%s", at.c_str()); NurbsVolume::Swap(s, (VolumeDirection)a, (VolumeDirection)b, r); c.trans(); c.check(D(r, a) == D(s, b) && D(r, b) == D(s, a) && K(r, a) == K(s, b) && K(r, b) == K(s, a) && D(r, 3 - a - b < 0 || a == b ? (a + 1) % 3 : 3 - a - b) == D(s, 3 - a - b < 0 || a == b ? (a + 1) % 3 : 3 - a - b), "swap-knots", at + ": degrees or knots are not swapped"); same(c, "swap", at, s, r, 1e-12, [&](double* x) { std::swap(x[a], x[b]); }); }
  c.check(gen::hash(s) == h, "input", at + ": input modified"); c.count(op < 3 ? "reverse" : "swap");
}
// every history of operations of the given depth, in place: the volume stays the same point set
static void histories(Ctx& c) {
  static const int B[4][3] = {{1, 2, 1}, {2, 1, 2}, {2, 2, 1}, {1, 1, 3}}; int bi = c.pick(mc::tier(2, 4)); int p = B[bi][0], q = B[bi][1], r = B[bi][2], wf = mc::tier(1, 2) == 1 ? 1 : c.pick(2); auto s = gen::volume(p, q, r, gen::clamped(p, {1}, 1, {0, 1}), gen::clamped(q, {}, 0, {2, 3}), gen::clamped(r, {}, 0, {-2, 3}), 1, wf); int depth = mc::tier(3, 4); std::string at = S(s); auto cur = s; std::vector<int> perm = {0, 1, 2}; std::vector<bool> rev = {false, false, false}; double lo[3], hi[3]; for (int i = 0; i < 3; i++) { lo[i] = K(s, i).front(); hi[i] = K(s, i).back(); }
  for (int n = 0; n < depth; n++) { int op = c.pick(5), d = c.pick(3); if (n == 0) c.shard(); auto dir = (VolumeDirection)d; LN_NurbsVolume o;
    if (op == 0) { double x = K(cur, d).front() + 0.4 * (K(cur, d).back() - K(cur, d).front()); at += fmt("; insert %c", "uvw"[d]); if (mult(K(cur, d), x) >= D(cur, d)) c.skip(); NurbsVolume::InsertKnot(cur, x, 1, dir, o); }
    else if (op == 1) { auto b = breaks(K(cur, d), D(cur, d)); at += fmt("; refine %c", "uvw"[d]); NurbsVolume::RefineKnotVector(cur, {(b[0] + b[1]) / 2}, dir, o); }
    else if (op == 2) { at += fmt("; elevate %c", "uvw"[d]); NurbsVolume::ElevateDegree(cur, 1, dir, o); }
    else if (op == 3) { at += fmt("; reverse %c", "uvw"[d]); NurbsVolume::Reverse(cur, dir, o); rev[perm[d]] = !rev[perm[d]]; }
    else { int e = (d + 1) % 3; at += fmt("; swap %c%c", "uvw"[d], "uvw"[e]); NurbsVolume::Swap(cur, dir, (VolumeDirection)e, o); std::swap(perm[d], perm[e]); }
    c.trans(); cur = o; c.note("%s", at.c_str()); c.state(gen::hash(cur)); }
  same(c, "history", at, s, cur, 1e-7, [&](double* x) { double y[3]; for (int i = 0; i < 3; i++) { int o = perm[i]; y[i] = rev[o] ? lo[o] + hi[o] - x[o] : x[o]; } for (int i = 0; i < 3; i++) x[i] = y[i]; }); c.count("histories");
}
MC_MAIN("C29", {{"insert", insert}, {"refine", refine}, {"elevate", elevate}, {"split", split}, {"reverseSwap", reverseSwap}, {"histories", histories}})
