#pragma once
#include "gen.hpp"
// picks a knot vector of degree p: clamped (all multiplicity patterns, spacings, domains) or unclamped
namespace gen {
struct KV { int p; std::vector<double> U; bool clampedKind; std::string desc; };
inline KV pickKnots(mc::Ctx& c, int p, int maxBreaks, int maxMult, int maxTotal, int nFam, int nDom, bool withUnclamped) {
  KV k; k.p = p; k.clampedKind = true;
  int kind = c.pick(withUnclamped ? 3 : 1);
  const auto& d = domains()[c.pick(std::min<int>(nDom, domains().size()))];
  if (kind == 0) {
    auto pats = patterns(maxBreaks, std::min(maxMult, p), maxTotal);
    auto& m = c.pick(pats);
    int fam = m.empty() ? 0 : c.pick(nFam);
    k.U = clamped(p, m, fam, d);
  } else {                                              // unclamped: uniform / irregular, simple knots, 1..4 spans
    k.clampedKind = false; int spans = 1 + c.pick(4); int cnt = 2 * p + spans + 1;
    static const double irr[] = {1, 1.7, 0.6, 2.1, 0.9, 1.3}; double x = d.a;
    for (int i = 0; i < cnt; i++) { k.U.push_back(x); x += kind == 1 ? (d.b - d.a) / spans : irr[i % 6]; }
  }
  return k;
}
}
namespace gen {
// one curve of the alphabet; bounds: degree 1..maxP, nPos control-polygon families, nW weight families
// beyond the small shapes: high degrees, many spans, one of each
struct Big { int p; std::vector<int> m; int fam, dom, w = -1; };
inline const std::vector<Big>& bigs() { static const std::vector<Big> b = {{7, {}, 0, 1}, {7, {3, 1}, 1, 2}, {6, {1, 2, 1}, 2, 0}, {3, {1, 1, 1, 1, 1, 1, 1, 1, 1}, 3, 3}, {2, {1, 2, 1, 2, 1, 1, 2, 1}, 1, 1}, {1, {1, 1, 1, 1, 1, 1}, 2, 2}, {4, {2, 1, 1, 3, 1, 1}, 0, 0}, {5, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, 1, 1},
  {3, {1, 1}, 0, 5, 2}, {2, {2, 1}, 1, 6, 5}, {4, {1}, 1, 4, 4}, {3, {}, 0, 7, 5}, {2, {}, 0, 8, 3}, {3, {3, 1}, 0, 6, 3},
  {3, std::vector<int>(33, 1), 1, 1}, {6, {5, 1, 2}, 1, 0}, {7, {1, 6, 1}, 0, 1}, {2, std::vector<int>(19, 1), 2, 0}}; return b; }
// domains and weights of the odd shapes: only where the alphabet varies them at all
inline Dom domainOf(int i, int nDom) { static const std::vector<Dom> far = {{-1000, 2000}, {0.25, 0.3}, {-3, -1}, {1e4, 1e4 + 3}}; int n = domains().size(); return nDom > 1 && i >= n - 1 ? (i < n ? domains()[i] : far[i - n]) : domains()[i % std::min(nDom, n)]; }
inline int weightOf(const Big& b, int i, const std::vector<int>& wf) { bool any = false; for (int w : wf) any |= w > 0; return any && b.w >= 0 ? b.w : wf[(i + 1) % wf.size()]; }
// at most k of the values, spread over all of them
inline std::vector<double> thin(const std::vector<double>& v, int k) { if ((int)v.size() <= k) return v; std::vector<double> r; for (int i = 0; i < k; i++) r.push_back(v[i * (v.size() - 1) / (k - 1)]); return r; }
inline std::vector<int> capped(std::vector<int> m, int k) { for (int& x : m) x = std::min(x, k); return m; }
inline LN_NurbsCurve pickCurve(mc::Ctx& c, int maxP, int maxBreaks, int maxMult, int maxTotal, int nFam, int nDom, bool unclamped, const std::vector<int>& pf, const std::vector<int>& wf, bool big = true) {
  int p = 1 + c.pick(maxP + big);
  if (p > maxP) { int i = c.pick((int)bigs().size()); auto& b = bigs()[i]; return curve(b.p, clamped(b.p, capped(b.m, maxMult), b.fam, domainOf(b.dom, nDom)), pf[i % pf.size()], weightOf(b, i, wf)); }
  auto k = pickKnots(c, p, maxBreaks, maxMult, maxTotal, nFam, nDom, unclamped);
  int a = c.pick(pf), b = c.pick(wf);
  return curve(p, k.U, a, b);
}
inline bool isClamped(const LN_NurbsCurve& c) { auto& U = c.KnotVector; int p = c.Degree; for (int i = 1; i <= p; i++) if (U[i] != U[0] || U[U.size() - 1 - i] != U.back()) return false; return true; }
// parameters to compare two descriptions of a curve at
inline double hmin(const std::vector<double>& U) { double h = 1e300; for (size_t i = 0; i + 1 < U.size(); i++) if (U[i + 1] > U[i]) h = std::min(h, U[i + 1] - U[i]); return h; }
// asserts that b describes the same point set with the same parametrization as a (map: parameter of a -> parameter of b)
inline void sameCurve(mc::Ctx& c, const std::string& key, const std::string& at, const LN_NurbsCurve& a, const LN_NurbsCurve& b, ref::ld tol, std::function<double(double)> map = nullptr, double lo = -1e300, double hi = 1e300) {
  ref::Curve A(a), B(b); std::string why;
  c.check(B.valid(&why), key + "-valid", at + ": result is not a valid NURBS curve: " + why + " " + str(b).substr(0, 700));
  std::vector<double> us = ref::params(a.KnotVector, a.Degree, 2);
  if (lo > -1e299) { std::vector<double> t = {lo, hi, (lo + hi) / 2}; for (double u : us) if (u > lo && u < hi) t.push_back(u); us = t; }
  ref::ld s = ref::scale(A.P);
  for (double u : us) {
    double v = map ? map(u) : u; v = std::min(std::max(v, B.lo()), B.hi());
    ref::P3 x = A.at(u), y = B.at(v);
    c.check(ref::near(y, x, tol * s), key, at + mc::fmt(": at parameter %.9g the source is at ", u) + ref::str(x) + mc::fmt(" but the result (parameter %.9g) at ", v) + ref::str(y) + " result: " + str(b).substr(0, 900));
  }
}
}
namespace gen {
// tensor-product surfaces beyond the small ones
struct BigSurface { Big u, v; };
inline const std::vector<BigSurface>& bigSurfaces() { static const std::vector<BigSurface> b = {{{7, {}, 0, 1}, {1, {1}, 0, 0}}, {{2, {}, 0, 0}, {6, {1}, 1, 0}}, {{2, {1, 1, 1, 1, 1, 1}, 1, 0}, {2, {1}, 0, 0}}, {{1, {1}, 0, 1}, {3, {1, 2, 1, 1, 1, 1}, 2, 0}}, {{3, {1, 1, 1}, 2, 2}, {2, {1, 1, 2, 1}, 3, 0}}, {{4, {2, 1}, 1, 0}, {5, {}, 0, 0}}, {{2, {1}, 0, 5, 5}, {3, {}, 0, 0}}, {{3, {}, 0, 6, 3}, {1, {1}, 0, 0}}, {{1, {1}, 0, 7, 4}, {2, {1}, 0, 0}}, {{2, {}, 0, 8, 2}, {2, {}, 0, 0}},
  {{6, {}, 0, 0}, {7, {}, 0, 0}}, {{2, std::vector<int>(18, 1), 1, 1}, {1, {1, 1, 1, 1}, 0, 0}}, {{3, {1}, 0, 0}, {3, std::vector<int>(17, 1), 1, 0}}, {{5, {1, 3}, 1, 0}, {3, {2}, 0, 0}}}; return b; }
// one tensor-product surface of the alphabet: degrees 1..maxP, all pairs of interior multiplicity patterns; the two directions use different domains
inline LN_NurbsSurface pickSurface(mc::Ctx& c, int minP, int maxP, int maxBreaks, int maxMult, int maxTotal, int nFam, int nDom, const std::vector<int>& pf, const std::vector<int>& wf, bool big = true) {
  int p = minP + c.pick(maxP - minP + 1 + big);
  if (p > maxP) { int i = c.pick((int)bigSurfaces().size()); auto& b = bigSurfaces()[i]; int nd = std::min<int>(nDom, domains().size()); return surface(b.u.p, b.v.p, clamped(b.u.p, capped(b.u.m, maxMult), b.u.fam, domainOf(b.u.dom, nDom)), clamped(b.v.p, capped(b.v.m, maxMult), b.v.fam, domains()[(b.u.dom % nd + 1) % domains().size()]), pf[i % pf.size()], weightOf(b.u, i, wf)); }
  int q = minP + c.pick(maxP - minP + 1); auto pu = patterns(maxBreaks, std::min(maxMult, p), maxTotal), pv = patterns(maxBreaks, std::min(maxMult, q), maxTotal);
  auto& mu = c.pick(pu); auto& mv = c.pick(pv); int fam = mu.empty() && mv.empty() ? 0 : c.pick(nFam); int d = c.pick(std::min<int>(nDom, domains().size()));
  auto U = clamped(p, mu, fam, domains()[d]), V = clamped(q, mv, (fam + 1) % 4, domains()[(d + 1) % domains().size()]); int a = c.pick(pf), b = c.pick(wf);
  return surface(p, q, U, V, a, b);
}
// volumes of high degree or with many spans
struct BigVolume { Big u, v, w; };
inline const std::vector<BigVolume>& bigVolumes() { static const std::vector<BigVolume> b = {{{7, {}, 0, 0}, {1, {}, 0, 0}, {1, {1}, 0, 0}}, {{1, {}, 0, 0}, {6, {1}, 1, 0}, {2, {}, 0, 0}}, {{2, {}, 0, 0}, {1, {1}, 0, 0}, {5, {}, 0, 0}}, {{4, {2}, 0, 0}, {4, {}, 0, 0}, {1, {}, 0, 0}}, {{1, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, 1, 0}, {2, {1}, 0, 0}, {1, {}, 0, 0}}, {{1, {}, 0, 0}, {3, {1, 2, 1, 1, 1, 1, 1}, 1, 0}, {1, {1}, 0, 0}}, {{2, {}, 0, 0}, {1, {}, 0, 0}, {2, {1, 1, 2, 1, 1, 1, 1}, 1, 0}}, {{1, {}, 0, 0}, {3, {}, 0, 0}, {7, {}, 0, 0}}}; return b; }
// asserts that b is the same surface as a under the parameter maps
inline void sameSurface(mc::Ctx& c, const std::string& key, const std::string& at, const LN_NurbsSurface& a, const LN_NurbsSurface& b, ref::ld tol, std::function<void(double&, double&)> map = nullptr, int k = 1) {
  ref::Surf A(a), B(b); std::string why; c.check(B.valid(&why), key + "-valid", at + ": result is not a valid NURBS surface: " + why + " " + str(b).substr(0, 700)); ref::ld s = A.scl();
  for (double u : ref::params(a.KnotVectorU, a.DegreeU, k)) for (double v : ref::params(a.KnotVectorV, a.DegreeV, k)) {
    double x = u, y = v; if (map) map(x, y); x = std::min(std::max(x, B.U[B.p]), B.U[B.U.size() - B.p - 1]); y = std::min(std::max(y, B.V[B.q]), B.V[B.V.size() - B.q - 1]);
    ref::P3 e = A.at(u, v), g = B.at(x, y); c.check(ref::near(g, e, tol * s), key, at + mc::fmt(": at (%.9g,%.9g) the source is at ", u, v) + ref::str(e) + mc::fmt(" but the result (at %.9g,%.9g) at ", x, y) + ref::str(g) + " result: " + str(b).substr(0, 600)); }
}
inline bool same(const LN_NurbsSurface& a, const LN_NurbsSurface& b) { if (a.DegreeU != b.DegreeU || a.DegreeV != b.DegreeV || a.KnotVectorU != b.KnotVectorU || a.KnotVectorV != b.KnotVectorV || a.ControlPoints.size() != b.ControlPoints.size()) return false; return hash(a) == hash(b); }
}
