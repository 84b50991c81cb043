// Alphabets: the finite domains of knot vectors, control nets and weights the drivers enumerate.
#pragma once
#include "ref.hpp"

namespace gen {
using namespace LNLib;

// spacing families for the distinct interior breakpoints (unit interval, then mapped to a domain)
inline double breakAt(int family, int i, int n) {         // i = 1..n of n interior breakpoints
  double t = (double)i / (n + 1);
  switch (family) {
    case 0: return t;                                      // uniform
    case 1: return t * t;                                  // dense at the start
    case 2: return 1 - (1 - t) * (1 - t) * (1 - t);        // dense at the end
    default: return t < 0.5 ? t * 0.3 : 0.15 + (t - 0.5) * 1.7 * 0.98;
  }
}
struct Dom { double a, b; };
inline const std::vector<Dom>& domains() { static std::vector<Dom> d = {{0, 1}, {-2, 3}, {4, 9.5}, {0, 10}, {100, 101.5}}; return d; }

// clamped knot vector of degree p with the given interior multiplicities
inline std::vector<double> clamped(int p, const std::vector<int>& m, int family = 0, Dom d = {0, 1}) {
  std::vector<double> U(p + 1, d.a);
  for (size_t i = 0; i < m.size(); i++) for (int k = 0; k < m[i]; k++) U.push_back(d.a + (d.b - d.a) * breakAt(family, (int)i + 1, (int)m.size()));
  for (int k = 0; k <= p; k++) U.push_back(d.b);
  return U;
}
// all interior multiplicity patterns: up to maxBreaks breakpoints, multiplicities 1..maxMult, total <= maxTotal
inline std::vector<std::vector<int>> patterns(int maxBreaks, int maxMult, int maxTotal = 99) {
  std::vector<std::vector<int>> out = {{}}; size_t from = 0;
  for (int b = 0; b < maxBreaks; b++) {
    size_t end = out.size();
    for (size_t i = from; i < end; i++) for (int m = 1; m <= maxMult; m++) { int t = m; for (int x : out[i]) t += x; if (t <= maxTotal) { auto v = out[i]; v.push_back(m); out.push_back(v); } }
    from = end;
  }
  return out;
}
// control points: families of positions
inline XYZ pos(int family, int i, int n) {
  switch (family) {
    case 0: return XYZ((i * 7 + 3) % 11 - 4.0, (i * 5 + 2) % 13 - 6.0, (i * 3 + 1) % 7 - 2.5);        // generic, non planar
    case 1: return XYZ(i * 1.5, std::sin(i * 1.3) * 2, 0);                                             // planar wave
    case 2: return XYZ(1 + i * 2.0, 2 + i * 1.0, 3 - i * 0.5);                                         // collinear
    case 3: return i == n - 1 ? pos(0, 0, n) : pos(0, i, n);                                           // closed
    case 4: return pos(0, i / 2, n);                                                                   // pairwise coincident
    case 5: return XYZ(1000 + i * 3.0, -2000 + ((i * 5) % 7) * 1.0, 500 + ((i * 3) % 5) * 2.0);        // far from the origin
    case 6: return XYZ(std::cos(i * 0.7) * 3, std::sin(i * 0.7) * 3, i * 0.4);                         // helix
    default: return XYZ(((i * 13) % 17) * 0.01, ((i * 11) % 19) * 0.01, ((i * 7) % 5) * 0.02);         // small
  }
}
inline double weight(int family, int i) {
  static const double g[] = {1, 2, 0.5, 1.5, 0.8, 3, 0.7, 1.2};
  switch (family) {
    case 0: return 1;
    case 1: return g[i % 8];
    case 2: return i % 2 ? 5 : 0.2;
    case 3: return 2.5;                                                                                // equal but not 1
    case 4: return i == 1 ? 10 : 1;
    default: return std::vector<double>{1, 40, 0.3, 7, 0.02}[i % 5];                                    // very unequal
  }
}
inline LN_NurbsCurve curve(int p, const std::vector<double>& U, int pf, int wf) {
  LN_NurbsCurve c; c.Degree = p; c.KnotVector = U; int n = (int)U.size() - p - 1;
  for (int i = 0; i < n; i++) c.ControlPoints.emplace_back(XYZW(pos(pf, i, n), weight(wf, i)));
  return c;
}
inline XYZ pos2(int family, int i, int j, int n, int m) {
  switch (family) {
    case 0: return XYZ(i * 2.0 + (j * 3 % 4) * 0.3, j * 1.5 + (i * 5 % 3) * 0.4, ((i * 3 + j * 5) % 7) * 0.5);   // height-field like
    case 1: return XYZ((i * 7 + j * 3) % 11 - 4.0, (i * 5 + j * 2) % 13 - 6.0, (i * 3 + j * 7) % 9 - 2.5);      // generic
    case 2: return XYZ(i * 1.0, j * 2.0, 0);                                                                       // flat
    case 3: return XYZ(500 + i * 2.0, -300 + j * 3.0, 100 + ((i * 3 + j) % 5));                                   // far
    default: { int ii = (i == n - 1) ? 0 : i; return pos2(1, ii, j, n, m); }                                       // closed in u
  }
}
inline double weight2(int family, int i, int j) { return family == 0 ? 1 : weight(family, i + 3 * j); }
inline LN_NurbsSurface surface(int p, int q, const std::vector<double>& U, const std::vector<double>& V, int pf, int wf) {
  LN_NurbsSurface s; s.DegreeU = p; s.DegreeV = q; s.KnotVectorU = U; s.KnotVectorV = V;
  int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1;
  for (int i = 0; i < n; i++) { s.ControlPoints.emplace_back(); for (int j = 0; j < m; j++) s.ControlPoints.back().emplace_back(XYZW(pos2(pf, i, j, n, m), weight2(wf, i, j))); }
  return s;
}
inline LN_NurbsVolume volume(int p, int q, int r, const std::vector<double>& U, const std::vector<double>& V, const std::vector<double>& W, int pf, int wf) {
  LN_NurbsVolume s; s.DegreeU = p; s.DegreeV = q; s.DegreeW = r; s.KnotVectorU = U; s.KnotVectorV = V; s.KnotVectorW = W;
  int n = (int)U.size() - p - 1, m = (int)V.size() - q - 1, l = (int)W.size() - r - 1;
  for (int i = 0; i < n; i++) { s.ControlPoints.emplace_back(); for (int j = 0; j < m; j++) { s.ControlPoints.back().emplace_back(); for (int k = 0; k < l; k++) {
    XYZ b = pf == 0 ? XYZ(i * 2.0 + ((j * 3 + k) % 4) * 0.2, j * 1.5 + ((i * 5 + k * 2) % 3) * 0.3, k * 1.8 + ((i * 3 + j * 5) % 5) * 0.15)
                    : XYZ((i * 7 + j * 3 + k * 5) % 11 - 4.0, (i * 5 + j * 2 + k * 7) % 13 - 6.0, (i * 3 + j * 7 + k * 4) % 9 - 2.5);
    s.ControlPoints.back().back().emplace_back(XYZW(b, wf == 0 ? 1 : weight(wf, i + 2 * j + 3 * k))); } } }
  return s;
}
inline uint64_t hash(const LN_NurbsCurve& c) {
  uint64_t h = c.Degree; for (double k : c.KnotVector) h = mc::hd(h, k); for (auto& p : c.ControlPoints) { h = mc::hd(h, p.GetWX()); h = mc::hd(h, p.GetWY()); h = mc::hd(h, p.GetWZ()); h = mc::hd(h, p.GetW()); } return h;
}
inline uint64_t hash(const LN_NurbsSurface& c) {
  uint64_t h = c.DegreeU * 31 + c.DegreeV; for (double k : c.KnotVectorU) h = mc::hd(h, k); for (double k : c.KnotVectorV) h = mc::hd(h, k);
  for (auto& r : c.ControlPoints) for (auto& p : r) { h = mc::hd(h, p.GetWX()); h = mc::hd(h, p.GetWY()); h = mc::hd(h, p.GetWZ()); h = mc::hd(h, p.GetW()); } return h;
}
inline uint64_t hash(const LN_NurbsVolume& c) {
  uint64_t h = c.DegreeU * 961 + c.DegreeV * 31 + c.DegreeW; for (double k : c.KnotVectorU) h = mc::hd(h, k); for (double k : c.KnotVectorV) h = mc::hd(h, k); for (double k : c.KnotVectorW) h = mc::hd(h, k);
  for (auto& a : c.ControlPoints) for (auto& r : a) for (auto& p : r) { h = mc::hd(h, p.GetWX()); h = mc::hd(h, p.GetWY()); h = mc::hd(h, p.GetWZ()); h = mc::hd(h, p.GetW()); } return h;
}
inline uint64_t hashv(const std::vector<double>& v, uint64_t h = 7) { for (double x : v) h = mc::hd(h, x); return h; }
inline std::string str(const LN_NurbsCurve& c) {
  std::string s = mc::fmt("p=%d U=", c.Degree) + ref::str(c.KnotVector) + " Pw=";
  for (auto& p : c.ControlPoints) s += mc::fmt("(%.5g %.5g %.5g %.5g)", p.GetWX(), p.GetWY(), p.GetWZ(), p.GetW()); return s;
}
inline std::string str(const LN_NurbsSurface& c) {
  std::string s = mc::fmt("p=%d q=%d U=", c.DegreeU, c.DegreeV) + ref::str(c.KnotVectorU) + " V=" + ref::str(c.KnotVectorV) + mc::fmt(" net %zux%zu", c.ControlPoints.size(), c.ControlPoints.empty() ? 0 : c.ControlPoints[0].size()); return s;
}
inline bool same(const LN_NurbsCurve& a, const LN_NurbsCurve& b) {   // bitwise equality
  if (a.Degree != b.Degree || a.KnotVector != b.KnotVector || a.ControlPoints.size() != b.ControlPoints.size()) return false;
  for (size_t i = 0; i < a.ControlPoints.size(); i++) { auto& x = a.ControlPoints[i]; auto& y = b.ControlPoints[i]; if (x.GetWX() != y.GetWX() || x.GetWY() != y.GetWY() || x.GetWZ() != y.GetWZ() || x.GetW() != y.GetW()) return false; }
  return true;
}
}  // namespace gen
