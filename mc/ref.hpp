// Reference model: B-spline / NURBS mathematics in long double, written from the definitions
// (Cox-de Boor recursion, de Boor's algorithm, derivative control points, power-series quotient).
// It shares no code with the library.
#pragma once
#include <vector>
#include <cmath>
#include <array>
#include <algorithm>
#include <functional>
#include <string>
#include "mc.hpp"
#include "XYZ.h"
#include "XYZW.h"
#include "UV.h"
#include "UVW.h"
#include "LNObject.h"

namespace ref {
typedef long double ld;
struct P3 { ld x = 0, y = 0, z = 0; };
struct P4 { ld x = 0, y = 0, z = 0, w = 0; };
inline P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline P3 operator*(ld s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline P3 operator*(P3 a, ld s) { return s * a; }
inline P4 operator+(P4 a, P4 b) { return {a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w}; }
inline P4 operator-(P4 a, P4 b) { return {a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w}; }
inline P4 operator*(ld s, P4 a) { return {s * a.x, s * a.y, s * a.z, s * a.w}; }
inline ld dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline ld len(P3 a) { return std::sqrt(dot(a, a)); }
inline ld dist(P3 a, P3 b) { return len(a - b); }
inline P3 unit(P3 a) { ld l = len(a); return l > 0 ? (1 / l) * a : a; }
inline P3 xyz(P4 a) { return {a.x / a.w, a.y / a.w, a.z / a.w}; }
inline P3 of(const LNLib::XYZ& p) { return {p.GetX(), p.GetY(), p.GetZ()}; }
inline P4 of(const LNLib::XYZW& p) { return {p.GetWX(), p.GetWY(), p.GetWZ(), p.GetW()}; }
inline LNLib::XYZ toXYZ(P3 p) { return LNLib::XYZ((double)p.x, (double)p.y, (double)p.z); }
inline bool finite(P3 p) { return std::isfinite((double)p.x) && std::isfinite((double)p.y) && std::isfinite((double)p.z); }
inline std::string str(P3 p) { return mc::fmt("(%.9g,%.9g,%.9g)", (double)p.x, (double)p.y, (double)p.z); }
inline std::string str(const std::vector<double>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + mc::fmt("%.9g", v[i]); return s + "]"; }

// ---- knots -------------------------------------------------------------------------------------
// span index: U[i] <= u < U[i+1], p <= i <= n; at u = U[n+1] the last non-empty span.
inline int span(int p, const std::vector<double>& U, double u) {
  int n = (int)U.size() - p - 2;
  if (u >= U[n + 1]) { int i = n; while (i > p && U[i] >= U[n + 1]) i--; return i; }
  if (u <= U[p]) { int i = p; while (i < n && U[i + 1] <= U[p]) i++; return i; }
  for (int i = p; i <= n; i++) if (U[i] <= u && u < U[i + 1]) return i;
  return -1;
}
// N_{i,p}(u), Cox-de Boor on the polynomial piece of span s (so it is defined at both ends of a span)
inline ld N(int i, int p, const std::vector<double>& U, ld u, int s) {
  if (p == 0) return i == s ? 1 : 0;
  ld r = 0, d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1];
  if (d1 > 0) { ld v = N(i, p - 1, U, u, s); if (v != 0) r += (u - U[i]) / d1 * v; }
  if (d2 > 0) { ld v = N(i + 1, p - 1, U, u, s); if (v != 0) r += (U[i + p + 1] - u) / d2 * v; }
  return r;
}
inline ld dN(int i, int p, const std::vector<double>& U, ld u, int s, int k) {
  if (k == 0) return N(i, p, U, u, s);
  if (p == 0) return 0;
  ld r = 0, d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1];
  if (d1 > 0) r += p / d1 * dN(i, p - 1, U, u, s, k - 1);
  if (d2 > 0) r -= p / d2 * dN(i + 1, p - 1, U, u, s, k - 1);
  return r;
}
inline ld N(int i, int p, const std::vector<double>& U, double u) { return N(i, p, U, (ld)u, span(p, U, u)); }           // value on the span that holds u
inline ld dN(int i, int p, const std::vector<double>& U, double u, int k) { return dN(i, p, U, (ld)u, span(p, U, u), k); }
inline int mult(const std::vector<double>& U, double u, double tol = 1e-9) { int c = 0; for (double x : U) if (std::fabs(x - u) <= tol) c++; return c; }

// ---- homogeneous curves ------------------------------------------------------------------------
template <class T> T deBoor(int p, const std::vector<double>& U, const std::vector<T>& P, ld u, int s) {
  std::vector<T> d(P.begin() + (s - p), P.begin() + s + 1);
  for (int r = 1; r <= p; r++)
    for (int j = p; j >= r; j--) {
      ld a = U[j + s - p], b = U[j + 1 + s - r]; ld al = b > a ? (u - a) / (b - a) : 0;
      d[j] = (1 - al) * d[j - 1] + al * d[j];
    }
  return d[p];
}
// k-th derivatives 0..m on span s
template <class T> std::vector<T> ders(int p, std::vector<double> U, std::vector<T> P, ld u, int s, int m) {
  std::vector<T> out;
  for (int k = 0; k <= m; k++) {
    if (p < 0) { out.push_back(T()); continue; }
    out.push_back(deBoor(p, U, P, u, s));
    if (p == 0) { p = -1; continue; }
    std::vector<T> Q; for (size_t i = 0; i + 1 < P.size(); i++) { ld h = (ld)U[i + p + 1] - U[i + 1]; Q.push_back(h > 0 ? ((ld)p / h) * (P[i + 1] - P[i]) : T()); }
    P = Q; U = std::vector<double>(U.begin() + 1, U.end() - 1); p--; s--;
  }
  return out;
}
inline ld scale(const std::vector<P4>& P);
struct Curve {
  ld scl() const { return std::max((ld)1, scale(P)); }
  int p = 0; std::vector<double> U; std::vector<P4> P;
  Curve() {}
  Curve(const LNLib::LN_NurbsCurve& c) : p(c.Degree), U(c.KnotVector) { for (auto& q : c.ControlPoints) P.push_back(of(q)); }
  double lo() const { return U[p]; }
  double hi() const { return U[U.size() - p - 1]; }
  P4 hom(double u, int s = -1) const { return deBoor(p, U, P, (ld)u, s < 0 ? span(p, U, u) : s); }
  P3 at(double u, int s = -1) const { return xyz(hom(u, s)); }
  // rational derivatives 0..m (on the piece right of u, or left when left=true)
  std::vector<P3> der(double u, int m, int s = -1) const {
    auto h = ders(p, U, P, (ld)u, s < 0 ? span(p, U, u) : s, m);
    std::vector<ld> w(m + 1); std::vector<P3> a(m + 1), c(m + 1); ld f = 1;
    for (int k = 0; k <= m; k++) { if (k) f *= k; a[k] = (1 / f) * P3{h[k].x, h[k].y, h[k].z}; w[k] = h[k].w / f; }
    for (int k = 0; k <= m; k++) { P3 t = a[k]; for (int j = 1; j <= k; j++) t = t - w[j] * c[k - j]; c[k] = (1 / w[0]) * t; }
    f = 1; for (int k = 1; k <= m; k++) { f *= k; c[k] = f * c[k]; }
    return c;
  }
  bool valid(std::string* why = nullptr) const {
    auto bad = [&](const std::string& s) { if (why) *why = s; return false; };
    if (p < 1) return bad("degree<1");
    if (U.size() != P.size() + p + 1) return bad(mc::fmt("knots %zu, control points %zu, degree %d", U.size(), P.size(), p));
    if ((int)P.size() < p + 1) return bad("too few control points");
    for (size_t i = 0; i + 1 < U.size(); i++) if (!(U[i] <= U[i + 1])) return bad("knots not non-decreasing " + str(U));
    for (auto& q : P) if (!std::isfinite((double)q.x) || !std::isfinite((double)q.y) || !std::isfinite((double)q.z) || !(q.w > 0) || !std::isfinite((double)q.w)) return bad("control point not finite or weight not positive");
    return true;
  }
};
inline std::vector<double> breaks(const std::vector<double>& U, int p) {
  std::vector<double> b; for (size_t i = p; i + p < U.size(); i++) if (b.empty() || U[i] > b.back() + 1e-9) b.push_back(U[i]); return b;
}
// sample parameters: every distinct knot of the domain and k interior points of every span
inline std::vector<double> params(const std::vector<double>& U, int p, int k = 2) {
  static const double f[] = {0.5, 0.2, 0.8, 0.37, 0.61, 0.05, 0.95, 0.11};
  auto b = breaks(U, p); std::vector<double> r;
  for (size_t i = 0; i < b.size(); i++) { r.push_back(b[i]); if (i + 1 < b.size()) for (int j = 0; j < k; j++) r.push_back(b[i] + f[j] * (b[i + 1] - b[i])); }
  return r;
}
inline ld scale(const std::vector<P4>& P) { ld m = 1; for (auto& q : P) { P3 x = xyz(q); m = std::max(m, std::max(std::fabs(x.x), std::max(std::fabs(x.y), std::fabs(x.z)))); } return m; }
inline bool near(P3 a, P3 b, ld tol) { return finite(a) && dist(a, b) <= tol; }

// ---- surfaces ----------------------------------------------------------------------------------
struct Surf {
  int p = 0, q = 0; std::vector<double> U, V; std::vector<std::vector<P4>> P;
  Surf() {}
  Surf(const LNLib::LN_NurbsSurface& s) : p(s.DegreeU), q(s.DegreeV), U(s.KnotVectorU), V(s.KnotVectorV) {
    for (auto& r : s.ControlPoints) { P.emplace_back(); for (auto& c : r) P.back().push_back(of(c)); }
  }
  double ulo() const { return U[p]; } double uhi() const { return U[U.size() - 1 - p]; } double vlo() const { return V[q]; } double vhi() const { return V[V.size() - 1 - q]; }
  // homogeneous partials [k][l], k<=m,l<=m
  std::vector<std::vector<P4>> homDer(double u, double v, int m, int su = -1, int sv = -1) const {
    if (su < 0) su = span(p, U, u); if (sv < 0) sv = span(q, V, v);
    std::vector<std::vector<P4>> rows; // rows[i][l]
    for (auto& r : P) rows.push_back(ders(q, V, r, (ld)v, sv, m));
    std::vector<std::vector<P4>> out(m + 1, std::vector<P4>(m + 1));
    for (int l = 0; l <= m; l++) { std::vector<P4> col; for (auto& r : rows) col.push_back(r[l]); auto d = ders(p, U, col, (ld)u, su, m); for (int k = 0; k <= m; k++) out[k][l] = d[k]; }
    return out;
  }
  P4 hom(double u, double v, int su = -1, int sv = -1) const { return homDer(u, v, 0, su, sv)[0][0]; }
  P3 at(double u, double v, int su = -1, int sv = -1) const { return xyz(hom(u, v, su, sv)); }
  std::vector<std::vector<P3>> der(double u, double v, int m, int su = -1, int sv = -1) const {
    auto h = homDer(u, v, m, su, sv); std::vector<ld> fact(m + 1, 1); for (int i = 1; i <= m; i++) fact[i] = fact[i - 1] * i;
    std::vector<std::vector<P3>> c(m + 1, std::vector<P3>(m + 1));
    for (int k = 0; k <= m; k++) for (int l = 0; l <= m; l++) {
      P3 t = (1 / (fact[k] * fact[l])) * P3{h[k][l].x, h[k][l].y, h[k][l].z};
      for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) if (i + j) t = t - (h[i][j].w / (fact[i] * fact[j])) * c[k - i][l - j];
      c[k][l] = (1 / h[0][0].w) * t;
    }
    for (int k = 0; k <= m; k++) for (int l = 0; l <= m; l++) c[k][l] = (fact[k] * fact[l]) * c[k][l];
    return c;
  }
  bool valid(std::string* why = nullptr) const {
    auto bad = [&](const std::string& s) { if (why) *why = s; return false; };
    if (p < 1 || q < 1) return bad("degree<1");
    if (P.empty()) return bad("no control points");
    if (U.size() != P.size() + p + 1) return bad(mc::fmt("knotsU %zu rows %zu degreeU %d", U.size(), P.size(), p));
    for (auto& r : P) if (V.size() != r.size() + q + 1) return bad(mc::fmt("knotsV %zu cols %zu degreeV %d", V.size(), r.size(), q));
    if ((int)P.size() < p + 1 || (int)P[0].size() < q + 1) return bad("too few control points");
    for (size_t i = 0; i + 1 < U.size(); i++) if (!(U[i] <= U[i + 1])) return bad("knotsU not sorted");
    for (size_t i = 0; i + 1 < V.size(); i++) if (!(V[i] <= V[i + 1])) return bad("knotsV not sorted");
    for (auto& r : P) for (auto& c : r) if (!std::isfinite((double)c.x) || !std::isfinite((double)c.y) || !std::isfinite((double)c.z) || !(c.w > 0) || !std::isfinite((double)c.w)) return bad("control point not finite / weight not positive");
    return true;
  }
  ld scl() const { ld m = 1; for (auto& r : P) m = std::max(m, scale(r)); return m; }
};

// ---- volumes -----------------------------------------------------------------------------------
struct Vol {
  int p = 0, q = 0, r = 0; std::vector<double> U, V, W; std::vector<std::vector<std::vector<P4>>> P;
  Vol() {}
  Vol(const LNLib::LN_NurbsVolume& s) : p(s.DegreeU), q(s.DegreeV), r(s.DegreeW), U(s.KnotVectorU), V(s.KnotVectorV), W(s.KnotVectorW) {
    for (auto& a : s.ControlPoints) { P.emplace_back(); for (auto& b : a) { P.back().emplace_back(); for (auto& c : b) P.back().back().push_back(of(c)); } }
  }
  typedef std::vector<std::vector<std::vector<P4>>> T4; typedef std::vector<std::vector<std::vector<P3>>> T3;
  T4 homDer(double u, double v, double w, int m) const {
    int su = span(p, U, u), sv = span(q, V, v), sw = span(r, W, w);
    size_t nu = P.size(), nv = P[0].size();
    T4 A(nu, std::vector<std::vector<P4>>(nv));
    for (size_t i = 0; i < nu; i++) for (size_t j = 0; j < nv; j++) A[i][j] = ders(r, W, P[i][j], (ld)w, sw, m);
    T4 B(nu, std::vector<std::vector<P4>>(m + 1, std::vector<P4>(m + 1)));  // [i][b][c]
    for (size_t i = 0; i < nu; i++) for (int c = 0; c <= m; c++) { std::vector<P4> col; for (size_t j = 0; j < nv; j++) col.push_back(A[i][j][c]); auto d = ders(q, V, col, (ld)v, sv, m); for (int b = 0; b <= m; b++) B[i][b][c] = d[b]; }
    T4 C(m + 1, std::vector<std::vector<P4>>(m + 1, std::vector<P4>(m + 1)));
    for (int b = 0; b <= m; b++) for (int c = 0; c <= m; c++) { std::vector<P4> col; for (size_t i = 0; i < nu; i++) col.push_back(B[i][b][c]); auto d = ders(p, U, col, (ld)u, su, m); for (int a = 0; a <= m; a++) C[a][b][c] = d[a]; }
    return C;
  }
  P4 hom(double u, double v, double w) const { return homDer(u, v, w, 0)[0][0][0]; }
  P3 at(double u, double v, double w) const { return xyz(hom(u, v, w)); }
  T3 der(double u, double v, double w, int m) const {
    auto h = homDer(u, v, w, m); std::vector<ld> f(m + 1, 1); for (int i = 1; i <= m; i++) f[i] = f[i - 1] * i;
    T3 c(m + 1, std::vector<std::vector<P3>>(m + 1, std::vector<P3>(m + 1)));
    for (int k = 0; k <= m; k++) for (int l = 0; l <= m; l++) for (int n = 0; n <= m; n++) {
      P3 t = (1 / (f[k] * f[l] * f[n])) * P3{h[k][l][n].x, h[k][l][n].y, h[k][l][n].z};
      for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) for (int o = 0; o <= n; o++) if (i + j + o) t = t - (h[i][j][o].w / (f[i] * f[j] * f[o])) * c[k - i][l - j][n - o];
      c[k][l][n] = (1 / h[0][0][0].w) * t;
    }
    for (int k = 0; k <= m; k++) for (int l = 0; l <= m; l++) for (int n = 0; n <= m; n++) c[k][l][n] = (f[k] * f[l] * f[n]) * c[k][l][n];
    return c;
  }
  bool valid(std::string* why = nullptr) const {
    auto bad = [&](const std::string& s) { if (why) *why = s; return false; };
    if (p < 1 || q < 1 || r < 1 || P.empty() || P[0].empty()) return bad("degrees/empty");
    if (U.size() != P.size() + p + 1) return bad(mc::fmt("knotsU %zu n %zu", U.size(), P.size()));
    for (auto& a : P) { if (V.size() != a.size() + q + 1) return bad(mc::fmt("knotsV %zu n %zu", V.size(), a.size()));
      for (auto& b : a) { if (W.size() != b.size() + r + 1) return bad(mc::fmt("knotsW %zu n %zu", W.size(), b.size()));
        for (auto& c : b) if (!std::isfinite((double)c.x) || !(c.w > 0)) return bad("control point not finite / weight not positive"); } }
    if (!std::is_sorted(U.begin(), U.end()) || !std::is_sorted(V.begin(), V.end()) || !std::is_sorted(W.begin(), W.end())) return bad("knots not sorted");
    return true;
  }
};
}  // namespace ref
