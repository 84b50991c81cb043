// C30: vectors, matrices, linear algebra and tolerant comparison.
#include "../mc/knots.hpp"
#include "XYZ.h"
#include "XYZW.h"
#include "UV.h"
#include "Matrix4d.h"
#include "MathUtils.h"
#include "Constants.h"
#include "ControlPointsUtils.h"
#include <array>
#include <set>
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;

static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
static void compare(Ctx& c) {
  static const std::vector<double> V = {0, 1e-12, -1e-12, 4e-7, 3e-6, -3e-6, 1e-4, 0.5, 1, 1 + 4e-7, 1 + 5e-6, -1, -1 - 4e-7, 2, 1e3, 1e3 + 5e-4, 1e3 + 1e-2, 1e6, 1e6 + 0.5, 1e6 + 3, -1e6, 1e300, -1e300, INF, -INF, NaN};
  double a = c.pick(V), b = c.pick(V); double tol = c.pick(std::vector<double>{1e-6, 1e-4, 1e-2}); c.shard(); c.note("compare %.17g %.17g tolerance %g", a, b, tol); c.state(mc::hd(mc::hd(mc::hd(1, a), b), tol)); std::string at = fmt("%.17g and %.17g at tolerance %g", a, b, tol);
  bool eq = MathUtils::IsAlmostEqualTo(a, b, tol), gt = MathUtils::IsGreaterThan(a, b, tol), ge = MathUtils::IsGreaterThanOrEqual(a, b, tol), lt = MathUtils::IsLessThan(a, b, tol), le = MathUtils::IsLessThanOrEqual(a, b, tol); c.trans(5);
  c.check(MathUtils::IsNaN(a) == std::isnan(a) && MathUtils::IsInfinite(a) == std::isinf(a), "classify", at + ": IsNaN / IsInfinite");
  if (std::isnan(a) || std::isnan(b)) { c.check(!eq && !gt && !ge && !lt && !le, "nan", at + ": NaN compares"); c.count("nan"); return; }
  c.check(eq + gt + lt == 1, "trichotomy", at + fmt(": equal %d greater %d less %d", eq, gt, lt)); c.check(ge == (gt || eq) && le == (lt || eq), "or-equal", at + fmt(": equal %d greater %d less %d ge %d le %d", eq, gt, lt, ge, le));
  c.check(eq == MathUtils::IsAlmostEqualTo(b, a, tol) && gt == MathUtils::IsLessThan(b, a, tol), "symmetry", at + ": depends on the order");
  if (std::isfinite(a) && std::isfinite(b)) { ld d = std::fabs((ld)a - b), e = (ld)tol * (1 + std::max(std::fabs((ld)a), std::fabs((ld)b))); if (std::fabs(d - e) > 1e-3L * e) c.check(eq == (d < e), "tolerance", at + fmt(": equal %d", eq)); if (d > e) c.check(gt == (a > b), "order", at + fmt(": greater %d", gt)); } else c.check(eq == (a == b) && gt == (a > b), "infinite", at + fmt(": equal %d greater %d", eq, gt)); c.count("pairs");
}
static void combinatorics(Ctx& c) {
  int n = c.pick(mc::tier(56, 62)) - 2; c.shard(); c.note("n %d", n); c.state(n); std::vector<ld> row(1, 1); for (int i = 0; i < n; i++) { std::vector<ld> r(row.size() + 1, 1); for (size_t k = 1; k < row.size(); k++) r[k] = row[k - 1] + row[k]; row = r; }
  for (int i = -2; i <= n + 2; i++) { double g = MathUtils::Binomial(n, i); c.trans(); ld e = n < 0 || i < 0 || i > n ? 0 : row[i]; c.check(std::fabs(g - e) <= 1e-12L * e, "binomial", fmt("Binomial(%d,%d) = %.17g, expected %.17Lg", n, i, g, e)); }
  bool threw = false; long long f = 0; try { f = MathUtils::Factorial(n); } catch (const std::invalid_argument&) { threw = true; } c.trans(); if (n > 20) c.check(threw, "factorial-overflow", fmt("Factorial(%d) is not refused", n)); else if (n >= 0) { long long e = 1; for (int i = 2; i <= n; i++) e *= i; c.check(!threw && f == e, "factorial", fmt("Factorial(%d) = %lld", n, f)); }
  double d = n * 7.5 - 100, r = MathUtils::AngleToRadians(d); c.check(std::fabs(r - d * 3.14159265358979323846 / 180) < 1e-12 && std::fabs(MathUtils::RadiansToAngle(r) - d) < 1e-9, "angle", fmt("%.9g degrees", d)); c.count("rows");
}
static bool eqv(const XYZ& a, P3 b, ld tol) { return near(of(a), b, tol); }
static void vectors(Ctx& c) {
  static const std::vector<double> V = {-2, 0, 0.5, 3}; double s = c.pick(std::vector<double>{1, 1e-3, 1e4}); double A[3], B[3]; for (auto& x : A) x = s * c.pick(V); for (auto& x : B) x = s * c.pick(V); XYZ a(A[0], A[1], A[2]), b(B[0], B[1], B[2]); P3 p{A[0], A[1], A[2]}, q{B[0], B[1], B[2]}; std::string at = "a=" + str(p) + " b=" + str(q); c.shard(); c.note("vectors %s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(mc::hd(3, s), A[0]), A[1]), A[2]), B[0]), B[1]), B[2])); ld t = 1e-12L * s, t2 = 1e-12L * s * s;
  c.check(eqv(a + b, p + q, t) && eqv(a.Add(b), p + q, t) && eqv(a - b, p - q, t) && eqv(a.Substract(b), p - q, t) && eqv(-a, -1 * p, t) && eqv(a.Negative(), -1 * p, t), "sum", at); c.check(std::fabs(a.DotProduct(b) - dot(p, q)) <= t2 && std::fabs(a * b - dot(p, q)) <= t2, "dot", at); c.check(eqv(a.CrossProduct(b), cross(p, q), t2) && eqv(a ^ b, cross(p, q), t2), "cross", at + ": " + str(of(a ^ b)));
  c.check(std::fabs(a.Length() - len(p)) <= t && std::fabs(a.SqrLength() - dot(p, p)) <= t2 && std::fabs(a.Distance(b) - dist(p, q)) <= t, "length", at); c.check(eqv(a * 2.5, 2.5 * p, t) && eqv(2.5 * a, 2.5 * p, t) && eqv(a / 4, 0.25 * p, t), "scale", at); XYZ u = a; u += b; c.check(eqv(u, p + q, t), "add-assign", at); u = a; u -= b; c.check(eqv(u, p - q, t), "sub-assign", at); u = a; u *= 3; c.check(eqv(u, 3 * p, t), "mul-assign", at); u = a; u /= 2; c.check(eqv(u, 0.5 * p, t), "div-assign", at); c.trans(16);
  u = a; XYZ n = u.Normalize(); c.check(eqv(u, p, 0), "normalize-pure", at); c.check(eqv(n, unit(p), 1e-12L), "normalize", at + ": " + str(of(n))); if (len(p) > 0) c.check(n.IsUnit() && !n.IsZero(), "unit", at); c.check(a.IsZero() == (len(p) < 1e-9), "zero", at);
  if (len(p) > 0 && len(q) > 0) { ld co = dot(unit(p), unit(q)); ld e = std::acos(std::max<ld>(-1, std::min<ld>(1, co))); c.check(std::fabs(a.AngleTo(b) - e) < 1e-7 && a.AngleTo(b) >= 0 && a.AngleTo(b) <= Constants::Pi + 1e-12, "angle", at + fmt(": %.9g expected %.9Lg", a.AngleTo(b), e)); }
  c.check(a.IsAlmostEqualTo(b) == (A[0] == B[0] && A[1] == B[1] && A[2] == B[2]), "equal", at); UV f(A[0], A[1]), g(B[0], B[1]); c.check(std::fabs(f.CrossProduct(g) - (A[0] * B[1] - A[1] * B[0])) <= t2 && std::fabs((f ^ g) - (A[0] * B[1] - A[1] * B[0])) <= t2 && std::fabs(f * g - (A[0] * B[0] + A[1] * B[1])) <= t2 && std::fabs(f.Distance(g) - std::hypot(A[0] - B[0], A[1] - B[1])) <= t && std::fabs(f.Length() - std::hypot(A[0], A[1])) <= t, "uv", at); UV h = f + g - g * 2 + 3.0 * f; c.check(std::fabs(h.U() - (4 * A[0] - B[0])) <= t && std::fabs(h.V() - (4 * A[1] - B[1])) <= t, "uv-sum", at); UV fn = f; fn = fn.Normalize(); if (f.Length() > 0) c.check(fn.IsUnit() && std::fabs(fn.CrossProduct(f)) <= t, "uv-unit", at); c.check(f.IsAlmostEqualTo(g) == (A[0] == B[0] && A[1] == B[1]), "uv-equal", at);
  for (double w : {1.0, 0.5, 7.0}) { XYZW x(a, w), y(b, 2.0); c.check(eqv(x.ToXYZ(true), p, t) && eqv(x.ToXYZ(false), w * p, t) && x.GetW() == w, "weighted", at); XYZW z = x + y * 2 - y, d = (0.5 * x) / 2; c.check(eqv(z.ToXYZ(false), (ld)w * p + 2 * q, t * 8) && std::fabs(z.GetW() - (w + 2)) < 1e-12 && eqv(d.ToXYZ(true), p, t) && std::fabs(d.GetW() - w / 4) < 1e-12, "weighted-sum", at); x.SetW(3); c.check(eqv(x.ToXYZ(true), p, t) && x.GetW() == 3, "set-weight", at + ": setting the weight moves the point"); z = y; z += x; c.check(eqv(z.ToXYZ(false), 3 * p + 2 * q, 8 * t), "weighted-add", at); c.check(XYZW(a, w).IsAlmostEqualTo(XYZW(b, 2 * w)) == a.IsAlmostEqualTo(b), "weighted-equal", at); }
  c.trans(20); c.count("pairs");
}
static void orthogonal(Ctx& c) {
  static const std::vector<double> V = {-1, 0, 1, 2, -0.3}; double s = c.pick(std::vector<double>{1, 1e-3, 1e3}); double A[3]; for (auto& x : A) x = s * c.pick(V); P3 p{A[0], A[1], A[2]}; if (len(p) == 0) c.skip(); c.shard(); c.note("orthogonal to %s", str(p).c_str()); c.state(mc::hd(mc::hd(mc::hd(s, A[0]), A[1]), A[2])); std::set<std::array<double, 3>> seen;
  for (int i = 0; i < 300 && seen.size() < 7; i++) { XYZ o = XYZ::CreateRandomOrthogonal(XYZ(A[0], A[1], A[2])); c.trans(); c.check(std::fabs(len(of(o)) - 1) < 1e-9 && std::fabs(dot(of(o), unit(p))) < 1e-9, "orthogonal", "to " + str(p) + ": " + str(of(o))); seen.insert({o.X(), o.Y(), o.Z()}); } c.count("axes");
}
typedef std::vector<std::vector<ld>> Mx;
static Mx idm() { Mx m(4, std::vector<ld>(4, 0)); for (int i = 0; i < 4; i++) m[i][i] = 1; return m; }
static Mx mul(const Mx& a, const Mx& b) { Mx r(4, std::vector<ld>(4, 0)); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) r[i][j] += a[i][k] * b[k][j]; return r; }
static P3 app(const Mx& m, P3 p, ld w) { return {m[0][0] * p.x + m[0][1] * p.y + m[0][2] * p.z + w * m[0][3], m[1][0] * p.x + m[1][1] * p.y + m[1][2] * p.z + w * m[1][3], m[2][0] * p.x + m[2][1] * p.y + m[2][2] * p.z + w * m[2][3]}; }
static bool same(const Matrix4d& a, const Mx& b, ld tol) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (!(std::fabs(a.GetElement(i, j) - b[i][j]) <= tol * (1 + std::fabs(b[i][j])))) return false; return true; }
static Mx rot(P3 u, ld t) { u = unit(u); Mx m = idm(); P3 e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int j = 0; j < 3; j++) { P3 r = std::cos(t) * e[j] + std::sin(t) * cross(u, e[j]) + ((1 - std::cos(t)) * dot(u, e[j])) * u; m[0][j] = r.x; m[1][j] = r.y; m[2][j] = r.z; } return m; }
static Mx tra(P3 v) { Mx m = idm(); m[0][3] = v.x; m[1][3] = v.y; m[2][3] = v.z; return m; }
static XYZ X(P3 p) { return XYZ((double)p.x, (double)p.y, (double)p.z); }
struct T { std::string name; Matrix4d m; Mx e; ld det; };
static T pickT(Ctx& c) {
  int k = c.pick(mc::tier(14, 22)); const ld pi = 3.141592653589793238L; P3 ax[] = {{0, 0, 1}, {1, 2, 2}, {-3, 0, 4}, {0.01, 0, 0}}; P3 v[] = {{1, -2, 3}, {100, 0, -0.5}};
  if (k < 6 || k >= 14) { static const double an[] = {0.5, 1.5707963267948966, 3.141592653589793, -2, 7, 1e-3, 0.1, 2.5, 4, 5, 6, 1, -1, -0.2}; P3 a = ax[k % 4]; return {"rotation", Matrix4d::CreateRotation(X(a), an[k % 14]), rot(a, an[k % 14]), 1}; }
  if (k < 8) { P3 o = v[k % 2]; P3 a = ax[1 + k % 2]; ld t = k == 6 ? 0.7 : -pi / 2; Mx e = mul(mul(tra(o), rot(a, (double)t)), tra(-1 * o)); return {"rotation about a point", Matrix4d::CreateRotationAtPoint(X(o), X(a), (double)t), e, 1}; }
  if (k < 10) return {"translation", Matrix4d::CreateTranslation(X(v[k % 2])), tra(v[k % 2]), 1};
  if (k < 12) { P3 s = k == 10 ? P3{2, 0.5, 3} : P3{-1, 2, 2}; Mx m = idm(); m[0][0] = s.x; m[1][1] = s.y; m[2][2] = s.z; return {"scale", Matrix4d::CreateScale(X(s)), m, s.x * s.y * s.z}; }
  P3 n = k == 12 ? P3{0, 0, 2} : P3{1, 2, -2}; ld d = k == 12 ? 0 : 1.5; Mx m = idm(); P3 u = unit(n); P3 e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int j = 0; j < 3; j++) { P3 r = e[j] - (2 * dot(e[j], u)) * u; m[0][j] = r.x; m[1][j] = r.y; m[2][j] = r.z; } P3 o = (-2 * d) * u; m[0][3] = o.x; m[1][3] = o.y; m[2][3] = o.z; return {"reflection", k == 12 ? Matrix4d::CreateReflection(X(n)) : Matrix4d::CreateReflection(X(n), (double)d), m, -1};
}
static void transforms(Ctx& c) {
  int n = 1 + c.pick(mc::tier(3, 4)); Matrix4d m; Mx e = idm(); ld det = 1; std::string at; c.check(same(m, e, 0) && m.IsIdentity(), "identity", "the default matrix is not the identity"); std::vector<T> ts; for (int i = 0; i < n; i++) { T t = pickT(c); if (i == 0) c.shard(); at += (i ? " * " : "") + t.name; c.check(same(t.m, t.e, 1e-9L), "create", t.name + " has wrong elements"); m = m * t.m; e = mul(e, t.e); det *= t.det; ts.push_back(t); c.trans(); } uint64_t h = n; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) h = mc::hd(h, (double)e[i][j]); c.note("%s", at.c_str()); c.state(h);
  c.check(same(m, e, 1e-9L), "compose", at + ": wrong product"); Matrix4d m2 = ts[0].m; if (n > 1) { Matrix4d r = ts[n - 1].m; for (int i = n - 2; i >= 0; i--) r = ts[i].m.Multiply(r); c.check(same(r, e, 1e-9L), "associative", at); } ld big = 1; for (auto& r : e) for (ld x : r) big = std::max(big, std::fabs(x));
  for (P3 p : {P3{0, 0, 0}, P3{1, -2, 0.5}, P3{30, 7, -11}}) { P3 a = of(m.OfPoint(X(p))), v = of(m.OfVector(X(p))); c.check(near(a, app(e, p, 1), 1e-9L * big * 50), "point", at); c.check(near(v, app(e, p, 0), 1e-9L * big * 50), "vector", at); XYZW w = m.OfWeightedPoint(XYZW(X(p), 2.5)); c.check(std::fabs(w.GetW() - 2.5) < 1e-9 && near(of(w.ToXYZ(true)), a, 1e-9L * big * 50), "weighted", at); P3 s = p; for (int i = n - 1; i >= 0; i--) s = of(ts[i].m.OfPoint(X(s))); c.check(near(s, a, 1e-9L * big * 50), "compose-point", at + ": the product does not apply the right factor first"); c.trans(4); }
  c.check(std::fabs(m.GetDeterminant() - det) <= 1e-7L * (1 + std::fabs(det)) * big, "determinant", at + fmt(": %.9g expected %.9Lg", m.GetDeterminant(), det)); c.check(m.HasReflection() == (det < 0), "reflection", at + fmt(": HasReflection %d", m.HasReflection())); Matrix4d inv; bool ok = m.GetInverse(inv); c.check(ok, "inverse-refused", at); c.check(same(inv * m, idm(), 1e-7L * big) && same(m * inv, idm(), 1e-7L * big), "inverse", at + ": not the inverse"); Mx et = idm(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) et[i][j] = e[j][i]; c.check(same(m.GetTranspose(), et, 1e-9L), "transpose", at); P3 sc = of(m.GetScale()); P3 se{std::sqrt(e[0][0] * e[0][0] + e[1][0] * e[1][0] + e[2][0] * e[2][0]), std::sqrt(e[0][1] * e[0][1] + e[1][1] * e[1][1] + e[2][1] * e[2][1]), std::sqrt(e[0][2] * e[0][2] + e[1][2] * e[1][2] + e[2][2] * e[2][2])}; c.check(near(sc, se, 1e-9L * big), "scale", at); Matrix4d fromBasis(m.GetBasisX(), m.GetBasisY(), m.GetBasisZ(), m.GetBasisW()); c.check(same(fromBasis, e, 1e-9L), "basis", at); ld off = 0, id = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ld d = std::fabs(e[i][j] - (i == j)); id = std::max(id, d); if (j < 3 || i == 3) off = std::max(off, d); } if (id < 1e-9 || id > 1e-4) c.check(m.IsIdentity() == (id < 1e-9), "is-identity", at + fmt(": IsIdentity %d", m.IsIdentity())); if (off < 1e-9 || off > 1e-4) c.check(m.IsTranslation() == (off < 1e-9), "is-translation", at + fmt(": IsTranslation %d", m.IsTranslation())); Matrix4d z = m - m, dbl = m + m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) c.check(z.GetElement(i, j) == 0 && dbl.GetElement(i, j) == 2 * m.GetElement(i, j), "sum", at); c.trans(8); c.count(fmt("products of %d", n));
}
static void predicates(Ctx& c) {   // the identity with up to two changed elements
  int i = c.pick(16), j = c.pick(16); if (j < i) c.skip(); double a = c.pick(std::vector<double>{0, 0.5, -0.5, 2, 1e-2}), b = c.pick(std::vector<double>{0, 0.5, -0.5, -2, -1e-2}); if (i == 15 || j == 15) c.skip(); Matrix4d m; m.SetElement(i / 4, i % 4, m.GetElement(i / 4, i % 4) + a); m.SetElement(j / 4, j % 4, m.GetElement(j / 4, j % 4) + b); std::string at = fmt("identity with (%d,%d)%+g and (%d,%d)%+g", i / 4, i % 4, a, j / 4, j % 4, b); c.shard(); c.note("%s", at.c_str()); c.state(i * 16 + j + 256 * (int)(a * 100) + 65536 * (int)(b * 100)); bool id = true, tr = true; for (int k = 0; k < 16; k++) { double d = m.GetElement(k / 4, k % 4) - (k / 4 == k % 4); if (d != 0) { id = false; if (k % 4 != 3 || k == 15) tr = false; } } c.check(m.IsIdentity() == id, "is-identity", at); c.check(m.IsTranslation() == tr, "is-translation", at); c.trans(2); c.count("matrices");
}
static void linear(Ctx& c) {
  int n = 1 + c.pick(3); static const std::vector<double> V = {-1, 0, 2}; std::vector<std::vector<double>> A(n, std::vector<double>(n)); uint64_t h = n; for (auto& r : A) for (auto& x : r) { x = c.pick(V); h = mc::hd(h, x); } c.shard(); double s = c.pick(std::vector<double>{1, 1e-3, 1e5}); h = mc::hd(h, s); for (auto& r : A) for (auto& x : r) x *= s; std::string at = fmt("%dx%d matrix [", n, n); for (auto& r : A) { for (double x : r) at += fmt("%g ", x); at += "; "; } c.note("%s", at.c_str()); c.state(h); auto D = [&](auto& m) -> ld { if (n == 1) return m[0][0]; if (n == 2) return (ld)m[0][0] * m[1][1] - (ld)m[0][1] * m[1][0]; return (ld)m[0][0] * ((ld)m[1][1] * m[2][2] - (ld)m[1][2] * m[2][1]) - (ld)m[0][1] * ((ld)m[1][0] * m[2][2] - (ld)m[1][2] * m[2][0]) + (ld)m[0][2] * ((ld)m[1][0] * m[2][1] - (ld)m[1][1] * m[2][0]); }; ld det = D(A), sn = 1; for (int i = 0; i < n; i++) sn *= s; bool regular = std::fabs(det) > 0.5 * sn;
  double g = MathUtils::GetDeterminant(A); c.trans(); c.check(std::fabs(g - det) <= 1e-9L * sn * 10, "determinant", at + fmt(": %.9g expected %.9Lg", g, det)); std::vector<std::vector<double>> I = {{7, 7}}; bool ok = MathUtils::MakeInverse(A, I); c.trans(); c.check(ok == regular, "invertible", at + fmt(": MakeInverse says %d, the determinant is %.9Lg", ok, det));
  if (regular) { auto P = MathUtils::MatrixMultiply(A, I); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.check(std::fabs(P[i][j] - (i == j)) < 1e-9, "inverse", at); std::vector<std::vector<double>> B(n, std::vector<double>(2)); for (int i = 0; i < n; i++) { B[i][0] = i + 1; B[i][1] = 5 - 3 * i; } auto X = MathUtils::SolveLinearSystem(A, B); c.trans(); c.check((int)X.size() == n, "solve-size", at); for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) { ld r = -B[i][k]; for (int j = 0; j < n; j++) r += (ld)A[i][j] * X[j][k]; c.check(std::fabs(r) < 1e-8, "solve", at + fmt(": residual %.3Lg", r)); }
    int w = 2 * (n - 1) + 1; std::vector<std::vector<double>> Bd(n, std::vector<double>(w, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Bd[i][j - i + n - 1] = A[i][j]; std::vector<std::vector<double>> Y(n, std::vector<double>(2)); bool sok = MathUtils::SolveLinearSystemBanded(n, Bd, w, B, Y); c.trans(); c.check(sok, "banded-refused", at); for (int i = 0; i < n; i++) for (int k = 0; k < 2; k++) { ld r = -B[i][k]; for (int j = 0; j < n; j++) r += (ld)A[i][j] * Y[j][k]; c.check(std::fabs(r) < 1e-8, "banded", at + fmt(": residual %.3Lg", r)); } }
  std::vector<std::vector<double>> Tr = {{1}}; MathUtils::Transpose(A, Tr); c.trans(); c.check((int)Tr.size() == n, "transpose", at + fmt(": %zu rows", Tr.size())); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.check(Tr[i][j] == A[j][i], "transpose", at); auto col = MathUtils::GetColumn(A, n - 1); for (int i = 0; i < n; i++) c.check(col[i] == A[i][n - 1], "column", at); c.count(regular ? "regular" : "singular");
}
static void products(Ctx& c) {   // rectangular products and control point products
  int m = 1 + c.pick(5), n = 1 + c.pick(5), p = 1 + c.pick(5); if (m == 5) m = 9; if (n == 5) n = 17; if (p == 5) p = 12; c.shard(); c.note("%d x %d x %d", m, n, p); c.state(m * 100 + n * 10 + p); std::vector<std::vector<double>> A(m, std::vector<double>(n)), B(n, std::vector<double>(p)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = (i * 5 + j * 3) % 7 - 3 + 0.25; for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) B[i][j] = (i * 2 + j * 5) % 11 - 4.5; auto R = MathUtils::MatrixMultiply(A, B); c.trans(); c.check((int)R.size() == m && (int)R[0].size() == p, "product-size", fmt("%d x %d x %d", m, n, p)); std::vector<std::vector<XYZW>> W(n, std::vector<XYZW>(p)); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) W[i][j] = XYZW(B[i][j], i + 1, -j, 2 + i * j); auto L = ControlPointsUtils::Multiply(A, W); std::vector<std::vector<XYZW>> V(m, std::vector<XYZW>(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) V[i][j] = XYZW(A[i][j], j, i - 2, 1 + i + j); auto Q = ControlPointsUtils::Multiply(V, B); c.trans(2); c.check((int)L.size() == m && (int)L[0].size() == p && (int)Q.size() == m && (int)Q[0].size() == p, "product-size", "points");
  for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { ld e = 0; ld l[4] = {0}, q[4] = {0}; for (int k = 0; k < n; k++) { e += (ld)A[i][k] * B[k][j]; for (int d = 0; d < 4; d++) { l[d] += (ld)A[i][k] * W[k][j][d]; q[d] += (ld)V[i][k][d] * B[k][j]; } } c.check(std::fabs(R[i][j] - e) < 1e-9, "product", fmt("element (%d,%d)", i, j)); for (int d = 0; d < 4; d++) c.check(std::fabs(L[i][j][d] - l[d]) < 1e-9 && std::fabs(Q[i][j][d] - q[d]) < 1e-9, "point-product", fmt("element (%d,%d)", i, j)); }
  auto D = MathUtils::MakeDiagonal(n); auto Z = MathUtils::CreateMatrix(m, n); c.trans(2); c.check((int)Z.size() == m && (int)Z[0].size() == n, "create", "size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.check(D[i][j] == (i == j), "diagonal", "element"); auto xyz = ControlPointsUtils::ToXYZ(W); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) c.check(near(of(xyz[i][j]), P3{W[i][j][0] / W[i][j][3], W[i][j][1] / W[i][j][3], W[i][j][2] / W[i][j][3]}, 1e-9L), "to-points", "element"); auto back = ControlPointsUtils::ToXYZW(xyz); c.check(back[n - 1][p - 1].GetW() == 1 && near(of(back[n - 1][p - 1].ToXYZ(true)), of(xyz[n - 1][p - 1]), 1e-12L), "to-weighted", "element"); c.count("shapes");
}
// larger systems: full, permuted, diagonally dominant, banded; solved exactly up to rounding, singular ones refused
static void systems(Ctx& c) {
  int n = 4 + c.pick(mc::tier(9, 29)), kind = c.pick(6); double s = c.pick(std::vector<double>{1, 1e-3, 1e5}); c.shard(); std::vector<std::vector<double>> A(n, std::vector<double>(n, 0)); int hb = n - 1;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v = ((i * 7 + j * 3 + i * j) % 5) - 2; if (kind == 0) v = v * 0.25 + (i == j ? n : 0); else if (kind == 1) v = (j == (i * (n % 3 ? 3 : 2) + 1) % n || false) ? 2 + i % 3 : 0; else if (kind == 2) { hb = 1; v = std::abs(i - j) <= 1 ? (i == j ? 4 : v * 0.4) : 0; } else if (kind == 3) { hb = 3; v = std::abs(i - j) <= 3 ? (i == j ? 7 : v) : 0; } else if (kind == 4) v = std::abs(i - j) == 0 ? 0 : 1; /* zero diagonal, regular */ else v = j == n - 1 ? 2 * (((i * 7) % 5) - 2 + (i == 0 ? n : 0)) : v * 0 + (((i * 7 + j * 3 + i * j) % 5) - 2) + (i == j ? n : 0); A[i][j] = v * s; }
  if (kind == 1) { std::set<int> u; for (int i = 0; i < n; i++) u.insert((i * (n % 3 ? 3 : 2) + 1) % n); if ((int)u.size() < n) c.skip(); } bool singular = kind == 5; if (singular) for (int i = 0; i < n; i++) A[i][n - 1] = 2 * A[i][0];
  std::string at = fmt("%d x %d system of kind %d, scale %g", n, n, kind, s); c.note("%s", at.c_str()); c.state(mc::hd(n * 10 + kind, s)); std::vector<std::vector<double>> I; bool ok = MathUtils::MakeInverse(A, I); c.trans(); if (singular) { c.count("singular"); return; } c.check(ok, "invertible", at + ": refused"); auto P = MathUtils::MatrixMultiply(A, I); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.check(std::fabs(P[i][j] - (i == j)) < 1e-8, "inverse", at + fmt(": element (%d,%d) of the product is %g", i, j, P[i][j]));
  for (int w = 1; w <= 4; w += 3) { std::vector<std::vector<double>> B(n, std::vector<double>(w)); for (int i = 0; i < n; i++) for (int k = 0; k < w; k++) B[i][k] = (i * (k + 2)) % 7 - 3 + 0.5 * k; auto X = MathUtils::SolveLinearSystem(A, B); c.trans(); c.check((int)X.size() == n && (int)X[0].size() == w, "solve-size", at); std::vector<std::vector<double>> Y(n, std::vector<double>(w)), Bd(n, std::vector<double>(2 * hb + 1, 0)); for (int i = 0; i < n; i++) for (int j = std::max(0, i - hb); j <= std::min(n - 1, i + hb); j++) Bd[i][j - i + hb] = A[i][j]; bool sok = MathUtils::SolveLinearSystemBanded(n, Bd, 2 * hb + 1, B, Y); c.trans(); c.check(sok, "banded-refused", at);
    for (int i = 0; i < n; i++) for (int k = 0; k < w; k++) { ld r = -B[i][k], q = r; for (int j = 0; j < n; j++) r += (ld)A[i][j] * X[j][k], q += (ld)A[i][j] * Y[j][k]; c.check(std::fabs(r) < 1e-8, "solve", at + fmt(": residual %.3Lg", r)); c.check(std::fabs(q) < 1e-8, "banded", at + fmt(": residual %.3Lg", q)); } }
  c.count(fmt("systems of kind %d", kind));
}
MC_MAIN("C30", {{"systems", systems}, {"compare", compare}, {"combinatorics", combinatorics}, {"vectors", vectors}, {"orthogonal", orthogonal}, {"transforms", transforms}, {"predicates", predicates}, {"linear", linear}, {"products", products}})
