// C37: quadrature rules and the Fourier family behind them.
#include "../mc/knots.hpp"
#include "Integrator.h"
#include "FFT.h"
using namespace LNLib; using namespace ref; using namespace gen; using mc::Ctx; using mc::fmt;

struct F1 : IntegrationFunction { std::function<double(double)> f; int calls = 0; void* seen = nullptr; double operator()(double x, void* d) override { calls++; seen = d; return f(x); } };
struct F2 : BinaryIntegrationFunction { std::function<double(double, double)> f; double operator()(double u, double v, void*) const override { return f(u, v); } };
static const std::vector<std::pair<double, double>> IV = {{0, 1}, {-1, 1}, {2, 5}, {-7, -3}, {0, 0.01}, {-100, 300}, {1, 0}, {3, 3}};
static ld mono(int k, double a, double b) { return (std::pow((ld)b, k + 1) - std::pow((ld)a, k + 1)) / (k + 1); }
static ld scale(int k, double a, double b) { return std::fabs((ld)b - a) * std::pow(std::max({std::fabs((ld)a), std::fabs((ld)b), (ld)1e-3}), k) + 1e-300L; }
// Simpson: exact for cubics in every variable; the rule is linear in the integrand, so the monomials decide
static void simpson(Ctx& c) {
  auto [a, b] = c.pick(IV); int k = c.pick(4); c.shard(); std::string at = fmt("Simpson of x^%d over [%g,%g]", k, a, b); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(a, b), k)); F1 f; int kk = k; f.f = [kk](double x) { return std::pow(x, kk); }; int tag; double r = Integrator::Simpson(f, &tag, a, b); c.trans(); c.check(std::fabs(r - mono(k, a, b)) <= 1e-13L * scale(k, a, b) * 10, "simpson", at + fmt(": %.17g", r)); c.check(f.seen == &tag, "data", at + ": the caller's data is not passed on");
  for (auto [p, q] : IV) for (int l = 0; l < 4; l++) { F2 g; int ll = l; g.f = [kk, ll](double u, double v) { return std::pow(u, kk) * std::pow(v, ll); }; double s = Integrator::Simpson(g, nullptr, a, b, p, q); c.trans(); c.check(std::fabs(s - mono(k, a, b) * mono(l, p, q)) <= 1e-12L * scale(k, a, b) * scale(l, p, q), "simpson2", at + fmt(" times v^%d over [%g,%g]: %.17g", l, p, q, s)); } c.count("simpson");
}
// the 24 point Gauss-Legendre table: exact to degree 47
static void gauss(Ctx& c) {
  auto [a, b] = c.pick(IV); int k = c.pick(48); c.shard(); auto& x = Integrator::GaussLegendreAbscissae; auto& w = Integrator::GaussLegendreWeights; std::string at = fmt("Gauss-Legendre of x^%d over [%g,%g]", k, a, b); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(a, b), k)); c.check(x.size() == 24 && w.size() == 24, "table", "not 24 entries"); ld s = 0, h = ((ld)b - a) / 2, m = ((ld)b + a) / 2; for (size_t i = 0; i < x.size() && i < w.size(); i++) s += w[i] * std::pow(m + h * x[i], k); s *= h; c.trans(); c.check(std::fabs(s - mono(k, a, b)) <= 1e-13L * scale(k, a, b), "gauss", at + fmt(": %.17Lg instead of %.17Lg", s, mono(k, a, b))); c.count("gauss");
}
struct Fn { const char* name; std::function<double(double)> f; std::function<ld(ld)> F; };   // on [0,1] of the interval; F is an antiderivative there
static const std::vector<Fn>& fns() { static std::vector<Fn> v; if (v.empty()) { for (int k = 0; k <= 8; k++) v.push_back({"power", [k](double x) { return std::pow(x, k); }, [k](ld x) { return std::pow(x, k + 1) / (k + 1); }}); v.push_back({"exp", [](double x) { return std::exp(x); }, [](ld x) { return std::exp(x); }}); v.push_back({"speed of a parabola", [](double x) { return std::sqrt(1 + 4 * x * x); }, [](ld x) { return 0.5L * x * std::sqrt(1 + 4 * x * x) + 0.25L * std::asinh(2 * x); }}); v.push_back({"cosine", [](double x) { return std::cos(3 * x); }, [](ld x) { return std::sin(3 * x) / 3; }}); v.push_back({"weight", [](double x) { return 1 / (1 + x * x); }, [](ld x) { return std::atan(x); }}); v.push_back({"steep weight", [](double x) { return 1 / (0.2 + x); }, [](ld x) { return std::log(0.2L + x); }}); v.push_back({"negative", [](double x) { return -2 - x; }, [](ld x) { return -2 * x - x * x / 2; }}); } return v; }
static double integrate(const Fn& f, double a, double b, double amp, std::vector<double>& s, bool second, int* calls = nullptr) { F1 g; g.f = [&](double x) { return amp * f.f(b == a ? 0 : (x - a) / (b - a)); }; double r = second ? Integrator::ClenshawCurtisQuadrature2(g, nullptr, a, b, s) : Integrator::ClenshawCurtisQuadrature(g, nullptr, a, b, s); if (calls) *calls = g.calls; return r; }
static void clenshaw(Ctx& c) {
  auto [a, b] = c.pick(IV); int k = c.pick((int)fns().size()); double amp = c.pick(std::vector<double>{1, 1e-6, 1e6}); int n = c.pick(std::vector<int>{24, 50, 64, 100, 101, 300, 1000}); c.shard(); auto& f = fns()[k]; std::string at = fmt("Clenshaw-Curtis of %g times %s (%d) over [%g,%g], series of %d", amp, f.name, k, a, b, n); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(mc::hd(a, b), k), amp), n)); auto s = Integrator::ChebyshevSeries(n), s0 = s; c.check((int)s.size() == n, "series", at + ": series size"); double r2 = integrate(f, a, b, amp, s, true); c.check(s == s0, "series", at + ": the series given by value changed"); double r = integrate(f, a, b, amp, s, false), again = integrate(f, a, b, amp, s, false); c.trans(3); ld e = amp * ((ld)b - a) * (f.F(1) - f.F(0)), S = amp * std::fabs((ld)b - a) * 10; c.check(r == r2, "variants", at + fmt(": %.17g and %.17g", r, r2)); c.check(r == again, "reused", at + fmt(": with the used series %.17g instead of %.17g", again, r)); c.check(std::fabs(r - e) <= (n >= 50 ? 1e-4L : 1e-3L) * std::max(std::fabs(e), S * 0.01L), "clenshaw", at + fmt(": %.17g instead of %.17Lg", r, e)); if (k <= 4 && n >= 24) c.check(std::fabs(r - e) <= 1e-10L * S, "clenshaw-exact", at + fmt(": %.17g instead of %.17Lg", r, e)); c.count("clenshaw");
}
// histories: any sequence of integrals with one series gives what a fresh series gives
static void series(Ctx& c) {
  int n = c.pick(std::vector<int>{50, 100, 300}); int len = 2 + c.pick(mc::tier(2, 3)); std::vector<int> h; for (int i = 0; i < len; i++) h.push_back(c.pick(std::vector<int>{0, 3, 8, 9, 12, 13, 14})); c.shard(); auto s = Integrator::ChebyshevSeries(n); std::string at = fmt("series of %d used for", n); uint64_t hs = n; for (int k : h) { at += fmt(" %d", k); hs = mc::hd(hs, k); } c.note("%s", at.c_str()); c.state(hs); for (int i = 0; i < len; i++) { auto fresh = Integrator::ChebyshevSeries(n); double a = i * 1.5, b = a + 0.5 + i; double r = integrate(fns()[h[i]], a, b, 1, s, false), e = integrate(fns()[h[i]], a, b, 1, fresh, false); c.trans(2); c.check(r == e, "history", at + fmt(": integral %d is %.17g instead of %.17g", i, r, e)); } c.count("histories");
}
// the transforms are linear: every impulse, every size
typedef std::vector<double> V;
static const ld PIl = 3.14159265358979323846264338327950288L;
static void fft(Ctx& c) {
  int kind = c.pick(6), lg = c.pick(mc::tier(8, 10)); bool inv = c.flip(); c.shard(); int n = 1 << lg; if (kind != 0 && n < 2) c.skip(); int len = kind == 0 ? 2 * n : kind == 4 ? n + 1 : n; if (inv && kind >= 4) c.skip(); int j0 = c.pick(len); if (kind == 5 && j0 == 0) c.skip(); static const char* nm[] = {"cdft", "rdft", "ddct", "ddst", "dfct", "dfst"}; std::string at = fmt("%s n=%d case %d of impulse %d", nm[kind], n, 1 + inv, j0); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(mc::hd(kind, n), inv), j0)); V x(len, 0.0); x[j0] = 1; V a = x; a.push_back(77); ld t = PIl / n / (kind == 2 || kind == 3 ? 2 : 1); double wr = std::cos(t), wi = inv ? -std::sin(t) : std::sin(t); V e(len, 0.0);
  switch (kind) { case 0: cdft(2 * n, wr, wi, a); for (int k = 0; k < n; k++) { ld th = (inv ? -2 : 2) * PIl * (ld)((long)(j0 / 2) * k % n) / n; e[2 * k] = j0 % 2 ? -std::sin(th) : std::cos(th); e[2 * k + 1] = j0 % 2 ? std::cos(th) : std::sin(th); } break;
    case 1: rdft(n, wr, wi, a); if (!inv) { for (int k = 0; k <= n / 2; k++) { ld th = 2 * PIl * (ld)((long)j0 * k % n) / n; if (k < n / 2) { e[2 * k] = std::cos(th); if (k) e[2 * k + 1] = std::sin(th); } else e[1] = std::cos(th); } } else for (int k = 0; k < n; k++) { if (j0 == 0) e[k] = 0.5; else if (j0 == 1) e[k] = k % 2 ? -0.5 : 0.5; else { ld th = 2 * PIl * (ld)((long)(j0 / 2) * k % n) / n; e[k] = j0 % 2 ? std::sin(th) : std::cos(th); } } break;
    case 2: ddct(n, wr, wi, a); for (int k = 0; k < n; k++) e[k] = inv ? std::cos(PIl * (j0 + 0.5L) * k / n) : std::cos(PIl * j0 * (k + 0.5L) / n); break;
    case 3: ddst(n, wr, wi, a); for (int k = 0; k < n; k++) { if (inv) { int kk = k ? k : n; e[k] = std::sin(PIl * (j0 + 0.5L) * kk / n); } else { int jj = j0 ? j0 : n; e[k] = std::sin(PIl * jj * (k + 0.5L) / n); } } break;
    case 4: dfct(n, wr, wi, a); for (int k = 0; k <= n; k++) e[k] = std::cos(PIl * (ld)((long)j0 * k % (2 * n)) / n); break;
    case 5: dfst(n, wr, wi, a); for (int k = 1; k < n; k++) e[k] = std::sin(PIl * (ld)((long)j0 * k % (2 * n)) / n); a[0] = e[0]; break; }
  c.trans(); c.check(a.back() == 77, "bounds", at + ": writes behind the data"); for (int k = 0; k < len; k++) c.check(std::fabs(a[k] - e[k]) <= 1e-11 * std::max(1, lg * lg), "transform", at + fmt(": output %d is %.17g instead of %.17g", k, a[k], e[k])); c.count(nm[kind]);
  // and back
  V b(a.begin(), a.end() - 1); double f = 2.0 / n; if (inv) return; switch (kind) { case 0: cdft(2 * n, wr, -wi, b); f = 1.0 / n; break; case 1: rdft(n, wr, -wi, b); break; case 2: { V y = x; ddct(n, wr, -wi, y); y[0] *= 0.5; ddct(n, wr, wi, y); b = y; break; } case 3: { V y = x; ddst(n, wr, -wi, y); y[0] *= 0.5; ddst(n, wr, wi, y); b = y; break; } case 4: { V y = x; y[0] *= 0.5; y[n] *= 0.5; dfct(n, wr, wi, y); y[0] *= 0.5; y[n] *= 0.5; dfct(n, wr, wi, y); b = y; break; } default: b[0] = 0; dfst(n, wr, wi, b); b[0] = 0; } c.trans(); for (int k = 0; k < len; k++) c.check(std::fabs(b[k] * f - x[k]) <= 1e-10, "inverse", at + fmt(": there and back, output %d is %.17g", k, b[k] * f));
}
MC_MAIN("C37", {{"simpson", simpson}, {"gauss", gauss}, {"clenshaw", clenshaw}, {"series", series}, {"fft", fft}})
