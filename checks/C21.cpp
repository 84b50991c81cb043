// C21: swapping, reversing, reparametrizing surfaces; closedness.
#include "../mc/knots.hpp"
#include "NurbsSurface.h"
using namespace LNLib; using namespace ref; using mc::Ctx; using mc::fmt;
static LN_NurbsSurface pick(Ctx& c, int maxP) { auto s = gen::pickSurface(c, 1, maxP, mc::tier(2, 3), mc::tier(2, 3), mc::tier(3, 4), 2, mc::tier(3, 5), {1, 3}, {0, 1}); c.shard(); return s; }

static void swap(Ctx& c) {
  auto s = pick(c, mc::tier(3, 5)); std::string at = "swap " + gen::str(s).substr(0, 500); c.note("%s", at.c_str()); c.state(gen::hash(s)); auto before = s; LN_NurbsSurface r; NurbsSurface::Swap(s, r); c.trans(); gen::sameSurface(c, "swap", at, s, r, 1e-12, [](double& u, double& v) { std::swap(u, v); }); c.check(gen::same(s, before), "input", at + ": input modified"); LN_NurbsSurface q; NurbsSurface::Swap(r, q); c.trans(); c.check(gen::same(q, s), "swap-twice", at + ": swapping twice is not the identity"); NurbsSurface::Swap(s, s); c.trans(); c.check(gen::same(s, r), "swap-alias", at + ": swapping in place gives another result"); c.count("swap");
}
static void reverse(Ctx& c) {
  auto s = pick(c, mc::tier(3, 5)); int d = c.pick(3); static const SurfaceDirection DD[] = {SurfaceDirection::All, SurfaceDirection::UDirection, SurfaceDirection::VDirection}; static const char* DN[] = {"all", "u", "v"}; std::string at = std::string("reverse ") + DN[d] + " " + gen::str(s).substr(0, 500); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), d)); auto before = s; double su = s.KnotVectorU.front() + s.KnotVectorU.back(), sv = s.KnotVectorV.front() + s.KnotVectorV.back();
  LN_NurbsSurface r; NurbsSurface::Reverse(s, DD[d], r); c.trans(); gen::sameSurface(c, std::string("reverse-") + DN[d], at, s, r, 1e-8, [&](double& u, double& v) { if (d != 2) u = su - u; if (d != 1) v = sv - v; }); c.check(gen::same(s, before), "input", at + ": input modified"); c.check(std::fabs(r.KnotVectorU.front() - s.KnotVectorU.front()) + std::fabs(r.KnotVectorU.back() - s.KnotVectorU.back()) + std::fabs(r.KnotVectorV.front() - s.KnotVectorV.front()) + std::fabs(r.KnotVectorV.back() - s.KnotVectorV.back()) < 1e-9, "reverse-domain", at + ": the domain changed");
  LN_NurbsSurface q; NurbsSurface::Reverse(r, DD[d], q); c.trans(); gen::sameSurface(c, "reverse-twice", at + " twice", s, q, 1e-8); NurbsSurface::Reverse(s, DD[d], s); c.trans(); c.check(gen::same(s, r), "reverse-alias", at + ": reversing in place gives another result"); c.count(DN[d]);
}
static void reparam(Ctx& c) {
  auto s = pick(c, mc::tier(2, 4)); double d[4]; static const double T[][2] = {{0, 1}, {-2, 3}, {4, 9.5}, {0, 0.25}, {100, 300}, {-1, 0}}; int a = c.pick(mc::tier(5, 7)), b = c.pick(mc::tier(5, 7)); if (a < 6 && a != mc::tier(4, 6)) d[0] = T[a][0], d[1] = T[a][1]; else d[0] = s.KnotVectorU.front(), d[1] = s.KnotVectorU.back(); if (b < 6 && b != mc::tier(4, 6)) d[2] = T[b][0], d[3] = T[b][1]; else d[2] = s.KnotVectorV.front(), d[3] = s.KnotVectorV.back();
  std::string at = gen::str(s).substr(0, 400) + fmt(" to [%g,%g]x[%g,%g]", d[0], d[1], d[2], d[3]); c.note("%s", at.c_str()); c.state(mc::hd(mc::hd(gen::hash(s), d[0] * 7 + d[1]), d[2] * 7 + d[3])); auto before = s; double u0 = s.KnotVectorU.front(), u1 = s.KnotVectorU.back(), v0 = s.KnotVectorV.front(), v1 = s.KnotVectorV.back(); LN_NurbsSurface r; NurbsSurface::Reparametrize(s, d[0], d[1], d[2], d[3], r); c.trans();
  c.check(std::fabs(r.KnotVectorU.front() - d[0]) + std::fabs(r.KnotVectorU.back() - d[1]) + std::fabs(r.KnotVectorV.front() - d[2]) + std::fabs(r.KnotVectorV.back() - d[3]) < 1e-9, "reparam-domain", at + fmt(": the domain is [%g,%g]x[%g,%g]", r.KnotVectorU.front(), r.KnotVectorU.back(), r.KnotVectorV.front(), r.KnotVectorV.back()));
  gen::sameSurface(c, "reparam", at, s, r, 1e-7, [&](double& u, double& v) { u = d[0] + (u - u0) / (u1 - u0) * (d[1] - d[0]); v = d[2] + (v - v0) / (v1 - v0) * (d[3] - d[2]); }); c.check(gen::same(s, before), "input", at + ": input modified"); c.count("reparam");
}
// closedness: which border control points coincide, every subset of closed columns
static void closed(Ctx& c) {
  int p = 1 + c.pick(3), q = 1 + c.pick(3), n = p + 2 + c.pick(2), m = q + 1 + c.pick(2); int wf = c.pick(2); bool ud = c.flip(); c.shard(); auto kn = [](int p, int n, int d) { std::vector<int> mu(n - p - 1, 1); return gen::clamped(p, mu, 0, gen::domains()[d]); }; auto s = gen::surface(p, q, kn(p, n, 1), kn(q, m, 0), 1, wf);
  int mask = c.pick(1 << m); bool want = mask == (1 << m) - 1; for (int j = 0; j < m; j++) if (mask >> j & 1) s.ControlPoints[n - 1][j] = XYZW(s.ControlPoints[0][j].ToXYZ(true), s.ControlPoints[n - 1][j].GetW()); else if (s.ControlPoints[n - 1][j].ToXYZ(true).Distance(s.ControlPoints[0][j].ToXYZ(true)) < 0.1) s.ControlPoints[n - 1][j] = XYZW(XYZ(50, 60, j), 1);
  if (!ud) { LN_NurbsSurface t; NurbsSurface::Swap(s, t); s = t; } std::string at = gen::str(s).substr(0, 400) + fmt(" closed rows mask %d", mask); c.note("%s", at.c_str()); c.state(mc::hd(gen::hash(s), ud)); c.check(NurbsSurface::IsClosed(s, ud) == want, "closed", at + fmt(": IsClosed is %d", !want)); c.trans(); c.count(want ? "closed" : "open");
}
MC_MAIN("C21", {{"swap", swap}, {"reverse", reverse}, {"reparam", reparam}, {"closed", closed}})
