// C02: constants and integrals under conservative interpolation of grids that tile known regions.
#include "conserve.h"
using namespace geo;
struct Tiling { Grid g; Poly domain; };
// a grid of n0 x n1 cells which tiles a convex domain; the nodes inside are displaced
static bool tiling(int shape, int n0, int n1, int pattern, Tiling& t) {
  Grid g(n0 + 1, n1 + 1); Poly D; double q[8]; static const double Q[4][8] = {{0, 0, 4, 0, 4, 4, 0, 4}, {-0.5, 1, 3, -0.7, 5, 3, 0.5, 4.5}, {1, 1, 3, 1.5, 3.5, 3, 0.5, 2.5}, {4.25, -0.5, 4.5, 5, -1, 4.75, -0.75, -0.25}};
  if (shape < 4) {
    std::copy(Q[shape], Q[shape] + 8, q);
    for (int i = 0; i <= n0; ++i) for (int j = 0; j <= n1; ++j) { double u = (double)i / n0, v = (double)j / n1; bool bi = i == 0 || i == n0, bj = j == 0 || j == n1;
      if (pattern == 1) { u = 0.35 * u + 0.65 * u * u; v = 0.6 * v + 0.4 * v * v * v; }
      if (pattern == 2 && !bi && !bj) { u += ((i + 2 * j) % 3 - 1) * 0.21 / n0; v += ((2 * i + j) % 3 - 1) * 0.24 / n1; }
      if (pattern == 3) { if (!bi) u += 0.17 * ((j % 2) ? 1 : -1) / n0; if (!bj) v += 0.2 * ((i % 2) ? 1 : -1) / n1; }
      g.set(i, j, (1 - u) * (1 - v) * q[0] + u * (1 - v) * q[2] + u * v * q[4] + (1 - u) * v * q[6], (1 - u) * (1 - v) * q[1] + u * (1 - v) * q[3] + u * v * q[5] + (1 - u) * v * q[7]); }
    for (int k = 0; k < 4; ++k) D.push_back({q[2 * k], q[2 * k + 1]});
  } else { // disk: n0 rings, n1 sectors (at least 4); the cells of the inner ring are triangles
    int m = n1 + 2; Grid p(n0 + 1, m + 1); double cx = 2.1, cy = 1.8, R = 2.5; for (int i = 0; i <= n0; ++i) for (int j = 0; j <= m; ++j) { double r = R * i / n0, a = 6.283185307179586 * (j % m) / m + (pattern == 1 ? 0.3 : 0); p.set(i, j, cx + r * cos(a), cy + r * sin(a)); } g = p; for (int j = 0; j < m; ++j) D.push_back(g.p(g.node(n0, j)));
    if (pattern >= 2) return false;
  }
  for (int c = 0; c < g.cells(); ++c) { Poly p = g.cell(c); if (!convex(p, 1e-9L)) return false; if (area(p) < 1e-3) return false; }
  t.g = g; t.domain = D; return true;
}
static L covered(const Poly& c, const Poly& d) { return overlapArea(c, d); }
static void check(const Tiling& d, const Tiling& s) {
  Conserve c; mc::describe("dst %s src %s", d.g.str().c_str(), s.g.str().c_str()); c.setDst(d.g); c.setSrc(s.g); if (c.compute()) mc::fail("rc", "computeWeights failed");
  int nd = d.g.cells(), ns = s.g.cells(); double scale = std::max(scaleOf(d.g), scaleOf(s.g));
  // constant
  std::vector<double> one(ns, 3.5), r(nd, NAN); c.apply(one, r); mc::Hash h; int full = 0, part = 0, none = 0;
  for (int k = 0; k < nd; ++k) { Poly p = d.g.cell(k); L a = area(p), cov = covered(p, s.domain); double want = (double)(3.5L * cov / a), got = std::isnan(r[k]) ? 0 : r[k]; h.r(got); (cov > a * (1 - 1e-12L) ? full : cov > 1e-9L ? part : none)++;
    mc::describe("destination cell %d: constant 3.5 becomes %.15g, expected %.15g", k, got, want);
    if (!(std::fabs(got - want) <= 1e-10)) { double tol = 0; for (int j = 0; j < ns; ++j) { Poly q = s.g.cell(j); if (overlapArea(p, q) > -1) { double t = tolFor(p, q, scale); if (t > 1e-9 * scale * scale) { Poly x = clip(ccw(p), ccw(q)); if (x.empty()) t = 0; } tol += t; } } tol *= 3.5 / (double)a; if (!(std::fabs(got - want) <= std::max(tol, 1e-10))) mc::fail("constant", "constant 3.5 becomes %.15g in destination cell %d, expected %.15g (tolerance %.2g); dst %s src %s", got, k, want, tol, d.g.str().c_str(), s.g.str().c_str()); } }
  // integral of each unit field
  for (int j = 0; j < ns; ++j) { std::vector<double> u(ns, 0.0), o(nd, 0.0); u[j] = 2; c.apply(u, o); L sum = 0; for (int k = 0; k < nd; ++k) sum += (L)o[k] * area(d.g.cell(k)); Poly q = s.g.cell(j); double want = (double)(2 * covered(q, d.domain)); h.r((double)sum);
    mc::describe("source cell %d: integral %.15g, expected %.15g", j, (double)sum, want);
    if (!(std::fabs((double)sum - want) <= 1e-10 * scale * scale)) { double tol = 0; for (int k = 0; k < nd; ++k) { Poly p = d.g.cell(k); Poly x = clip(ccw(p), ccw(q)); if (!x.empty()) tol += 2 * tolFor(p, q, scale); } if (!(std::fabs((double)sum - want) <= std::max(tol, 1e-10 * scale * scale))) mc::fail("integral", "unit field of source cell %d: integral %.15g over the destination, expected %.15g (tolerance %.2g); dst %s src %s", j, (double)sum, want, tol, d.g.str().c_str(), s.g.str().c_str()); } }
  mc::state(h.h); mc::nontrivial(mc::Hash().u(d.g.hash()).u(s.g.hash()).h); char b[64]; snprintf(b, 64, "%s%s%s", full ? "covered " : "", part ? "partly " : "", none ? "uncovered" : ""); mc::outcome(b);
}
static Tiling moved(Tiling t, double tx, double ty, const Embed& e) { Embed m{"m", e.a, e.b, e.c, e.d, e.a * tx + e.b * ty + e.tx, e.c * tx + e.d * ty + e.ty}; t.g = t.g.mapped(m); for (auto& p : t.domain) { double o[2]; apply(m, (double)p.x, (double)p.y, o); p = {o[0], o[1]}; } return t; }
SCENARIO(tilings) {
  int sd = mc::choose(5), ss = mc::choose(5), pd = mc::choose(4), ps = mc::choose(4); if (mc::tier < 0 && ((sd + ss) % 3 || (pd + ps) % 2)) mc::prune(); mc::split();
  int N = mc::tier > 0 ? 5 : 3; int a = mc::range(1, N), b = mc::range(1, N), c = mc::range(1, N), d = mc::range(1, N); if (mc::tier == 0 && (a + b + c + d) % 2) mc::prune(); if (mc::tier < 0 && (a + b + c + d) > 6) mc::prune();
  static const double T[3][2] = {{0, 0}, {0.37, -0.61}, {2, 1}}; int t = mc::choose(mc::tier < 0 ? 2 : 3); int e = mc::tier > 0 ? mc::choose(2) : (a + b + c) % 2 ? 1 : 0; 
  Tiling D, S; if (!tiling(sd, a, b, pd, D) || !tiling(ss, c, d, ps, S)) mc::prune();
  static const Embed es[2] = {{"id", 1, 0, 0, 1, 0, 0}, {"rot", 0.6, -0.8, 0.8, 0.6, 0.1, 0.2}}; Embed id = es[e]; check(moved(D, 0, 0, id), moved(S, T[t][0], T[t][1], id));
}
// coarse on fine and fine on coarse, the same nodes on both sides included
SCENARIO(refinement) {
  int sh = mc::choose(4), pd = mc::choose(2), f = mc::pick(mc::tier > 0 ? std::vector<int>{1, 2, 3, 4, 7, 16} : std::vector<int>{1, 2, 3, 4, 16}), n = mc::range(1, f == 16 && mc::tier <= 0 ? 1 : mc::tier > 0 ? 4 : 3); mc::split(); int m = mc::range(1, f == 16 && mc::tier <= 0 ? 2 : 3), swap = mc::choose(2), e = mc::choose(mc::tier < 0 ? 1 : (int)embeds().size()); int trans = mc::choose(4);
  if (mc::tier < 0 && f > 2) mc::prune(); Tiling A, B; if (!tiling(sh, n, m, pd, A) || !tiling(sh, n * f, m * f, 0, B)) mc::prune(); if (trans & 1) B.g.transpose(); if (trans & 2) B.g.reverse(0);
  Tiling a = moved(A, 0, 0, embeds()[e]), b = moved(B, 0, 0, embeds()[e]); if (swap) check(a, b); else check(b, a);
}
// almost the same grid: displaced, sheared or stretched by fractions of a cell down to 1e-5
SCENARIO(near) {
  int sh = mc::choose(4), pd = mc::choose(4), n = mc::range(1, mc::tier > 0 ? 5 : 3), m = mc::range(1, 3); mc::split(); static const double D[] = {1e-2, 1e-3, 1e-4, 1e-5}; double d = D[mc::choose(mc::tier < 0 ? 2 : 4)]; int how = mc::choose(6), e = mc::choose(mc::tier > 0 ? 4 : mc::tier < 0 ? 1 : 2), swap = mc::choose(2);
  Tiling A, B; if (!tiling(sh, n, m, pd, A) || !tiling(sh, n, m, 0, B)) mc::prune(); if (mc::choose(2)) B = A;
  Embed w{"w", 1, 0, 0, 1, 0, 0}; switch (how) { case 0: w.tx = d; break; case 1: w.ty = -d; w.tx = d / 3; break; case 2: w.b = d; break; case 3: w.a = 1 + d; break; case 4: w.a = w.d = 1 - d; w.tx = -2 * d; break; default: w.a = 1 - d / 2; w.c = d; w.ty = d; }
  Tiling b = moved(moved(B, 0, 0, w), 0, 0, embeds()[e]), a = moved(A, 0, 0, embeds()[e]); if (swap) check(a, b); else check(b, a);
}
// grids in small and large units, near and far from the origin: nothing depends on the unit of length
SCENARIO(scaled) {
  static const double F[] = {1e-8, 1e-5, 2e-4, 1e-2, 1e3, 1e6, 1e-20, 1e20}, O[] = {0, 3.7, -90}; double f = F[mc::choose(mc::tier < 0 ? 6 : 8)], off = O[mc::choose(mc::tier < 0 ? 1 : 3)]; mc::split();
  int sd = mc::choose(5), ss = mc::choose(5), pat = mc::choose(mc::tier > 0 ? 4 : mc::tier < 0 ? 1 : 3); int a = mc::range(1, 3), b = mc::range(1, mc::tier > 0 ? 3 : 2), c = mc::range(1, 3), d = mc::range(1, mc::tier > 0 ? 3 : 2); if (mc::tier < 0 && a + b + c + d > 5) mc::prune();
  Tiling D, S; if (!tiling(sd, a, b, pat, D) || !tiling(ss, c, d, (pat + 1) % 4, S)) mc::prune();
  int rot = mc::choose(2); Embed e{"scaled", f, 0, 0, f, off * f, -off * f * 0.6}; if (rot) e = {"scaled", 0.6 * f, -0.8 * f, 0.8 * f, 0.6 * f, off * f, 0.3 * off * f};
  check(moved(D, 0, 0, e), moved(S, 0.37, -0.25, e));
}

// thin cells, and cells that are small compared to the distance from the origin
SCENARIO(thinfar) {
  int nt = (int)thinEmbeds().size(), k = mc::choose(nt + 8); Embed e = k < nt ? thinEmbeds()[k] : farEmbed((k - nt) % 2 == 0 ? 1e3 : 1e4, (k - nt) / 2); mc::split();
  int sd = mc::choose(5), ss = mc::choose(5), pat = mc::choose(mc::tier > 0 ? 4 : mc::tier < 0 ? 1 : 3); int a = mc::range(1, 3), b = mc::range(1, 2), c = mc::range(1, 3), d = mc::range(1, mc::tier > 0 ? 3 : 2), shift = mc::choose(3); if (mc::tier < 0 && a + b + c + d > 5) mc::prune();
  Tiling D, S; if (!tiling(sd, a, b, pat, D) || !tiling(ss, c, d, (pat + 1) % 4, S)) mc::prune();
  check(moved(D, 0, 0, e), moved(S, shift == 0 ? 0.37 : shift == 1 ? 0 : 1, shift == 0 ? -0.25 : 0, e));
}

// aligned grids turned by any angle: nodes and edges which coincide or are in line do so only up to round-off errors
SCENARIO(turned) {
  int sh = mc::choose(2), pd = mc::choose(2), n = mc::range(1, mc::tier > 0 ? 5 : mc::tier < 0 ? 2 : 4), m = mc::range(1, 3); mc::split(); int f = mc::range(1, mc::tier > 0 ? 4 : 3), k = mc::choose(mc::tier < 0 ? 2 : mc::tier > 0 ? 40 : 16), shift = mc::choose(3), swap = mc::choose(2), off = mc::choose(2); if (mc::tier <= 0 && (k + n + m) % 2 != off) mc::prune();
  Tiling A, B; if (!tiling(sh ? 3 : 0, n, m, pd, A) || !tiling(sh ? 3 : 0, n * f, m * f, pd, B)) mc::prune(); double t = 0.1 + 0.37 * k, c = 0.1 * cos(t), s = 0.1 * sin(t); Embed e{"turned", c, -s, s, c, off * 7.3, -off * 7.3 * 0.6};
  double sx = shift == 0 ? 0 : shift == 1 ? 4.0 / (n * f) : 2; Tiling a = moved(A, 0, 0, e), b = moved(B, sx, shift == 1 ? 0 : sx / 2, e); if (swap) check(a, b); else check(b, a);
}
