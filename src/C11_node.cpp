// C11: nodal interpolation is the cell-wise bilinear interpolant.
#include "api.h"
#include <fcntl.h>
#include <unistd.h>
using namespace geo;
// the class reports targets outside of the domain on stdout/stderr
static void quiet() { static bool done = false; if (done || mc::verbose) return; done = true; int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); if (!getenv("MC_KEEP_STDERR")) dup2(n, 2); close(n); }
static bool goodGrid(const Grid& g, double& shape) {
  int s = 0; shape = 1; for (int c = 0; c < g.cells(); ++c) { Poly p = g.cell(c); L d = 0; for (auto& a : p) for (auto& b : p) d = std::max(d, norm(a - b)); for (int k = 0; k < 4; ++k) { L o = orient(p[k], p[(k + 1) % 4], p[(k + 2) % 4]) / (d * d); if (fabsl(o) < 0.0002L) return false; int t = o > 0 ? 1 : -1; if (s && t != s) return false; s = t; shape = std::min(shape, (double)fabsl(o)); } } return true; }
static P inCell(const Grid& g, int c, double u, double v) { Poly p = g.cell(c); return L((1 - u) * (1 - v)) * p[0] + L(u * (1 - v)) * p[1] + L(u * v) * p[2] + L((1 - u) * v) * p[3]; }
static Vec weights(const Grid& g, int c, double u, double v) { Vec w(g.nodes(), 0.0); int m = g.dims[1] - 1, i = c / m, j = c % m; w[g.node(i, j)] = (1 - u) * (1 - v); w[g.node(i + 1, j)] = u * (1 - v); w[g.node(i + 1, j + 1)] = u * v; w[g.node(i, j + 1)] = (1 - u) * v; return w; }
// dense weights seen from outside: NaN rows are untouched destinations
static std::vector<Vec> dense(Node& n) { std::vector<Vec> r(n.nd, Vec(n.ns)); for (int s = 0; s < n.ns; ++s) { Vec src(n.ns, 0.0), dst(n.nd, NAN); src[s] = 1; n.apply(src, dst); for (int d = 0; d < n.nd; ++d) r[d][s] = dst[d]; } return r; }
struct Target { int c; double u, v; };
static void check(const Grid& g, double size, double shape, const std::vector<Target>& ts, int p0 = 0, int p1 = 0) {
  // the targets make a grid of 2 x n nodes (padded by the first one)
  int n = std::max(2, ((int)ts.size() + 1) / 2); Grid d(n, 2); std::vector<Target> all = ts; while ((int)all.size() < 2 * n) all.push_back(ts[0]);
  for (int k = 0; k < 2 * n; ++k) { P p = inCell(g, all[k].c, all[k].u, all[k].v); d.x[k] = (double)p.x; d.y[k] = (double)p.y; }
  Node f(100, 1e-10 * size); if (ts.size() & 1) { f.setDst(d); f.setSrc(g, p0, p1); } else { f.setSrc(g, p0, p1); f.setDst(d); } int rc = f.compute(); if (rc) mc::fail("rc", "computeWeights returned %d", rc);
  auto w = dense(f); double tol = 1e-8 / shape; mc::Hash h;
  mc::describe("grid %s targets %s", g.str().c_str(), d.str().c_str());
  for (int k = 0; k < 2 * n; ++k) { Vec e = weights(g, all[k].c, all[k].u, all[k].v); double sum = 0;
    for (int s = 0; s < g.nodes(); ++s) { h.r(w[k][s]); sum += w[k][s]; mc::describe("target %d node %d: %.12g expected %.12g", k, s, w[k][s], e[s]);
      if (std::isnan(w[k][s])) mc::fail("missing", "target (%.15g,%.15g) at index (cell %d, %g, %g) of the grid %s got no value", d.x[k], d.y[k], all[k].c, all[k].u, all[k].v, g.str().c_str());
      if (!(std::fabs(w[k][s] - e[s]) <= tol)) mc::fail("weight", "target (%.15g,%.15g) at (cell %d, %g, %g): weight of node %d is %.12g, expected %.12g; grid %s", d.x[k], d.y[k], all[k].c, all[k].u, all[k].v, s, w[k][s], e[s], g.str().c_str());
      if (w[k][s] < -1e-12) mc::fail("range", "negative weight %.12g of node %d for the target (%.15g,%.15g); grid %s", w[k][s], s, d.x[k], d.y[k], g.str().c_str()); }
    if (!(std::fabs(sum - 1) <= 1e-12)) mc::fail("constant", "weights of the target (%.15g,%.15g) add up to %.15g; grid %s", d.x[k], d.y[k], sum, g.str().c_str()); }
  mc::state(h.h); mc::Hash k; k.u(g.hash()).u(d.hash()); mc::nontrivial(k.h);
}
static double spacing(const Grid& g) { L m = 1e300L; for (int c = 0; c < g.cells(); ++c) { Poly p = g.cell(c); for (int k = 0; k < 4; ++k) m = std::min(m, norm(p[(k + 1) % 4] - p[k])); } return (double)m; }
static std::vector<Target> allTargets(const Grid& g, const std::vector<double>& S) { std::vector<Target> r; for (int c = 0; c < g.cells(); ++c) for (double u : S) for (double v : S) r.push_back({c, u, v}); return r; }
// rectilinear grids under every embedding: every single target, and all targets at once
static const std::vector<Vec>& subs() { static const std::vector<Vec> s = {{0, 1}, {0, 1, 2}, {0, 1, 2, 3, 4}, {0, 0.5, 2}, {0, 1, 1.5, 3}, {2, 1, 0}, {0, 1, 3, 6, 10}, {0, 2, 2.5, 4.5, 5}, {0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 0.05, 5, 5.05, 10}, {0, 0.01, 5}, {0, 5, 5.01, 10}}; return s; }
SCENARIO(rectilinear_) {
  quiet(); int a = mc::choose(mc::tier < 0 ? 3 : (int)subs().size()), b = mc::choose(mc::tier < 0 ? 3 : (int)subs().size()), e = mc::choose(mc::tier < 0 ? 2 : (int)embeds().size()); mc::split();
  if (mc::tier == 0 && e % 3 && (a + b) % 2) mc::prune();
  Grid g = rectilinear(subs()[a], subs()[b]).mapped(embeds()[e]); double shape; if (!goodGrid(g, shape)) mc::prune();
  std::vector<Target> T = allTargets(g, mc::tier > 0 ? std::vector<double>{0, 0.3, 0.5, 0.875, 1} : std::vector<double>{0, 0.3, 1}); int k = mc::choose((int)T.size() + 1);
  if (k == (int)T.size()) { mc::outcome("all targets"); check(g, spacing(g), shape, T); } else { mc::outcome("one target"); check(g, spacing(g), shape, {T[k]}); }
}
// small and large units, near and far from the origin
SCENARIO(scaled) {
  quiet(); const Embed& m = mc::pick(scaledEmbeds()); static const int S[4] = {1, 3, 4, 5}; int a = S[mc::choose(4)], b = S[mc::choose(4)], bend = mc::choose(2); if (mc::tier < 0 && (a > 3 || b > 3)) mc::prune(); mc::split();
  Grid g = rectilinear(subs()[a], subs()[b]); if (bend) for (int k = 0; k < g.nodes(); ++k) { g.x[k] += 0.03 * g.x[k] * g.y[k]; g.y[k] -= 0.02 * g.x[k]; } g = g.mapped(m); double shape; if (!goodGrid(g, shape)) mc::prune();
  std::vector<Target> T = allTargets(g, {0, 0.3, 1}); int k = mc::choose((int)T.size() + 1); if (k == (int)T.size()) { mc::outcome("all targets"); check(g, spacing(g), shape, T); } else { mc::outcome("one target"); check(g, spacing(g), shape, {T[k]}); }
}
// thin cells, targets inside of the domain
SCENARIO(thin) {
  quiet(); const Embed& m = mc::pick(thinEmbeds()); static const int S[4] = {1, 3, 4, 5}; int a = S[mc::choose(4)], b = S[mc::choose(4)], bend = mc::choose(2); if (mc::tier < 0 && (a > 3 || b > 3)) mc::prune(); mc::split();
  Grid g = rectilinear(subs()[a], subs()[b]); if (bend) for (int k = 0; k < g.nodes(); ++k) { g.x[k] += 0.03 * g.x[k] * g.y[k]; g.y[k] -= 0.02 * g.x[k]; } g = g.mapped(m); double shape; if (!goodGrid(g, shape)) mc::prune();
  int c1 = g.dims[1] - 1, c0 = g.dims[0] - 1; std::vector<Target> T; for (auto& t : allTargets(g, {0, 0.3, 0.875, 1})) { double u = t.c / c1 + t.u, v = t.c % c1 + t.v; if (u > 0 && u < c0 && v > 0 && v < c1) T.push_back(t); }
  int k = mc::choose((int)T.size() + 1); if (k == (int)T.size()) { mc::outcome("all targets"); check(g, spacing(g), shape, T); } else { mc::outcome("one target"); check(g, spacing(g), shape, {T[k]}); }
}
// cells that are small compared to the distance from the origin, targets inside of the domain
SCENARIO(far) {
  quiet(); double r = mc::pick(std::vector<double>{1e3, 1e4, 1e5}); Embed m = farEmbed(r, mc::choose(4)); static const int S[4] = {1, 3, 4, 5}; int a = S[mc::choose(4)], b = S[mc::choose(4)], bend = mc::choose(2); if (mc::tier < 0 && (a > 3 || b > 3)) mc::prune(); mc::split();
  Grid g = rectilinear(subs()[a], subs()[b]); if (bend) for (int k = 0; k < g.nodes(); ++k) { g.x[k] += 0.03 * g.x[k] * g.y[k]; g.y[k] -= 0.02 * g.x[k]; } g = g.mapped(m); double shape; if (!goodGrid(g, shape)) mc::prune();
  int c1 = g.dims[1] - 1, c0 = g.dims[0] - 1; std::vector<Target> T; for (auto& t : allTargets(g, {0, 0.3, 0.875, 1})) { double u = t.c / c1 + t.u, v = t.c % c1 + t.v; if (u > 0 && u < c0 && v > 0 && v < c1) T.push_back(t); }
  int k = mc::choose((int)T.size() + 1); if (k == (int)T.size()) { mc::outcome("all targets"); check(g, spacing(g), shape, T); } else { mc::outcome("one target"); check(g, spacing(g), shape, {T[k]}); }
}
SCENARIO(center) {
  quiet(); static const std::vector<double> D = {-0.375, -0.2, 0, 0.25, 0.4}; double dx = mc::pick(D), dy = mc::pick(D); int e = mc::choose(mc::tier < 0 ? 1 : (int)embeds().size()), t = mc::choose(2); mc::split();
  Grid g = uniform(3, 3, 0, 2, 0, 2); g.set(1, 1, 1 + dx, 1 + dy); if (t) g.transpose(); g = g.mapped(embeds()[e]); double shape; if (!goodGrid(g, shape)) mc::prune();
  std::vector<Target> T = allTargets(g, {0, 0.3, 0.5, 1}); int k = mc::choose((int)T.size() + 1); if (k == (int)T.size()) { mc::outcome("all targets"); check(g, spacing(g), shape, T); } else { mc::outcome("one target"); check(g, spacing(g), shape, {T[k]}); }
}
SCENARIO(curved) {
  quiet(); int kind = mc::choose(5), n0 = mc::range(2, mc::tier > 0 ? 9 : 6), n1 = mc::range(2, mc::tier > 0 ? 9 : 5); bool rev = mc::flip(), tr = mc::flip(); Grid g(n0, n1); if (mc::tier < 0 && n0 * n1 > 8) mc::prune(); mc::split();
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { double s = (double)i / (n0 - 1), t = (double)j / (n1 - 1), x, y;
    if (kind == 0) { double R = 1 + s, A = 0.3 + 1.2 * t; x = R * cos(A); y = R * sin(A); } else if (kind == 1) { x = (1 + s) * (0.2 + t); y = 2 * s - 0.5 * t; } else if (kind == 2) { x = 3 * s + 0.2 * sin(2 * t); y = 2 * t + 0.3 * sin(3 * s); } else if (kind == 3) { x = s + 0.35 * s * t; y = t - 0.2 * s * t; } else { double R = 0.3 + s, A = 5.5 * t; x = R * cos(A); y = R * sin(A); }
    g.set(i, j, x, y); }
  if (rev) g.reverse(0); if (tr) g.transpose(); double shape; if (!goodGrid(g, shape)) mc::prune();
  std::vector<Target> T = allTargets(g, {0, 0.3, 0.5}); int k = mc::choose((int)T.size() + 1); if (k == (int)T.size()) { mc::outcome("all targets"); check(g, spacing(g), shape, T); } else { mc::outcome("one target"); check(g, spacing(g), shape, {T[k]}); }
}
// grids with hundreds of nodes: all targets in turn, whatever was searched for before
SCENARIO(large) {
  quiet(); static const int D[][2] = {{2, 30}, {66, 3}, {3, 130}, {260, 2}, {17, 17}, {33, 20}}; int q = mc::choose(mc::tier < 0 ? 1 : mc::tier > 0 ? 6 : 5), kind = mc::choose(3), e = mc::choose(mc::tier < 0 ? 1 : 3), order = mc::choose(4); mc::split();
  int n0 = D[q][0], n1 = D[q][1]; Grid g = uniform(n0, n1, 0, n0 - 1, 0, n1 - 1); if (kind) for (int k = 0; k < g.nodes(); ++k) { double x = g.x[k], y = g.y[k]; if (kind == 1) { g.x[k] = x + 0.2 * y + 0.3 * sin(0.3 * y); g.y[k] = y * 0.7 + 0.3 * sin(0.5 * x); } else { double R = n0 + x, A = 2.0 * y / (n1 - 1); g.x[k] = R * cos(A); g.y[k] = R * sin(A); } } g = g.mapped(embeds()[e * 2]); double shape; if (!goodGrid(g, shape)) mc::prune();
  std::vector<Target> T, all = allTargets(g, {0.3}); int step = order == 3 ? 7 : 1; for (int c = 0; c < (int)all.size(); ++c) T.push_back(all[order == 1 ? all.size() - 1 - c : (size_t)c * step * (order == 2 ? 37 : 1) % all.size()]); for (auto& t : T) { t.u = t.c % 3 * 0.4 + 0.1; t.v = t.c % 5 * 0.2; } if (mc::tier <= 0 && T.size() > 130) T.resize(130); T.push_back({0, 0, 0}); T.push_back({g.cells() - 1, 1, 1}); check(g, spacing(g), shape, T);
}
// closed annuli, with and without the periodicity flag: the first and the last ray coincide, so only the sum of their weights is determined
SCENARIO(periodic) {
  quiet(); int n0 = mc::range(2, mc::tier > 0 ? 6 : 4), n1 = mc::tier > 0 ? mc::range(5, 14) : mc::pick(std::vector<int>{5, 6, 9}), flag = mc::choose(2), tr = mc::choose(2), rev = mc::choose(2); static const double A0[] = {0, 1, -M_PI}; double a0 = A0[mc::choose(3)], warp = mc::choose(2) * 0.3, hole = mc::choose(2) ? 1.0 : 0.2; if (mc::tier < 0 && (n0 > 2 || n1 > 5 || a0 != 0)) mc::prune(); mc::split();
  Grid g(n0, n1); for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { double s = (double)i / (n0 - 1), t = (double)(j % (n1 - 1)) / (n1 - 1), R = hole + s, A = a0 + 2 * M_PI * (t + warp * sin(2 * M_PI * t) / (2 * M_PI)); g.set(i, j, R * cos(A) + 0.5, R * sin(A)); }
  if (rev) g.reverse(1); if (tr) g.transpose(); double shape; if (!goodGrid(g, shape)) mc::prune(); int p0 = tr ? flag : 0, p1 = tr ? 0 : flag;
  std::vector<Target> T = allTargets(g, {0, 0.3, 0.5}); int k = mc::choose((int)T.size() + 1); std::vector<Target> ts = k == (int)T.size() ? T : std::vector<Target>{T[k]}; int n = std::max(2, ((int)ts.size() + 1) / 2); Grid d(n, 2); while ((int)ts.size() < 2 * n) ts.push_back(ts[0]);
  for (int q = 0; q < 2 * n; ++q) { P p = inCell(g, ts[q].c, ts[q].u, ts[q].v); d.x[q] = (double)p.x; d.y[q] = (double)p.y; }
  Node f(100, 1e-10 * spacing(g)); f.setSrc(g, p0, p1); f.setDst(d); f.compute(); auto w = dense(f); double tol = 1e-8 / shape; mc::Hash h; auto fold = [&](int s) { int m = g.dims[1], i = s / m, j = s % m; return tr ? g.node(i % (g.dims[0] - 1), j) : g.node(i, j % (m - 1)); };
  mc::describe("grid %s flags %d %d targets %s", g.str().c_str(), p0, p1, d.str().c_str());
  for (int q = 0; q < 2 * n; ++q) { Vec e = weights(g, ts[q].c, ts[q].u, ts[q].v), a(g.nodes(), 0.0), b(g.nodes(), 0.0); double sum = 0; for (int s = 0; s < g.nodes(); ++s) { if (std::isnan(w[q][s])) mc::fail("missing", "target (%.15g,%.15g) at index (cell %d, %g, %g) of the closed grid %s (periodicity %d %d) got no value", d.x[q], d.y[q], ts[q].c, ts[q].u, ts[q].v, g.str().c_str(), p0, p1); a[fold(s)] += e[s]; b[fold(s)] += w[q][s]; sum += w[q][s]; h.r(w[q][s]); if (w[q][s] < -1e-12) mc::fail("range", "negative weight %.12g", w[q][s]); }
    for (int s = 0; s < g.nodes(); ++s) if (!(std::fabs(a[s] - b[s]) <= tol)) mc::fail("weight", "target (%.15g,%.15g) at (cell %d, %g, %g): weight of node %d is %.12g, expected %.12g; closed grid %s, periodicity %d %d", d.x[q], d.y[q], ts[q].c, ts[q].u, ts[q].v, s, b[s], a[s], g.str().c_str(), p0, p1); if (!(std::fabs(sum - 1) <= 1e-12)) mc::fail("constant", "weights add up to %.15g", sum); }
  mc::state(h.h); mc::nontrivial(mc::Hash().u(g.hash()).u(d.hash()).u(flag).h); mc::outcome(flag ? "periodic" : "not periodic");
}
// targets outside of the domain are left alone, whatever comes before and after them
SCENARIO(outside) {
  quiet(); int e = mc::choose(mc::tier < 0 ? 1 : (int)embeds().size()); int a = mc::choose(3), b = mc::choose(3); mc::split(); Grid g0 = rectilinear(subs()[a], subs()[b]); Grid g = g0.mapped(embeds()[e]);
  double X = subs()[a].back(), Y = subs()[b].back(); Vec S = {-0.5, -1e-3, 0, 0.4, 1, X, X + 1e-3, X + 3}, T = {-2, -1e-3, 0, 0.6, Y, Y + 1e-3}; if (mc::tier < 0) { S = {-0.5, 0.4}; T = {0, Y + 1e-3}; }
  Grid d(2, 2); bool in[4]; double lx[4], ly[4]; for (int k = 0; k < 4; ++k) { if (k < 2 || mc::tier > 0 ) { lx[k] = k == 3 ? X / 2 : mc::pick(S); ly[k] = k == 3 ? Y / 3 : mc::pick(T); } else { lx[k] = k == 2 ? 0.25 : X; ly[k] = k == 2 ? 0.5 : -1; } in[k] = lx[k] >= 0 && lx[k] <= X && ly[k] >= 0 && ly[k] <= Y; double o[2]; geo::apply(embeds()[e], lx[k], ly[k], o); d.x[k] = o[0]; d.y[k] = o[1]; if (mc::tier > 0 && k == 1 && e > 3) { /* bounded */ } }
  if (mc::tier > 0 && e % 4) mc::prune();
  Node f(100, 1e-10 * spacing(g)); f.setSrc(g); f.setDst(d); f.compute(); Vec src(g.nodes()); for (int k = 0; k < g.nodes(); ++k) src[k] = 3 * g0.x[k] - g0.y[k] + 7; Vec dst = {-11.5, -12.5, -13.5, -14.5}, before = dst; f.apply(src, dst); mc::Hash h;
  mc::describe("grid %s targets %s result %s", g.str().c_str(), d.str().c_str(), str(dst).c_str());
  for (int k = 0; k < 4; ++k) { h.r(dst[k]); if (in[k]) { double want = 3 * lx[k] - ly[k] + 7; if (!(std::fabs(dst[k] - want) <= 1e-8 * 30)) mc::fail("linear", "target %d (%g,%g) has value %.12g, expected %.12g", k, lx[k], ly[k], dst[k], want); } else if (dst[k] != before[k]) mc::fail("outside", "target %d (%g,%g) outside of the grid %s (embedding %s) was given the value %.12g", k, lx[k], ly[k], g0.str().c_str(), embeds()[e].name, dst[k]); }
  mc::state(h.h); int c = in[0] + 2 * in[1] + 4 * in[2]; mc::nontrivial(mc::Hash().u(g.hash()).u(d.hash()).h); char b2[32]; snprintf(b2, 32, "inside mask %d", c); mc::outcome(b2);
}
