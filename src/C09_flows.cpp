// C09: projections of a segment on the edges of one quad.
#include "api.h"
using namespace geo;
static Vec emb(const Vec& v, const Embed& e) { Vec r(v.size()); for (size_t i = 0; i < v.size(); i += 2) apply(e, v[i], v[i + 1], &r[i]); return r; }
static Vec at(const Vec& q, double u, double v) { Vec r(2); for (int k = 0; k < 2; ++k) r[k] = (1 - u) * (1 - v) * q[k] + u * (1 - v) * q[2 + k] + u * v * q[4 + k] + (1 - u) * v * q[6 + k]; return r; }
static double size(const Vec& q) { double s = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) s = std::max(s, std::hypot(q[2 * i] - q[2 * j], q[2 * i + 1] - q[2 * j + 1])); return s; }
// smallest relative corner area: how far the cell is from a degenerate one
static double shape(const Vec& q) { Poly p = polyOf(q); L m = 1e300L; double s = size(q); for (int i = 0; i < 4; ++i) m = std::min(m, fabsl(orient(p[i], p[(i + 1) % 4], p[(i + 2) % 4]))); return (double)m / (s * s); }
static Vec run(QLF& f, const Vec& q, const Vec& l, bool quadFirst) {
  if (quadFirst) { f.setQuad(q); f.setLine(l); } else { f.setLine(l); f.setQuad(q); }
  int rc = f.compute();
  if (rc) mc::fail("rc", "computeProjections returned %d for a segment in the cell: quad %s line %s", rc, str(q).c_str(), str(l).c_str());
  return f.all();
}
struct Pt { double u, v; };
static Vec seg(const Vec& q, Pt a, Pt b) { Vec l = at(q, a.u, a.v), m = at(q, b.u, b.v); l.insert(l.end(), m.begin(), m.end()); return l; }
static void check(const Vec& q, Pt a, Pt b, bool affine) {
  QLF f; Vec l = seg(q, a, b); Vec w = run(f, q, l, true);
  double tol = affine ? 1e-10 / shape(q) * 0.1 : 3e-9 / shape(q);
  // corner functions: N = (1-u)(1-v), u(1-v), uv, (1-u)v; edges lo0: 0->1, hi0: 3->2, lo1: 0->3, hi1: 1->2
  auto N = [](Pt p, int k) { double U = (k == 1 || k == 2) ? p.u : 1 - p.u, V = (k >= 2) ? p.v : 1 - p.v; return U * V; };
  static const int E[4][2] = {{0, 1}, {3, 2}, {0, 3}, {1, 2}};
  mc::describe("quad %s segment (%g,%g)-(%g,%g) %s: projections %s", str(q).c_str(), a.u, a.v, b.u, b.v, str(l).c_str(), str(w).c_str());
  for (int k = 0; k < 4; ++k) { double s = 0; for (int e = 0; e < 4; ++e) s += w[e] * ((E[e][1] == k) - (E[e][0] == k)); double want = N(b, k) - N(a, k);
    if (!(std::fabs(s - want) <= tol)) mc::fail("gradient", "gradient of the function of corner %d: projected %.12g, expected %.12g (segment (%g,%g)-(%g,%g), quad %s)", k, s, want, a.u, a.v, b.u, b.v, str(q).c_str()); }
  // a cell edge: weight one on itself (with its direction), zero on the others
  for (int e = 0; e < 4; ++e) for (int dir = 0; dir < 2; ++dir) { int c0 = E[e][dir], c1 = E[e][1 - dir]; auto c = [](int k) { return Pt{(double)(k == 1 || k == 2), (double)(k >= 2)}; }; Pt p = c(c0), r = c(c1);
    if (p.u == a.u && p.v == a.v && r.u == b.u && r.v == b.v) { mc::outcome("cell edge"); for (int x = 0; x < 4; ++x) { double want = x == e ? (dir ? -1 : 1) : 0; if (!(std::fabs(w[x] - want) <= tol)) mc::fail("edge", "edge %d projects with %.12g on edge %d, expected %g; quad %s", e, w[x], x, want, str(q).c_str()); } } }
  if (affine) {
    double du = b.u - a.u, dv = b.v - a.v, um = 0.5 * (a.u + b.u), vm = 0.5 * (a.v + b.v); double want[4] = {du * (1 - vm), du * vm, dv * (1 - um), dv * um};
    for (int e = 0; e < 4; ++e) if (!(std::fabs(w[e] - want[e]) <= tol)) mc::fail("exact", "projection on edge %d is %.12g, integral of its basis function is %.12g (segment (%g,%g)-(%g,%g), quad %s)", e, w[e], want[e], a.u, a.v, b.u, b.v, str(q).c_str());
    Pt m{0.75 * a.u + 0.25 * b.u, 0.75 * a.v + 0.25 * b.v}; Vec w1 = run(f, q, seg(q, a, m), false), w2 = run(f, q, seg(q, m, b), true);
    for (int e = 0; e < 4; ++e) if (!(std::fabs(w1[e] + w2[e] - w[e]) <= 3 * tol)) mc::fail("additive", "projections of the two parts add up to %.12g, whole segment %.12g (edge %d, quad %s)", w1[e] + w2[e], w[e], e, str(q).c_str());
  }
  Vec r = run(f, q, {l[2], l[3], l[0], l[1]}, false);
  for (int e = 0; e < 4; ++e) if (!(std::fabs(r[e] + w[e]) <= 2 * tol)) mc::fail("reverse", "reversed segment projects with %.12g on edge %d, expected %.12g; quad %s", r[e], e, -w[e], str(q).c_str());
  mc::Hash h; for (double x : w) h.r(x); mc::state(h.h);
  if (a.u != b.u || a.v != b.v) { mc::Hash k; for (double x : q) k.d(x); mc::nontrivial(k.d(a.u).d(a.v).d(b.u).d(b.v).h); }
  mc::outcome(affine ? "parallelogram" : "convex quad");
}
static const std::vector<LQuad>& quads(int m, bool starts) {
  static std::map<int, std::vector<LQuad>> cache; int k = m * 2 + starts;
  auto it = cache.find(k); if (it == cache.end()) it = cache.emplace(k, latticeQuads(m, 0, starts, true)).first; return it->second;
}
static bool isAffine(const LQuad& q) { return q.x[0] + q.x[2] == q.x[1] + q.x[3] && q.y[0] + q.y[2] == q.y[1] + q.y[3]; }
SCENARIO(segments) {
  int m = mc::range(2, mc::tier > 0 ? 4 : 3); const auto& Q = quads(m, mc::tier > 0 || m < 4);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier < 0 && (&a - Q.data()) % 13) mc::prune();
  int ei = mc::choose(mc::tier < 0 ? 1 : (mc::tier > 0 && m == 4) ? 2 : (int)embeds().size());
  static const std::vector<double> pq = {0, 0.25, 0.5, 1}, pt = {0, 1.0 / 3, 0.5, 0.875, 1}; const auto& S = mc::tier > 0 && m < 4 ? pt : pq;
  Pt p{mc::pick(S), mc::pick(S)}, r{mc::pick(S), mc::pick(S)};
  Vec q; for (int k = 0; k < 4; ++k) { q.push_back(a.x[k]); q.push_back(a.y[k]); }
  check(emb(q, embeds()[ei]), p, r, isAffine(a));
}
// parallelograms of many shapes and sizes
SCENARIO(parallelograms) {
  static const std::vector<double> A = {-3, -1, -0.1, 0, 0.01, 1, 2.5, 100};
  double ax = mc::pick(A), ay = mc::pick(A); mc::split(); double bx = mc::pick(A), by = mc::pick(A);
  double det = std::fabs(ax * by - ay * bx), s = std::max(std::max(std::fabs(ax), std::fabs(ay)), std::max(std::fabs(bx), std::fabs(by)));
  if (det <= 1e-4 * s * s) mc::prune();
  double ox = mc::pick(std::vector<double>{0, 1, -180.5});
  if ((s < 0.5 || det < 1e-2 * s * s) && ox != 0) mc::prune(); // node positions would be inexact relative to the cell
  if (mc::tier < 0 && (ox != 0 || std::fabs(by) == 2.5 || std::fabs(bx) == 0.01 || std::fabs(ax) == 1)) mc::prune();
  static const std::vector<double> S = {0, 0.3, 1}; Pt p{mc::pick(S), mc::pick(S)}, r{mc::pick(S), mc::pick(S)};
  Vec q = {ox, ox, ox + ax, ox + ay, ox + ax + bx, ox + ay + by, ox + bx, ox + by};
  check(q, p, r, true);
}
// cells of any size and position
SCENARIO(sizes) {
  static const std::vector<double> sizes = {1e-6, 1e-4, 1e-2, 1, 100, 1e4, 1e6, 1e-12, 1e-20, 1e12, 1e20}; double s = mc::pick(sizes); mc::split();
  const auto& Q = quads(2, false); const LQuad& a = mc::pick(Q); int o = mc::choose(2); double g = mc::pick(std::vector<double>{1, 1e-2, 1e2});
  static const std::vector<double> S = {0, 0.3, 1}; Pt p{mc::pick(S), mc::pick(S)}, r{mc::pick(S), mc::pick(S)};
  double ox = o ? -180.5 * s : 0, oy = o ? 60.25 * s : 0;
  Vec q; for (int k = 0; k < 4; ++k) { q.push_back(ox + s * a.x[k]); q.push_back(oy*g + g * s * a.y[k]); }
  check(q, p, r, isAffine(a));
}
// short and nearly axis-aligned segments: every displacement contributes in proportion, however small
SCENARIO(small) {
  static const std::vector<double> D = {0, 1e-3, -1e-3, 1e-5, -1e-5, 1e-6, -1e-6, 3e-7, 1e-8, -1e-8, 1e-9, 0.5, -0.5};
  double du = mc::pick(D), dv = mc::pick(D); mc::split();
  static const std::vector<double> S = {0, 0.25, 0.5, 1}; Pt p{mc::pick(S), mc::pick(S)}; Pt r{p.u + du, p.v + dv};
  if (r.u < 0 || r.u > 1 || r.v < 0 || r.v > 1) mc::prune();
  static const std::vector<Vec> Q = {{0, 0, 1, 0, 1, 1, 0, 1}, {0, 0, 2, 0.5, 1.5, 3.5, -0.5, 3}, {0, 0, 0.001, 0, 0.001, 0.001, 0, 0.001}, {-3, 1, 97, 1, 97, 41, -3, 41}, {0, 0, 1, 0, 1.5, 1.25, -0.25, 1}, {0, 0, 0, -1, 1, -1.25, 1.25, 0.25}};
  const Vec& q = mc::pick(Q); bool affine = std::fabs(q[0] + q[4] - q[2] - q[6]) + std::fabs(q[1] + q[5] - q[3] - q[7]) == 0;
  QLF f; Vec w = run(f, q, seg(q, p, r), mc::flip());
  // the quad positions are representable, the segment ends are rounded: the index space ends are known to a few ulp
  double tol = (affine ? 3e-14 : 5e-10) / shape(q);
  double um = 0.5 * (p.u + r.u), vm = 0.5 * (p.v + r.v), want[4] = {du * (1 - vm), du * vm, dv * (1 - um), dv * um};
  mc::describe("quad %s segment from (%g,%g) by (%g,%g): %s", str(q).c_str(), p.u, p.v, du, dv, str(w).c_str());
  auto N = [](Pt p, int k) { double U = (k == 1 || k == 2) ? p.u : 1 - p.u, V = (k >= 2) ? p.v : 1 - p.v; return U * V; };
  static const int E[4][2] = {{0, 1}, {3, 2}, {0, 3}, {1, 2}};
  if (affine) for (int e = 0; e < 4; ++e) if (!(std::fabs(w[e] - want[e]) <= tol)) mc::fail("small", "projection on edge %d is %.17g, integral of its basis function is %.17g (segment from (%g,%g) by (%g,%g), quad %s)", e, w[e], want[e], p.u, p.v, du, dv, str(q).c_str());
  for (int k = 0; k < 4; ++k) { double s = 0; for (int e = 0; e < 4; ++e) s += w[e] * ((E[e][1] == k) - (E[e][0] == k)); double g = N(r, k) - N(p, k);
    if (!(std::fabs(s - g) <= 4 * tol)) mc::fail("small", "gradient of the function of corner %d: projected %.17g, expected %.17g (segment from (%g,%g) by (%g,%g), quad %s)", k, s, g, p.u, p.v, du, dv, str(q).c_str()); }
  mc::Hash h; for (double x : w) h.r(x); mc::state(h.h); mc::step(5); mc::outcome(affine ? "parallelogram" : "convex quad");
  if (du || dv) mc::nontrivial(mc::Hash().d(du).d(dv).d(p.u).d(p.v).u(&q - Q.data()).h);
}
// a segment cut into many equal pieces: the projections of the pieces add up
SCENARIO(pieces) {
  static const std::vector<Vec> Q = {{0, 0, 1, 0, 1, 1, 0, 1}, {0, 0, 2, 0.5, 1.5, 3.5, -0.5, 3}, {-3, 1, 97, 1, 97, 41, -3, 41}};
  const Vec& q = mc::pick(Q); static const std::vector<double> S = {0, 0.25, 1}; Pt a{mc::pick(S), mc::pick(S)}; mc::split(); Pt b{mc::pick(S), mc::pick(S)};
  int n = mc::pick(std::vector<int>{2, 7, 100, 1000, mc::tier < 0 ? 1000 : mc::tier > 0 ? 100000 : 20000});
  QLF f; Vec whole = run(f, q, seg(q, a, b), true), sum(4, 0.);
  for (int i = 0; i < n; ++i) { double t = (double)i / n, s = (double)(i + 1) / n; Pt x{a.u + t * (b.u - a.u), a.v + t * (b.v - a.v)}, y{a.u + s * (b.u - a.u), a.v + s * (b.v - a.v)}; Vec w = run(f, q, seg(q, x, y), true); for (int e = 0; e < 4; ++e) sum[e] += w[e]; mc::step(3); }
  for (int e = 0; e < 4; ++e) if (!(std::fabs(sum[e] - whole[e]) <= (1e-11 + 1e-15 * n) / shape(q))) mc::fail("pieces", "projections of %d pieces add up to %.14g, whole segment %.14g (edge %d, quad %s)", n, sum[e], whole[e], e, str(q).c_str());
  mc::Hash h; for (double x : sum) h.r(x); mc::state(h.h); mc::nontrivial(mc::Hash().d(a.u).d(a.v).d(b.u).d(b.v).u(n).u(&q - Q.data()).h); mc::outcome("pieces");
}
