// C10: flux of an edge field through the segments of a polyline.
#include "api.h"
using namespace geo;
// edge arrays: component 0 has (n0-1) x n1 edges, component 1 has n0 x (n1-1)
struct Edges { int n0, n1; Edges(const Grid& g) : n0(g.dims[0]), n1(g.dims[1]) {} int size(int k) const { return k == 0 ? (n0 - 1) * n1 : n0 * (n1 - 1); } int id(int k, int i, int j) const { return k == 0 ? i * n1 + j : i * (n1 - 1) + j; } };
// full weight row of every segment: out[segment][edge 0.., edge 1..]
static std::vector<Vec> rows(Flow& f, const Grid& g, int nseg) {
  Edges E(g); int n = E.size(0) + E.size(1); std::vector<Vec> r(nseg, Vec(n, 0.0));
  for (int e = 0; e < n; ++e) { Vec a(E.size(0), 0.0), b(E.size(1), 0.0); (e < E.size(0) ? a[e] : b[e - E.size(0)]) = 1; Vec d(nseg, 0.0); int rc = f.apply(a, b, d); if (rc) mc::fail("rc", "apply returned %d", rc); for (int s = 0; s < nseg; ++s) r[s][e] = d[s]; }
  return r;
}
static void gradient(const Grid& g, const Vec& phi, Vec& a, Vec& b) {
  Edges E(g); a.assign(E.size(0), 0); b.assign(E.size(1), 0);
  for (int i = 0; i + 1 < E.n0; ++i) for (int j = 0; j < E.n1; ++j) a[E.id(0, i, j)] = phi[g.node(i + 1, j)] - phi[g.node(i, j)];
  for (int i = 0; i < E.n0; ++i) for (int j = 0; j + 1 < E.n1; ++j) b[E.id(1, i, j)] = phi[g.node(i, j + 1)] - phi[g.node(i, j)];
}
// ---- parallelogram grids: the product of two subdivisions mapped by an affine map
static Vec exactRow(const Vec& A, const Vec& B, P p, P q) {
  int n0 = (int)A.size(), n1 = (int)B.size(); Edges E(rectilinear(A, B)); Vec r(E.size(0) + E.size(1), 0.0);
  std::vector<L> t = {0, 1}; P d = q - p;
  for (double a : A) if (d.x != 0) { L s = (a - p.x) / d.x; if (s > 0 && s < 1) t.push_back(s); }
  for (double b : B) if (d.y != 0) { L s = (b - p.y) / d.y; if (s > 0 && s < 1) t.push_back(s); }
  std::sort(t.begin(), t.end());
  L ex = 1e-13L * (A.back() - A[0]), ey = 1e-13L * (B.back() - B[0]);
  for (size_t k = 0; k + 1 < t.size(); ++k) {
    L dt = t[k + 1] - t[k]; if (dt <= 0) continue; P m = p + (0.5L * (t[k] + t[k + 1])) * d;
    if (m.x < A[0] - ex || m.x > A.back() + ex || m.y < B[0] - ey || m.y > B.back() + ey) continue;
    int i = 0, j = 0; while (i + 2 < n0 && m.x > A[i + 1]) ++i; while (j + 2 < n1 && m.y > B[j + 1]) ++j;
    L hx = A[i + 1] - A[i], hy = B[j + 1] - B[j], u = (m.x - A[i]) / hx, v = (m.y - B[j]) / hy, du = dt * d.x / hx, dv = dt * d.y / hy;
    int o = E.size(0);
    r[E.id(0, i, j)] += (double)(du * (1 - v)); r[E.id(0, i, j + 1)] += (double)(du * v);
    r[o + E.id(1, i, j)] += (double)(dv * (1 - u)); r[o + E.id(1, i + 1, j)] += (double)(dv * u);
  }
  return r;
}
static const std::vector<Vec>& subs() { static const std::vector<Vec> s = {{0, 1}, {0, 1, 2}, {0, 1, 2, 3}, {0, 0.5, 2}, {0, 1.5, 1.75, 3}, {2, 1, 0}}; return s; }
static Vec points(const Vec& A, bool fine) { // nodes, middles, and both sides outside
  Vec s(A); std::sort(s.begin(), s.end()); Vec r; r.push_back(s[0] - 0.5); for (size_t i = 0; i + 1 < s.size(); ++i) { r.push_back(s[i]); r.push_back(0.5 * (s[i] + s[i + 1])); if (fine) r.push_back(s[i] + (s[i + 1] - s[i]) / 3); } r.push_back(s.back()); r.push_back(s.back() + 0.5); return r; }
static Vec sorted(Vec v) { std::sort(v.begin(), v.end()); return v; }
static void product(const Vec& A, const Vec& B, const Embed& e, const std::vector<P>& line, double accuracy = 1e-9) {
  Grid g = rectilinear(A, B).mapped(e); Vec x, y; for (P p : line) { double o[2]; geo::apply(e, (double)p.x, (double)p.y, o); x.push_back(o[0]); y.push_back(o[1]); }
  Flow f; int ns = (int)line.size() - 1; if (ns & 1) { f.setSrc(g); f.setDst(x, y); } else { f.setDst(x, y); f.setSrc(g); }
  if (f.compute()) mc::fail("rc", "computeWeights failed");
  auto r = rows(f, g, ns); bool in = false; double hmin = 1e300; for (size_t i = 0; i + 1 < A.size(); ++i) hmin = std::min(hmin, std::fabs(A[i + 1] - A[i])); for (size_t i = 0; i + 1 < B.size(); ++i) hmin = std::min(hmin, std::fabs(B[i + 1] - B[i]));
  mc::Hash h; bool rev0 = A[0] > A.back(), rev1 = B[0] > B.back();
  for (int s = 0; s < ns; ++s) {
    P p = line[s], q = line[s + 1]; double len = (double)norm(q - p);
    // decreasing subdivisions: the same in index direction
    auto fold = [&](P v) { return P{rev0 ? -v.x : v.x, rev1 ? -v.y : v.y}; }; Vec A2(A), B2(B); if (rev0) for (double& a : A2) a = -a; if (rev1) for (double& b : B2) b = -b;
    Vec w = exactRow(A2, B2, fold(p), fold(q)); double tol = accuracy * (1 + len) / hmin;
    for (size_t k = 0; k < w.size(); ++k) { h.r(r[s][k]); if (std::fabs(w[k]) > 1e-6) in = true; mc::describe("segment %d edge %zu: weight %.12g expected %.12g", s, k, r[s][k], w[k]);
      if (!(std::fabs(r[s][k] - w[k]) <= tol)) mc::fail("flux", "segment (%g,%g)-(%g,%g) of the grid %s (embedding %s): weight of edge %zu is %.12g, exact %.12g", (double)p.x, (double)p.y, (double)q.x, (double)q.y, rectilinear(A, B).str().c_str(), e.name, k, r[s][k], w[k]); }
  }
  mc::state(h.h); if (in) { mc::Hash k; k.u(g.hash()); for (double v : x) k.d(v); for (double v : y) k.d(v); mc::nontrivial(k.h); } mc::outcome(in ? "flux" : "outside");
}
// every segment between points on a lattice which holds the nodes and the middles of the edges
// and cells, and points outside
SCENARIO(segments) {
  int a = mc::choose(mc::tier < 0 ? 2 : (int)subs().size()), b = mc::choose(mc::tier < 0 ? 2 : (int)subs().size());
  if (mc::tier <= 0 && (a == 2 || b == 2 || (a == 4) != (b == 4))) mc::prune();
  int e = mc::choose(mc::tier < 0 ? 2 : (int)embeds().size()); mc::split();
  if (mc::tier <= 0 && (a + b) % 3 && e % 2) mc::prune(); if (mc::tier == 0 && a == 4 && e != 5) mc::prune();
  bool fine = mc::tier > 0 && subs()[a].size() + subs()[b].size() < 6; Vec X = points(subs()[a], fine), Y = points(subs()[b], fine);
  P p{mc::pick(X), mc::pick(Y)}, q{mc::pick(X), mc::pick(Y)};
  product(subs()[a], subs()[b], embeds()[e], {p, q});
}
// polylines: every path of three segments over a lattice: each segment has its own flux
SCENARIO(polylines) {
  int e = mc::choose(mc::tier < 0 ? 1 : mc::tier == 0 ? 3 : (int)embeds().size()); int np = mc::tier < 0 ? 2 : 3 + (mc::tier > 0);
  Vec A = {0, 1, 2}, S = {-0.5, 0.5, 1, 2}; std::vector<P> l; l.push_back(P{mc::pick(S), mc::pick(S)}); mc::split();
  Vec T = mc::tier > 0 ? Vec{0, 1, 1.5} : Vec{0.5, 1, 2.5}; for (int k = 1; k < np; ++k) l.push_back(P{mc::pick(T), mc::pick(T)});
  product(A, A, embeds()[e], l);
}
// many segments: a path over the grid which crosses and follows its lines again and again
SCENARIO(manysegments) {
  int n = mc::pick(mc::tier < 0 ? std::vector<int>{7, 20} : std::vector<int>{5, 9, 17, 33, 65, 130}), e = mc::choose(mc::tier < 0 ? 1 : 4), k0 = mc::choose(5), k1 = mc::choose(4); mc::split(); int m = mc::pick(std::vector<int>{2, 3, 6}); Vec A; for (int i = 0; i <= m; ++i) A.push_back(i);
  static const double X[5] = {0.5, 1, -0.25, 2, 0.75}, Y[4] = {1, 0.5, 1.5, 0}; std::vector<P> l; for (int i = 0; i <= n; ++i) { double u = X[(i + k0) % 5], v = Y[(i * 3 / 2 + k1) % 4]; if (m > 2 && i % 7 == 3) u = m - 0.5; l.push_back(P{u, v}); } product(A, {0, 1, 2}, embeds()[e], l);
}
// long lines over many cells: along grid lines, diagonals and generic, in a rotated grid
SCENARIO(longlines) {
  int n = mc::pick(mc::tier > 0 ? std::vector<int>{3, 5, 8, 13, 20, 33, 50} : std::vector<int>{3, 8, 20}), w = mc::pick(std::vector<int>{1, 2}); int e = mc::choose((int)embeds().size()); mc::split(); if (mc::tier < 0 && (n > 8 || e)) mc::prune();
  bool flipAxes = mc::flip(); Vec A, B; for (int i = 0; i <= n; ++i) A.push_back(i); for (int i = 0; i <= w; ++i) B.push_back(i);
  Vec X = {-1.25, 0, 0.5, 1, n - 0.75, (double)n, n + 2.0}; Vec Y = {-0.25, 0, 0.5, 1}; if (w > 1) Y.push_back(1.75);
  if (mc::tier <= 0) { X = {-1.25, 0, 1, (double)n}; }
  double x0 = mc::pick(X), x1 = mc::pick(X), y0 = mc::pick(Y), y1 = mc::pick(Y);
  if (flipAxes) product(B, A, embeds()[e], {P{y0, x0}, P{y1, x1}}); else product(A, B, embeds()[e], {P{x0, y0}, P{x1, y1}});
}
// very long lines: hundreds of pieces of one segment, and hundreds of short segments in one cell
SCENARIO(verylong) {
  int n = mc::pick(mc::tier < 0 ? std::vector<int>{40} : mc::tier > 0 ? std::vector<int>{64, 100, 129, 200, 257, 400, 600} : std::vector<int>{64, 100, 129, 257}), e = mc::choose(mc::tier > 0 ? 4 : 2), flipAxes = mc::choose(2); mc::split(); Vec A, B = {0, 1, 2}; for (int i = 0; i <= n; ++i) A.push_back(i);
  static const double X[4][2] = {{0, 0}, {-1, 0.3}, {0.5, -0.25}, {1, 0}}, Y[5][2] = {{0, 0}, {1, 1}, {0.5, 1.5}, {0.3, 0.3}, {-0.5, 2.5}}; int i = mc::choose(4), j = mc::choose(5), back = mc::choose(2); P p{X[i][0], Y[j][0]}, q{n + X[i][1], Y[j][1]}; if (back) std::swap(p, q);
  if (flipAxes) product(B, A, embeds()[e], {P{p.y, p.x}, P{q.y, q.x}}); else product(A, B, embeds()[e], {p, q});
}
SCENARIO(manyshort) {
  int n = mc::pick(mc::tier < 0 ? std::vector<int>{20} : std::vector<int>{66, 129, 260, 515}), e = mc::choose(mc::tier > 0 ? 4 : 2), k = mc::choose(3); mc::split(); Vec A = {0, 1, 2}; int m = mc::range(1, 2); Vec B(A.begin(), A.begin() + m + 1); std::vector<P> l; for (int i = 0; i <= n; ++i) { double t = (double)i / n; l.push_back(k == 0 ? P{2 * t, 0.5} : k == 1 ? P{1 + 0.75 * cos(6.28 * t), m * 0.5 + 0.45 * m * sin(6.28 * t)} : P{0.25 + 1.5 * t, m * t}); } product(A, B, embeds()[e], l);
}
// small and large units, near and far from the origin; segments which run close to grid lines and nodes
SCENARIO(scaled) {
  const Embed& e = mc::pick(scaledEmbeds()); mc::split(); int a = mc::choose(4), b = mc::choose(2); if (mc::tier < 0 && (a > 1 || b)) mc::prune();
  static const Vec A[4] = {{0, 1}, {0, 1, 2}, {0, 0.5, 2}, {2, 1, 0}}, B[2] = {{0, 1, 2}, {0, 1.5, 1.75}};
  Vec S = {-0.3, 0, 0.6, 1, 2}; P p{mc::pick(S), mc::pick(S)}, q{mc::pick(S), mc::pick(S)}; product(A[a], B[b], e, {p, q});
}
// thin cells
SCENARIO(thin) {
  const Embed& e = mc::pick(thinEmbeds()); mc::split(); int a = mc::choose(4), b = mc::choose(2); if (mc::tier < 0 && (a > 1 || b)) mc::prune();
  static const Vec A[4] = {{0, 1}, {0, 1, 2}, {0, 0.5, 2}, {2, 1, 0}}, B[2] = {{0, 1, 2}, {0, 1.5, 1.75}};
  Vec S = {-0.3, 0, 0.6, 1, 2}; P p{mc::pick(S), mc::pick(S)}, q{mc::pick(S), mc::pick(S)}; product(A[a], B[b], e, {p, q});
}
// cells that are small compared to the distance from the origin: segments inside of the domain, on and off the grid lines
SCENARIO(far) {
  double r = mc::pick(std::vector<double>{1e3, 1e4, 1e5, 1e6, 1e7}); Embed e = farEmbed(r, mc::choose(4)); mc::split(); Vec A = {0, 1, 2, 3}, B = {0, 1.5, 2, 3};
  Vec S = {0.3, 1, 1.5, 2, 2.7}; P p{mc::pick(S), mc::pick(S)}, q{mc::pick(S), mc::pick(S)}; product(A, B, e, {p, q}, std::max(1e-9, 1e-13 * r));
}
SCENARIO(near) {
  int n = mc::range(1, mc::tier > 0 ? 3 : 2), e = mc::choose(mc::tier < 0 ? 1 : mc::tier > 0 ? (int)embeds().size() : 3); mc::split(); Vec A, B = {0, 1, 2}; for (int i = 0; i <= n; ++i) A.push_back(i);
  static const double D[5] = {0, 0x1p-8, -0x1p-8, 0x1p-18, -0x1p-18}; Vec S = {0, 1, 2, 0.5};
  double l[4]; for (int k = 0; k < 4; ++k) l[k] = mc::pick(S); double dx = D[mc::choose(5)], dy = D[mc::choose(5)]; int which = mc::choose(3);
  if (which != 1) { l[0] += dx; l[1] += dy; } if (which != 0) { l[2] += dx; l[3] += dy; }
  product(A, B, embeds()[e], {P{l[0], l[1]}, P{l[2], l[3]}});
}
// ---- curvilinear grids of convex cells: gradients
static bool convexGrid(const Grid& g, double& shape) {
  int s = 0; shape = 1; for (int c = 0; c < g.cells(); ++c) { Poly p = g.cell(c); L d = 0; for (auto& a : p) for (auto& b : p) d = std::max(d, norm(a - b)); for (int k = 0; k < 4; ++k) { L o = orient(p[k], p[(k + 1) % 4], p[(k + 2) % 4]) / (d * d); if (fabsl(o) < 0.02L) return false; int t = o > 0 ? 1 : -1; if (s && t != s) return false; s = t; shape = std::min(shape, (double)fabsl(o)); } } return true; }
static P inCell(const Grid& g, int c, double u, double v) { Poly p = g.cell(c); return L((1 - u) * (1 - v)) * p[0] + L(u * (1 - v)) * p[1] + L(u * v) * p[2] + L((1 - u) * v) * p[3]; }
static double bilin(const Grid& g, const Vec& phi, int c, double u, double v) { int m = g.dims[1] - 1, i = c / m, j = c % m; return (1 - u) * (1 - v) * phi[g.node(i, j)] + u * (1 - v) * phi[g.node(i + 1, j)] + u * v * phi[g.node(i + 1, j + 1)] + (1 - u) * v * phi[g.node(i, j + 1)]; }
static bool inside(const Grid& g, P a, P b) { // the whole segment is in the grid
  std::vector<std::pair<L, L>> iv; for (int c = 0; c < g.cells(); ++c) { L t0, t1; Poly q = ccw(g.cell(c)); if (clipSeg(a, b, q, t0, t1)) iv.push_back({t0, t1}); }
  std::sort(iv.begin(), iv.end()); L t = 0; for (auto& v : iv) { if (v.first > t + 1e-15L) return false; t = std::max(t, v.second); } return t >= 1 - 1e-15L; }
static void curvi(const Grid& g, double shape) {
  static const std::vector<double> U = {0, 0.25, 0.5, 1}, V3 = {0, 0.5, 1}; const auto& S = mc::tier > 0 && g.cells() <= 4 ? U : V3;
  int c0 = mc::choose(g.cells()); mc::split(); int c1 = mc::choose(g.cells()); double u0 = mc::pick(S), v0 = mc::pick(S), u1 = mc::pick(S), v1 = mc::pick(S);
  if (mc::tier < 0 && (c0 + c1) % 2) mc::prune();
  // nodes and edges are seen from one cell only
  int m = g.dims[1] - 1; auto canon = [&](int c, double u, double v) { return (u == 0 && c / m > 0) || (v == 0 && c % m > 0); }; if (canon(c0, u0, v0) || canon(c1, u1, v1)) mc::prune();
  P a = inCell(g, c0, u0, v0), b = inCell(g, c1, u1, v1); Vec x = {(double)a.x, (double)b.x, (double)a.x}, y = {(double)a.y, (double)b.y, (double)a.y};
  // borders of a curved domain: a segment may leave it
  bool in = c0 == c1 || inside(g, P{x[0], y[0]}, P{x[1], y[1]});
  if (!in) { mc::outcome("leaves the grid"); mc::prune(); }
  Flow f; f.setSrc(g); f.setDst(x, y); if (f.compute()) mc::fail("rc", "computeWeights failed"); auto r = rows(f, g, 2);
  mc::Hash h; for (double w : r[0]) h.r(w); mc::state(h.h);
  double tol = 3e-8 / shape; Edges E(g);
  mc::describe("grid %s segment (%.9g,%.9g)-(%.9g,%.9g)", g.str().c_str(), x[0], y[0], x[1], y[1]);
  for (int k = 0; k < g.nodes(); ++k) { // nodal unit functions span every function
    Vec phi(g.nodes(), 0.0), ea, eb; phi[k] = 1; gradient(g, phi, ea, eb); double s = 0, t = 0; for (int e = 0; e < E.size(0); ++e) { s += ea[e] * r[0][e]; t += ea[e] * r[1][e]; } for (int e = 0; e < E.size(1); ++e) { s += eb[e] * r[0][E.size(0) + e]; t += eb[e] * r[1][E.size(0) + e]; }
    double want = bilin(g, phi, c1, u1, v1) - bilin(g, phi, c0, u0, v0);
    mc::describe("gradient of the function of node %d: %.12g expected %.12g", k, s, want);
    if (!(std::fabs(s - want) <= tol)) mc::fail("gradient", "gradient of the function of node %d: flux %.12g, expected %.12g; grid %s segment (%.9g,%.9g)-(%.9g,%.9g)", k, s, want, g.str().c_str(), x[0], y[0], x[1], y[1]);
  }
  for (size_t e = 0; e < r[0].size(); ++e) if (!(std::fabs(r[0][e] + r[1][e]) <= tol)) mc::fail("reverse", "reversed segment: weight of edge %zu is %.12g, was %.12g; grid %s segment (%.9g,%.9g)-(%.9g,%.9g)", e, r[1][e], r[0][e], g.str().c_str(), x[0], y[0], x[1], y[1]);
  if (!(a.x == b.x && a.y == b.y)) mc::nontrivial(mc::Hash().u(g.hash()).d(x[0]).d(y[0]).d(x[1]).d(y[1]).h);
  mc::outcome(c0 == c1 ? "same cell" : "several cells");
}
// 3x3 nodes, the central node anywhere
SCENARIO(center) {
  static const std::vector<double> D = {-0.375, -0.2, 0, 0.25, 0.4}; double dx = mc::pick(D), dy = mc::pick(D); if (mc::tier <= 0 && (dx == -0.2 || dy == 0.25)) mc::prune();
  int e = mc::choose(mc::tier < 0 ? 1 : mc::tier == 0 ? 2 : (int)embeds().size()); int t = mc::choose(2); Grid g = uniform(3, 3, 0, 2, 0, 2); g.set(1, 1, 1 + dx, 1 + dy); if (t) g.transpose(); if (mc::tier <= 0 && t && e) mc::prune();
  static const int pick[] = {2, 6, 0, 1, 3, 4, 5, 7, 8, 9}; g = g.mapped(embeds()[pick[e]]); if (embeds()[pick[e]].a < 0.05 && embeds()[pick[e]].a > 0) mc::prune(); double shape; if (!convexGrid(g, shape)) mc::prune(); curvi(g, shape);
}
// polar, trapezoidal and bulging grids with more cells
SCENARIO(curved) {
  int kind = mc::choose(4), n0 = mc::range(2, mc::tier > 0 ? 5 : 4), n1 = mc::range(2, mc::tier > 0 ? 4 : 3); bool rev = mc::flip(); Grid g(n0, n1); if (mc::tier < 0 && n0 * n1 > 6) mc::prune();
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { double s = (double)i / (n0 - 1), t = (double)j / (n1 - 1), x, y;
    if (kind == 0) { double R = 1 + s, A = 0.3 + 1.2 * t; x = R * cos(A); y = R * sin(A); } else if (kind == 1) { x = (1 + s) * (0.2 + t); y = 2 * s - 0.5 * t; } else if (kind == 2) { x = 3 * s + 0.2 * sin(2 * t); y = 2 * t + 0.3 * sin(3 * s); } else { x = s + 0.35 * s * t; y = t - 0.2 * s * t; }
    g.set(i, j, x, y); }
  if (rev) g.reverse(0); double shape; if (!convexGrid(g, shape)) mc::prune(); curvi(g, shape);
}
