// C13: the search for the cells under a polygon misses none.
#include "api.h"
using namespace geo;
static const std::vector<Vec>& subs() { static const std::vector<Vec> s = {{0, 1}, {0, 1, 2}, {0, 1, 2, 3}, {2, 1, 0}, {0, 0.5, 2}, {0, 1, 1.25, 3}, {0, 0.02, 2}, {0, 1, 2, 2.02, 3}, {0, 1, 3, 6, 10}}; return s; }
static Poly polygon(const Vec& v) { return polyOf(v); }
// does the polygon (point, segment, convex polygon) enter the interior of the cell?
static bool enters(const Poly& poly, const Poly& cell) {
  Poly c = ccw(cell); L sc = 0; for (auto& a : c) for (auto& b : c) sc = std::max(sc, norm(a - b)); L eps = 1e-5L * sc;
  auto deep = [&](P p) { return insideDepth(p, c) > eps; };
  Poly h = hull(poly);
  if (h.size() >= 3 && area(h) > 0) { Poly x = clip(h, c); if (x.size() >= 3 && area(x) > 1e-5L * sc * sc) { P m{0, 0}; for (auto& p : x) m = m + (1.0L / x.size()) * p; if (deep(m)) return true; } return false; }
  if (h.size() >= 2) { L t0, t1; P a = h[0], b = h.back(); if (!clipSeg(a, b, c, t0, t1)) return false; return deep(a + (0.5L * (t0 + t1)) * (b - a)); }
  return deep(h[0]);
}
static void check(const Grid& g, const Vec& poly, int p0 = 0, int p1 = 0, bool required = true, bool gridFirst = true) {
  Overlap o; if (gridFirst) { o.setSrc(g, p0, p1); o.setPoly(poly); } else { o.setPoly(poly); o.setSrc(g, p0, p1); } o.find(); auto r = o.get(); std::set<int> s; mc::Hash h;
  std::string rs; for (int c : r) rs += std::to_string(c) + " "; mc::describe("grid %s polygon %s: cells %s", g.str().c_str(), str(poly).c_str(), rs.c_str());
  for (int c : r) { h.u(c + 1); if (c < 0 || c >= g.cells()) mc::fail("index", "cell index %d of a grid with %d cells; grid %s polygon %s", c, g.cells(), g.str().c_str(), str(poly).c_str()); if (!s.insert(c).second) mc::fail("twice", "cell %d is reported twice; grid %s polygon %s", c, g.str().c_str(), str(poly).c_str()); }
  Poly p = polygon(poly); int n = 0;
  if (required) for (int c = 0; c < g.cells(); ++c) if (enters(p, g.cell(c))) { ++n; if (!s.count(c)) mc::fail("missed", "cell %d overlaps the polygon %s but is not among { %s}; grid %s", c, str(poly).c_str(), rs.c_str(), g.str().c_str()); }
  mc::state(h.h); if (n) { mc::Hash k; k.u(g.hash()); for (double v : poly) k.d(v); mc::nontrivial(k.h); } mc::outcome(n == 0 ? "no overlap" : n == g.cells() ? "all cells" : n == 1 ? "one cell" : "several cells");
}
static Vec lattice(const Vec& A, bool out, bool fine) { Vec s(A); std::sort(s.begin(), s.end()); Vec r; if (out) { r.push_back(s[0] - 0.75); } for (size_t i = 0; i + 1 < s.size(); ++i) { r.push_back(s[i]); if (fine || s.size() < 3) r.push_back(s[i] + 0.4 * (s[i + 1] - s[i])); else if (i == 1) r.push_back(0.5 * (s[i] + s[i + 1])); } r.push_back(s.back()); if (out) r.push_back(s.back() + 2); return r; }
static Vec pickPoly(const Vec& X, const Vec& Y, int n) { Vec v; std::vector<std::pair<double, double>> pts; for (int k = 0; k < n; ++k) { int i = mc::choose((int)(X.size() * Y.size())); pts.push_back({X[i / Y.size()], Y[i % Y.size()]}); if (k == 0) mc::split(); }
  // every polygon once up to its first vertex and direction: the first vertex is the smallest
  for (int k = 1; k < n; ++k) if (pts[k] < pts[0]) mc::prune(); for (auto& p : pts) { v.push_back(p.first); v.push_back(p.second); } if (n == 4) { Poly p = polyOf(v); if (!convex(p)) mc::prune(); } return v; }
// rectilinear grids, any polygon
SCENARIO(rectilinear_grids) {
  int a = mc::choose((int)subs().size()), b = mc::choose((int)subs().size()); if (mc::tier < 0 && (a % 4 || b % 3 || a + b > 6)) mc::prune(); if (mc::tier == 0 && (a * 2 + b) % 3) mc::prune(); int n = mc::range(1, 3);
  Grid g = rectilinear(subs()[a], subs()[b]); bool small = g.nodes() <= 9; Vec X = lattice(subs()[a], true, (small && b < 2) || mc::tier > 0), Y = lattice(subs()[b], true, mc::tier > 0); if (X.size() * Y.size() > 48 && n == 3 && mc::tier <= 0) { X = lattice(subs()[a], true, false); if (Y.size() > 6) Y.erase(Y.begin() + 2); }
  check(g, pickPoly(X, Y, n));
}
SCENARIO(rectilinear_quads) {
  int a = mc::choose(5), b = mc::choose(5); if (mc::tier <= 0 && (a + b) % 2) mc::prune(); if (mc::tier < 0 && a) mc::prune(); Grid g = rectilinear(subs()[a], subs()[b]); double hx = subs()[a].size() > 2 ? subs()[a][1] : 0.5; Vec X = {-0.75, 0.4, hx, 2.5}, Y = {-0.5, 0, 0.7, 1.5}; if (mc::tier > 0) { X.push_back(1.9); Y.push_back(5); } check(g, pickPoly(X, Y, 4));
}
// vertices close to the grid lines, on either side
SCENARIO(near_lines) {
  static const int S[4] = {1, 2, 4, 6}; int a = S[mc::choose(4)], b = S[mc::choose(4)], e = mc::choose(mc::tier < 0 ? 1 : mc::tier > 0 ? 4 : 2), n = mc::range(1, mc::tier < 0 ? 2 : 3); double f = mc::pick(std::vector<double>{0.004, 2e-4, 5e-5}); if (mc::tier == 0 && n == 3 && (a + b) % 3) mc::prune(); bool first = mc::flip(); if (mc::tier <= 0 && first != (a < b)) mc::prune();
  auto lines = [&](Vec A, int k) { Vec s(A); std::sort(s.begin(), s.end()); double h = s[1] - s[0]; Vec r = {s[1] - f * h, s[1] + f * std::min(h, s.size() > 2 ? s[2] - s[1] : h), s[0] + f * h, 0.5 * (s[0] + s[1])}; if (mc::tier > 0 || k) { double g = s.back() - s[s.size() - 2]; r.push_back(s.back() - f * g); } if (k) r.push_back(s[1]); return r; };
  Vec X = lines(subs()[a], 0), Y = lines(subs()[b], 1); Vec v = pickPoly(X, Y, n); const Embed& m = embeds()[e]; for (size_t k = 0; k < v.size(); k += 2) { double o[2]; geo::apply(m, v[k], v[k + 1], o); v[k] = o[0]; v[k + 1] = o[1]; } check(rectilinear(subs()[a], subs()[b]).mapped(m), v, 0, 0, true, first);
}
// affine grids around the polygon
SCENARIO(affine_grids) {
  int e = mc::choose((int)embeds().size()), a = mc::choose(4), b = mc::choose(4), n = mc::range(1, mc::tier > 0 ? 4 : 3); if (mc::tier < 0 && (e || a + b > 3)) mc::prune(); if (mc::tier == 0 && (a + b + e) % 2) mc::prune(); Vec X = lattice(subs()[a], false, a < 2 || (mc::tier > 0 && n < 4)), Y = lattice(subs()[b], false, b < 2); bool first = mc::flip();
  Vec v = pickPoly(X, Y, n); for (size_t k = 0; k < v.size(); k += 2) { double o[2]; geo::apply(embeds()[e], v[k], v[k + 1], o); v[k] = o[0]; v[k + 1] = o[1]; } check(rectilinear(subs()[a], subs()[b]).mapped(embeds()[e]), v, 0, 0, true, first);
}
// affine grids and polygons anywhere, curvilinear and periodic grids: valid, distinct indices
SCENARIO(valid_indices) {
  int kind = mc::choose(4), per = mc::choose(4); Grid g(4, 3); for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) { double s = i / 3.0, t = j / 2.0, x, y; if (kind == 0) { x = (1 + s) * cos(1.5 * t); y = (1 + s) * sin(1.5 * t); } else if (kind == 1) { x = s * cos(6.283185307179586 * t); y = s * sin(6.283185307179586 * t); } else if (kind == 2) { x = s + t; y = t - 0.3 * s; } else { x = 360 * s - 180; y = 180 * t - 90; } g.set(i, j, x, y); }
  double m = kind == 3 ? 150 : 1; Vec S = {-2.5 * m, -0.5 * m, 0.3 * m, 1 * m, 4 * m}; if (mc::tier < 0) S = {-0.5 * m, 4 * m}; check(g, pickPoly(S, S, mc::range(1, mc::tier > 0 ? 4 : 3)), per & 1, per >> 1, kind == 3);
}
// small and large units, near and far from the origin
SCENARIO(scaled) {
  const Embed& m = mc::pick(scaledEmbeds()); int a = mc::choose(4), b = mc::choose(3), n = mc::range(1, mc::tier > 0 ? 4 : 3); if (mc::tier < 0 && (a || b || n > 2)) mc::prune(); bool aligned = m.b == 0; Vec X = lattice(subs()[a], aligned, false), Y = lattice(subs()[b], aligned, b < 1); X.push_back(0.9); if (mc::tier <= 0 && n == 3 && X.size() * Y.size() > 16) mc::prune();
  Vec v = pickPoly(X, Y, n); for (size_t k = 0; k < v.size(); k += 2) { double o[2]; geo::apply(m, v[k], v[k + 1], o); v[k] = o[0]; v[k + 1] = o[1]; } check(rectilinear(subs()[a], subs()[b]).mapped(m), v, 0, 0, true, (a + b) & 1);
}
// thin cells
SCENARIO(thin) {
  const Embed& m = mc::pick(thinEmbeds()); int a = mc::choose(2), b = mc::choose(3), n = mc::range(1, mc::tier > 0 ? 4 : 3); if (mc::tier < 0 && (a || b || n > 2)) mc::prune(); bool aligned = m.b == 0; Vec X = lattice(subs()[a], aligned, false), Y = lattice(subs()[b], aligned, b < 1); X.push_back(0.9); if (mc::tier <= 0 && n == 3 && X.size() * Y.size() > 16) mc::prune();
  Vec v = pickPoly(X, Y, n); for (size_t k = 0; k < v.size(); k += 2) { double o[2]; geo::apply(m, v[k], v[k + 1], o); v[k] = o[0]; v[k + 1] = o[1]; } check(rectilinear(subs()[a], subs()[b]).mapped(m), v, 0, 0, true, (a + b) & 1);
}
// small cells far from the origin
SCENARIO(far) {
  Embed m = farEmbed(mc::pick(std::vector<double>{1e3, 1e4, 1e5}), mc::choose(4)); int a = mc::choose(2), b = mc::choose(3), n = mc::range(1, mc::tier > 0 ? 4 : 3); if (mc::tier < 0 && (a || b || n > 2)) mc::prune(); bool aligned = m.b == 0; Vec X = lattice(subs()[a], aligned, false), Y = lattice(subs()[b], aligned, b < 1); X.push_back(0.9); if (mc::tier <= 0 && n == 3 && X.size() * Y.size() > 16) mc::prune();
  Vec v = pickPoly(X, Y, n); for (size_t k = 0; k < v.size(); k += 2) { double o[2]; geo::apply(m, v[k], v[k + 1], o); v[k] = o[0]; v[k + 1] = o[1]; } check(rectilinear(subs()[a], subs()[b]).mapped(m), v, 0, 0, true, (a + b) & 1);
}
// polygons with many vertices: regular and pointed ones, in both directions, from every first vertex
SCENARIO(vertices) {
  static const int big[] = {20, 33, 65, 128, 129, 255, 256, 257, 258, 300}; int top = mc::tier > 0 ? 24 : mc::tier < 0 ? 6 : 12, n = mc::range(5, top + (mc::tier < 0 ? 0 : 10)), many = n > top; if (many) n = big[n - top - 1]; int a = mc::choose(4), b = mc::choose(3); if (mc::tier < 0 && (a || b)) mc::prune(); mc::split(); const Vec &A = subs()[a + 4], &B = subs()[b + 4]; double X = A.back(), Y = B.back(); int shape = mc::choose(3), first = many ? mc::pick(std::vector<int>{0, 1, n / 2}) : mc::choose(n), dir = mc::choose(2); double cx = mc::pick(Vec{0.1, 0.5, 0.9}) * X, cy = mc::pick(Vec{0.3, 0.7}) * Y, r = mc::pick(Vec{0.02, 0.3, 0.8}) * std::min(X, Y), ph = mc::pick(Vec{0.1, 1.3});
  Vec v; for (int k = 0; k < n; ++k) { int i = dir ? first + n - k : first + k; double t = ph + 6.283185307179586 * (i % n) / n, c = cos(t), s = sin(t); if (shape == 1 && i % n == 2) { c *= 2.5; s *= 2.5; } if (shape == 2) { c *= 1.6; s *= 0.2; } v.push_back(cx + r * c); v.push_back(cy + r * s); }
  check(rectilinear(A, B), v, 0, 0, true, first & 1);
}
// grids with hundreds of cells, small and large polygons anywhere
SCENARIO(large) {
  static const int D[][2] = {{2, 30}, {66, 3}, {3, 130}, {260, 2}, {17, 17}, {40, 25}}; int q = mc::choose(mc::tier < 0 ? 1 : mc::tier > 0 ? 6 : 5), e = mc::choose(mc::tier < 0 ? 1 : 3), n = mc::range(1, 4); mc::split(); int n0 = D[q][0], n1 = D[q][1]; Grid g = uniform(n0, n1, 0, n0 - 1, 0, n1 - 1); double X = n0 - 1, Y = n1 - 1;
  static const Vec F = {0, 0.21, 0.5, 0.87, 1}, W = {0.3, 1.7, 1000}; double cx = mc::pick(F) * X, cy = mc::pick(F) * Y, wx = std::min(X, mc::pick(W)), wy = std::min(Y, mc::pick(W)); int turn = mc::choose(2); Vec v = {cx, cy}; if (n > 1) { v.push_back(cx + wx); v.push_back(cy + (n == 2 ? wy : 0)); } if (n > 2) { v.push_back(cx + wx); v.push_back(cy + wy); } if (n > 3) { v.push_back(cx); v.push_back(cy + wy); }
  if (turn) for (size_t k = 0; k < v.size(); k += 2) { v[k] = X - v[k]; v[k + 1] = Y - v[k + 1]; } const Embed& m = embeds()[e * 2]; for (size_t k = 0; k < v.size(); k += 2) { v[k] = std::min(X, std::max(0.0, v[k])); v[k + 1] = std::min(Y, std::max(0.0, v[k + 1])); double o[2]; geo::apply(m, v[k], v[k + 1], o); v[k] = o[0]; v[k + 1] = o[1]; } if (n == 4 && !convex(polyOf(v))) mc::prune(); check(g.mapped(m), v, 0, 0, true, turn);
}
