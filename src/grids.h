// grids.h - structured grids used by the harnesses, in the layout of the public API:
// coords[component][flat node], the last index varies fastest.
#ifndef GRIDS_H
#define GRIDS_H
#include "geo.h"
#include "mc.h"
#include <string>
struct Grid {
  int dims[2] = {0, 0};
  std::vector<double> x, y;
  Grid() {}
  Grid(int n0, int n1) { dims[0] = n0; dims[1] = n1; x.assign((size_t)n0 * n1, 0); y = x; }
  int nodes() const { return dims[0] * dims[1]; }
  int cells() const { return (dims[0] - 1) * (dims[1] - 1); }
  int node(int i, int j) const { return i * dims[1] + j; }
  void set(int i, int j, double a, double b) { x[node(i, j)] = a; y[node(i, j)] = b; }
  geo::P p(int k) const { return {x[k], y[k]}; }
  geo::Poly cell(int c) const {
    int m = dims[1] - 1, i = c / m, j = c % m;
    return {p(node(i, j)), p(node(i + 1, j)), p(node(i + 1, j + 1)), p(node(i, j + 1))};
  }
  Grid mapped(const geo::Embed& e) const { Grid g = *this; for (int k = 0; k < nodes(); ++k) { double o[2]; geo::apply(e, x[k], y[k], o); g.x[k] = o[0]; g.y[k] = o[1]; } return g; }
  void reverse(int axis) {
    Grid g = *this; for (int i = 0; i < dims[0]; ++i) for (int j = 0; j < dims[1]; ++j) { int a = axis == 0 ? dims[0] - 1 - i : i, b = axis == 1 ? dims[1] - 1 - j : j; g.set(i, j, x[node(a, b)], y[node(a, b)]); } *this = g; }
  void transpose() { Grid g(dims[1], dims[0]); for (int i = 0; i < dims[0]; ++i) for (int j = 0; j < dims[1]; ++j) g.set(j, i, x[node(i, j)], y[node(i, j)]); *this = g; }
  uint64_t hash() const { mc::Hash h; h.u(dims[0]).u(dims[1]); for (double v : x) h.d(v); for (double v : y) h.d(v); return h.h; }
  std::string str() const { std::string s; char b[80]; snprintf(b, 80, "%dx%d[", dims[0], dims[1]); s = b; for (int k = 0; k < nodes() && k < 24; ++k) { snprintf(b, 80, "(%.9g,%.9g)", x[k], y[k]); s += b; } if (nodes() > 24) s += "..."; return s + "]"; }
};
inline Grid uniform(int n0, int n1, double x0, double x1, double y0, double y1) {
  Grid g(n0, n1); for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) g.set(i, j, x0 + (x1 - x0) * i / (n0 - 1), y0 + (y1 - y0) * j / (n1 - 1)); return g;
}
inline Grid rectilinear(const std::vector<double>& a, const std::vector<double>& b) {
  Grid g((int)a.size(), (int)b.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) g.set((int)i, (int)j, a[i], b[j]); return g;
}
// convex position lattice quads, all 4-cycles of an m x m lattice; kind 0: strictly convex,
// 1: also a straight (180 degree) corner, 2: also a repeated corner (triangles)
struct LQuad { int x[4], y[4]; };
inline std::vector<LQuad> latticeQuads(int m, int kind, bool allStarts, bool bothOrient) {
  std::vector<LQuad> r; int N = m * m;
  for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) for (int d = 0; d < N; ++d) {
    int v[4] = {a, b, c, d};
    bool rep = a == b || b == c || c == d || d == a; if (a == c || b == d) continue;
    if (rep && kind < 2) continue;
    if ((a == b) + (b == c) + (c == d) + (d == a) > 1) continue;
    if (!allStarts && !(a <= b && a <= c && a <= d)) continue;
    LQuad q; for (int k = 0; k < 4; ++k) { q.x[k] = v[k] / m; q.y[k] = v[k] % m; }
    int pos = 0, neg = 0, zero = 0, dup = 0;
    for (int k = 0; k < 4; ++k) { int k1 = (k + 1) % 4, k2 = (k + 2) % 4; long o = (long)(q.x[k1] - q.x[k]) * (q.y[k2] - q.y[k]) - (long)(q.y[k1] - q.y[k]) * (q.x[k2] - q.x[k]);
      bool same = v[k] == v[k1] || v[k1] == v[k2]; if (same) dup++; if (o > 0) pos++; else if (o < 0) neg++; else if (!same) zero++; }
    if (pos && neg) continue;
    if (!pos && !neg) continue;
    if (zero && kind < 1) continue;
    if (zero > 1) continue;
    if (zero && dup) continue;
    if (!bothOrient && neg) continue;
    // a straight corner must lie between its neighbours (no spike)
    bool ok = true;
    for (int k = 0; k < 4 && ok; ++k) { int k1 = (k + 1) % 4, k2 = (k + 2) % 4; long dx1 = q.x[k1] - q.x[k], dy1 = q.y[k1] - q.y[k], dx2 = q.x[k2] - q.x[k1], dy2 = q.y[k2] - q.y[k1]; if (dx1 * dy2 - dy1 * dx2 == 0 && dx1 * dx2 + dy1 * dy2 < 0) ok = false; }
    if (ok) r.push_back(q);
  }
  return r;
}
inline Grid quadGrid(const LQuad& q) { Grid g(2, 2); g.set(0, 0, q.x[0], q.y[0]); g.set(1, 0, q.x[1], q.y[1]); g.set(1, 1, q.x[2], q.y[2]); g.set(0, 1, q.x[3], q.y[3]); return g; }
#endif
