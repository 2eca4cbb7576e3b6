// conserve.h - driving the conservative interpolation through its C interface
#ifndef CONSERVE_H
#define CONSERVE_H
#include "grids.h"
#include "SgConserveInterp2D.h"
struct Conserve {
  SgConserveInterp2D_type* h = nullptr;
  int nd = 0, ns = 0;
  Conserve() { SgConserveInterp2D_new(&h); mc::step(); }
  ~Conserve() { if (h) SgConserveInterp2D_del(&h); }
  Conserve(const Conserve&) = delete;
  void del() { SgConserveInterp2D_del(&h); h = nullptr; mc::step(); }
  // the arrays handed in live only during the call
  void setDst(const Grid& g) { std::vector<double> a(g.x), b(g.y); const double* c[2] = {a.data(), b.data()}; int d[2] = {g.dims[0], g.dims[1]}; SgConserveInterp2D_setDstGrid(&h, d, c); nd = g.cells(); d[0] = d[1] = -1; mc::step(); std::fill(a.begin(), a.end(), 1e300); std::fill(b.begin(), b.end(), -1e300); }
  void setSrc(const Grid& g, int p0 = 0, int p1 = 0) { std::vector<double> a(g.x), b(g.y); const double* c[2] = {a.data(), b.data()}; int d[2] = {g.dims[0], g.dims[1]}; int p[2] = {p0, p1}; SgConserveInterp2D_setSrcGrid(&h, d, p, c); ns = g.cells(); d[0] = d[1] = -1; mc::step(); std::fill(a.begin(), a.end(), 1e300); std::fill(b.begin(), b.end(), -1e300); }
  int compute() { mc::step(); return SgConserveInterp2D_computeWeights(&h); }
  int apply(const std::vector<double>& s, std::vector<double>& d) { mc::step(); return SgConserveInterp2D_apply(&h, s.data(), d.data()); }
  // weights observed by applying unit source fields: dense [dst][src]; an untouched destination is NaN
  std::vector<std::vector<double>> denseByApply() {
    std::vector<std::vector<double>> w(nd, std::vector<double>(ns));
    for (int s = 0; s < ns; ++s) { std::vector<double> src(ns, 0.0), dst(nd, NAN); src[s] = 1; apply(src, dst); for (int d = 0; d < nd; ++d) w[d][s] = dst[d]; }
    return w;
  }
  struct Entry { int src, dst; double w; };
  // weights by the iterator: reset, get, next until it says stop
  std::vector<Entry> entries(bool doReset = true, size_t limit = 1000000) {
    std::vector<Entry> r; if (doReset) { SgConserveInterp2D_reset(&h); mc::step(); }
    for (;;) { Entry e{-7, -7, NAN}; SgConserveInterp2D_get(&h, &e.src, &e.dst, &e.w); r.push_back(e); int end = SgConserveInterp2D_next(&h); mc::step(2); if (end) break; if (r.size() > limit) mc::fail("endless", "weight iteration does not end"); }
    return r;
  }
};
// the hull has a resolution of 1e-7 of its extent: configurations with distinct features closer than
// that are decided with the wider tolerance
inline double tolFor(const geo::Poly& a, const geo::Poly& b, double scale) {
  using namespace geo;
  std::vector<P> v(a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end());
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    P p = a[i], q = a[(i + 1) % 4], r = b[j], s = b[(j + 1) % 4];
    L d = cross(q - p, s - r); if (fabsl(d) < 1e-13L * scale * scale) continue;
    L t = cross(r - p, s - r) / d, u = cross(r - p, q - p) / d;
    if (t > -1e-9L && t < 1 + 1e-9L && u > -1e-9L && u < 1 + 1e-9L) v.push_back(p + t * (q - p));
  }
  bool fine = true;
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) { L d = norm(v[i] - v[j]); if (d > 1e-11L * scale && d < 1e-6L * scale) fine = false; }
  return fine ? 1e-10 * scale * scale : 1e-6 * scale * scale;
}
inline double scaleOf(const Grid& g) { double m = 0; for (int k = 1; k < g.nodes(); ++k) m = std::max(m, std::max(std::fabs(g.x[k] - g.x[0]), std::fabs(g.y[k] - g.y[0]))); return m; }
#endif
