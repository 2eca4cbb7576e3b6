// api.h - drivers for every class of the library through its C interface. Arrays handed over
// are copies which are overwritten after the call when the interface copies its input.
#ifndef API_H
#define API_H
#include "conserve.h"
#include "SgFindOverlappingCells2D.h"
#include "SgFindPointInCell.h"
#include "SgFlowInterp2D.h"
#include "SgLinearSolve.h"
#include "SgNodeInterp2D.h"
#include "SgQuadIntersect.h"
#include "SgQuadLineFlows.h"
#include "SgQuadLineIntersect.h"
#include "SgTriangulate.h"
#include "SgTripolarGrid.h"
#include "SgBoxIterator.h"
typedef std::vector<double> Vec;
struct Coords { // component arrays which die after the call
  Vec a, b; const double* c[2];
  Coords(const Grid& g) : a(g.x), b(g.y) { c[0] = a.data(); c[1] = b.data(); }
  Coords(const Vec& x, const Vec& y) : a(x), b(y) { c[0] = a.data(); c[1] = b.data(); }
  ~Coords() { std::fill(a.begin(), a.end(), 1e300); std::fill(b.begin(), b.end(), -1e300); }
};
struct Node {
  SgNodeInterp2D_type* h = nullptr; int nd = 0, ns = 0;
  Node(int niter = 100, double tol = 1e-8) { SgNodeInterp2D_new(&h, niter, tol); mc::step(); }
  ~Node() { del(); } Node(const Node&) = delete;
  void del() { if (h) { SgNodeInterp2D_del(&h); mc::step(); } h = nullptr; }
  void setDst(const Grid& g) { Coords c(g); int d[2] = {g.dims[0], g.dims[1]}; SgNodeInterp2D_setDstGrid(&h, d, c.c); nd = g.nodes(); mc::step(); }
  void setSrc(const Grid& g, int p0 = 0, int p1 = 0) { Coords c(g); int d[2] = {g.dims[0], g.dims[1]}, p[2] = {p0, p1}; SgNodeInterp2D_setSrcGrid(&h, d, p, c.c); ns = g.nodes(); mc::step(); }
  int compute() { mc::step(); return SgNodeInterp2D_computeWeights(&h); }
  int apply(const Vec& s, Vec& d) { mc::step(); return SgNodeInterp2D_apply(&h, s.data(), d.data()); }
};
struct Flow {
  SgFlowInterp2D_type* h = nullptr;
  Flow() { SgFlowInterp2D_new(&h); mc::step(); }
  ~Flow() { del(); } Flow(const Flow&) = delete;
  void del() { if (h) { SgFlowInterp2D_del(&h); mc::step(); } h = nullptr; }
  void setDst(const Vec& x, const Vec& y) { Coords c(x, y); int d[1] = {(int)x.size()}; SgFlowInterp2D_setDstGrid(&h, d, c.c); mc::step(); }
  void setSrc(const Grid& g) { Coords c(g); int d[2] = {g.dims[0], g.dims[1]}; SgFlowInterp2D_setSrcGrid(&h, d, c.c); mc::step(); }
  int compute() { mc::step(); return SgFlowInterp2D_computeWeights(&h); }
  int apply(const Vec& e0, const Vec& e1, Vec& d) { const double* s[2] = {e0.data(), e1.data()}; mc::step(); return SgFlowInterp2D_apply(&h, s, d.data()); }
};
struct Finder {
  SgFindPointInCell_type* h = nullptr; int nd = 0;
  Finder(int niter, double tol) { SgFindPointInCell_new(&h, niter, tol); mc::step(); }
  ~Finder() { del(); } Finder(const Finder&) = delete;
  void del() { if (h) { SgFindPointInCell_del(&h); mc::step(); } h = nullptr; }
  void setGrid(const std::vector<int>& dims, const std::vector<int>& per, const std::vector<Vec>& co) {
    std::vector<Vec> c(co); std::vector<const double*> p; for (auto& v : c) p.push_back(v.data()); std::vector<int> d(dims), pe(per);
    SgFindPointInCell_setGrid(&h, (int)dims.size(), d.data(), pe.data(), p.data()); nd = (int)dims.size(); mc::step(); for (auto& v : c) std::fill(v.begin(), v.end(), 1e300); std::fill(d.begin(), d.end(), -1); }
  void setGrid(const Grid& g, int p0 = 0, int p1 = 0) { setGrid({g.dims[0], g.dims[1]}, {p0, p1}, {g.x, g.y}); }
  void reset(const Vec& ind, const Vec& tgt) { Vec i(ind), t(tgt); SgFindPointInCell_reset(&h, i.data(), t.data()); mc::step(); std::fill(i.begin(), i.end(), 1e300); std::fill(t.begin(), t.end(), 1e300); }
  int next() { mc::step(); return SgFindPointInCell_next(&h); }
  Vec pos() { Vec r(nd, NAN); SgFindPointInCell_getPosition(&h, r.data()); mc::step(); return r; }
  Vec ind() { Vec r(nd, NAN); SgFindPointInCell_getIndices(&h, r.data()); mc::step(); return r; }
  double err() { double e = NAN; SgFindPointInCell_getError(&h, &e); mc::step(); return e; }
  Vec hist() { int n = -1; double* p = nullptr; SgFindPointInCell_getErrorHistory(&h, &n, &p); mc::step(); if (n < 0) mc::fail("hist", "error history length %d", n); return n ? Vec(p, p + n) : Vec(); }
};
struct Overlap {
  SgFindOverlappingCells2D_type* h = nullptr;
  Overlap() { SgFindOverlappingCells2D_new(&h); mc::step(); }
  ~Overlap() { del(); } Overlap(const Overlap&) = delete;
  void del() { if (h) { SgFindOverlappingCells2D_del(&h); mc::step(); } h = nullptr; }
  void setSrc(const Grid& g, int p0 = 0, int p1 = 0) { Coords c(g); int d[2] = {g.dims[0], g.dims[1]}, p[2] = {p0, p1}; SgFindOverlappingCells2D_setSrcGrid(&h, d, p, c.c); mc::step(); }
  void setPoly(const Vec& xy) { Vec v(xy); SgFindOverlappingCells2D_setPolygonPoints(&h, (int)xy.size() / 2, v.data()); mc::step(); std::fill(v.begin(), v.end(), 1e300); }
  void find() { SgFindOverlappingCells2D_findSrcCellIndices(&h); mc::step(); }
  std::vector<int> get() { int n = -1; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&h, &n); int* p = nullptr; mc::step(); SgFindOverlappingCells2D_getSrcCellIndices(&h, &p); mc::step(); if (n <= 0) return {}; return std::vector<int>(p, p + n); }
};
struct QQ {
  SgQuadIntersect_type* h = nullptr; Vec a, b;
  QQ() { SgQuadIntersect_new(&h); mc::step(); }
  ~QQ() { del(); } QQ(const QQ&) = delete;
  void del() { if (h) { SgQuadIntersect_del(&h); mc::step(); } h = nullptr; }
  void set(const Vec& q1, const Vec& q2) { a = q1; b = q2; SgQuadIntersect_setQuadPoints(&h, a.data(), b.data()); mc::step(); }
  Vec points() { int n = -1; double* p = nullptr; SgQuadIntersect_getIntersectPoints(&h, &n, &p); mc::step(); if (n < 0) mc::fail("count", "number of points %d", n); return n ? Vec(p, p + 2 * n) : Vec(); }
};
struct QL {
  SgQuadLineIntersect_type* h = nullptr; Vec q, l;
  QL() { SgQuadLineIntersect_new(&h); mc::step(); }
  ~QL() { del(); } QL(const QL&) = delete;
  void del() { if (h) { SgQuadLineIntersect_del(&h); mc::step(); } h = nullptr; }
  void setQuad(const Vec& v) { q = v; SgQuadLineIntersect_setQuadPoints(&h, q.data()); mc::step(); }
  void setLine(const Vec& v) { l = v; SgQuadLineIntersect_setLinePoints(&h, l.data()); mc::step(); }
  Vec points() { int n = -1; double* p = nullptr; SgQuadLineIntersect_collectIntersectPoints(&h, &n, &p); mc::step(); if (n < 0) mc::fail("count", "number of points %d", n); return n ? Vec(p, p + 2 * n) : Vec(); }
};
struct QLF {
  SgQuadLineFlows_type* h = nullptr; Vec q, l;
  QLF() { SgQuadLineFlows_new(&h); mc::step(); }
  ~QLF() { del(); } QLF(const QLF&) = delete;
  void del() { if (h) { SgQuadLineFlows_del(&h); mc::step(); } h = nullptr; }
  void setQuad(const Vec& v) { q = v; SgQuadLineFlows_setQuadPoints(&h, q.data()); mc::step(); }
  void setLine(const Vec& v) { l = v; SgQuadLineFlows_setLinePoints(&h, l.data()); mc::step(); }
  int compute() { mc::step(); return SgQuadLineFlows_computeProjections(&h); }
  double get(int e) { double f = NAN; SgQuadLineFlows_getProjection(&h, e, &f); mc::step(); return f; }
  Vec all() { return {get(0), get(1), get(2), get(3)}; } // low 0, high 0, low 1, high 1
};
struct Solver {
  SgLinearSolve_type* h = nullptr; int nr, nc;
  Solver(int r, int c) : nr(r), nc(c) { SgLinearSolve_new(&h, r, c); mc::step(); }
  ~Solver() { del(); } Solver(const Solver&) = delete;
  void del() { if (h) { SgLinearSolve_del(&h); mc::step(); } h = nullptr; }
  void setMat(const Vec& m) { Vec v(m); SgLinearSolve_setMatrix(&h, v.data()); mc::step(); std::fill(v.begin(), v.end(), 1e300); }
  void setRhs(const Vec& b) { Vec v(b); SgLinearSolve_setRightHandSide(&h, v.data()); mc::step(); std::fill(v.begin(), v.end(), 1e300); }
  int solve() { mc::step(); return SgLinearSolve_solve(&h); }
  Vec sol() { double* p = nullptr; SgLinearSolve_getSolution(&h, &p); mc::step(); return Vec(p, p + nc); }
  double res() { double r = NAN; SgLinearSolve_getResidual(&h, &r); mc::step(); return r; }
};
struct Hull {
  SgTriangulate_type* h = nullptr;
  Hull(const Vec& xy) { Vec v(xy); SgTriangulate_new(&h, (int)xy.size() / 2, v.data()); mc::step(); std::fill(v.begin(), v.end(), 1e300); }
  ~Hull() { del(); } Hull(const Hull&) = delete;
  void del() { if (h) { SgTriangulate_del(&h); mc::step(); } h = nullptr; }
  double area() { double a = NAN; SgTriangulate_getConvexHullArea(&h, &a); mc::step(); return a; }
};
struct Tripolar {
  SgTripolarGrid_type* h = nullptr;
  Tripolar(int n0, int n1, int cap) { int d[2] = {n0, n1}; SgTripolarGrid_new(&h, d, cap); mc::step(); d[0] = d[1] = -1; }
  ~Tripolar() { del(); } Tripolar(const Tripolar&) = delete;
  void del() { if (h) { SgTripolarGrid_del(&h); mc::step(); } h = nullptr; }
  void get(int dims[2], double*** c) { dims[0] = dims[1] = -1; SgTripolarGrid_getGrid(&h, dims, c); mc::step(); }
};
// corners of a 2x2 grid as the flat (node, component) array in cyclic order
inline Vec flatQuad(const Grid& g) { geo::Poly p = g.cell(0); Vec v; for (auto& q : p) { v.push_back((double)q.x); v.push_back((double)q.y); } return v; }
inline geo::Poly polyOf(const Vec& v) { geo::Poly p; for (size_t i = 0; i + 1 < v.size(); i += 2) p.push_back({v[i], v[i + 1]}); return p; }
inline std::string str(const Vec& v) { std::string s = "["; char b[40]; for (size_t i = 0; i < v.size() && i < 40; ++i) { snprintf(b, 40, "%s%.12g", i ? "," : "", v[i]); s += b; } return s + "]"; }
inline bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
#endif
