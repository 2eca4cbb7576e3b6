// actors.h - every class of the library as a little machine: operations with preconditions, and
// a running digest of everything the queries return. Used for histories (leaks, memory
// errors), interleavings of two objects and threads.
#ifndef ACTORS_H
#define ACTORS_H
#include "api.h"
#include <memory>
#include <iostream>
#include <sstream>
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
#include "SgSideIterator.h"
#include "SgOctreePoints.h"
#include "CmdLineArgParser.h"
#include "createGrids2D.h"
struct Actor {
  int v; mc::Hash h; bool alive = false; // v: which data
  Actor(int variant) : v(variant) {}
  virtual ~Actor() {}
  virtual const char* name() const = 0;
  virtual int nops() const = 0;          // without creation and deletion
  virtual bool can(int op) const { return true; }
  virtual void run(int op) = 0;
  virtual void create() = 0;
  virtual void remove() = 0;
  // the program used for interleavings: operations in order
  virtual std::vector<int> program() const { std::vector<int> p; for (int i = 0; i < nops(); ++i) p.push_back(i); return p; }
  void see(const Vec& r) { h.u(r.size()); for (double x : r) h.d(std::isnan(x) ? 1e77 : x); }
  void see(double x) { h.d(std::isnan(x) ? 1e77 : x); }
};
namespace act {
inline Grid grid(int k) { switch (k) { case 0: return uniform(3, 3, 0, 2, 0, 2); case 1: { Grid g = uniform(2, 4, -1, 1.3, 0.2, 2.5); g.reverse(1); return g; } case 2: return uniform(2, 2, 30, 31, 50, 51); default: { Grid g = uniform(4, 2, 0.2, 1.7, 0.3, 1.6).mapped(geo::embeds()[2]); g.transpose(); return g; } } }
inline Vec quad(int k) { static const Vec q[4] = {{0, 0, 1, 0, 1, 1, 0, 1}, {0.5, 0.5, 0.5, 2, 2, 2, 2, 0.5}, {5, 5, 6, 5, 6, 6, 5, 6}, {-1, -1, 3, -1, 2.5, 3, -1, 2}}; return q[k]; }
inline Vec lin(int k) { static const Vec q[4] = {{0.2, 0.1, 0.9, 0.8}, {-1, 0.5, 4, 0.5}, {8, 8, 9, 9}, {1, 1, 1, 1}}; return q[k]; }
template <class T> struct Base : Actor { std::unique_ptr<T> o; using Actor::Actor; void remove() override { o.reset(); alive = false; } };
struct AConserve : Base<Conserve> { using Base::Base; int s = -1, d = -1; bool w = false; const char* name() const override { return "conserve"; } int nops() const override { return 7; }
  void create() override { o.reset(new Conserve); s = d = -1; w = false; alive = true; }
  bool can(int op) const override { return op < 4 || (op == 4 ? s >= 0 && d >= 0 : w); }
  void run(int op) override { switch (op) { case 0: o->setSrc(grid(v ? 1 : 0)); s = 0; w = false; break; case 1: o->setDst(grid(v ? 0 : 3)); d = 0; w = false; break; case 2: o->setSrc(grid(3), 0, 0); s = 1; w = false; break; case 3: o->setDst(grid(v ? 3 : 2)); d = 1; w = false; break; case 4: h.u(o->compute()); w = true; break; case 5: { Vec a(o->ns), b(o->nd, -3.0); for (int k = 0; k < o->ns; ++k) a[k] = k + 1 + v; o->apply(a, b); see(b); break; } default: for (auto& e : o->entries()) { if (e.w > 0) { h.u(e.src).u(e.dst); see(e.w); } } } }
  std::vector<int> program() const override { return {0, 1, 4, 5, 6, 2, 4, 5}; } };
struct ANode : Base<Node> { using Base::Base; int s = -1, d = -1; bool w = false; const char* name() const override { return "node"; } int nops() const override { return 6; }
  void create() override { o.reset(new Node(v ? 30 : 100, 1e-9)); s = d = -1; w = false; alive = true; }
  bool can(int op) const override { return op < 4 || (op == 4 ? s >= 0 && d >= 0 : w); }
  void run(int op) override { switch (op) { case 0: o->setSrc(grid(v ? 1 : 0)); s = 0; w = false; break; case 1: o->setDst(grid(v ? 0 : 3)); d = 0; w = false; break; case 2: o->setSrc(grid(3)); s = 1; w = false; break; case 3: o->setDst(grid(v ? 3 : 2)); d = 1; w = false; break; case 4: h.u(o->compute()); w = true; break; default: { Vec a(o->ns), b(o->nd, -3.0); for (int k = 0; k < o->ns; ++k) a[k] = k * k + 1 + v; o->apply(a, b); see(b); } } }
  std::vector<int> program() const override { return {0, 1, 4, 5, 2, 4, 5}; } };
// C22 also lets the object print itself
inline bool printDebug = false;
struct AFlow : Base<Flow> { using Base::Base; int s = -1, d = -1, ne0 = 0, ne1 = 0; bool w = false; const char* name() const override { return "flow"; } int nops() const override { return 6; }
  void create() override { o.reset(new Flow); s = d = -1; w = false; alive = true; }
  bool can(int op) const override { return op < 4 || (op == 4 ? s >= 0 && d >= 0 : w); }
  std::string debugText() { std::ostringstream t; std::streambuf* old = std::cerr.rdbuf(t.rdbuf()); SgFlowInterp2D_debug(&o->h); std::cerr.rdbuf(old); mc::step(); return t.str(); }
  void src(int k) { Grid g = grid(k); o->setSrc(g); ne0 = (g.dims[0] - 1) * g.dims[1]; ne1 = g.dims[0] * (g.dims[1] - 1); w = false; }
  void run(int op) override { switch (op) { case 0: src(v ? 1 : 0); s = 0; break; case 1: v ? o->setDst({0.1, 1.9, 1}, {0.2, 1.4, 1}) : o->setDst({0, 2, 1, 1}, {1, 1, 0, 2}); d = v ? 2 : 3; w = false; break; case 2: src(3); s = 1; break; case 3: o->setDst({60, 61}, {60, 61}); d = 1; w = false; break; case 4: h.u(o->compute()); w = true; if (v && printDebug) h.s(debugText()); break; default: { Vec a(ne0), b(ne1), r(d, -3.0); for (int k = 0; k < ne0; ++k) a[k] = k + 1; for (int k = 0; k < ne1; ++k) b[k] = 3 * k - v; o->apply(a, b, r); see(r); } } }
  std::vector<int> program() const override { return {0, 1, 4, 5, 2, 4, 5}; } };
struct AFinder : Base<Finder> { using Base::Base; int g = -1; bool r = false, n = false; const char* name() const override { return "finder"; } int nops() const override { return 6; }
  void create() override { o.reset(new Finder(v ? 20 : 3, 1e-9)); g = -1; r = n = false; alive = true; }
  bool can(int op) const override { return op < 2 || (op == 2 ? g >= 0 : op == 5 ? r && n : r); }
  void run(int op) override { switch (op) { case 0: o->setGrid(grid(v ? 3 : 0)); g = 2; r = n = false; break; case 1: if (v) o->setGrid({3}, {0}, {{0, 1, 4}}), g = 1; else o->setGrid(grid(1), 0, 1), g = 2; r = n = false; break; case 2: o->reset(Vec(g, v ? 0.5 : 0.0), g == 1 ? Vec{2.2} : v ? Vec{0.6, 1.3} : Vec{0.4, 1.1}); r = true; n = false; break; case 3: h.u(o->next()); n = true; break; case 4: { int st = 0, k = 0; while (!st && k++ < 50) st = o->next(); h.u(st).u(k); n = true; break; } default: see(o->pos()); see(o->ind()); see(o->err()); see(o->hist()); } }
  std::vector<int> program() const override { return {0, 2, 3, 5, 4, 5, 1}; } };
struct AOverlap : Base<Overlap> { using Base::Base; int s = -1, p = -1; bool f = false; const char* name() const override { return "overlap"; } int nops() const override { return 6; }
  void create() override { o.reset(new Overlap); s = p = -1; f = false; alive = true; }
  bool can(int op) const override { return op < 4 || (op == 4 ? s >= 0 && p >= 0 : f); }
  void run(int op) override { switch (op) { case 0: o->setSrc(grid(v ? 3 : 0)); s = 0; f = false; break; case 1: o->setPoly(v ? Vec{0.5, 0.5} : Vec{0.2, 0.3, 1.6, 0.4, 1.1, 1.8}); p = 0; f = false; break; case 2: o->setSrc(grid(1)); s = 1; f = false; break; case 3: o->setPoly({-3, -3, 5, -3, 5, 5}); p = 1; f = false; break; case 4: o->find(); f = true; break; default: for (int c : o->get()) h.u(c); } }
  std::vector<int> program() const override { return {0, 1, 4, 5, 3, 4, 5}; } };
struct AQQ : Base<QQ> { using Base::Base; bool s = false; const char* name() const override { return "quadquad"; } int nops() const override { return 4; }
  void create() override { o.reset(new QQ); s = false; alive = true; } bool can(int op) const override { return op < 3 || s; }
  void run(int op) override { switch (op) { case 0: o->set(quad(v), quad(1 + 2 * v)); s = true; break; case 1: o->set(quad(3), quad(v)); s = true; break; case 2: o->set(quad(0), quad(2)); s = true; break; default: see(o->points()); } }
  std::vector<int> program() const override { return {0, 3, 1, 3, 3, 2, 3}; } };
struct AQL : Base<QL> { using Base::Base; bool q = false, l = false; const char* name() const override { return "quadline"; } int nops() const override { return 5; }
  void create() override { o.reset(new QL); q = l = false; alive = true; } bool can(int op) const override { return op < 4 || (q && l); }
  void run(int op) override { switch (op) { case 0: o->setQuad(quad(v)); q = true; break; case 1: o->setLine(lin(v)); l = true; break; case 2: o->setQuad(quad(3)); q = true; break; case 3: o->setLine(lin(2 + v)); l = true; break; default: see(o->points()); } }
  std::vector<int> program() const override { return {0, 1, 4, 2, 4, 3, 4}; } };
struct AQLF : Base<QLF> { using Base::Base; bool q = false, l = false, c = false; const char* name() const override { return "projections"; } int nops() const override { return 6; }
  void create() override { o.reset(new QLF); q = l = c = false; alive = true; } bool can(int op) const override { return op < 4 || (op == 4 ? !l || q : c); } // without a line the computation is refused
  void run(int op) override { switch (op) { case 0: o->setQuad(quad(v ? 3 : 0)); q = true; c = false; break; case 1: o->setLine(lin(0)); l = true; c = false; break; case 2: o->setQuad(quad(v ? 0 : 3)); q = true; c = false; break; case 3: o->setLine(lin(3)); l = true; c = false; break; case 4: { int r = o->compute(); h.u(r); c = r == 0; break; } default: see(o->all()); } }
  std::vector<int> program() const override { return {0, 1, 4, 5, 2, 4, 5}; } };
struct ASolver : Base<Solver> { using Base::Base; bool m = false, b = false, s = false; const char* name() const override { return "solver"; } int nops() const override { return 6; }
  void create() override { if (v) o.reset(new Solver(3, 2)); else o.reset(new Solver(2, 2)); m = b = s = false; alive = true; } bool can(int op) const override { return op < 4 || (op == 4 ? m && b : s); }
  void run(int op) override { switch (op) { case 0: o->setMat({2, 1, 1, 3, 0, 1}); m = true; s = false; break; case 1: o->setRhs({1, -2, 5}); b = true; s = false; break; case 2: o->setMat(v ? Vec{1, 0, 0, 1, 1, 1} : Vec{0, 0, 0, 0}); m = true; s = false; break; case 3: o->setRhs({0, 4, 1}); b = true; s = false; break; case 4: { int r = o->solve(); h.u(r != 0); s = r == 0; break; } default: see(o->sol()); see(o->res()); } }
  std::vector<int> program() const override { return {0, 1, 4, 5, 3, 4, 5}; } };
struct AHull : Base<Hull> { using Base::Base; const char* name() const override { return "hull"; } int nops() const override { return 2; }
  static Vec points(int v) { switch (v) { case 0: return {0, 0, 1, 0, 1, 1, 0, 1, 0.5, 0.5}; case 1: return {0, 0, 4, 0, 4, 3, 1, 5, 2, 2}; case 2: return {0, 0, 1, 1, 2, 2}; case 3: return {}; case 4: return {1, 2}; case 5: return {1, 2, 3, 4}; case 6: return {1, 1, 1, 1, 1, 1, 1, 1}; default: return {0, 0, 3, 0, 0, 3, 3, 3, 1, 1, 1, 2, 2, 1, 2, 2, 1, 1}; } }
  void create() override { o.reset(new Hull(points(v))); alive = true; }
  void run(int op) override { if (op) { Hull g(v % 2 ? Vec{1, 1} : Vec{0, 0, 2, 1, 0, 3}); see(g.area()); } else see(o->area()); }
  std::vector<int> program() const override { return {0, 0, 1, 0}; } };
struct ATripolar : Base<Tripolar> { using Base::Base; const char* name() const override { return "tripolar"; } int nops() const override { return 1; } int n0, n1;
  void create() override { n0 = v ? 6 : 4; n1 = v ? 5 : 9; o.reset(new Tripolar(n0, n1, 2)); alive = true; }
  void run(int) override { int d[2]; double** c; o->get(d, &c); h.u(d[0]).u(d[1]); if (d[0] * d[1] != n0 * n1) mc::fail("dims", "%d x %d", d[0], d[1]); for (int k = 0; k < 2; ++k) see(Vec(c[k], c[k] + n0 * n1)); }
  std::vector<int> program() const override { return {0, 0, 0}; } };
struct ASimplex : Actor { using Actor::Actor; void* h0 = nullptr; int kind = 2; const char* name() const override { return "simplex"; } int nops() const override { return 4; } bool can(int op) const override { return op < 2 || (op == 2 ? kind > 2 : kind > 3); }
  ~ASimplex() { remove(); }
  void create() override { kind = 2 + v; Vec p[4] = {{0, 0, double(v)}, {1, 0, 0}, {0, 1.5, 0}, {0, 0, 2}}; if (kind == 2) SgLine_new((SgLine_type**)&h0, p[0].data(), p[1].data()); else if (kind == 3) SgTriangle_new((SgTriangle_type**)&h0, p[0].data(), p[1].data(), p[2].data()); else SgTetrahedron_new((SgTetrahedron_type**)&h0, p[0].data(), p[1].data(), p[2].data(), p[3].data()); alive = true; mc::step(); }
  void remove() override { if (h0) { kind == 2 ? SgLine_del((SgLine_type**)&h0) : kind == 3 ? SgTriangle_del((SgTriangle_type**)&h0) : SgTetrahedron_del((SgTetrahedron_type**)&h0); mc::step(); } h0 = nullptr; alive = false; }
  void run(int op) override { mc::step(); if (op == 0) { int n = -1; kind == 2 ? SgLine_getNumberOfPoints((SgLine_type**)&h0, &n) : kind == 3 ? SgTriangle_getNumberOfPoints((SgTriangle_type**)&h0, &n) : SgTetrahedron_getNumberOfPoints((SgTetrahedron_type**)&h0, &n); h.u(n); return; }
    if (op == 1) { for (int i = 0; i < kind; ++i) { double* p; kind == 2 ? SgLine_getPoint((SgLine_type**)&h0, i, &p) : kind == 3 ? SgTriangle_getPoint((SgTriangle_type**)&h0, i, &p) : SgTetrahedron_getPoint((SgTetrahedron_type**)&h0, i, &p); see(Vec(p, p + 3)); } return; }
    int n = -1; if (op == 2) { kind == 3 ? SgTriangle_getNumberOfEdges((SgTriangle_type**)&h0, &n) : SgTetrahedron_getNumberOfEdges((SgTetrahedron_type**)&h0, &n); } else SgTetrahedron_getNumberOfFaces((SgTetrahedron_type**)&h0, &n);
    for (int i = 0; i < n; ++i) { int* q; op == 3 ? SgTetrahedron_getFace((SgTetrahedron_type**)&h0, i, &q) : kind == 3 ? SgTriangle_getEdge((SgTriangle_type**)&h0, i, &q) : SgTetrahedron_getEdge((SgTetrahedron_type**)&h0, i, &q); for (int k = 0; k < op; ++k) h.u(q[k]); } } };
struct ABox : Actor { using Actor::Actor; SgBoxIterator_type* b = nullptr; const char* name() const override { return "box"; } int nops() const override { return 3; } ~ABox() { remove(); }
  void create() override { int l[3] = {-1, 2, 0}, e[3] = {2, 4, 3}; SgBoxIterator_new(&b, v ? 3 : 2, l, e); alive = true; mc::step(); } void remove() override { if (b) { SgBoxIterator_del(&b); mc::step(); } b = nullptr; alive = false; }
  void run(int op) override { mc::step(); int n = -1; SgBoxIterator_getNumberOfElements(&b, &n); if (op == 0) h.u(n); else if (op == 1) for (int k = 0; k < n; ++k) { int i[3] = {0, 0, 0}; SgBoxIterator_getElement(&b, k, i); h.u(i[0]).u(i[1]).u(i[2]); } else { int i[3] = {1, 3, 2}, k = -1; SgBoxIterator_getIndex(&b, i, &k); h.u(k); } } };
struct ASide : Actor { using Actor::Actor; std::unique_ptr<SgSideIterator_type> o; const char* name() const override { return "side"; } int nops() const override { return 4; }
  void create() override { o.reset(new SgSideIterator_type(v ? 3 : 2)); k = 0; alive = true; } void remove() override { o.reset(); alive = false; } int k = 0;
  bool can(int op) const override { return op != 1 || k < 9; }
  void run(int op) override { mc::step(); if (op == 0) { ++k; h.u(o->next()); } else if (op == 1) for (int x : o->get()) h.u(x); else if (op == 2) { o->reset(); k = 0; } else h.u(o->getNumberOfElements()); }
  std::vector<int> program() const override { return {1, 0, 1, 0, 1, 2, 1}; } };
struct AOctree : Actor { using Actor::Actor; SgOctreePoints_type* o = nullptr; const char* name() const override { return "octree"; } int nops() const override { return 2; } ~AOctree() { remove(); }
  void create() override { Vec p = v ? Vec{0, 0, 0, 1, 2, 3, 0.5, 1.5, 1} : Vec{0, 1, 3, 4, 2, 7, 1, 1}; int nd = v ? 3 : 2; SgOctreePoints_new(&o, 2 + (v == 0), nd, (int)p.size() / nd, p.data()); alive = true; mc::step(); } void remove() override { if (o) { SgOctreePoints_del(&o); mc::step(); } o = nullptr; alive = false; }
  void run(int op) override { mc::step(); double p[3] = {0.7, 1.9, 5}; std::vector<size_t> k = o->getKey(p, 2); if (op == 0) for (size_t x : k) h.u(x); else { see(o->getLo(k)); see(o->getHi(k)); } } };
struct AParser : Actor { using Actor::Actor; std::unique_ptr<CmdLineArgParser> o; const char* name() const override { return "parser"; } int nops() const override { return 5; }
  void create() override { o.reset(new CmdLineArgParser); alive = true; } void remove() override { o.reset(); alive = false; }
  void run(int op) override { mc::step(); switch (op) { case 0: o->set("--d", 1.5, "double"); o->set("-f", false, "flag"); break; case 1: o->set("--s", "1,2.5,-3", "list"); o->set("--n", 4, "int"); break; case 2: { std::string a[] = {"p", "--d", v ? "7" : "-8", "-f"}; char* c[] = {&a[0][0], &a[1][0], &a[2][0], &a[3][0], nullptr}; h.u(v ? 2 : 3); bool r = o->parse(v ? 3 : 3, c); h.u(r); break; } case 3: { std::string a[] = {"p", "--s", "9,8,7,6", "--n", "-12"}; char* c[] = {&a[0][0], &a[1][0], &a[2][0], &a[3][0], &a[4][0], nullptr}; h.u(o->parse(5, c)); break; } default: see(o->get<double>("--d")); h.u(o->get<int>("--n")).s(o->get<std::string>("--s")).u(o->get<bool>("-f")); see(o->get<Vec>("--s")); for (int x : o->get<std::vector<int>>("--s")) h.u(x); } } };
struct AGrids : Actor { using Actor::Actor; const char* name() const override { return "generators"; } int nops() const override { return 3; } void create() override { alive = true; } void remove() override { alive = false; }
  void run(int op) override { mc::step(); int d[2] = {3 + v, 4}; Vec a(d[0] * d[1]), b(d[0] * d[1]); double* c[2] = {a.data(), b.data()}; double l[2] = {0, v + 1.0}, u[2] = {2, 5}; if (op == 0) createRectangularGrid(d, l, u, c); else if (op == 1) createPolarGrid(d, l, 2.5, c); else createRotatedPoleGrid(d, 30, 20 + v, c); see(a); see(b); } };
}
static const int NACTORS = 17;
inline std::unique_ptr<Actor> makeActor(int k, int v) { using namespace act; Actor* a; switch (k) { case 0: a = new AConserve(v); break; case 1: a = new ANode(v); break; case 2: a = new AFlow(v); break; case 3: a = new AFinder(v); break; case 4: a = new AOverlap(v); break; case 5: a = new AQQ(v); break; case 6: a = new AQL(v); break; case 7: a = new AQLF(v); break; case 8: a = new ASolver(v); break; case 9: a = new AHull(v); break; case 10: a = new ATripolar(v); break; case 11: a = new ASimplex(v); break; case 12: a = new ABox(v); break; case 13: a = new ASide(v); break; case 14: a = new AOctree(v); break; case 15: a = new AParser(v); break; default: a = new AGrids(v); } return std::unique_ptr<Actor>(a); }
#endif
