// C05: whatever an object did before, its results are those of a new object with the same inputs.
#include "api.h"
#include <fcntl.h>
#include <unistd.h>
using namespace geo;
static void quiet() { static bool done = false; if (done || mc::verbose) return; done = true; int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); if (!getenv("MC_KEEP_STDERR")) dup2(n, 2); close(n); }
static void compare(const char* what, const Vec& a, const Vec& b, const std::string& trace) {
  mc::describe("%s: %s new object: %s", trace.c_str(), str(a).c_str(), str(b).c_str());
  if (a.size() != b.size()) mc::fail(what, "%zu values, a new object gives %zu; %s: %s / %s", a.size(), b.size(), trace.c_str(), str(a).c_str(), str(b).c_str());
  for (size_t k = 0; k < a.size(); ++k) if (!(std::isnan(a[k]) && std::isnan(b[k])) && !(std::fabs(a[k] - b[k]) <= 1e-9 * (1 + std::fabs(b[k])))) mc::fail(what, "value %zu is %.15g, a new object gives %.15g; %s", k, a[k], b[k], trace.c_str());
  mc::Hash h; for (double v : a) h.r(std::isnan(v) ? 1e8 : v); mc::state(h.h);
}
static void done(const std::string& t, int computed) { if (computed > 1) mc::nontrivial(mc::Hash().s(t).h); mc::outcome(computed == 0 ? "not computed" : computed == 1 ? "computed once" : "computed again"); }
// grids of different sizes, places and shapes; 0 and 1 have the same size and the same boundary
static Grid grid(int k) { switch (k) { case 0: return uniform(3, 3, 0, 2, 0, 2); case 1: { Grid g = uniform(3, 3, 0, 2, 0, 2); g.set(1, 1, 1.3, 0.8); return g; } case 2: return uniform(2, 4, -1, 1.3, 0.2, 2.5); case 3: return uniform(2, 2, 30, 31, 50, 51); case 4: return uniform(4, 2, 0.2, 1.7, 0.3, 1.6).mapped(embeds()[2]); default: return uniform(5, 4, -3, 4, -2, 4); } }
static int depth(int mini, int quick, int thorough) { return mc::tier < 0 ? mini : mc::tier > 0 ? thorough : quick; }
static int nin() { return mc::tier < 0 ? 3 : 5; }
// ---- conservative
static Vec conserveResult(Conserve& c) { Vec r; auto w = c.denseByApply(); for (auto& x : w) r.insert(r.end(), x.begin(), x.end()); SgConserveInterp2D_reset(&c.h); for (auto& e : c.entries()) if (e.w > 1e-12) { r.push_back(e.dst); r.push_back(e.src); r.push_back(e.w); } return r; }
SCENARIO(conservative) {
  quiet(); Conserve c; int s = -1, d = -1, comp = 0; std::string t; int n = depth(4, 5, 6), K = nin(); bool fresh = false;
  for (int k = 0; k < n; ++k) { int op = mc::choose(2 * K + 2); if (k == 1) mc::split();
    if (op < K) { c.setSrc(grid(s = op)); t += "src" + std::to_string(op) + " "; fresh = false; } else if (op < 2 * K) { c.setDst(grid(d = op - K)); t += "dst" + std::to_string(d) + " "; fresh = false; }
    else if (s < 0 || d < 0) mc::prune(); else if (op == 2 * K) { t += "compute "; c.compute(); ++comp; fresh = true; } else { if (!fresh) mc::prune(); t += "partial "; for (int q = 0; q < 3; ++q) SgConserveInterp2D_next(&c.h); mc::step(3); } }
  if (s < 0 || d < 0) mc::prune(); if (!fresh) { c.compute(); ++comp; t += "compute "; }
  static std::map<int, Vec> ref; int key = s * 10 + d; if (!ref.count(key)) { Conserve f; f.setDst(grid(d)); f.setSrc(grid(s)); f.compute(); ref[key] = conserveResult(f); } Vec r = conserveResult(c); compare("conservative", r, ref[key], t); done(t, comp);
}
// ---- nodal
static Vec nodeResult(Node& n) { Vec r; for (int s = 0; s < n.ns; ++s) { Vec u(n.ns, 0.0), o(n.nd, NAN); u[s] = 1; n.apply(u, o); r.insert(r.end(), o.begin(), o.end()); } return r; }
SCENARIO(nodal) {
  quiet(); Node c(60, 1e-10); int s = -1, d = -1, comp = 0, p = 0; std::string t; int n = depth(4, 5, 6), K = nin(); bool fresh = false;
  for (int k = 0; k < n; ++k) { int op = mc::choose(2 * K + 2); if (k == 1) mc::split();
    if (op < K) { c.setSrc(grid(s = op), 0, 0); p = 0; t += "src" + std::to_string(op) + " "; fresh = false; } else if (op < 2 * K) { c.setDst(grid(d = op - K)); t += "dst" + std::to_string(d) + " "; fresh = false; }
    else if (op == 2 * K) { if (s < 0 || d < 0) mc::prune(); t += "compute "; c.compute(); ++comp; fresh = true; } else { c.setSrc(grid(s = 0), 0, 1); p = 1; t += "src0p "; fresh = false; } }
  if (s < 0 || d < 0) mc::prune(); if (!fresh) { c.compute(); ++comp; t += "compute "; }
  static std::map<int, Vec> ref; int key = s * 100 + d * 10 + p; if (!ref.count(key)) { Node f(60, 1e-10); f.setDst(grid(d)); f.setSrc(grid(s), 0, p); f.compute(); ref[key] = nodeResult(f); } compare("nodal", nodeResult(c), ref[key], t); done(t, comp);
}
// ---- flow
static void line(int k, Vec& x, Vec& y) { switch (k) { case 0: x = {0.1, 1.9}; y = {0.2, 1.4}; break; case 1: x = {0, 2, 1, 1}; y = {1, 1, 0, 2}; break; case 2: x = {0, 2, 1.3, 1}; y = {1, 1, 0.2, 2}; break; case 3: x = {60, 61, 62}; y = {60, 61, 60}; break; default: x = {-1, 0.5, 0.5}; y = {0.3, 0.3, 5}; } }
static Vec flowResult(Flow& f, const Grid& g, int nseg) { int a = (g.dims[0] - 1) * g.dims[1], b = g.dims[0] * (g.dims[1] - 1); Vec r; for (int e = 0; e < a + b; ++e) { Vec u(a, 0.0), v(b, 0.0), o(nseg, NAN); (e < a ? u[e] : v[e - a]) = 1; f.apply(u, v, o); r.insert(r.end(), o.begin(), o.end()); } return r; }
SCENARIO(flow) {
  quiet(); Flow c; int s = -1, d = -1, comp = 0; std::string t; int n = depth(4, 5, 6), K = 5; bool fresh = false;
  for (int k = 0; k < n; ++k) { int op = mc::choose(2 * K + 2); if (k == 1) mc::split();
    if (op < K) { c.setSrc(grid(s = op)); t += "src" + std::to_string(op) + " "; fresh = false; } else if (op < 2 * K) { Vec x, y; line(d = op - K, x, y); c.setDst(x, y); t += "line" + std::to_string(d) + " "; fresh = false; }
    else if (s < 0 || d < 0) mc::prune(); else if (op == 2 * K) { t += "compute "; c.compute(); ++comp; fresh = true; } else { if (!fresh) mc::prune(); t += "apply "; Vec x, y; line(d, x, y); flowResult(c, grid(s), (int)x.size() - 1); } }
  if (s < 0 || d < 0) mc::prune(); if (!fresh) { c.compute(); ++comp; t += "compute "; } Vec x, y; line(d, x, y);
  static std::map<int, Vec> ref; int key = s * 10 + d; if (!ref.count(key)) { Flow f; f.setDst(x, y); f.setSrc(grid(s)); f.compute(); ref[key] = flowResult(f, grid(s), (int)x.size() - 1); } compare("flow", flowResult(c, grid(s), (int)x.size() - 1), ref[key], t); done(t, comp);
}
// ---- point search: grids of different dimensions
struct GN { std::vector<int> dims, per; std::vector<Vec> x; };
static GN gn(int k) { GN g; auto from = [&](const Grid& q, int p1) { g.dims = {q.dims[0], q.dims[1]}; g.per = {0, p1}; g.x = {q.x, q.y}; };
  switch (k) { case 0: from(grid(0), 0); break; case 1: from(grid(1), 1); break; case 2: from(grid(3), 0); break; case 3: g.dims = {4}; g.per = {0}; g.x = {{0, 1, 3, 4}}; break; default: { g.dims = {2, 2, 3}; g.per = {0, 0, 0}; g.x.assign(3, Vec(12)); for (int i = 0; i < 12; ++i) { g.x[0][i] = i / 6; g.x[1][i] = i / 3 % 2 + 0.1 * (i % 3); g.x[2][i] = 2 * (i % 3) + 0.2 * (i / 6); } } } return g; }
static Vec target(int k, int nd) { static const double T[4][3] = {{0.7, 1.2, 2.1}, {1.9, 0.05, 0.3}, {30.2, 50.9, 8}, {-5, 3, 1}}; return Vec(T[k], T[k] + nd); }
static Vec start(int k, int nd) { static const double T[2][3] = {{0.5, 0.5, 0.5}, {1, 0, 1.5}}; return Vec(T[k], T[k] + nd); }
static Vec findResult(Finder& f) { Vec r; int s = 0; while (!s) { s = f.next(); if (r.size() > 100) break; r.push_back(s); } Vec h = f.hist(), i = f.ind(), p = f.pos(); r.insert(r.end(), h.begin(), h.end()); r.insert(r.end(), i.begin(), i.end()); r.insert(r.end(), p.begin(), p.end()); r.push_back(f.err()); return r; }
SCENARIO(search) {
  int lim = mc::pick(std::vector<int>{3, 30}); Finder c(lim, 1e-9); int g = -1, r = -1, comp = 0; std::string t; int n = depth(4, 5, 6); Vec res;
  for (int k = 0; k < n; ++k) { int op = mc::choose(5 + 8 + 2); if (k == 1) mc::split();
    if (op < 5) { GN q = gn(g = op); c.setGrid(q.dims, q.per, q.x); r = -1; t += "grid" + std::to_string(op) + " "; } else if (g < 0) mc::prune(); else if (op < 13) { r = op - 5; if (mc::tier <= 0 && (r == 3 || r == 4)) mc::prune(); int nd = (int)gn(g).dims.size(); c.reset(start(r & 1, nd), target(r >> 1, nd)); t += "reset" + std::to_string(r) + " "; }
    else if (r < 0) mc::prune(); else if (op == 13) { c.next(); t += "next "; ++comp; } else { t += "run "; findResult(c); ++comp; } }
  if (g < 0 || r < 0) mc::prune(); int nd = (int)gn(g).dims.size(); c.reset(start(r & 1, nd), target(r >> 1, nd)); Vec got = findResult(c);
  static std::map<int, Vec> ref; int key = (g * 10 + r) * 100 + lim; if (!ref.count(key)) { Finder f(lim, 1e-9); GN q = gn(g); f.setGrid(q.dims, q.per, q.x); f.reset(start(r & 1, nd), target(r >> 1, nd)); ref[key] = findResult(f); } compare("search", got, ref[key], t); done(t, comp + 1);
}
// ---- cells under a polygon
static Vec poly(int k) { switch (k) { case 0: return {0.2, 0.3, 1.6, 0.4, 1.1, 1.8}; case 1: return {0.2, 0.3, 0.4, 1.9, 0.3, 1.8}; case 2: return {-3, -3, 5, -3, 5, 5, -3, 5}; case 3: return {0.5, 0.5}; default: return {30.5, 50.5, 70, 50.2}; } }
static Vec overlapResult(Overlap& o) { Vec r; for (int c : o.get()) r.push_back(c); return r; }
SCENARIO(overlapping) {
  Overlap c; int s = -1, d = -1, comp = 0; std::string t; int n = depth(4, 5, 6); int K = 5; bool fresh = false;
  for (int k = 0; k < n; ++k) { int op = mc::choose(2 * K + 2); if (k == 1) mc::split();
    if (op < K) { c.setSrc(grid(s = op)); t += "src" + std::to_string(op) + " "; fresh = false; } else if (op < 2 * K) { c.setPoly(poly(d = op - K)); t += "poly" + std::to_string(d) + " "; fresh = false; }
    else if (s < 0 || d < 0) mc::prune(); else if (op == 2 * K) { t += "find "; c.find(); ++comp; fresh = true; } else { if (!fresh) mc::prune(); t += "get "; overlapResult(c); } }
  if (s < 0 || d < 0) mc::prune(); if (!fresh) { c.find(); ++comp; t += "find "; }
  static std::map<int, Vec> ref; int key = s * 10 + d; if (!ref.count(key)) { Overlap f; f.setPoly(poly(d)); f.setSrc(grid(s)); f.find(); ref[key] = overlapResult(f); } Vec r = overlapResult(c); compare("overlapping", r, ref[key], t); compare("overlapping", overlapResult(c), r, t); done(t, comp);
}
// ---- intersections and projections of single cells: inputs stay where they are until the query
static Vec quad(int k) { switch (k) { case 0: return {0, 0, 1, 0, 1, 1, 0, 1}; case 1: return {0.5, 0.5, 0.5, 2, 2, 2, 2, 0.5}; case 2: return {5, 5, 6, 5, 6, 6, 5, 6}; case 3: return {-1, -1, 3, -1, 2.5, 3, -1, 2}; default: return {0, 0, 2, 0, 2, 2, 2, 2}; } }
static Vec lin(int k) { switch (k) { case 0: return {0.2, 0.1, 0.9, 0.8}; case 1: return {-1, 0.5, 4, 0.5}; case 2: return {8, 8, 9, 9}; case 3: return {1, 1, 1, 1}; default: return {0, 0, 1, 0}; } }
SCENARIO(quadquad) {
  QQ c; std::string t; int n = depth(2, 3, 4), a = -1, b = -1; for (int k = 0; k < n; ++k) { a = mc::choose(5); b = mc::choose(mc::tier > 0 ? 4 : 5); int m = mc::choose(3); if (k == 0) mc::split(); c.set(quad(a), quad(b)); t += std::to_string(a) + "/" + std::to_string(b) + (m ? "q " : " "); for (int q = 0; q < m; ++q) c.points(); }
  static std::map<int, Vec> ref; int key = a * 10 + b; if (!ref.count(key)) { QQ f; f.set(quad(a), quad(b)); ref[key] = f.points(); } Vec r = c.points(); compare("quadquad", r, ref[key], t); done(t, n);
}
SCENARIO(quadline) {
  QL c; std::string t; int n = depth(4, 5, 6), q = -1, l = -1, comp = 0; Vec Q[5], Lk[5]; for (int k = 0; k < 5; ++k) { Q[k] = quad(k); Lk[k] = lin(k); }
  for (int k = 0; k < n; ++k) { int op = mc::choose(10 + 1); if (k == 1) mc::split(); if (op < 5) { SgQuadLineIntersect_setQuadPoints(&c.h, Q[q = op].data()); mc::step(); t += "quad" + std::to_string(q) + " "; } else if (op < 10) { SgQuadLineIntersect_setLinePoints(&c.h, Lk[l = op - 5].data()); mc::step(); t += "line" + std::to_string(l) + " "; } else { if (q < 0 || l < 0) mc::prune(); c.points(); t += "points "; ++comp; } }
  if (q < 0 || l < 0) mc::prune(); static std::map<int, Vec> ref; int key = q * 10 + l; if (!ref.count(key)) { QL f; f.setQuad(quad(q)); f.setLine(lin(l)); ref[key] = f.points(); } compare("quadline", c.points(), ref[key], t); done(t, comp + 1);
}
SCENARIO(projections) {
  QLF c; std::string t; int n = depth(4, 5, 6), q = -1, l = -1, comp = 0; Vec Q[4], Lk[5]; for (int k = 0; k < 4; ++k) Q[k] = quad(k); for (int k = 0; k < 5; ++k) Lk[k] = lin(k);
  for (int k = 0; k < n; ++k) { int op = mc::choose(9 + 1); if (k == 1) mc::split(); if (op < 4) { SgQuadLineFlows_setQuadPoints(&c.h, Q[q = op].data()); mc::step(); t += "quad" + std::to_string(q) + " "; } else if (op < 9) { SgQuadLineFlows_setLinePoints(&c.h, Lk[l = op - 4].data()); mc::step(); t += "line" + std::to_string(l) + " "; } else { if (q < 0 || l < 0) mc::prune(); c.compute(); t += "compute "; ++comp; } }
  if (q < 0 || l < 0) mc::prune(); static std::map<int, Vec> ref; static std::map<int, int> rc; int key = q * 10 + l; if (!ref.count(key)) { QLF f; f.setQuad(quad(q)); f.setLine(lin(l)); rc[key] = f.compute(); ref[key] = f.all(); }
  int r = c.compute(); if ((r == 0) != (rc[key] == 0)) mc::fail("projections", "computeProjections returns %d, with a new object %d; %s", r, rc[key], t.c_str()); if (r == 0) compare("projections", c.all(), ref[key], t); done(t, comp + 1);
}
// ---- linear systems
SCENARIO(systems) {
  static const std::vector<std::vector<Vec>> M = {{{2, 1, 1, 3}, {0, -1, 1, 0}, {1, 2, 2, 4}, {5, 0, 0, 1e-3}}, {{1, 0, 1, 1, 1, 2}, {2, 0, 0, 1, 3, 3}, {1, 1, 2, 0, 0, 5}}, {{1, 2, 0, 0, 1, 1}, {3, 0, 1, 0, 2, 0}, {1, 1, 1, 1, -1, 0}}}; static const int D[3][2] = {{2, 2}, {3, 2}, {2, 3}}; static const std::vector<Vec> B = {{1, 2, 3}, {0, 0, 0}, {-4, 1, 0.5}};
  int sh = mc::choose(3); Solver c(D[sh][0], D[sh][1]); int nm = (int)M[sh].size(), m = -1, b = -1, comp = 0; std::string t; int n = depth(4, 6, 7);
  for (int k = 0; k < n; ++k) { int op = mc::choose(nm + 3 + 2); if (k == 1) mc::split(); if (op < nm) { c.setMat(M[sh][m = op]); t += "mat" + std::to_string(m) + " "; } else if (op < nm + 3) { b = op - nm; c.setRhs(Vec(B[b].begin(), B[b].begin() + D[sh][0])); t += "rhs" + std::to_string(b) + " "; } else if (m < 0 || b < 0) mc::prune(); else if (op == nm + 3) { c.solve(); t += "solve "; ++comp; } else { if (!comp) mc::prune(); c.sol(); c.res(); t += "query "; } }
  if (m < 0 || b < 0) mc::prune(); auto res = [&](Solver& s) { Vec r; int rc = s.solve(); r.push_back(rc != 0); if (!rc && !(sh == 0 && m == 2)) { Vec x = s.sol(); r.insert(r.end(), x.begin(), x.end()); r.push_back(s.res()); } return r; };
  static std::map<int, Vec> ref; int key = sh * 100 + m * 10 + b; if (!ref.count(key)) { Solver f(D[sh][0], D[sh][1]); f.setRhs(Vec(B[b].begin(), B[b].begin() + D[sh][0])); f.setMat(M[sh][m]); ref[key] = res(f); } if (sh == 0 && m == 2) { Vec r = res(c); (void)r; } else compare("systems", res(c), ref[key], t); done(t, comp + 1);
}
// ---- tripolar grids and hulls: queries repeated, objects made again in between
SCENARIO(queries) {
  int n0 = mc::range(3, 6), n1 = mc::range(2, 5) * 2 - 1, cap = mc::choose(n0 - 2); if (cap < 1) cap = 1; mc::split(); Tripolar a(n0, n1, cap); int d[2]; double** c; auto snap = [&](Tripolar& t) { t.get(d, &c); Vec r = {(double)d[0], (double)d[1]}; for (int k = 0; k < 2; ++k) r.insert(r.end(), c[k], c[k] + d[0] * d[1]); return r; };
  Vec first = snap(a); std::string t; int n = depth(2, 3, 4); for (int k = 0; k < n; ++k) { int op = mc::choose(3); if (op == 0) { t += "again "; compare("tripolar", snap(a), first, t); } else if (op == 1) { t += "other "; Tripolar b(n0 + 1, n1, 1); snap(b); } else { t += "new "; Tripolar b(n0, n1, cap); compare("tripolar", snap(b), first, t); } } compare("tripolar", snap(a), first, t);
  Vec pts = {0, 0, 4, 0, 4, 3, 1, 5, 2, 2}; Hull h(pts); double v = h.area(); for (int k = 0; k < 3; ++k) { Hull g({0, 0, 1, 0, 0, 1}); if (!(std::fabs(g.area() - 0.5) < 1e-12) || h.area() != v) mc::fail("hull", "hull area changes from %g to %g", v, h.area()); } done(t, 2);
}
