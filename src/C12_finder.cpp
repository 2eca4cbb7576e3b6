// C12: the search for the index position of a point ends in time and tells the truth.
#include "api.h"
using namespace geo;
// a structured grid in 1, 2 or 3 dimensions with as many coordinates
struct GridN { std::vector<int> dims; std::vector<Vec> x; int n = 1;
  GridN(const std::vector<int>& d) : dims(d) { for (int v : d) n *= v; x.assign(d.size(), Vec(n, 0.0)); }
  std::vector<int> inds(int k) const { std::vector<int> r(dims.size()); for (int i = (int)dims.size() - 1; i >= 0; --i) { r[i] = k % dims[i]; k /= dims[i]; } return r; }
  Vec at(const Vec& ind) const { int nd = (int)dims.size(); Vec r(nd, 0.0); for (int c = 0; c < (1 << nd); ++c) { L w = 1; int flat = 0; for (int i = 0; i < nd; ++i) { int lo = std::min(std::max((int)std::floor(ind[i]), 0), dims[i] - 2); int up = c >> i & 1; L f = ind[i] - lo; w *= up ? f : 1 - f; flat = flat * dims[i] + lo + up; } if (w != 0) for (int k = 0; k < nd; ++k) r[k] += (double)(w * x[k][flat]); } return r; }
  std::string str() const { std::string s; for (int d : dims) s += std::to_string(d) + "x"; for (auto& v : x) s += ::str(v); return s; }
};
struct Opts { int niter; double tol; bool query; bool mustFind; std::vector<int> per; };
static double dist(const Vec& a, const Vec& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
static void search(Finder& f, const GridN& g, const Vec& start, const Vec& tgt, const Opts& o, Vec* end = nullptr) {
  int nd = (int)g.dims.size(); double mag = 0; for (auto& v : g.x) for (double a : v) mag = std::max(mag, std::fabs(a)); for (double t : tgt) mag = std::max(mag, std::fabs(t)); double rnd = 1e-13 * (1 + mag);
  // outside of the bounding box, or on its border up to round-off
  bool out = false, unclear = false; for (int k = 0; k < nd; ++k) { double lo = *std::min_element(g.x[k].begin(), g.x[k].end()), hi = *std::max_element(g.x[k].begin(), g.x[k].end()); double e = std::max(lo - tgt[k], tgt[k] - hi); if (e > 2e-9 * (1 + mag)) out = true; else if (e > rnd) unclear = true; }
  f.reset(start, tgt); Vec hist; int status = 0, steps = 0;
  auto agree = [&](const char* when) { Vec i = f.ind(), p = f.pos(), q = g.at(i); double e = f.err();
    for (int k = 0; k < nd; ++k) if (!(std::fabs(p[k] - q[k]) <= rnd * 10)) mc::fail("position", "%s: position %s, but the indices %s are at %s; grid %s target %s", when, str(p).c_str(), str(i).c_str(), str(q).c_str(), g.str().c_str(), str(tgt).c_str());
    if (!(std::fabs(e - dist(p, tgt)) <= rnd * 10)) mc::fail("error", "%s: error %.12g, but the distance to the target is %.12g; grid %s target %s", when, e, dist(p, tgt), g.str().c_str(), str(tgt).c_str()); return e; };
  bool startIn = true; for (int k = 0; k < nd; ++k) if (start[k] < 0 || start[k] > g.dims[k] - 1) startIn = false;
  if (o.query && startIn) { agree("before the first step"); Vec i = f.ind(); if (!(dist(i, start) <= 1e-12)) mc::fail("start", "search starts at %s, not at %s", str(i).c_str(), str(start).c_str()); if (!f.hist().empty()) mc::fail("hist", "error history is not empty after a reset"); }
  while (status == 0) { status = f.next(); ++steps;
    if (status != 0 && status != 1 && status != -1 && status != -2 && status != -3) mc::fail("status", "unknown status %d", status);
    if (status == -3 && steps == 1) break; // never moved
    if (o.query) { double e = agree("after a step"); hist.push_back(e); Vec h = f.hist(); if (h.size() != hist.size()) mc::fail("hist", "error history has %zu entries after %zu steps", h.size(), hist.size()); for (size_t k = 0; k < h.size(); ++k) if (!(std::fabs(h[k] - hist[k]) <= rnd * 10)) mc::fail("hist", "error %zu of the history is %.12g, was %.12g", k, h[k], hist[k]); }
    if (steps > o.niter && status == 0) mc::fail("endless", "no status after %d steps, the limit is %d; grid %s start %s target %s", steps, o.niter, g.str().c_str(), str(start).c_str(), str(tgt).c_str()); }
  Vec i = f.ind(); mc::describe("grid %s start %s target %s limit %d tol %g -> status %d after %d steps at %s error %g", g.str().c_str(), str(start).c_str(), str(tgt).c_str(), o.niter, o.tol, status, steps, str(i).c_str(), status == -3 ? 0 : f.err());
  if (!unclear && (status == -3) != out) mc::fail("outside", "status %d for a target %s the box of the grid; grid %s target %s", status, out ? "outside of" : "in", g.str().c_str(), str(tgt).c_str());
  if (status != -3) for (int k = 0; k < nd; ++k) if (!(i[k] >= 0 && i[k] <= g.dims[k] - 1)) mc::fail("range", "status %d with indices %s out of the range of the grid %s, start %s target %s", status, str(i).c_str(), g.str().c_str(), str(start).c_str(), str(tgt).c_str());
  if (status == 1) { double e = dist(g.at(i), tgt); if (!(e <= o.tol + rnd)) mc::fail("converged", "converged with an error of %.12g, tolerance %g: grid %s start %s target %s indices %s", e, o.tol, g.str().c_str(), str(start).c_str(), str(tgt).c_str(), str(i).c_str()); }
  if (status == -1 && steps != o.niter) mc::fail("limit", "status says that the limit of %d was reached after %d steps", o.niter, steps);
  if (o.mustFind && status != 1) mc::fail("found", "status %d: grid %s start %s target %s limit %d tolerance %g", status, g.str().c_str(), str(start).c_str(), str(tgt).c_str(), o.niter, o.tol);
  mc::Hash h; h.u(status + 5); for (double v : i) h.r(v); mc::state(h.h); char b[16]; snprintf(b, 16, "status %d", status); mc::outcome(b); if (status != -3) { mc::Hash k; for (auto& v : g.x) for (double a : v) k.d(a); for (double v : start) k.d(v); for (double v : tgt) k.d(v); mc::nontrivial(k.d(o.tol).u(o.niter).h); }
  if (end) *end = i;
}
static Vec half(int n, bool outside) { Vec r; if (outside) r.push_back(-0.5); for (int i = 0; i < 2 * n - 1; ++i) r.push_back(0.5 * i); if (outside) r.push_back(n - 0.5); return r; }
// affine grids: found from every start
static GridN affine(const std::vector<int>& dims, int kind) { GridN g(dims); int nd = (int)dims.size();
  static const double M[4][16] = {{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, {0.5, 0.3, 0.1, 0.2, -0.2, 1.5, 0.3, 0, 0.1, -0.4, 2, 0.1, 0.3, 0, -0.2, 1}, {-10, 0, 0, 0, 0, 0.25, 0, 0, 0, 0, -3, 0, 0, 0, 0, 7}, {0, 2, 0.5, 0, 1, 0.1, 0, 0.2, 0, 0.3, 1, 0, 0.3, 0, 0, -1}}; static const double T[4] = {0, 0.3, -180, 1e3};
  static const double M1[4] = {1, 0.1, -10, 250};
  for (int k = 0; k < g.n; ++k) { auto ix = g.inds(k); for (int c = 0; c < nd; ++c) { double s = T[kind]; if (nd == 1) s += M1[kind] * ix[0]; else for (int d = 0; d < nd; ++d) s += M[kind][c * 4 + d] * ix[d]; g.x[c][k] = s; } } return g; }
SCENARIO(affine_grids) {
  static const std::vector<std::vector<int>> D = {{2}, {3}, {7}, {2, 2}, {3, 2}, {2, 4}, {5, 5}, {2, 2, 2}, {3, 2, 2}, {2, 3, 4}, {101}, {40, 3}, {2, 30}, {2, 2, 2, 2}, {2, 3, 2, 2}}; const auto& d = mc::pick(D); int kind = mc::choose(4); int nd = (int)d.size(); if (mc::tier < 0 && (d.size() == 1 ? d[0] > 3 : d.size() == 2 ? d[0] + d[1] > 5 : d.size() == 4 || d[0] + d[1] + d[2] > 6)) mc::prune(); mc::split();
  GridN g = affine(d, kind); Vec s(nd), ti(nd); for (int k = 0; k < nd; ++k) { Vec S = nd == 4 ? Vec{0, d[k] - 1.5} : (nd == 3 && mc::tier <= 0) || d[k] > 4 ? Vec{0, 0.5, d[k] - 1.0} : half(d[k], nd < 3); s[k] = mc::pick(S); }
  for (int k = 0; k < nd; ++k) { Vec S = nd == 4 ? Vec{0.3, d[k] - 1.0} : nd == 3 || d[k] > 4 ? Vec{0, 0.3, d[k] - 1.0} : mc::tier > 0 ? half(d[k], false) : Vec{0, 0.5, 0.9, d[k] - 1.0}; ti[k] = mc::pick(S); }
  Opts o{mc::pick(std::vector<int>{2, 20}), mc::pick(std::vector<double>{1e-10, 1e-3}), mc::flip(), true, std::vector<int>(nd, 0)}; if (kind >= 2) o.tol *= 1e3; // coordinates of size 1000
  o.mustFind = o.niter > 2; Finder f(o.niter, o.tol); f.setGrid(d, o.per, g.x); search(f, g, s, g.at(ti), o);
}
// rectilinear grids, however stretched: found in one step from the middle of the cell
SCENARIO(cell_middle) {
  static const std::vector<Vec> S = {{0, 1}, {0, 1, 3}, {0, 1e-3, 5, 5.1}, {2, 1, -7}, {-180, -90, -89.99, 180}}; int nd = mc::range(1, 3), a[3] = {0, 0, 0}; std::vector<int> dims; for (int k = 0; k < nd; ++k) { a[k] = mc::choose(nd == 3 && mc::tier <= 0 ? 3 : (int)S.size()); dims.push_back((int)S[a[k]].size()); } mc::split(); if (mc::tier < 0 && nd == 3) mc::prune();
  GridN g(dims); for (int k = 0; k < g.n; ++k) { auto ix = g.inds(k); for (int d = 0; d < nd; ++d) g.x[d][k] = S[a[d]][ix[d]]; }
  Vec s(nd), ti(nd); for (int k = 0; k < nd; ++k) { int c = mc::choose(dims[k] - 1); s[k] = c + 0.5; ti[k] = c + mc::pick(Vec{0, 0.3, 0.5, 1}); }
  Opts o{3, 1e-9, true, true, std::vector<int>(nd, 0)}; Finder f(o.niter, o.tol); f.setGrid(g.dims, o.per, g.x); search(f, g, s, g.at(ti), o);
}
// any target against any start, limit and tolerance: the status is truthful
static GridN curved(int kind) {
  if (kind < 4) { static const std::vector<Vec> A = {{0, 1, 3}, {0, 10, 10.5, 11}, {5, 4, 1, 0.5, 0}, {-1, 0, 0.01, 3}}; GridN g({(int)A[kind].size()}); g.x[0] = A[kind]; return g; }
  if (kind < 10) { int n0 = kind & 1 ? 4 : 3, n1 = kind & 1 ? 3 : 5; GridN g({n0, n1}); for (int k = 0; k < g.n; ++k) { auto ix = g.inds(k); double s = ix[0] / (n0 - 1.0), t = ix[1] / (n1 - 1.0); double x, y; if (kind < 6) { x = (1 + s) * cos(0.3 + 1.2 * t); y = (1 + s) * sin(0.3 + 1.2 * t); } else if (kind < 8) { x = s * cos(6.283185307179586 * t); y = s * sin(6.283185307179586 * t); } else { x = s + 0.35 * s * t; y = t * t - 0.2 * s * t; } g.x[0][k] = x; g.x[1][k] = y; } return g; }
  GridN g({3, 2, 3}); for (int k = 0; k < g.n; ++k) { auto ix = g.inds(k); double a = ix[0] * 0.5, b = ix[1], c = ix[2] * 0.5; g.x[0][k] = a + 0.2 * b * c; g.x[1][k] = b - 0.3 * a * c + 0.1 * c; g.x[2][k] = c + 0.25 * a * b; } return g;
}
SCENARIO(truth) {
  int kind = mc::choose(11); if (mc::tier < 0 && kind % 3 != 1) mc::prune(); GridN g = curved(kind); int nd = (int)g.dims.size(); Vec s(nd), t(nd); std::vector<int> per(nd, 0); per[nd - 1] = mc::choose(2); mc::split();
  for (int k = 0; k < nd; ++k) s[k] = mc::pick(nd == 3 ? Vec{0, 0.5, g.dims[k] - 1.0} : mc::tier > 0 ? half(g.dims[k], true) : mc::tier < 0 ? Vec{-0.5, 0.5, g.dims[k] - 1.0} : Vec{-0.5, 0, 0.5, 1.7, g.dims[k] - 1.0});
  for (int k = 0; k < nd; ++k) { double lo = *std::min_element(g.x[k].begin(), g.x[k].end()), hi = *std::max_element(g.x[k].begin(), g.x[k].end()); Vec F = mc::tier > 0 ? Vec{-0.3, -1e-6, 0, 0.2, 0.5, 0.77, 1, 1 + 1e-6, 2} : mc::tier < 0 ? Vec{-1e-6, 0.2, 1, 2} : Vec{-1e-6, 0, 0.2, 0.77, 1, 2}; t[k] = lo + mc::pick(F) * (hi - lo); }
  Opts o{mc::pick(std::vector<int>{1, 3, 40}), mc::pick(mc::tier < 0 ? std::vector<double>{1e-9} : std::vector<double>{1e-2, 1e-9, 1e-16}), mc::flip(), false, per};
  Finder f(o.niter, o.tol); f.setGrid(g.dims, per, g.x); search(f, g, s, t, o);
}
// starts in the cell of the target: always found (cells of convex grids)
SCENARIO(same_cell) {
  int kind = mc::choose(14); if (kind == 1 || kind == 3 || kind == 6 || kind == 7) mc::prune(); /* sizes of neighbours differ too much, or degenerate cells */ GridN g = kind < 11 ? curved(kind) : GridN({4, 4}); if (mc::tier < 0 && kind % 4) mc::prune();
  if (kind >= 11) { double d = kind == 11 ? 0.4 : kind == 12 ? -0.3 : 0.2; for (int k = 0; k < 16; ++k) { auto ix = g.inds(k); bool in = ix[0] == 1 || ix[0] == 2, in2 = ix[1] == 1 || ix[1] == 2; g.x[0][k] = ix[0] + (in && in2 ? d * (ix[1] - 1.5) : 0); g.x[1][k] = ix[1] * (kind == 13 ? ix[1] : 1) + (in && in2 ? d * 0.7 : 0); } }
  int nd = (int)g.dims.size(); mc::split(); Vec s(nd), ti(nd); Vec F = nd == 3 ? Vec{0, 0.5, 1} : mc::tier > 0 ? Vec{0, 0.1, 0.25, 0.5, 0.8, 1} : Vec{0, 0.25, 0.5, 1};
  for (int k = 0; k < nd; ++k) { int c = mc::choose(g.dims[k] - 1); s[k] = c + mc::pick(F); ti[k] = c + mc::pick(F); }
  Opts o{200, 1e-8, mc::tier > 0 ? mc::flip() : false, true, std::vector<int>(nd, 0)}; Finder f(o.niter, o.tol); f.setGrid(g.dims, o.per, g.x); search(f, g, s, g.at(ti), o);
}
// annular sectors with evenly or smoothly graded spacing: found from any start in the middle of the grid
SCENARIO(sectors) {
  static const double R0[] = {0.2, 0.5, 1}; double r0 = R0[mc::tier < 0 ? 1 : mc::choose(3)], arc = mc::pick(std::vector<double>{0.5, 1, 1.5}); int pr = mc::range(1, 2), pt = mc::range(1, 2); if (arc > 1 && pr + pt > 2) mc::prune();
  bool cw = mc::flip(); int n = mc::pick(mc::tier > 0 ? std::vector<int>{2, 3, 5, 8, 13, 21, 34} : mc::tier < 0 ? std::vector<int>{5} : std::vector<int>{3, 6, 15}), m = mc::pick(mc::tier > 0 ? std::vector<int>{2, 4, 7, 16, 40} : mc::tier < 0 ? std::vector<int>{4} : std::vector<int>{3, 8, 15}); mc::split();
  GridN g(cw ? std::vector<int>{m, n} : std::vector<int>{n, m});
  for (int k = 0; k < g.n; ++k) { auto ix = g.inds(k); double r = r0 + 1.8 * std::pow(ix[cw] / (n - 1.0), pr), t = 0.4 + arc * std::pow(ix[!cw] / (m - 1.0), pt); g.x[0][k] = 3 + r * cos(t); g.x[1][k] = r * sin(t) - 1; }
  Vec s(2), ti(2); double f0 = mc::pick(Vec{0.4, 0.5, 0.6}), f1 = mc::pick(Vec{0.4, 0.5, 0.6}); s[0] = f0 * (g.dims[0] - 1); s[1] = f1 * (g.dims[1] - 1);
  Opts o{200, 1e-8, false, true, {0, 0}}; Finder f(o.niter, o.tol); f.setGrid(g.dims, o.per, g.x);
  int c0 = mc::choose(g.dims[0] - 1), c1 = mc::choose(g.dims[1] - 1), q = mc::choose(mc::tier > 0 ? 4 : 2); ti[0] = c0 + (q & 1 ? 0.9 : 0.2); ti[1] = c1 + (q & 2 ? 0.15 : 0.7); search(f, g, s, g.at(ti), o);
}
