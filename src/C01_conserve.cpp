// C01: each conservative weight is the overlap area divided by the destination cell area.
#include "conserve.h"
using namespace geo;

struct Options { bool swapOrder = false; int per0 = 0, per1 = 0; };
// (conserve.h holds the tolerance)
static void checkAll(const Grid& dst, const Grid& src, Options o = Options()) {
  Conserve c;
  mc::describe("dst %s src %s%s", dst.str().c_str(), src.str().c_str(), o.swapOrder ? " (source set first)" : "");
  if (o.swapOrder) { c.setSrc(src, o.per0, o.per1); c.setDst(dst); } else { c.setDst(dst); c.setSrc(src, o.per0, o.per1); }
  int rc = c.compute();
  if (rc) mc::fail("rc", "computeWeights returned %d", rc);
  double scale = std::max(scaleOf(dst), scaleOf(src));
  auto w = c.denseByApply();
  mc::Hash h; int pos = 0; bool any = false;
  for (int d = 0; d < dst.cells(); ++d) for (int s = 0; s < src.cells(); ++s) {
    Poly pd = dst.cell(d), ps = src.cell(s);
    L ad = area(pd), ov = overlapArea(pd, ps);
    double got = std::isnan(w[d][s]) ? 0.0 : w[d][s]; // a destination without overlap is left alone
    double want = (double)(ov / ad);
    if (want > 1e-9) { pos++; any = true; }
    h.r(got);
    double diff = std::fabs(got - want);
    if (!(diff <= 1e-11)) {
      double tol = tolFor(pd, ps, scale) / (double)ad;
      if (!(diff <= tol)) mc::fail("weight", "destination cell %d, source cell %d: weight %.15g, overlap fraction %.15g (tolerance %.2g); dst %s src %s", d, s, got, want, tol, dst.str().c_str(), src.str().c_str());
    }
    mc::describe("w[%d][%d] = %.12g expected %.12g", d, s, got, want);
  }
  if (any) {
    std::map<std::pair<int, int>, double> m;
    for (auto& e : c.entries()) {
      if (e.dst < 0 || e.dst >= dst.cells() || e.src < 0 || e.src >= src.cells()) mc::fail("index", "weight entry has indices src %d dst %d", e.src, e.dst);
      if (m.count({e.dst, e.src})) mc::fail("dup", "weight (dst %d, src %d) listed twice", e.dst, e.src);
      m[{e.dst, e.src}] = e.w;
    }
    for (int d = 0; d < dst.cells(); ++d) for (int s = 0; s < src.cells(); ++s) {
      double a = m.count({d, s}) ? m[{d, s}] : 0, b = std::isnan(w[d][s]) ? 0 : w[d][s];
      if (!(std::fabs(a - b) <= 1e-14 * (1 + std::fabs(a)))) mc::fail("iter", "weight (%d,%d): listed %.17g, applied %.17g", d, s, a, b);
    }
  }
  mc::state(h.u(dst.cells()).u(src.cells()).h);
  if (pos > 0) mc::nontrivial(mc::Hash().u(dst.hash()).u(src.hash()).h);
  mc::outcome(pos == 0 ? "no overlap" : pos == 1 ? "one overlap" : pos <= 4 ? "2..4 overlaps" : ">4 overlaps");
}

// every pair of convex lattice quads (any orientation, straight and repeated corners)
static const std::vector<LQuad>& quads(int m, int kind, bool starts, bool orient) {
  static std::map<int, std::vector<LQuad>> cache; int k = m * 100 + kind * 10 + starts * 2 + orient;
  auto it = cache.find(k); if (it == cache.end()) it = cache.emplace(k, latticeQuads(m, kind, starts, orient)).first; return it->second;
}
SCENARIO(pairs) {
  int m = mc::tier < 0 ? 3 : mc::range(3, 4);
  const auto& A = quads(m, m == 3 ? 2 : (mc::tier > 0 ? 1 : 0), m == 3 && mc::tier >= 0, m == 3);
  const auto& B = quads(m, m == 3 ? 2 : (mc::tier > 0 ? 1 : 0), false, m == 3);
  const LQuad& a = mc::pick(A); mc::split();
  if (mc::tier < 0 && (&a - A.data()) % 13) mc::prune();
  int ia = (int)(&a - A.data()); if (mc::tier == 0 && m == 4 && ia % 3) mc::prune();
  int emb = m == 4 && mc::tier == 0 ? 0 : mc::tier == 0 ? ia % 6 : mc::choose(mc::tier < 0 ? 2 : m == 3 ? (int)embeds().size() : 2);
  const Embed& e = embeds()[emb];
  const LQuad& b = mc::pick(B);
  checkAll(quadGrid(a).mapped(e), quadGrid(b).mapped(e));
}
// the second quad displaced against the lattice: fractions of a cell down to below the resolution
SCENARIO(shifts) {
  const auto& A = quads(3, 1, false, true);
  const LQuad& a = mc::pick(A); mc::split();
  if (mc::tier <= 0 && (&a - A.data()) % (mc::tier < 0 ? 29 : 3)) mc::prune();
  const LQuad& b = mc::pick(A);
  if (mc::tier <= 0 && (&b - A.data()) % 3) mc::prune();
  static const std::vector<double> sh = {0, 0.5, -0.25, 1.0 / 3, 1e-3, 1e-5, 3e-7, 1e-9, 1e-13};
  double sx = mc::pick(sh), sy = mc::pick(sh);
  Grid g = quadGrid(b); for (int k = 0; k < 4; ++k) { g.x[k] += sx; g.y[k] -= sy; }
  int emb = mc::choose(mc::tier > 0 ? 3 : 1); const Embed& e = embeds()[emb * 2];
  checkAll(quadGrid(a).mapped(e), g.mapped(e));
}
// scales: one cell pair at sizes and offsets between 0.01 and 1e4
SCENARIO(scales) {
  const auto& A = quads(3, 0, false, true);
  const LQuad& a = mc::pick(A); mc::split();
  if (mc::tier <= 0 && (&a - A.data()) % (mc::tier < 0 ? 29 : 5)) mc::prune();
  const LQuad& b = mc::pick(A);
  if ((&b - A.data()) % (mc::tier > 0 ? 1 : 4)) mc::prune();
  double s = mc::pick(std::vector<double>{1e-8, 1e-4, 0.01, 0.1, 10, 1000, 1e6, 1e-20, 1e20, 0.5}), off = mc::pick(std::vector<double>{0, 1, -7.3});
  Embed e{"scale", s, 0, 0, s, off * s, -off * s * 0.7}; if (s > 1e5 || s < 1e-7) e = {"scale and rotate", 0.6 * s, -0.8 * s, 0.8 * s, 0.6 * s, off * s, -off * s * 0.7};
  if (s == 0.5) e = {"thin", cos(0.3), -0.01 * sin(0.3), sin(0.3), 0.01 * cos(0.3), off, -off * 0.7};
  checkAll(quadGrid(a).mapped(e), quadGrid(b).mapped(e));
}
// thin cells, and cells that are small compared to the distance from the origin
SCENARIO(thinfar) {
  const auto& A = quads(3, 0, false, true); const LQuad& a = mc::pick(A); mc::split(); if (mc::tier <= 0 && (&a - A.data()) % (mc::tier < 0 ? 29 : 5)) mc::prune();
  const LQuad& b = mc::pick(A); if ((&b - A.data()) % (mc::tier > 0 ? 1 : 4)) mc::prune();
  int nt = (int)thinEmbeds().size(), k = mc::choose(nt + 12); Embed e = k < nt ? thinEmbeds()[k] : farEmbed((k - nt) % 3 == 0 ? 1e3 : (k - nt) % 3 == 1 ? 1e4 : 1e5, (k - nt) / 3);
  checkAll(quadGrid(a).mapped(e), quadGrid(b).mapped(e));
}
// grids of any size: rectilinear with uneven spacing, both index orders and directions, rotated
static std::vector<double> axis(int n, int kind) { std::vector<double> v; for (int i = 0; i < n; ++i) { double t = (double)i / (n - 1); v.push_back(kind == 0 ? t : kind == 1 ? t * t : (t + 0.3 * sin(3 * t)) / (1 + 0.3 * sin(3.0))); } return v; }
SCENARIO(sizes) {
  int N = mc::tier < 0 ? 3 : mc::tier > 0 ? 9 : 6;
  int a0 = mc::range(2, N), a1 = mc::range(2, N), b0 = mc::range(2, N), b1 = mc::range(2, N); mc::split();
  int kind = mc::choose(3), rev = mc::choose(4), emb = mc::choose(mc::tier < 0 ? 1 : 3); Options o; o.swapOrder = (a0 + b1 + kind) & 1;
  Grid d = rectilinear(axis(a0, kind), axis(a1, 0)), s = rectilinear(axis(b0, 0), axis(b1, (kind + 1) % 3));
  if (rev & 1) { d.reverse(0); s.reverse(1); } if (rev & 2) { s.transpose(); }
  static const Embed es[3] = {{"id", 1, 0, 0, 1, 0, 0}, {"rot", 0.6, -0.8, 0.8, 0.6, 0.1, 0.2}, {"skewed", 3, 1, -0.5, 2, -4, 10}};
  Embed e2 = es[emb]; if (kind == 2) { e2.tx += 0.21; e2.ty -= 0.13; }
  checkAll(d.mapped(es[emb]), s.mapped(e2), o);
}
// one destination cell over very many source cells and the reverse
SCENARIO(many) {
  int n = mc::pick(mc::tier < 0 ? std::vector<int>{9} : std::vector<int>{11, 12, 17, 18, 33, 34}), m = mc::pick(mc::tier < 0 ? std::vector<int>{3} : std::vector<int>{2, 3, 5}); int swap = mc::choose(2), emb = mc::choose(mc::tier < 0 ? 1 : 2); mc::split();
  Grid big = uniform(n, n + (n % 2), 0, 1, 0, 1), small = uniform(m, 2, -0.05, 0.95, 0.013, 0.9);
  const Embed& e = embeds()[emb * 2];
  if (swap) checkAll(big.mapped(e), small.mapped(e)); else checkAll(small.mapped(e), big.mapped(e));
}
// long and narrow grids: more nodes than fit in eight bits, ten bits, or the room reserved for a row
SCENARIO(narrow) {
  int n = mc::pick(mc::tier < 0 ? std::vector<int>{30} : mc::tier > 0 ? std::vector<int>{66, 130, 259, 300, 514, 1030} : std::vector<int>{66, 130, 259, 300}), k = mc::choose(3), swap = mc::choose(2), tr = mc::choose(4); mc::split(); int m = mc::pick(std::vector<int>{2, 3, 8}), emb = mc::choose(2);
  double o = mc::pick(std::vector<double>{0, 0.37, -3}), w = mc::pick(std::vector<double>{1, 0.5}); Grid a = uniform(n, k + 2, 0, n - 1, 0, k + 1), b = uniform(m, 2, o, o + w * (n - 1), 0.25, 0.75 + k); if (tr & 1) a.transpose(); if (tr & 2) b.transpose();
  const Embed& e = embeds()[emb * 2]; if (swap) checkAll(a.mapped(e), b.mapped(e)); else checkAll(b.mapped(e), a.mapped(e));
}
// rings, horseshoes, sectors and spirals: the cells under one destination cell are scattered over the index space.
// The nodes describe the source grid whether or not it is declared periodic
SCENARIO(polar) {
  int nt = mc::pick(mc::tier < 0 ? std::vector<int>{5} : mc::tier > 0 ? std::vector<int>{4, 5, 8, 13, 24, 40} : std::vector<int>{5, 8, 24}), nr = mc::range(1, mc::tier > 0 ? 4 : mc::tier < 0 ? 1 : 3), form = mc::choose(5), lay = mc::choose(4); mc::split();
  double inner = mc::pick(std::vector<double>{0, 0.6}), span = form == 0 ? 1 : form == 1 ? 0.8 : form == 2 ? 0.3 : form == 3 ? 1 : 2; if (form == 2 && nt > 24) mc::prune(); if (span / nt > 0.3) mc::prune();
  Grid g(nt + 1, nr + 1); for (int i = 0; i <= nt; ++i) for (int j = 0; j <= nr; ++j) { double r = inner + (2 - inner) * j / nr, t = 0.2 + 2 * M_PI * span * ((form == 0 || form == 3) && i == nt ? 0 : i) / nt; if (form == 4) r = inner + 0.3 + 1.2 * (i + 0.8 * nt * j / (2.0 * nr)) / nt; g.set(i, j, r * cos(t), r * sin(t)); } if (form == 3) for (int i = 0; i <= nt; ++i) for (int j = 0; j <= nr; ++j) { int k = g.node(i, j); g.x[k] *= 1.5; }
  if (lay & 1) g.transpose(); if (lay & 2) g.reverse(nr & 1); for (int c = 0; c < g.cells(); ++c) if (!convex(g.cell(c), 1e-9L)) mc::prune();
  int kind = mc::choose(6); Grid h; switch (kind) { case 0: h = uniform(2, 2, -2.1, 2.1, -0.21, 0.17); break; case 1: h = uniform(3, 4, -2.3, 1.7, -1.3, 2.2); break; case 2: h = uniform(2, 3, -1.9, 1.1, -4, 4); break; case 3: h = uniform(4, 2, -2.2, 2.2, 0.31, 1.21); break; case 4: h = uniform(2, 2, -3, 3, -3, 3); break; default: h = uniform(2, 4, 0.15, 0.35, -2.5, 2.5); }
  Options o; o.per0 = mc::choose(2); o.per1 = mc::choose(2); o.swapOrder = kind & 1; int swap = mc::choose(2), emb = mc::choose(mc::tier > 0 ? 3 : 1); if (mc::tier <= 0 && swap && (o.per0 != o.per1)) mc::prune(); const Embed& e = embeds()[emb * 2];
  if (swap) checkAll(g.mapped(e), h.mapped(e), o); else checkAll(h.mapped(e), g.mapped(e), o);
}
// grids that fold back and lie in several layers over a cell: every walk of the columns (and two of the rows) over a few positions
SCENARIO(layers) {
  int n = mc::tier < 0 ? 3 : mc::tier > 0 ? 6 : 5, P = mc::tier < 0 ? 3 : 4; std::vector<double> X, Y; int last = -1; static const double pos[4] = {0, 1.5, 2, 4};
  for (int i = 0; i < n; ++i) { int k = mc::choose(last < 0 ? P : P - 1); if (last >= 0 && k >= last) ++k; X.push_back(pos[k]); last = k; if (i == 1) mc::split(); }
  switch (mc::choose(3)) { case 0: Y = {0, 1}; break; case 1: Y = {0, 1, 0}; break; default: Y = {1, -0.5, 2, 0}; }
  Grid s = rectilinear(X, Y); static const Embed es[2] = {{"id", 1, 0, 0, 1, 0, 0}, {"skewed", 3, 1, -0.5, 2, -4, 10}}; int tr = mc::choose(2), swap = mc::choose(2), emb = mc::choose(mc::tier > 0 ? 2 : 1); if (tr) s.transpose(); if (mc::tier <= 0) emb = tr;
  Grid d; switch (mc::choose(4)) { case 0: d = uniform(2, 2, 0, 1, 0, 1); break; case 1: d = uniform(2, 2, 0.25, 1.75, 0.1, 0.8); break; case 2: d = uniform(4, 3, -0.3, 4.2, -0.6, 1.1); break; default: d = rectilinear({0, 2, 4}, {0, 1}); }
  Options o; o.swapOrder = (int)X[0] & 1; if (swap) checkAll(s.mapped(es[emb]), d.mapped(es[emb]), o); else checkAll(d.mapped(es[emb]), s.mapped(es[emb]), o);
}
// curvilinear source and destination: every displacement of the inner/edge nodes from an alphabet
SCENARIO(curvilinear) {
  static const int D[5][2] = {{0, 0}, {1, 0}, {0, -1}, {-1, 1}, {1, 1}};
  int K = mc::tier < 0 ? 2 : 5;
  Grid d = uniform(3, 3, 0, 4, 0, 4), s = uniform(3, 3, -1, 3, 1, 5);
  int c0 = mc::choose(K), c1 = mc::choose(K), c2 = mc::choose(mc::tier > 0 ? K : 2); mc::split();
  int c3 = mc::choose(K), c4 = mc::choose(K), c5 = mc::choose(mc::tier > 0 ? K : 2), emb = mc::choose(mc::tier < 0 ? 1 : 3);
  double f = 0.5;
  d.x[4] += f * D[c0][0]; d.y[4] += f * D[c0][1]; d.x[1] += f * D[c1][0]; d.y[1] += f * D[c1][1]; d.x[5] += f * D[c2][0]; d.y[5] += f * D[c2][1];
  s.x[4] += f * D[c3][0]; s.y[4] += f * D[c3][1]; s.x[3] += f * D[c4][0]; s.y[3] += f * D[c4][1]; s.x[8] += f * D[c5][0]; s.y[8] += f * D[c5][1];
  for (int c = 0; c < 4; ++c) if (!convex(d.cell(c)) || !convex(s.cell(c))) mc::prune();
  const Embed& e = embeds()[emb];
  checkAll(d.mapped(e), s.mapped(e));
}
// thin strips: cells of one grid which are covered almost completely, the rest spread over thin overlaps
SCENARIO(strips) {
  static const double D[] = {1e-2, 1e-3, 1e-4, 2e-5, 6e-6}; int nd = mc::tier < 0 ? 2 : 5;
  double a = D[mc::choose(nd)], b = D[mc::choose(nd)]; int shape = mc::choose(4); mc::split();
  double c = D[mc::choose(nd)], d = D[mc::choose(nd)]; int swap = mc::choose(2), emb = mc::choose(mc::tier < 0 ? 1 : 4), rev = mc::choose(2);
  std::vector<double> X, Y; switch (shape) { case 0: X = {-1, a, 1 - b, 2}; Y = {-1, c, 1 - d, 2}; break; case 1: X = {a, 1 - b}; Y = {-c, 1 + d}; break; case 2: X = {-a, 1 - b, 1 - b / 2, 2}; Y = {-1, 0.5, 1 + c}; break; default: X = {-0.5, 0.5 - a, 0.5 + b, 1.5}; Y = {c, 0.5, 1 - d, 1}; if (d == c) Y = {-c, 0.4, 1}; }
  Grid g = rectilinear(X, Y), h = rectilinear({0, 0.5, 1}, {0, 1}); if (shape == 0) h = rectilinear({0, 1}, {0, 1}); if (rev) { g.reverse(0); h.transpose(); }
  if (shape >= 2 && a == b && c != D[0]) mc::prune();
  const Embed& e = embeds()[emb]; if (swap) std::swap(g, h); checkAll(h.mapped(e), g.mapped(e), Options());
}
