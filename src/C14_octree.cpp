// C14: the boxes of every level tile the bounding box of the points, and keys name nested boxes
// which contain the point they were asked for.
#include "mc.h"
#include "SgOctreePoints.h"
typedef std::vector<double> Vec; typedef std::vector<size_t> Key;
struct Tree { SgOctreePoints_type* h = nullptr; Tree(int lev, int nd, const Vec& pts) { Vec c(pts); SgOctreePoints_new(&h, lev, nd, (int)(pts.size() / nd), c.data()); mc::step(); std::fill(c.begin(), c.end(), 1e300); } ~Tree() { SgOctreePoints_del(&h); mc::step(); } Tree(const Tree&) = delete; };
static std::string str(const Key& k) { std::string s = "["; for (size_t v : k) s += std::to_string(v) + " "; return s + "]"; }
static std::string str(const Vec& k) { std::string s = "["; char b[40]; for (double v : k) { snprintf(b, 40, "%.17g ", v); s += b; } return s + "]"; }
struct Box { Vec lo, hi; };
static Box box(Tree& t, const Key& k) { mc::step(2); return {t.h->getLo(k), t.h->getHi(k)}; }
static double scale(const Box& d, int j) { return std::max(std::fabs(d.lo[j]), std::fabs(d.hi[j])); }
// all keys of a level
static void keys(int nd, int lev, const std::function<void(const Key&)>& f) { Key k(lev, 0); size_t q = (size_t)1 << nd; for (;;) { f(k); int i = lev - 1; while (i >= 0 && ++k[i] == q) k[i--] = 0; if (i < 0) return; } }
static void checkTiling(Tree& t, int nd, int L, const Box& D) {
  for (int lev = 1; lev <= L; ++lev) {
    std::set<std::vector<long>> seen; size_t n = 0;
    keys(nd, lev, [&](const Key& k) {
      Box b = box(t, k); if ((int)b.lo.size() != nd || (int)b.hi.size() != nd) mc::fail("size", "box of key %s has %zu/%zu coordinates", str(k).c_str(), b.lo.size(), b.hi.size());
      Key par(k.begin(), k.end() - 1); Box p = lev > 1 ? box(t, par) : D; std::vector<long> id;
      for (int j = 0; j < nd; ++j) {
        double ext = D.hi[j] - D.lo[j], w = ext / std::pow(2.0, lev), tol = 1e-12 * (ext + scale(D, j));
        if (std::fabs(b.hi[j] - b.lo[j] - w) > tol) mc::fail("extent", "box %s of key %s (level %d): extent %.17g along axis %d is not %.17g", (str(b.lo) + str(b.hi)).c_str(), str(k).c_str(), lev, b.hi[j] - b.lo[j], j, w);
        if (b.lo[j] < p.lo[j] - tol || b.hi[j] > p.hi[j] + tol) mc::fail("nested", "box %s of key %s is not inside the box %s of the level above", (str(b.lo) + str(b.hi)).c_str(), str(k).c_str(), (str(p.lo) + str(p.hi)).c_str());
        if (w > 0) { double q = (b.lo[j] - D.lo[j]) / w; if (std::fabs(q - std::round(q)) > 1e-9 * (1 + scale(D, j) / w)) mc::fail("lattice", "box %s of key %s is not one of the equal boxes of level %d", (str(b.lo) + str(b.hi)).c_str(), str(k).c_str(), lev); id.push_back(std::lround(q)); } }
      bool flat = (int)id.size() < nd; if (!flat && !seen.insert(id).second) mc::fail("twice", "box %s appears twice at level %d", (str(b.lo) + str(b.hi)).c_str(), lev); ++n; mc::Hash h; h.u(lev); for (size_t v : k) h.u(v); for (int j = 0; j < nd; ++j) h.r(b.lo[j]).r(b.hi[j]); mc::state(h.h); });
    if (n != (size_t)1 << (nd * lev)) mc::fail("count", "%zu boxes at level %d", n, lev); }
}
static void checkQuery(Tree& t, int nd, int L, const Box& D, const Vec& p) {
  Key prev;
  for (int lev = 1; lev <= L; ++lev) {
    Key k = t.h->getKey(p.data(), (size_t)lev); mc::step(); if ((int)k.size() != lev) mc::fail("keysize", "key of level %d has %zu entries", lev, k.size());
    for (size_t v : k) if (v >= (size_t)1 << nd) mc::fail("keyrange", "key %s of point %s has an entry out of range", str(k).c_str(), str(p).c_str());
    if (!std::equal(prev.begin(), prev.end(), k.begin())) mc::fail("nesting", "key %s of point %s at level %d does not extend the key %s", str(k).c_str(), str(p).c_str(), lev, str(prev).c_str());
    Box b = box(t, k); for (int j = 0; j < nd; ++j) { double q = std::min(D.hi[j], std::max(D.lo[j], p[j])), tol = 1e-12 * (D.hi[j] - D.lo[j] + scale(D, j)); if (!(q >= b.lo[j] - tol && q <= b.hi[j] + tol)) mc::fail("contains", "point %s (level %d, key %s) is not in the box %s of its key", str(p).c_str(), lev, str(k).c_str(), (str(b.lo) + str(b.hi)).c_str()); }
    prev = k; }
  bool in = true; for (int j = 0; j < nd; ++j) in &= p[j] >= D.lo[j] && p[j] <= D.hi[j]; mc::outcome(in ? "inside" : "outside");
}
static const std::vector<std::pair<double, double>>& axes() { static const std::vector<std::pair<double, double>> a = {{0, 1}, {-3, 7.1}, {1e4, 1e4 + 0.3}, {-2e-3, 1e-3}, {2, 2}, {-180, 180}}; return a; }
static int maxLev(int nd) { return mc::tier < 0 ? 2 : mc::tier == 0 ? (nd == 1 ? 7 : nd == 2 ? 4 : 3) : (nd == 1 ? 10 : nd == 2 ? 5 : 4); }
// every combination of axis ranges; all queries of a lattice finer than the last level, which
// also reaches outside
SCENARIO(lattice) {
  int nd = mc::range(1, 3), L = mc::range(1, maxLev(nd)); Box D; for (int j = 0; j < nd; ++j) { auto a = mc::pick(axes()); D.lo.push_back(a.first); D.hi.push_back(a.second); }
  int how = mc::choose(3); Vec pts; // two corners, all corners, corners among inner points
  if (how == 0) { for (int j = 0; j < nd; ++j) pts.push_back(j % 2 ? D.hi[j] : D.lo[j]); for (int j = 0; j < nd; ++j) pts.push_back(j % 2 ? D.lo[j] : D.hi[j]); }
  else { if (how == 2) for (int j = 0; j < nd; ++j) pts.push_back((D.lo[j] + D.hi[j]) / 2); for (int c = 0; c < 1 << nd; ++c) for (int j = 0; j < nd; ++j) pts.push_back(c >> j & 1 ? D.lo[j] : D.hi[j]); if (how == 2) for (int j = 0; j < nd; ++j) pts.push_back(D.lo[j] + (D.hi[j] - D.lo[j]) / 3); }
  mc::split(); Tree t(L, nd, pts); Box all = box(t, Key()); for (int j = 0; j < nd; ++j) if (all.lo[j] != D.lo[j] || all.hi[j] != D.hi[j]) mc::fail("domain", "domain %s is not the bounding box %s of the points", (str(all.lo) + str(all.hi)).c_str(), (str(D.lo) + str(D.hi)).c_str());
  checkTiling(t, nd, L, D); int m = nd == 1 ? 4 << L : nd == 2 ? (L > 3 ? 2 << L : 4 << L) : std::min(16, 2 << L); std::vector<int> q(nd, -1); long n = 0;
  for (;;) { Vec p(nd); for (int j = 0; j < nd; ++j) { double ext = D.hi[j] - D.lo[j]; p[j] = D.lo[j] + ext * q[j] / m; if (ext == 0) p[j] += 0.1 * q[j]; else if (q[j] == m) p[j] = D.hi[j]; } checkQuery(t, nd, L, D, p); ++n; int j = nd - 1; while (j >= 0 && ++q[j] > m + 1) q[j--] = -1; if (j < 0) break; }
  mc::Hash h; h.u(nd).u(L).u(how); for (int j = 0; j < nd; ++j) h.d(D.lo[j]).d(D.hi[j]); mc::nontrivial(h.h); mc::describe("%d dimensions, %d levels, domain %s: %ld queries", nd, L, (str(D.lo) + str(D.hi)).c_str(), n);
}
// every small set of points, in every order, queried at the points themselves and in between
SCENARIO(pointsets) {
  int nd = mc::range(1, 3), np = mc::range(1, mc::tier > 0 ? 4 : 3), L = mc::range(1, mc::tier < 0 ? 2 : 3); static const Vec A = {0, 0.7, 1.3, 10}; Vec pts; for (int i = 0; i < np * nd; ++i) { int m = nd == 3 && mc::tier <= 0 ? 2 : nd == 3 ? 3 : 4; if (nd == 2 && np > 3) m = 3; pts.push_back(A[mc::choose(m)] - 1); if (i == 0) mc::split(); }
  Box D; D.lo.assign(nd, 1e300); D.hi.assign(nd, -1e300); for (int i = 0; i < np * nd; ++i) { D.lo[i % nd] = std::min(D.lo[i % nd], pts[i]); D.hi[i % nd] = std::max(D.hi[i % nd], pts[i]); }
  Tree t(L, nd, pts); checkTiling(t, nd, L, D); for (int i = 0; i < np; ++i) checkQuery(t, nd, L, D, Vec(pts.begin() + i * nd, pts.begin() + (i + 1) * nd)); for (int i = 0; i + 1 < np; ++i) { Vec c(nd); for (int j = 0; j < nd; ++j) c[j] = 0.3 * pts[i * nd + j] + 0.7 * pts[(i + 1) * nd + j]; checkQuery(t, nd, L, D, c); }
  mc::Hash h; h.u(nd).u(L); for (double v : pts) h.d(v); mc::nontrivial(h.h); mc::describe("points %s: domain %s", str(pts).c_str(), (str(D.lo) + str(D.hi)).c_str());
}
// more dimensions: boxes, corners and middles of all boxes, and points outside
SCENARIO(dimensions) {
  int nd = mc::range(4, mc::tier < 0 ? 4 : mc::tier > 0 ? 7 : 6), L = mc::range(1, mc::tier < 0 ? 1 : (mc::tier > 0 ? 12 : 10) / nd), shift = mc::choose((int)axes().size()), step = mc::choose(3); mc::split(); Box D; for (int j = 0; j < nd; ++j) { auto a = axes()[(shift + step * j) % axes().size()]; D.lo.push_back(a.first); D.hi.push_back(a.second); }
  int how = mc::choose(2); Vec pts; if (how == 0) { for (int j = 0; j < nd; ++j) pts.push_back(j % 2 ? D.hi[j] : D.lo[j]); for (int j = 0; j < nd; ++j) pts.push_back(j % 2 ? D.lo[j] : D.hi[j]); } else for (int c = 0; c < 1 << nd; ++c) for (int j = 0; j < nd; ++j) pts.push_back(c >> j & 1 ? D.lo[j] : D.hi[j]);
  Tree t(L, nd, pts); Box all = box(t, Key()); for (int j = 0; j < nd; ++j) if (all.lo[j] != D.lo[j] || all.hi[j] != D.hi[j]) mc::fail("domain", "domain %s is not the bounding box %s of the points", (str(all.lo) + str(all.hi)).c_str(), (str(D.lo) + str(D.hi)).c_str());
  checkTiling(t, nd, L, D); Vec F = nd == 4 ? Vec{-0.2, 0, 0.3, 0.5, 0.8, 1} : nd == 5 ? Vec{-0.2, 0.3, 0.5, 1} : Vec{0, 0.3, 1.1}; std::vector<int> q(nd, 0); long n = 0;
  for (;;) { Vec p(nd); for (int j = 0; j < nd; ++j) p[j] = F[q[j]] == 1 ? D.hi[j] : D.lo[j] + (D.hi[j] - D.lo[j] + (D.hi[j] == D.lo[j])) * F[q[j]]; checkQuery(t, nd, L, D, p); ++n; int j = nd - 1; while (j >= 0 && ++q[j] == (int)F.size()) q[j--] = 0; if (j < 0) break; }
  mc::Hash h; h.u(nd).u(L).u(how); for (int j = 0; j < nd; ++j) h.d(D.lo[j]).d(D.hi[j]); mc::nontrivial(h.h); mc::describe("%d dimensions, %d levels, domain %s: %ld queries", nd, L, (str(D.lo) + str(D.hi)).c_str(), n);
}
// keys of levels far below the boxes that are kept: each one extends the one before, and halving the domain along it leads to the point
SCENARIO(deep) {
  int nd = mc::range(1, mc::tier > 0 ? 4 : 3), L = mc::range(1, 2), shift = mc::choose((int)axes().size()), step = mc::choose(3); mc::split(); Box D; Vec pts; for (int j = 0; j < nd; ++j) { auto a = axes()[(shift + step * j) % axes().size()]; D.lo.push_back(a.first); D.hi.push_back(a.second); } pts = D.lo; pts.insert(pts.end(), D.hi.begin(), D.hi.end()); Tree t(L, nd, pts);
  static const Vec F = {0, 1, 1.0 / 3, 0.5, 0.7, 1e-3, 0.999, -0.3, 1.2}; Vec p(nd); for (int j = 0; j < nd; ++j) { double f = F[mc::choose(nd > 2 ? 6 : 9)]; p[j] = f == 1 ? D.hi[j] : D.lo[j] + (D.hi[j] - D.lo[j] + (D.hi[j] == D.lo[j])) * f; }
  Key prev; mc::Hash h; int N = mc::tier < 0 ? 12 : 45; for (int lev = 1; lev <= N; ++lev) { Key k = t.h->getKey(p.data(), (size_t)lev); mc::step(); if ((int)k.size() != lev || !std::equal(prev.begin(), prev.end(), k.begin())) mc::fail("nesting", "key %s of point %s at level %d does not extend the key %s", str(k).c_str(), str(p).c_str(), lev, str(prev).c_str()); prev = k;
    Box b = D; for (size_t v : k) { if (v >= (size_t)1 << nd) mc::fail("keyrange", "key %s of point %s has an entry out of range", str(k).c_str(), str(p).c_str()); for (int j = 0; j < nd; ++j) { double m = 0.5 * (b.lo[j] + b.hi[j]); (v >> (nd - 1 - j) & 1 ? b.lo[j] : b.hi[j]) = m; } }
    for (int j = 0; j < nd; ++j) { double q = std::min(D.hi[j], std::max(D.lo[j], p[j])), tol = 1e-12 * (D.hi[j] - D.lo[j] + scale(D, j)); if (!(q >= b.lo[j] - tol && q <= b.hi[j] + tol)) mc::fail("deep", "point %s is not in the box %s which its key %s of level %d leads to", str(p).c_str(), (str(b.lo) + str(b.hi)).c_str(), str(k).c_str(), lev); } for (size_t v : k) h.u(v); }
  mc::state(h.h); mc::nontrivial(mc::Hash().u(nd).u(shift).u(step).u(L).h ^ h.h); mc::describe("domain %s point %s: key %s", (str(D.lo) + str(D.hi)).c_str(), str(p).c_str(), str(prev).c_str());
}
