// C07: the convex hull area reported for a point set is the area of its convex hull.
#include "mc.h"
#include "geo.h"
#include "SgTriangulate.h"
using namespace geo;

static void checkHull(const std::vector<double>& pts, double scale, const char* what, double tolAbs = 0, bool expectNontrivial = true) {
  int n = (int)pts.size() / 2;
  Poly p; mc::Hash h;
  for (int i = 0; i < n; ++i) { p.push_back({pts[2 * i], pts[2 * i + 1]}); h.d(pts[2 * i]).d(pts[2 * i + 1]); }
  Poly hl = hull(p);
  L want = hl.size() < 3 ? 0 : area(hl);
  std::vector<double> copy = pts; copy.push_back(12345.0); copy.push_back(-54321.0); // trap values past the end
  if (mc::verbose) { std::string s; char b[80]; for (int i = 0; i < n && i < 20; ++i) { snprintf(b, 80, "(%.17g,%.17g) ", pts[2 * i], pts[2 * i + 1]); s += b; } mc::describe("%s: %d points %s", what, n, s.c_str()); }
  SgTriangulate_type* t = nullptr;
  std::vector<double> exact(pts); // exactly sized buffer: reads past the end are visible to the sanitizer
  int rc = SgTriangulate_new(&t, n, exact.data());
  double a = -1, a2 = -1;
  int rc2 = SgTriangulate_getConvexHullArea(&t, &a);
  SgTriangulate_getConvexHullArea(&t, &a2);
  SgTriangulate_del(&t);
  mc::step(4);
  mc::describe("area %.17g expected %.17Lg", a, want);
  mc::state(mc::Hash().r(a).u(n).h);
  if (hl.size() >= 3 && (int)hl.size() < n) mc::nontrivial(h.h);
  mc::outcome(hl.size() < 3 ? "degenerate" : (int)hl.size() == n ? "all on hull" : "interior or repeated points");
  if (rc != 0 || rc2 != 0) mc::fail("rc", "return codes %d %d", rc, rc2);
  double tol = scale < 0 ? 1e-9 * scale * scale : tolAbs + 1e-11 * (scale * scale + 1e-2) * (1 + n / 50.0);
  if (!(fabsl((L)a - want) <= tol)) mc::fail("area", "%s: area %.17g, expected %.17Lg (%d points)", what, a, want, n);
  if (!(a == a2)) mc::fail("repeat", "second query differs: %.17g %.17g", a, a2);
  for (size_t i = 0; i < pts.size(); ++i) if (pts[i] != exact[i]) mc::fail("input", "input points modified");
}
static double scaleOf(const Embed& e) { return std::fabs(e.a) + std::fabs(e.b) + std::fabs(e.c) + std::fabs(e.d) + 1e-3 * (std::fabs(e.tx) + std::fabs(e.ty)); }

// every ordered sequence of n points of a small lattice (ties in the distance ordering, repeats, lines)
SCENARIO(sequences) {
  int nmax = mc::tier < 0 ? 3 : mc::tier == 0 ? 5 : 6;
  int n = mc::range(0, nmax);
  int m = 3; if (mc::tier >= 0 && n <= 4) m = mc::range(3, mc::tier > 0 ? 5 : 4);
  const auto& es = embeds();
  int ne = n <= 4 ? (int)es.size() : n == 5 ? (mc::tier > 0 ? (int)es.size() : 3) : 2;
  const Embed& e = es[mc::choose(ne)];
  std::vector<double> p(2 * n);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(m * m);
    if (i == (n < 2 ? n - 1 : 1)) mc::split();
    apply(e, k / m, k % m, &p[2 * i]);
  }
  if (n == 0) mc::split();
  checkHull(p, m * scaleOf(e), e.name);
}

// every subset of a lattice (up to 16 points: points that see many edges at once)
SCENARIO(subsets) {
  const auto& es = embeds();
  const Embed& e = es[mc::choose(mc::tier < 0 ? 1 : mc::tier > 0 ? (int)es.size() : 4)];
  int w = mc::tier < 0 ? 3 : 4, h = mc::tier < 0 ? 3 : 4;
  bool rev = mc::flip();
  int lo = mc::choose(1 << w); mc::split();
  int hi = mc::choose(1 << (w * h - w));
  long mask = lo | ((long)hi << w);
  std::vector<double> p;
  for (int q = 0; q < w * h; ++q) { int k = rev ? w * h - 1 - q : q; if (mask >> k & 1) { double o[2]; apply(e, k / w, k % w, o); p.push_back(o[0]); p.push_back(o[1]); } }
  checkHull(p, 4 * scaleOf(e), e.name);
}

// every k-subset of a 5x5 (quick k<=5) lattice with the long side stretched: obtuse fans
SCENARIO(wide) {
  int k = mc::range(3, mc::tier < 0 ? 3 : mc::tier > 0 ? 6 : 5);
  const Embed& e = embeds()[mc::tier > 0 ? mc::choose(3) : mc::choose(2) * 3];
  double sx = mc::flip() ? 3.7 : 1;
  std::vector<double> p; int last = -1;
  for (int i = 0; i < k; ++i) {
    int r = 25 - (last + 1) - (k - 1 - i);
    int c = last + 1 + mc::choose(r); last = c;
    if (i == 1) mc::split();
    double o[2]; apply(e, sx * (c / 5), c % 5, o); p.push_back(o[0]); p.push_back(o[1]);
  }
  checkHull(p, 16 * scaleOf(e), e.name);
}

// repeated points: a triangle/quad/pentagon, each vertex repeated, in every order up to a bound
SCENARIO(repeats) {
  int m = mc::range(1, 4), n = mc::tier < 0 ? 4 : mc::tier > 0 ? 8 : 7;
  const double vx[] = {0, 3, 1, 2}, vy[] = {0, 1, 2, -1};
  double jit = mc::pick(std::vector<double>{0, 1e-15, 1e-9, 2e-7});
  std::vector<double> p; mc::Hash h;
  for (int i = 0; i < n; ++i) { int k = mc::choose(m); if (i == 2) mc::split(); p.push_back(vx[k] + jit * (i % 3)); p.push_back(vy[k] - jit * (i % 2)); }
  // points closer than the resolution of the code (1e-7) may be merged
  checkHull(p, 4, "repeats", 10 * jit);
}

// all convex position / interior mixes of growing size: the size of the set is the parameter
SCENARIO(sizes) {
  int shape = mc::choose(5); mc::split();
  static const int big[] = {200, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 514, 640}; // sizes around the powers of two
  int n = mc::range(1, mc::tier < 0 ? 12 : mc::tier > 0 ? 413 : 163); int small = mc::tier > 0 ? 400 : 150; if (n > small) n = mc::tier > 0 ? std::max(big[n - small - 1], 2 * n) : big[n - small - 1];
  bool rev = mc::flip();
  const Embed& e = embeds()[mc::choose(mc::tier < 0 ? 1 : 3)];
  std::vector<double> p;
  for (int q = 0; q < n; ++q) {
    int i = rev ? n - 1 - q : q; double x, y;
    if (shape == 0) { double t = 2 * M_PI * i / n; x = 2 * cos(t); y = 2 * sin(t); }          // circle: ties
    else if (shape == 1) { x = i; y = (double)i * i / n; }                                    // parabola
    else if (shape == 2) { int s = (int)ceil(sqrt((double)n)); x = i % s; y = i / s; }        // block
    else if (shape == 3) { x = i; y = 2.0 * i + 1; }                                          // line
    else { double t = 2.4 * i, r = 0.3 * sqrt((double)i); x = r * cos(t); y = r * sin(t); }   // spiral
    double o[2]; apply(e, x * 4 / (shape == 1 || shape == 3 ? n : 4), y * 4 / (shape == 1 || shape == 3 ? n : 4), o); p.push_back(o[0]); p.push_back(o[1]);
  }
  checkHull(p, 8 * scaleOf(e), "sizes");
}

// a point on, or a controlled distance off, each edge of a polygon: the sign test at its margin
SCENARIO(margins) {
  int n = mc::range(3, 6); int edge = mc::choose(n); mc::split();
  double t = mc::pick(std::vector<double>{-0.5, 0, 0.25, 0.5, 1, 1.5});
  double off = mc::pick(std::vector<double>{0, 1e-14, -1e-14, 1e-10, -1e-10, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3, 0.1});
  double size = mc::pick(std::vector<double>{0.1, 1, 30});
  int posn = mc::choose(n + 1);
  std::vector<P> v; for (int i = 0; i < n; ++i) { double a = 0.3 + 2 * M_PI * i / n; v.push_back({(L)(size * cos(a)), (L)(size * 0.7 * sin(a))}); }
  P a = v[edge], b = v[(edge + 1) % n]; P d = b - a; P nrm = {d.y / norm(d), -d.x / norm(d)};
  P q = a + (L)t * d + (L)off * nrm;
  v.insert(v.begin() + posn, q);
  std::vector<double> p; for (auto& x : v) { p.push_back((double)x.x); p.push_back((double)x.y); }
  checkHull(p, size, "margins", 0);
}

// the area scales with the square of the coordinates
SCENARIO(scaled) {
  double g = mc::pick(std::vector<double>{1, 1e-4, 1e4}); double f = mc::pick(std::vector<double>{1, 1e-2, 1e-3, 1e-5, 1e-8, 1e4, 1e-12, 1e-20, 1e-60, 1e8, 1e20, 1e60}); int m = 3, n = mc::range(3, mc::tier > 0 ? 6 : mc::tier < 0 ? 3 : 5); std::vector<double> p(2 * n); if (mc::tier < 0 && f < 1e-3) mc::prune();
  for (int i = 0; i < n; ++i) { int k = mc::choose(m * m); if (i == 0) mc::split(); p[2 * i] = f * (k / m + (k == 4 ? 0.037 : 0)); p[2 * i + 1] = g * f * (k % m - (k == 5 ? 2e-3 : 0)); }
  checkHull(p, -m * f * std::max(1., g), "scaled");
}

// many points on one line and a few off it: the points nearest the centre of gravity may all be on the line
SCENARIO(collinear) {
  int k = mc::range(2, mc::tier < 0 ? 8 : mc::tier > 0 ? 60 : 24); mc::split();
  int layout = mc::choose(3);                 // symmetric about the foot of the off points, one sided, unequal spacing
  int noff = mc::range(0, 3); int where = mc::choose(noff == 0 ? 1 : 4); // off points: same side, both sides, near, far
  int order = mc::choose(4);                  // off points first, last, in the middle, line points reversed
  bool dup = mc::flip();                      // every line point twice
  const Embed& e = embeds()[mc::choose(mc::tier < 0 ? 1 : mc::tier > 0 ? (int)embeds().size() : 4)];
  std::vector<std::pair<double, double>> on, off, all;
  for (int i = 0; i < k; ++i) { double x = layout == 0 ? i - 0.5 * (k - 1) : layout == 1 ? i : 0.25 * i * (i + 1) / (k > 8 ? 0.25 * k : 1.0); on.push_back({x, 0}); if (dup) on.push_back({x, 0}); }
  double d = where == 2 ? 0.25 : where == 3 ? 4.0 * k : 1.5 * k;
  for (int i = 0; i < noff; ++i) off.push_back({layout == 0 ? 0.5 * (i % 2) : 0.25 * k + i, (where == 1 && i % 2 ? -1 : 1) * d * (1 + 0.5 * (i / 2))});
  if (order == 3) std::reverse(on.begin(), on.end());
  size_t at = order == 0 ? 0 : order == 1 ? on.size() : on.size() / 2;
  all.assign(on.begin(), on.begin() + at); all.insert(all.end(), off.begin(), off.end()); all.insert(all.end(), on.begin() + at, on.end());
  std::vector<double> p; for (auto& q : all) { double o[2]; apply(e, q.first * 8 / k, q.second * 8 / k, o); p.push_back(o[0]); p.push_back(o[1]); }
  checkHull(p, 40 * scaleOf(e), "collinear");
}

// whole blocks of lattice points, turned and sheared: the rows are lines only up to round-off errors
SCENARIO(blocks) {
  int w = mc::range(2, mc::tier < 0 ? 6 : mc::tier > 0 ? 48 : 28), h = mc::range(1, mc::tier < 0 ? 4 : mc::tier > 0 ? 24 : 14); mc::split();
  int turn = mc::choose(mc::tier < 0 ? 3 : mc::tier > 0 ? 40 : 16), order = mc::choose(3); double step = mc::pick(std::vector<double>{1, 0.1}), shear = mc::pick(std::vector<double>{0, 1.0 / 3}), off = mc::pick(std::vector<double>{0, 7.3}); if (mc::tier <= 0 && (shear > 0) != (off > 0)) mc::prune();
  double t = 0.1 + 0.37 * turn, c = cos(t), s = sin(t); std::vector<std::pair<double, double>> q; for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) q.push_back({step * (i + shear * j), step * j});
  if (order == 1) std::reverse(q.begin(), q.end()); if (order == 2) { std::vector<std::pair<double, double>> r; for (size_t k = 0; k < 7; ++k) for (size_t i = k; i < q.size(); i += 7) r.push_back(q[i]); q = r; }
  std::vector<double> p; for (auto& a : q) { p.push_back(off + c * a.first - s * a.second); p.push_back(-off + s * a.first + c * a.second); }
  checkHull(p, step * (w + 2 * h) + off * 1e-3, "blocks");
}
