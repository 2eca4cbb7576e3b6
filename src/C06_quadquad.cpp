// C06: the intersection points of two quads are the corners of their common region (and lie in it).
#include "api.h"
using namespace geo;

static Vec latt(const LQuad& q, double sx = 0, double sy = 0) { Vec v; for (int k = 0; k < 4; ++k) { v.push_back(q.x[k] + sx); v.push_back(q.y[k] + sy); } return v; }
static Vec emb(const Vec& v, const Embed& e) { Vec r(v.size()); for (size_t i = 0; i < v.size(); i += 2) apply(e, v[i], v[i + 1], &r[i]); return r; }
static double size(const Embed& e) { return std::max(std::max(std::fabs(e.a), std::fabs(e.b)), std::max(std::fabs(e.c), std::fabs(e.d))); }
static double near(const Vec& pts, double x, double y) { double d = 1e300; for (size_t i = 0; i < pts.size(); i += 2) d = std::min(d, std::hypot(pts[i] - x, pts[i + 1] - y)); return d; }

// exact on lattice coordinates (dyadic, few bits)
static bool inExact(P p, const Poly& q) { for (size_t i = 0; i < q.size(); ++i) if (orient(q[i], q[(i + 1) % q.size()], p) < 0) return false; return true; }
static bool touches(const Poly& A, const Poly& B) {
  for (auto& p : A) if (inExact(p, B)) return true;
  for (auto& p : B) if (inExact(p, A)) return true;
  for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < B.size(); ++j) { P a = A[i], b = A[(i + 1) % A.size()], c = B[j], d = B[(j + 1) % B.size()];
    if (orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0) return true; }
  return false;
}
// la, lb: lattice coordinates (the truth is decided there, exactly); e: where they are placed
static Vec check(QQ& q, const Vec& la, const Vec& lb, const Embed& e, bool exact, const char* what) {
  Vec a = emb(la, e), b = emb(lb, e);
  q.set(a, b);
  Vec pts = q.points();
  mc::describe("%s: quad1 %s quad2 %s -> %s", what, str(a).c_str(), str(b).c_str(), str(pts).c_str());
  Poly A = ccw(polyOf(la)), B = ccw(polyOf(lb)), C = clip(A, B);
  bool touch = touches(A, B);
  double s = size(e), tol = 1e-9 * s * 4;
  Poly Ae = ccw(polyOf(a)), Be = ccw(polyOf(b));
  for (size_t i = 0; i < pts.size(); i += 2) {
    P p{pts[i], pts[i + 1]};
    if (!(insideDepth(p, Ae) > -tol) || !(insideDepth(p, Be) > -tol)) mc::fail("outside", "%s: point %zu (%.15g,%.15g) is not in both quads; quad1 %s quad2 %s", what, i / 2, pts[i], pts[i + 1], str(a).c_str(), str(b).c_str());
  }
  bool solid = C.size() >= 3 && area(C) > 1e-9;
  // a common region without area (a point or a piece of an edge) is decided by round off once the
  // coordinates are not exact
  if (solid) {
    Poly H = hull(polyOf(pts));
    for (const P& c : C) { double xy[2]; apply(e, (double)c.x, (double)c.y, xy);
      if (H.size() < 3 || !(insideDepth({xy[0], xy[1]}, H) > -tol)) mc::fail("missing", "%s: corner (%.15g,%.15g) of the common region is not in the hull of the points; quad1 %s quad2 %s points %s", what, xy[0], xy[1], str(a).c_str(), str(b).c_str(), str(pts).c_str()); }
  }
  if (exact) for (int w = 0; w < 2; ++w) for (auto& c : w ? B : A) if (inExact(c, w ? A : B) && !(near(pts, (double)c.x, (double)c.y) < tol)) mc::fail("missing", "%s: corner (%.15g,%.15g) of one quad is in the other one but is missing; quad1 %s quad2 %s points %s", what, (double)c.x, (double)c.y, str(a).c_str(), str(b).c_str(), str(pts).c_str());
  if (!touch && !pts.empty()) // apart on the lattice: at least 1e-3 of a cell in these scenarios
    mc::fail("apart", "%s: quads do not touch but %zu points are returned", what, pts.size() / 2);
  mc::Hash h; for (double v : pts) h.r(v); mc::state(h.h);
  mc::outcome(!touch ? "apart" : solid ? "common area" : "touching");
  if (touch) { mc::Hash k; for (double v : a) k.d(v); for (double v : b) k.d(v); mc::nontrivial(k.h); }
  return pts;
}
static const std::vector<LQuad>& quads(int m, int kind, bool starts, bool orient) {
  static std::map<int, std::vector<LQuad>> cache; int k = m * 100 + kind * 10 + starts * 2 + orient;
  auto it = cache.find(k); if (it == cache.end()) it = cache.emplace(k, latticeQuads(m, kind, starts, orient)).first; return it->second;
}
// all pairs on the 3x3 lattice (straight and repeated corners, both orientations), with the symmetric calls
SCENARIO(pairs3) {
  const auto& Q = quads(3, 2, false, true);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier < 0 && (&a - Q.data()) % 19) mc::prune();
  int ei = mc::choose(mc::tier < 0 ? 2 : mc::tier > 0 ? (int)embeds().size() : 4);
  const LQuad& b = mc::pick(Q);
  const Embed& e = embeds()[ei]; QQ q;
  check(q, latt(a), latt(b), e, ei == 0, "a,b");
  check(q, latt(b), latt(a), e, ei == 0, "b,a");
}
// corner numbering: all rotations and both directions of both quads
SCENARIO(numbering) {
  const auto& Q = quads(3, 1, false, false);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier < 0 && (&a - Q.data()) % 19) mc::prune();
  const LQuad& b = mc::pick(Q);
  int ra = mc::choose(4), rb = mc::choose(4), da = mc::choose(2), db = mc::choose(2);
  auto ren = [](const LQuad& q, int r, int d) { LQuad o; for (int k = 0; k < 4; ++k) { int s = d ? (4 + r - k) % 4 : (r + k) % 4; o.x[k] = q.x[s]; o.y[k] = q.y[s]; } return o; };
  int ei = mc::choose(mc::tier > 0 ? 3 : 1); const Embed& e = embeds()[ei]; QQ q;
  check(q, latt(a), latt(b), e, ei == 0, "a,b");
  check(q, latt(ren(a, ra, da)), latt(ren(b, rb, db)), e, ei == 0, "renumbered");
}
// finer lattice, strictly convex
SCENARIO(pairs4) {
  const auto& Q = quads(4, mc::tier > 0 ? 1 : 0, false, false);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 97 : 2)) mc::prune();
  int ei = mc::choose(mc::tier > 0 ? 3 : 1) * 2;
  const LQuad& b = mc::pick(Q);
  QQ q; check(q, latt(a), latt(b), embeds()[ei], ei == 0, "a,b");
}
// displaced by fractions of a cell, kept apart or overlapping by at least 1e-3
SCENARIO(shifts) {
  const auto& Q = quads(3, 1, false, true);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 13 : 2)) mc::prune();
  static const std::vector<double> sh = {0, 0.5, -0.25, 0.0078125, 3, -3.5};
  double sx = mc::pick(sh), sy = mc::pick(sh); const LQuad& b = mc::pick(Q);
  if (mc::tier <= 0 && (&b - Q.data()) % 3) mc::prune();
  int ei = mc::choose(mc::tier > 0 ? 4 : 2);
  QQ q; check(q, latt(a), latt(b, sx, sy), embeds()[ei], ei == 0, "a,b shifted");
}
// overlaps and gaps much smaller than a cell, and edges which are almost parallel (all exact in the lattice coordinates)
SCENARIO(slivers) {
  const auto& Q = quads(3, 1, false, true);
  const LQuad& a = mc::pick(Q); mc::split(); int ia = (int)(&a - Q.data());
  if (mc::tier <= 0 && ia % (mc::tier < 0 ? 29 : 2)) mc::prune();
  const LQuad& b = mc::pick(Q); int ib = (int)(&b - Q.data());
  if (mc::tier <= 0 && (ia + ib) % 3) mc::prune();
  static const double D[7] = {0, 0x1p-10, -0x1p-10, 0x1p-17, -0x1p-17, 0x1p-26, -0x1p-26}; static const double Z[3] = {0, 0x1p-9, -0x1p-16};
  int kind = mc::choose(2); Vec v = latt(b);
  if (kind == 0) { double sx = D[mc::choose(7)], sy = D[mc::choose(7)]; int far = mc::choose(3); for (int k = 0; k < 8; k += 2) { v[k] += sx + (far == 1 ? 2 : 0); v[k + 1] += sy + (far == 2 ? -1 : 0); } }
  else { double z = Z[1 + mc::choose(2)], w = Z[mc::choose(3)]; for (int k = 0; k < 8; k += 2) { double x = v[k], y = v[k + 1]; v[k] = x + z * y; v[k + 1] = y + w * x; } }
  int ei = mc::choose(mc::tier > 0 ? 4 : 2);
  QQ q; check(q, latt(a), v, embeds()[ei], ei == 0, "a,b displaced a little"); 
}
// cells that are thin across any direction, with corners on edges, diagonals and corners of each other
SCENARIO(thin) {
  double f = mc::pick(std::vector<double>{1e-3, 1e-4}), o = mc::pick(std::vector<double>{0, 3.7}); int k = mc::choose(3); double t = k ? 2.2 : 0.7;
  Embed e = k == 0 ? Embed{"thin", cos(t), -f * sin(t), sin(t), f * cos(t), o, -0.6 * o} : k == 1 ? Embed{"thin", f * cos(t), -sin(t), f * sin(t), cos(t), o, 0.3 * o} : Embed{"sheared", 1, 1 / f, 0, 1, o, -o};
  const auto& Q = quads(3, 1, false, true); const LQuad& a = mc::pick(Q); int ia = (int)(&a - Q.data()); mc::split();
  if (mc::tier <= 0 && ia % (mc::tier < 0 ? 41 : 9)) mc::prune(); const LQuad& b = mc::pick(Q); int ib = (int)(&b - Q.data()); if (mc::tier <= 0 && (ia + ib) % 3) mc::prune();
  static const double S[4] = {0, 0.37, -0.0078125, 0.5}; double sx = S[mc::choose(4)], sy = S[mc::choose(4)];
  QQ q; check(q, latt(a), latt(b, sx, sy), e, false, "a,b thin");
}
// cells that are small compared to the distance from the origin
SCENARIO(far) {
  Embed e = farEmbed(mc::pick(std::vector<double>{1e3, 1e4, 1e5}), mc::choose(4)); const auto& Q = quads(3, 1, false, true); const LQuad& a = mc::pick(Q); int ia = (int)(&a - Q.data()); mc::split();
  if (mc::tier <= 0 && ia % (mc::tier < 0 ? 41 : 9)) mc::prune(); const LQuad& b = mc::pick(Q); int ib = (int)(&b - Q.data()); if (mc::tier <= 0 && (ia + ib) % 3) mc::prune();
  static const double S[3] = {0, 0.37, -0.0078125}; double sx = S[mc::choose(3)], sy = S[mc::choose(2)];
  QQ q; check(q, latt(a), latt(b, sx, sy), e, false, "a,b far");
}
// small and large units, near and far from the origin
SCENARIO(scaled) {
  const Embed& e = mc::pick(scaledEmbeds()); const auto& Q = quads(3, 1, false, true); const LQuad& a = mc::pick(Q); int ia = (int)(&a - Q.data()); mc::split();
  if (mc::tier <= 0 && ia % (mc::tier < 0 ? 41 : 9)) mc::prune(); const LQuad& b = mc::pick(Q); int ib = (int)(&b - Q.data()); if (mc::tier <= 0 && (ia + ib) % 3) mc::prune();
  static const double S[3] = {0, 0.37, -0.0078125}; double sx = S[mc::choose(3)], sy = S[mc::choose(2)];
  QQ q; check(q, latt(a), latt(b, sx, sy), e, false, "a,b scaled");
}
