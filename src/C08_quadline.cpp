// C08: intersection of a segment with a quad is the exact clip of the segment, in order.
#include "api.h"
using namespace geo;
static Vec latt(const LQuad& q) { Vec v; for (int k = 0; k < 4; ++k) { v.push_back(q.x[k]); v.push_back(q.y[k]); } return v; }
static Vec emb(const Vec& v, const Embed& e) { Vec r(v.size()); for (size_t i = 0; i < v.size(); i += 2) apply(e, v[i], v[i + 1], &r[i]); return r; }
static double size(const Embed& e) { return std::max(std::max(std::fabs(e.a), std::fabs(e.b)), std::max(std::fabs(e.c), std::fabs(e.d))); }

static Vec check(QL& q, const Vec& lq, const Vec& ll, const Embed& e, bool exact, bool quadFirst) {
  Vec quad = emb(lq, e), line = emb(ll, e);
  if (quadFirst) { q.setQuad(quad); q.setLine(line); } else { q.setLine(line); q.setQuad(quad); }
  Vec pts = q.points(); int n = (int)pts.size() / 2;
  mc::describe("quad %s line %s -> %s", str(quad).c_str(), str(line).c_str(), str(pts).c_str());
  Poly Q = ccw(polyOf(lq)); P A{ll[0], ll[1]}, B{ll[2], ll[3]}; L t0, t1;
  bool hit = clipSeg(A, B, Q, t0, t1); L llen = norm(B - A);
  double s = size(e), tol = 1e-9 * s * 4;
  P a{line[0], line[1]}, d{(L)line[2] - line[0], (L)line[3] - line[1]}; L d2 = dot(d, d), len = sqrtl(d2);
  Poly Qe = ccw(polyOf(quad)); L prev = -1;
  Vec ts;
  for (int i = 0; i < n; ++i) {
    P p{pts[2 * i], pts[2 * i + 1]}; L t = d2 > 0 ? dot(p - a, d) / d2 : 0;
    if (!(distPointSeg(p, a, a + d) < tol)) mc::fail("offline", "point %d (%.15g,%.15g) is not on the segment; quad %s line %s", i, pts[2 * i], pts[2 * i + 1], str(quad).c_str(), str(line).c_str());
    if (!(insideDepth(p, Qe) > -tol)) mc::fail("outside", "point %d (%.15g,%.15g) is not in the quad; quad %s line %s", i, pts[2 * i], pts[2 * i + 1], str(quad).c_str(), str(line).c_str());
    if (!(t * len >= prev - tol)) mc::fail("order", "points are not ordered along the segment: %s; quad %s line %s", str(pts).c_str(), str(quad).c_str(), str(line).c_str());
    prev = t * len; ts.push_back((double)t);
  }
  if (!hit && n) mc::fail("apart", "segment does not touch the quad but %d points are returned: quad %s line %s", n, str(quad).c_str(), str(line).c_str());
  if (hit && (exact || (t1 - t0) * llen > 1e-9)) {
    if (n == 0) mc::fail("missing", "no intersection point, expected the part %.15Lg .. %.15Lg; quad %s line %s", t0, t1, str(quad).c_str(), str(line).c_str());
    if (!(std::fabs((double)((ts[0] - t0) * llen)) < 4e-9) || !(std::fabs((double)((ts[n - 1] - t1) * llen)) < 4e-9)) mc::fail("ends", "points cover %.15g .. %.15g of the segment, expected %.15Lg .. %.15Lg; quad %s line %s", ts[0], ts[n - 1], t0, t1, str(quad).c_str(), str(line).c_str());
    if ((t1 - t0) * llen > 1e-9 && n < 2) mc::fail("one", "one point for a part of positive length");
  }
  mc::Hash h; for (double v : pts) h.r(v); mc::state(h.h);
  if (hit) { mc::Hash k; for (double v : quad) k.d(v); for (double v : line) k.d(v); mc::nontrivial(k.h); }
  mc::outcome(!hit ? "apart" : t1 > t0 ? (t0 == 0 && t1 == 1 ? "inside" : "partly inside") : "touching");
  return pts;
}
static const std::vector<LQuad>& quads(int m, int kind, bool starts, bool orient) {
  static std::map<int, std::vector<LQuad>> cache; int k = m * 100 + kind * 10 + starts * 2 + orient;
  auto it = cache.find(k); if (it == cache.end()) it = cache.emplace(k, latticeQuads(m, kind, starts, orient)).first; return it->second;
}
// quads of the 3x3 lattice against all segments of the half lattice around it; reversed as well
SCENARIO(segments) {
  const auto& Q = quads(3, 2, true, true);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier < 0 && (&a - Q.data()) % 37) mc::prune();
  int ei = mc::choose(mc::tier < 0 ? 2 : mc::tier > 0 ? (int)embeds().size() : 3);
  int lo = -1, hi = mc::tier > 0 ? 5 : 5; double f = 0.5; // -0.5 .. 2.5
  if (mc::tier <= 0 && ei > 0 && (&a - Q.data()) % 4) mc::prune();
  Vec l(4); for (int k = 0; k < 4; ++k) { l[k] = f * mc::range(lo, hi); }
  if (mc::tier <= 0 && ei > 0 && ((int)(l[0] * 2 + 3 * l[1] * 2) & 1)) mc::prune();
  QL q; check(q, latt(a), l, embeds()[ei], ei == 0, true);
  Vec r = {l[2], l[3], l[0], l[1]};
  check(q, latt(a), r, embeds()[ei], ei == 0, false);
}
// 4x4 lattice, integer segments
SCENARIO(lattice4) {
  const auto& Q = quads(4, 1, false, true);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 41 : 2)) mc::prune();
  int ei = mc::choose(mc::tier > 0 ? 4 : 2);
  Vec l(4); for (int k = 0; k < 4; ++k) l[k] = mc::range(mc::tier > 0 ? -1 : 0, mc::tier > 0 ? 4 : 3);
  QL q; check(q, latt(a), l, embeds()[ei * 2], ei == 0, (int)(l[0] + l[1]) & 1);
}
// long segments: the crossing is a small part of the segment; and short ones
SCENARIO(lengths) {
  const auto& Q = quads(3, 0, false, true);
  const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier < 0 && (&a - Q.data()) % 67) mc::prune();
  double f = mc::pick(std::vector<double>{0.0625, 0.125, 4, 32, 256}); int ei = mc::choose(mc::tier > 0 ? 6 : 3);
  double cx = 0.5 * mc::range(0, 4), cy = 0.5 * mc::range(0, 4); int dx = mc::range(-2, 2), dy = mc::range(-2, 2);
  Vec l = {cx - f * dx, cy - f * dy, cx + f * dx * 0.5, cy + f * dy * 0.5};
  QL q; check(q, latt(a), l, embeds()[ei], false, true);
}
// small and large units, near and far from the origin
SCENARIO(scaled) {
  const Embed& e = mc::pick(scaledEmbeds()); const auto& Q = quads(3, 0, false, true); const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 31 : 11)) mc::prune();
  Vec l(4); for (int k = 0; k < 4; ++k) l[k] = 0.5 * mc::range(-1, 5) + (k == 1 ? 0.125 : 0);
  QL q; check(q, latt(a), l, e, false, mc::flip());
}
// thin cells
SCENARIO(thin) {
  const Embed& e = mc::pick(thinEmbeds()); const auto& Q = quads(3, 0, false, true); const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 31 : 11)) mc::prune();
  Vec l(4); for (int k = 0; k < 4; ++k) l[k] = 0.5 * mc::range(-1, 5) + (k == 1 ? 0.125 : 0);
  QL q; check(q, latt(a), l, e, false, mc::flip());
}
// cells that are small compared to the distance from the origin, segments through their interior
SCENARIO(far) {
  double r = mc::pick(std::vector<double>{1e3, 1e4, 1e5, 1e6}); Embed e = farEmbed(r, mc::choose(4)); const auto& Q = quads(3, 0, false, true); const LQuad& a = mc::pick(Q); mc::split();
  if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 31 : 7)) mc::prune();
  Vec l(4); for (int k = 0; k < 4; ++k) l[k] = 0.5 * mc::range(-1, 5);
  Poly p = ccw(polyOf(latt(a))); P A{l[0], l[1]}, B{l[2], l[3]}; L t0, t1; if (!clipSeg(A, B, p, t0, t1) || !(insideDepth(A + 0.5L * (t0 + t1) * (B - A), p) > 0.05L)) mc::prune();
  QL q; check(q, latt(a), l, e, false, mc::flip());
}
// segments which pass a corner or run along an edge at a small distance (exact in the lattice coordinates)
SCENARIO(near) {
  const auto& Q = quads(3, 1, false, true); const LQuad& a = mc::pick(Q); mc::split(); if (mc::tier <= 0 && (&a - Q.data()) % (mc::tier < 0 ? 31 : 5)) mc::prune();
  static const double D[5] = {0, 0x1p-9, -0x1p-9, 0x1p-20, -0x1p-20}; int ei = mc::choose(mc::tier > 0 ? 5 : 2) * 2;
  Vec l(4); for (int k = 0; k < 4; ++k) l[k] = mc::range(0, 2); double dx = D[mc::choose(5)], dy = D[mc::choose(5)]; int which = mc::choose(3);
  double f = mc::pick(std::vector<double>{0, 0.5, 4}); double ex = f * (l[2] - l[0]), ey = f * (l[3] - l[1]); l[0] -= ex; l[1] -= ey; l[2] += ex; l[3] += ey;
  if (which != 1) { l[0] += dx; l[1] += dy; } if (which != 0) { l[2] += dx; l[3] += dy; }
  QL q; check(q, latt(a), l, embeds()[ei], false, mc::flip());
}
