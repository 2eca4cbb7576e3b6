// geo.h - reference geometry used by the oracles (independent of the code under test).
// Everything is computed in 80-bit long double on the exact double inputs.
#ifndef GEO_H
#define GEO_H
#include <algorithm>
#include <cmath>
#include <vector>
namespace geo {
typedef long double L;
struct P { L x, y; };
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator*(L s, P a) { return {s * a.x, s * a.y}; }
inline L cross(P a, P b) { return a.x * b.y - a.y * b.x; }
inline L dot(P a, P b) { return a.x * b.x + a.y * b.y; }
inline L norm(P a) { return sqrtl(dot(a, a)); }
inline L orient(P a, P b, P c) { return cross(b - a, c - a); }
typedef std::vector<P> Poly;
inline L area2(const Poly& p) { L s = 0; for (size_t i = 1; i + 1 < p.size(); ++i) s += cross(p[i] - p[0], p[i + 1] - p[0]); return s; }
inline L area(const Poly& p) { return fabsl(area2(p)) / 2; }
inline Poly ccw(Poly p) { if (area2(p) < 0) std::reverse(p.begin(), p.end()); return p; }
// Sutherland-Hodgman clip of convex a by convex counter-clockwise b
inline Poly clip(const Poly& a, const Poly& b) {
  Poly out = a;
  for (size_t i = 0; i < b.size() && !out.empty(); ++i) {
    P p = b[i], q = b[(i + 1) % b.size()];
    if (p.x == q.x && p.y == q.y) continue;
    Poly in; in.swap(out);
    for (size_t k = 0; k < in.size(); ++k) {
      P s = in[k], e = in[(k + 1) % in.size()];
      L ds = orient(p, q, s), de = orient(p, q, e);
      if (ds >= 0) out.push_back(s);
      if ((ds > 0 && de < 0) || (ds < 0 && de > 0)) { L t = ds / (ds - de); out.push_back(s + t * (e - s)); }
    }
  }
  return out;
}
inline L overlapArea(const Poly& a, const Poly& b) {
  Poly c = clip(ccw(a), ccw(b)); return c.size() < 3 ? 0 : area(c);
}
// convex (weakly), either orientation, nonzero area
inline bool convex(const Poly& p, L tol = 0) {
  int n = (int)p.size(); bool pos = false, neg = false;
  for (int i = 0; i < n; ++i) { L o = orient(p[i], p[(i + 1) % n], p[(i + 2) % n]); if (o > tol) pos = true; if (o < -tol) neg = true; }
  if (pos && neg) return false;
  if (!pos && !neg) return false;
  // reject bow-ties which turn only one way (cannot happen with 4 points and positive area except double loops)
  return true;
}
inline bool strictlyConvex(const Poly& p) {
  int n = (int)p.size(); int s = 0;
  for (int i = 0; i < n; ++i) { L o = orient(p[i], p[(i + 1) % n], p[(i + 2) % n]); if (o == 0) return false; int t = o > 0 ? 1 : -1; if (s && t != s) return false; s = t; }
  return true;
}
// monotone chain hull
inline Poly hull(Poly p) {
  std::sort(p.begin(), p.end(), [](P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
  p.erase(std::unique(p.begin(), p.end(), [](P a, P b) { return a.x == b.x && a.y == b.y; }), p.end());
  if (p.size() < 3) return p;
  Poly h(2 * p.size()); size_t k = 0;
  for (size_t i = 0; i < p.size(); ++i) { while (k >= 2 && orient(h[k - 2], h[k - 1], p[i]) <= 0) k--; h[k++] = p[i]; }
  for (size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && orient(h[k - 2], h[k - 1], p[i]) <= 0) k--; h[k++] = p[i]; }
  h.resize(k - 1); return h;
}
inline L distPointSeg(P p, P a, P b) { P d = b - a; L l2 = dot(d, d); L t = l2 > 0 ? dot(p - a, d) / l2 : 0; if (t < 0) t = 0; if (t > 1) t = 1; return norm(p - (a + t * d)); }
// signed-ish distance of p to the convex ccw polygon b: >0 inside depth, <0 outside distance
inline L insideDepth(P p, const Poly& b) {
  L depth = 1e300L; bool in = true; L out = 1e300L;
  for (size_t i = 0; i < b.size(); ++i) { P a = b[i], c = b[(i + 1) % b.size()]; L l = norm(c - a); out = std::min(out, distPointSeg(p, a, c)); if (l == 0) continue; L s = orient(a, c, p) / l; depth = std::min(depth, s); if (s < 0) in = false; }
  return in ? depth : -out;
}
// parameter interval of segment a->b inside convex ccw polygon; returns false if empty
inline bool clipSeg(P a, P b, const Poly& q, L& t0, L& t1) {
  t0 = 0; t1 = 1;
  for (size_t i = 0; i < q.size(); ++i) {
    P p = q[i], r = q[(i + 1) % q.size()]; if (p.x == r.x && p.y == r.y) continue;
    L da = orient(p, r, a), db = orient(p, r, b);
    if (da < 0 && db < 0) return false;
    if (da < 0) t0 = std::max(t0, da / (da - db));
    else if (db < 0) t1 = std::min(t1, da / (da - db));
  }
  return t0 <= t1;
}
// embeddings of lattice points into the plane: order-one coordinates
struct Embed { const char* name; double a, b, c, d, tx, ty; };
inline const std::vector<Embed>& embeds() {
  static const std::vector<Embed> e = {
    {"id", 1, 0, 0, 1, 0, 0},
    {"tenth", 0.1, 0, 0, 0.1, 0.3, -0.7},
    {"rot345", 0.6, -0.8, 0.8, 0.6, 0.1, 0.2},
    {"shear", 1.0, 0.3, 0.1, 0.9, -2.0, 1.0 / 3},
    {"degrees", 10, 0, 0, 10, -180, -90},
    {"rot1rad", 0.5403023058681398, -0.8414709848078965, 0.8414709848078965, 0.5403023058681398, 1e-3, 1e-3},
    {"mirror", -1, 0, 0, 1, 0.5, 0.25},
    {"small", 0.01, 0, 0, 0.01, 0.005, 0},
    {"large", 250, 0, 0, 250, -1000, 500},
    {"pi", 3.141592653589793, 0, 0, 3.141592653589793 / 2, -3.141592653589793, -1.5707963267948966},
  };
  return e;
}
// cells that are small compared to the distance from the origin: r cells away
inline Embed farEmbed(double r, int m) {
  double c = cos(0.7), s = sin(0.7), f = 0.01;
  return m == 0 ? Embed{"far", f, 0, 0, f, r * f, -0.6 * r * f} : m == 1 ? Embed{"far rotated", f * c, -f * s, f * s, f * c, r * f, 0.3 * r * f} : m == 2 ? Embed{"far skewed", f, 0.3 * f, -0.1 * f, 1.1 * f, 0.2 * r * f, r * f} : Embed{"far reversed", 0.1 * f, 0, 0, -0.1 * f, -0.1 * r * f, 0.03 * r * f};
}
// thin cells: rotated, and sheared (f is the ratio of the sides)
inline const std::vector<Embed>& thinEmbeds() {
  static std::vector<Embed> e; if (e.empty()) { for (double f : {1e-3, 2e-4}) for (double o : {0., 3.7}) { e.push_back({"thin", cos(0.7), -f * sin(0.7), sin(0.7), f * cos(0.7), o, -0.6 * o}); e.push_back({"thin", f * cos(2.2), -sin(2.2), f * sin(2.2), cos(2.2), o, 0.3 * o}); } for (double f : {1e3, 1e4}) e.push_back({"sheared", 1, f, 0, 1, 0, 0}); e.push_back({"sheared", 1, 1e4, 0, 1, 3.7, -3.7}); }
  return e;
}
// small and large units of length, near and far from the origin, aligned and rotated
inline const std::vector<Embed>& scaledEmbeds() {
  static std::vector<Embed> e; if (e.empty()) for (double f : {1e-8, 1e-5, 2e-4, 1e-2, 1e3, 1e6, 1e-20, 1e20}) for (double o : {0., 3.7, -90.}) { e.push_back({"scaled", f, 0, 0, f, o * f, -0.6 * o * f}); e.push_back({"scaled and rotated", 0.6 * f, -0.8 * f, 0.8 * f, 0.6 * f, o * f, 0.3 * o * f}); }
  // units that differ between the axes, and cells that are thin across any direction or sheared
  static bool more = true; if (more) { more = false; for (double f : {1e-5, 1e5}) e.push_back({"other units along y", 1, 0, 0, f, 3.7, -90 * f}); double f = 0.01; for (double t : {0.7, 2.2}) for (double o : {0., 3.7}) e.push_back({"thin", cos(t), -f * sin(t), sin(t), f * cos(t), o, -0.6 * o}); e.push_back({"sheared", 1, 1 / f, 0, 1, 3.7, -3.7}); }
  return e;
}
inline void apply(const Embed& e, double x, double y, double* out) { out[0] = e.a * x + e.b * y + e.tx; out[1] = e.c * x + e.d * y + e.ty; }
inline double det(const Embed& e) { return e.a * e.d - e.b * e.c; }
}
#endif
