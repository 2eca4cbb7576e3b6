// C18: the grid generators against their definitions; guard values around the arrays.
#include "mc.h"
#include "createGrids2D.h"
typedef std::vector<double> Vec; typedef long double L;
struct Out { int n; Vec a, b; double* c[2]; Out(int n0, int n1) : n(n0 * n1), a(n + 8, 12345.5), b(n + 8, -54321.5) { c[0] = &a[4]; c[1] = &b[4]; }
  void guard() const { for (int k = 0; k < 4; ++k) if (a[k] != 12345.5 || a[n + 4 + k] != 12345.5 || b[k] != -54321.5 || b[n + 4 + k] != -54321.5) mc::fail("beyond", "written outside of the %d nodes", n); }
  double x(int k) const { return a[k + 4]; } double y(int k) const { return b[k + 4]; }
  void state() const { mc::Hash h; for (int k = 0; k < n; ++k) h.r(x(k)).r(y(k)); mc::state(h.h); } };
static int maxDim() { return mc::tier < 0 ? 4 : mc::tier > 0 ? 24 : 12; }
// every small size; in the scenarios for big grids a set of large ones
static int size(bool big, int more = 0) { static const std::vector<int> b = {2, 3, 17, 64, 100, 129, 257, 361, 512, 1001}; if (!big) return mc::range(2, maxDim() + more); return b[mc::choose(mc::tier < 0 ? 4 : mc::tier > 0 ? 10 : 8)]; }
static void rectangular(bool big) {
  static const Vec lo = {0, -1.5, 10, 1e-3, -180, 3}, ext = {1, 4, 0.3, 1e3, 360, -2}; int n0 = size(big), n1 = size(big); int K = big ? 2 : 6; double l[2] = {lo[mc::choose(K)], lo[mc::choose(K)]}; mc::split(); double h[2] = {l[0] + ext[mc::choose(K)], l[1] + ext[mc::choose(K)]}; int d[2] = {n0, n1}; double L0[2] = {l[0], l[1]}, H0[2] = {h[0], h[1]}; Out o(n0, n1);
  createRectangularGrid(d, l, h, o.c); mc::step(); o.guard(); if (d[0] != n0 || l[0] != L0[0] || l[1] != L0[1] || h[0] != H0[0] || h[1] != H0[1]) mc::fail("input", "inputs are changed");
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { L x = L0[0] + ((L)H0[0] - L0[0]) * i / (n0 - 1), y = L0[1] + ((L)H0[1] - L0[1]) * j / (n1 - 1); int k = i * n1 + j; if (!(fabsl(o.x(k) - x) <= 1e-12L * (fabsl(L0[0]) + fabsl(H0[0])) && fabsl(o.y(k) - y) <= 1e-12L * (fabsl(L0[1]) + fabsl(H0[1])))) mc::fail("node", "%dx%d nodes from (%g,%g) to (%g,%g): node (%d,%d) is (%.15g,%.15g), expected (%.15Lg,%.15Lg)", n0, n1, L0[0], L0[1], H0[0], H0[1], i, j, o.x(k), o.y(k), x, y); }
  o.state(); mc::nontrivial(mc::Hash().u(n0).u(n1).d(l[0]).d(l[1]).d(h[0]).d(h[1]).h); mc::describe("%dx%d (%g,%g)-(%g,%g)", n0, n1, l[0], l[1], h[0], h[1]);
}
static void polar(bool big) {
  static const Vec ce = {0, 0.5, -7, 100, 1e-3}, ra = {1, 0.1, 2.5, 90, 1e3}; int n0 = size(big), n1 = size(big, 4); int K = big ? 2 : 5; double c[2] = {ce[mc::choose(K)], ce[mc::choose(K)]}, C[2] = {c[0], c[1]}; mc::split(); double r = ra[mc::choose(K)]; int d[2] = {n0, n1}; Out o(n0, n1); createPolarGrid(d, c, r, o.c); mc::step(); o.guard(); if (c[0] != C[0] || c[1] != C[1] || d[0] != n0) mc::fail("input", "inputs are changed"); L pi = acosl(-1.0L);
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { L rho = (L)r * i / (n0 - 1), th = 2 * pi * j / (n1 - 1), x = C[0] + rho * cosl(th), y = C[1] + rho * sinl(th), tol = 1e-12L * (r + fabsl(C[0]) + fabsl(C[1])); int k = i * n1 + j; if (!(fabsl(o.x(k) - x) <= tol && fabsl(o.y(k) - y) <= tol)) mc::fail("node", "%dx%d nodes about (%g,%g), radius %g: node (%d,%d) is (%.15g,%.15g), expected (%.15Lg,%.15Lg)", n0, n1, C[0], C[1], r, i, j, o.x(k), o.y(k), x, y); }
  o.state(); mc::nontrivial(mc::Hash().u(n0).u(n1).d(c[0]).d(c[1]).d(r).h); mc::describe("%dx%d about (%g,%g) radius %g", n0, n1, c[0], c[1], r);
}
// points of the sphere: a rotation keeps all scalar products and the orientation
struct V3 { L x, y, z; }; static V3 sph(L lat, L lon) { L d = acosl(-1.0L) / 180; return {cosl(lat * d) * cosl(lon * d), cosl(lat * d) * sinl(lon * d), sinl(lat * d)}; } static L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L tri(V3 a, V3 b, V3 c) { return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x); }
static void rotatedPole(bool big) {
  static const Vec dl = {0, 10, 30, 60, 89, 90, -45, 120, 180, 0.001, -90, 270, 37.5}; int n0 = size(big), n1 = size(big); int K = big ? 3 : (int)dl.size(); double a = dl[mc::choose(K)]; mc::split(); double b = dl[mc::choose(K)]; int d[2] = {n0, n1}; Out o(n0, n1); createRotatedPoleGrid(d, a, b, o.c); mc::step(); o.guard(); int n = n0 * n1; std::vector<V3> p, q;
  for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { int k = i * n1 + j; if (!(o.x(k) >= -90 - 1e-9 && o.x(k) <= 90 + 1e-9 && o.y(k) >= -180 - 1e-9 && o.y(k) <= 180 + 1e-9)) mc::fail("range", "%dx%d nodes, displacement %g %g: node (%d,%d) is at %.15g %.15g", n0, n1, a, b, i, j, o.x(k), o.y(k)); p.push_back(sph(o.x(k), o.y(k))); q.push_back(sph(-90 + 180.0L * i / (n0 - 1), -180 + 360.0L * j / (n1 - 1))); }
  // the latitude is an arc sine: near the poles it has half of the digits. Displacements below
  // are measured on the sphere.
  const L tol = 1e-6L; for (int k = 0; k < n; ++k) for (int r = 0; r < n; r += (n > 2000 ? n / 3 : n > 40 ? 5 : 1)) { L e = dot(p[k], p[r]) - dot(q[k], q[r]); if (!(fabsl(e) < tol)) mc::fail("rotation", "%dx%d nodes, displacement %g %g: nodes %d and %d have scalar product %.12Lg, on the regular grid %.12Lg", n0, n1, a, b, k, r, dot(p[k], p[r]), dot(q[k], q[r])); }
  for (int k = 0; k < n; ++k) for (int r = k + 1; r < std::min(n, k + (big ? 2 : 2 * n1)); ++r) { int s = (r + n1 + 1) % n; L e = tri(p[k], p[r], p[s]) - tri(q[k], q[r], q[s]); if (!(fabsl(e) < tol)) mc::fail("orientation", "%dx%d nodes, displacement %g %g: nodes %d, %d and %d are not turned the same way (%.9Lg, %.9Lg)", n0, n1, a, b, k, r, s, tri(p[k], p[r], p[s]), tri(q[k], q[r], q[s])); }
  // the rotation is turned by the first angle about the y axis, then by the second about the axis of the globe
  L dg = acosl(-1.0L) / 180; L ca = cosl(a * dg), sa = sinl(a * dg), cb = cosl(b * dg), sb = sinl(b * dg); for (int k = 0; k < n; ++k) { L x = ca * q[k].x + sa * q[k].z, y = q[k].y, z = -sa * q[k].x + ca * q[k].z; V3 e = {cb * x + sb * y, -sb * x + cb * y, z}; L dx = p[k].x - e.x, dy = p[k].y - e.y, dz = p[k].z - e.z; if (!(dx * dx + dy * dy + dz * dz < tol * tol)) mc::fail("node", "%dx%d nodes, displacement %g %g: node %d is at (%.9Lg,%.9Lg,%.9Lg) of the sphere, expected (%.9Lg,%.9Lg,%.9Lg)", n0, n1, a, b, k, p[k].x, p[k].y, p[k].z, e.x, e.y, e.z); }
  V3 pole = p[n - 1];
  o.state(); mc::nontrivial(mc::Hash().u(n0).u(n1).d(a).d(b).h); mc::outcome(a == 0 && b == 0 ? "identity" : "rotated"); mc::describe("%dx%d displacement %g %g: pole (%.6Lg,%.6Lg,%.6Lg)", n0, n1, a, b, pole.x, pole.y, pole.z);
}
// the matrix helpers, all sign patterns and a set of entries
SCENARIO(matrixProducts) {
  static const Vec e = {0, 1, -2, 0.5}; double m[9], v[3], r[5] = {7, 7, 7, 7, 7}, m2[9], mr[11]; for (int i = 0; i < 9; ++i) { m[i] = mc::tier > 0 || i < 4 ? mc::pick(e) : i == 8 ? mc::pick(e) : i * 0.25 - 1; if (i == 2) mc::split(); } for (int i = 0; i < 3; ++i) v[i] = mc::pick(e); for (int i = 0; i < 9; ++i) m2[i] = i % 2 ? i - 3.5 : v[i % 3]; for (double& q : mr) q = 77;
  matrixDotVector(m, v, r + 1); matrixDotMatrix(m, m2, mr + 1); mc::step(2); if (r[0] != 7 || r[4] != 7 || mr[0] != 77 || mr[10] != 77) mc::fail("beyond", "written outside of the result"); mc::Hash h; for (int i = 0; i < 3; ++i) { L s = 0; for (int k = 0; k < 3; ++k) s += (L)m[3 * i + k] * v[k]; if (!(fabsl(r[1 + i] - s) < 1e-12L)) mc::fail("vector", "component %d is %g, expected %Lg", i, r[1 + i], s); h.r(r[1 + i]); for (int j = 0; j < 3; ++j) { L q = 0; for (int k = 0; k < 3; ++k) q += (L)m[3 * i + k] * m2[3 * k + j]; if (!(fabsl(mr[1 + 3 * i + j] - q) < 1e-11L)) mc::fail("matrix", "entry %d,%d is %g, expected %Lg", i, j, mr[1 + 3 * i + j], q); } } mc::state(h.h); mc::nontrivial(h.h);
}
SCENARIO(rectangularSmall) { rectangular(false); }
SCENARIO(rectangularBig) { rectangular(true); }
SCENARIO(polarSmall) { polar(false); }
SCENARIO(polarBig) { polar(true); }
SCENARIO(rotatedSmall) { rotatedPole(false); }
SCENARIO(rotatedBig) { rotatedPole(true); }
// displacements by every whole degree: no rounding makes a latitude undefined
SCENARIO(displacements) {
  int a = mc::range(-180, 180) * (mc::tier < 0 ? 10 : 1); if (a < -180 || a > 180) mc::prune(); mc::split(); int b = mc::range(-12, 12) * 15 / (mc::tier > 0 ? 1 : 1); double step = mc::tier > 0 ? 0.25 * mc::choose(4) : 0; int n0 = mc::range(2, 7), n1 = mc::range(2, 9); int d[2] = {n0, n1}; Out o(n0, n1); createRotatedPoleGrid(d, a + step, b, o.c); mc::step(); o.guard();
  for (int k = 0; k < n0 * n1; ++k) if (!(o.x(k) >= -90 && o.x(k) <= 90 && o.y(k) >= -180 && o.y(k) <= 180)) mc::fail("range", "%dx%d nodes, displacement %g %d: node %d is at %.17g %.17g", n0, n1, a + step, b, k, o.x(k), o.y(k)); o.state(); mc::nontrivial(mc::Hash().u(a + 400).u(b + 400).u(n0).u(n1).d(step).h); mc::describe("%dx%d displacement %g %d", n0, n1, a + step, b);
}
// displacements by the latitude or colatitude of a node: nodes come to lie on the poles, where rounding may leave the range of the arc sine
SCENARIO(aligned) {
  static const std::vector<int> far = {101, 109, 121, 145, 181}; int top = mc::tier < 0 ? 9 : mc::tier > 0 ? 361 : 73, q = mc::choose(top - 1 + (mc::tier == 0 ? far.size() : 0)), n0 = q < top - 1 ? q + 2 : far[q - top + 1]; mc::split(); int n1 = mc::pick(mc::tier > 0 ? std::vector<int>{2, 3, 5, 8, 13} : std::vector<int>{2, 3, 5}); int j = mc::choose(n0); int way = mc::choose(4); double b = mc::pick(mc::tier > 0 ? std::vector<double>{0, 20, -137.5} : std::vector<double>{0, 20});
  double lat = -90 + 180.0 * j / (n0 - 1), a = way == 0 ? lat : way == 1 ? 90 - lat : way == 2 ? lat - 90 : 180 + lat; int d[2] = {n0, n1}; Out o(n0, n1); createRotatedPoleGrid(d, a, b, o.c); mc::step(); o.guard();
  L dg = acosl(-1.0L) / 180, sa = sinl(a * dg), ca = cosl(a * dg);
  for (int k = 0; k < n0 * n1; ++k) { L t = -90 + 180.0L * (k / n1) / (n0 - 1), m = -180 + 360.0L * (k % n1) / (n1 - 1), z = -sa * cosl(t * dg) * cosl(m * dg) + ca * sinl(t * dg);
    if (!(o.x(k) >= -90 && o.x(k) <= 90 && o.y(k) >= -180 && o.y(k) <= 180)) mc::fail("range", "%dx%d nodes, displacement %.17g %g: node %d is at %.17g %.17g", n0, n1, a, b, k, o.x(k), o.y(k));
    if (!(fabsl(sinl(o.x(k) * dg) - z) < 1e-12L)) mc::fail("latitude", "%dx%d nodes, displacement %.17g %g: node %d has latitude %.17g, expected %.17Lg", n0, n1, a, b, k, o.x(k), asinl(std::max(-1.0L, std::min(1.0L, z))) / dg); }
  o.state(); mc::nontrivial(mc::Hash().u(n0).u(n1).d(a).d(b).h); mc::describe("%dx%d displacement %.17g %g", n0, n1, a, b); mc::outcome("node on a pole");
}
