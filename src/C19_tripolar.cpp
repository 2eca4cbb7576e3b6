// C19: tripolar grids: regular part, joined cap, closed seam, fold, orientation and coverage.
#include "api.h"
typedef long double L;
struct V3 { L x, y, z; };
static const L PI = acosl(-1.0L);
static V3 sph(L lat, L lon) { L d = PI / 180; return {cosl(lat * d) * cosl(lon * d), cosl(lat * d) * sinl(lon * d), sinl(lat * d)}; }
static L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static L tri(V3 a, V3 b, V3 c) { return a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x); }
static L dist(V3 a, V3 b) { return sqrtl((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
static L area(V3 a, V3 b, V3 c) { return 2 * atan2l(tri(a, b, c), 1 + dot(a, b) + dot(b, c) + dot(c, a)); } // oriented
static void check(int nlat, int nlon, int cap) {
  Tripolar t(nlat, nlon, cap); int d[2]; double** c; t.get(d, &c); if (d[0] != nlon || d[1] != nlat) mc::fail("dims", "%dx%d nodes are reported as %dx%d", nlat, nlon, d[0], d[1]);
  auto lat = [&](int i, int j) { return c[0][i + j * nlon]; }; auto lon = [&](int i, int j) { return c[1][i + j * nlon]; };
  std::vector<V3> p((size_t)nlat * nlon); mc::Hash h; for (int j = 0; j < nlat; ++j) for (int i = 0; i < nlon; ++i) { if (!(lat(i, j) >= -90 - 1e-6 && lat(i, j) <= 90 + 1e-6 && lon(i, j) >= -180 - 1e-6 && lon(i, j) <= 180 + 1e-6)) mc::fail("range", "nlat %d nlon %d cap %d: node %d,%d is at %.15g %.15g", nlat, nlon, cap, i, j, lat(i, j), lon(i, j)); p[i + j * nlon] = sph(lat(i, j), lon(i, j)); h.r(lat(i, j)).r(lon(i, j)); }
  for (int j = 0; j < cap; ++j) for (int i = 0; i < nlon; ++i) if (!(fabsl(lat(i, j) - (-90 + 180.0L * j / (nlat - 1))) < 1e-9L && fabsl(lon(i, j) - (-180 + 360.0L * i / (nlon - 1))) < 1e-9L)) mc::fail("regular", "nlat %d nlon %d cap %d: node %d,%d of the regular part is at %.15g %.15g", nlat, nlon, cap, i, j, lat(i, j), lon(i, j));
  for (int i = 0; i < nlon; ++i) { V3 q = sph(-90 + 180.0L * cap / (nlat - 1), -180 + 360.0L * i / (nlon - 1)); if (!(dist(p[i + cap * nlon], q) < 1e-6L)) mc::fail("join", "nlat %d nlon %d cap %d: node %d of the first row of the cap is at %.12g %.12g, the regular part goes on at %.12Lg %.12Lg", nlat, nlon, cap, i, lat(i, cap), lon(i, cap), -90 + 180.0L * cap / (nlat - 1), -180 + 360.0L * i / (nlon - 1)); }
  for (int j = 0; j < nlat; ++j) if (!(dist(p[j * nlon], p[nlon - 1 + j * nlon]) < 1e-6L)) mc::fail("seam", "nlat %d nlon %d cap %d: row %d is not closed: %.12g %.12g and %.12g %.12g", nlat, nlon, cap, j, lat(0, j), lon(0, j), lat(nlon - 1, j), lon(nlon - 1, j));
  for (int i = 0; i < nlon; ++i) { int k = nlon - 1 - i, j = nlat - 1; if (!(dist(p[i + j * nlon], p[k + j * nlon]) < 1e-6L)) mc::fail("fold", "nlat %d nlon %d cap %d: last row is not folded: node %d at %.12g %.12g, node %d at %.12g %.12g", nlat, nlon, cap, i, lat(i, j), lon(i, j), k, lat(k, j), lon(k, j)); }
  L sum = 0, least = 1e9L; int li = 0, lj = 0; for (int j = 0; j + 1 < nlat; ++j) for (int i = 0; i + 1 < nlon; ++i) { V3 a = p[i + j * nlon], b = p[i + 1 + j * nlon], e = p[i + 1 + (j + 1) * nlon], f = p[i + (j + 1) * nlon]; L s = area(a, b, e) + area(a, e, f); if (s < least) { least = s; li = i; lj = j; } sum += s; }
  // coarser than this the great circles between the nodes of a cell leave the hemisphere
  bool resolved = cap * (nlon - 1) > nlat - 1;
  if (resolved && !(least > -1e-6L)) mc::fail("orientation", "nlat %d nlon %d cap %d: cell %d,%d has oriented area %.9Lg", nlat, nlon, cap, li, lj, least); if (resolved && !(fabsl(sum - 4 * PI) < 1e-5L)) mc::fail("coverage", "nlat %d nlon %d cap %d: the cells cover %.12Lg, the sphere has %.12Lg", nlat, nlon, cap, sum, 4 * PI);
  Vec first(c[0], c[0] + nlat * nlon); first.insert(first.end(), c[1], c[1] + nlat * nlon); double** e; int d2[2]; t.get(d2, &e); Vec again(e[0], e[0] + nlat * nlon); again.insert(again.end(), e[1], e[1] + nlat * nlon); if (d2[0] != d[0] || d2[1] != d[1] || again != first) mc::fail("again", "the grid is different when asked for again");
  mc::state(h.h); mc::nontrivial(mc::Hash().u(nlat).u(nlon).u(cap).h); mc::outcome(!resolved ? "cap too coarse for areas" : nlon % 2 ? "odd" : "even"); mc::describe("nlat %d nlon %d cap %d: smallest cell %.9Lg sum/4pi %.9Lg", nlat, nlon, cap, least, sum / 4 / PI);
}
SCENARIO(grids) { int lo = 3, hi = mc::tier < 0 ? 6 : mc::tier > 0 ? 40 : 26; int nlat = mc::range(lo, hi), nlon = mc::range(4, hi + 6); mc::split(); int cap = mc::range(1, nlat - 2); check(nlat, nlon, cap); }
// grids as they are used, and very long or very wide ones
SCENARIO(large) { static const int S[] = {5, 41, 90, 181, 360}, W[] = {5, 8, 73, 180, 361, 720}; int nlat = S[mc::choose(mc::tier < 0 ? 2 : mc::tier > 0 ? 5 : 4)], nlon = W[mc::choose(mc::tier < 0 ? 2 : mc::tier > 0 ? 6 : 5)]; mc::split(); int c = mc::choose(6); const int C[] = {1, 2, nlat / 3, nlat / 2, nlat - 3, nlat - 2}; check(nlat, nlon, C[c]); }
