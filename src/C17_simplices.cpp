// C17: lines, triangles and tetrahedra keep their points and list every edge and face once.
#include "mc.h"
#include <memory>
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
typedef std::vector<double> Vec; typedef std::vector<int> Ints;
static const std::vector<Vec>& points() { static const std::vector<Vec> p = {{0, 0, 0}, {1, 0, 0}, {0, 2.5, 0}, {-1e-3, 1e9, 3.25}, {0.1, 0.2, -0.3}, {1e-300, -1e300, 7}}; return p; }
struct Simplex { // kind = number of points
  int kind; void* h = nullptr; std::vector<Vec> p;
  Simplex(int k, const std::vector<Vec>& q) : kind(k), p(q) { std::vector<Vec> c(q); switch (kind) { case 2: SgLine_new((SgLine_type**)&h, c[0].data(), c[1].data()); break; case 3: SgTriangle_new((SgTriangle_type**)&h, c[0].data(), c[1].data(), c[2].data()); break; default: SgTetrahedron_new((SgTetrahedron_type**)&h, c[0].data(), c[1].data(), c[2].data(), c[3].data()); } mc::step(); for (auto& v : c) std::fill(v.begin(), v.end(), NAN); }
  ~Simplex() { del(); } Simplex(const Simplex&) = delete;
  void del() { if (!h) return; mc::step(); switch (kind) { case 2: SgLine_del((SgLine_type**)&h); break; case 3: SgTriangle_del((SgTriangle_type**)&h); break; default: SgTetrahedron_del((SgTetrahedron_type**)&h); } h = nullptr; }
  int count(int what) { int n = -1; mc::step(); if (kind == 2) SgLine_getNumberOfPoints((SgLine_type**)&h, &n); else if (kind == 3) what == 0 ? SgTriangle_getNumberOfPoints((SgTriangle_type**)&h, &n) : SgTriangle_getNumberOfEdges((SgTriangle_type**)&h, &n); else what == 0 ? SgTetrahedron_getNumberOfPoints((SgTetrahedron_type**)&h, &n) : what == 1 ? SgTetrahedron_getNumberOfEdges((SgTetrahedron_type**)&h, &n) : SgTetrahedron_getNumberOfFaces((SgTetrahedron_type**)&h, &n); return n; }
  void checkPoint(int i) { double* q = nullptr; mc::step(); if (kind == 2) SgLine_getPoint((SgLine_type**)&h, i, &q); else if (kind == 3) SgTriangle_getPoint((SgTriangle_type**)&h, i, &q); else SgTetrahedron_getPoint((SgTetrahedron_type**)&h, i, &q); if (!q) mc::fail("point", "no point %d", i); for (int j = 0; j < 3; ++j) if (!(q[j] == p[i][j])) mc::fail("point", "%d points: point %d has coordinate %d %.17g, given was %.17g", kind, i, j, q[j], p[i][j]); }
  Ints conn(int what, int i) { int* q = nullptr; mc::step(); if (kind == 3) SgTriangle_getEdge((SgTriangle_type**)&h, i, &q); else if (what == 1) SgTetrahedron_getEdge((SgTetrahedron_type**)&h, i, &q); else SgTetrahedron_getFace((SgTetrahedron_type**)&h, i, &q); return Ints(q, q + what + 1); }
  void checkConn(int what) { if (kind == 2 || (kind == 3 && what == 2)) return; int n = count(what), want = what == 1 ? (kind == 3 ? 3 : 6) : 4; if (n != want) mc::fail("number", "%d points: %d %s, expected %d", kind, n, what == 1 ? "edges" : "faces", want); std::set<Ints> seen; for (int i = 0; i < n; ++i) { Ints c = conn(what, i); Ints d = c; std::sort(d.begin(), d.end()); for (size_t k = 0; k < d.size(); ++k) if (d[k] < 0 || d[k] >= kind || (k && d[k] == d[k - 1])) mc::fail("conn", "%s %d of %d points has vertex indices %d %d", what == 1 ? "edge" : "face", i, kind, d[0], d[1]); if (!seen.insert(d).second) mc::fail("conn", "%s %d of %d points is listed twice", what == 1 ? "edge" : "face", i, kind); } }
  void query(int q) { switch (q) { case 0: if (count(0) != kind) mc::fail("number", "%d points, expected %d", count(0), kind); break; case 1: for (int i = 0; i < kind; ++i) checkPoint(i); break; case 2: for (int i = kind - 1; i >= 0; --i) checkPoint(i); break; case 3: checkConn(1); break; default: checkConn(2); } }
};
SCENARIO(simplices) {
  int kind = mc::range(2, 4), K = kind == 4 && mc::tier < 0 ? 3 : 6; std::vector<Vec> p; mc::Hash h; h.u(kind); for (int i = 0; i < kind; ++i) { int c = mc::choose(K); p.push_back(points()[c]); h.u(c); if (i == 0) mc::split(); }
  Simplex s(kind, p); std::string t; for (int k = 0; k < (mc::tier > 0 ? 3 : 2); ++k) { int q = mc::choose(5); s.query(q); t += std::to_string(q) + " "; h.u(q); } for (int q = 0; q < 5; ++q) s.query(q); mc::state(h.h); mc::nontrivial(h.h); mc::describe("%d points, queries %s", kind, t.c_str());
}
// several objects, made and deleted in every order
SCENARIO(several) {
  std::vector<std::unique_ptr<Simplex>> o; std::string t; int n = mc::tier < 0 ? 4 : mc::tier > 0 ? 7 : 6; for (int k = 0; k < n; ++k) { int op = mc::choose(3 + (int)o.size() * 2); if (k == 1) mc::split(); if (op < 3) { std::vector<Vec> p; for (int i = 0; i < op + 2; ++i) p.push_back(points()[(i + k) % 6]); o.emplace_back(new Simplex(op + 2, p)); t += "new" + std::to_string(op + 2) + " "; } else if ((op - 3) % 2) { o.erase(o.begin() + (op - 3) / 2); t += "del "; } else { o[(op - 3) / 2]->query(1); t += "points "; } for (auto& s : o) for (int q = 0; q < 5; ++q) s->query(q); }
  mc::state(mc::Hash().u(o.size()).h); mc::nontrivial(mc::Hash().s(t).h); mc::outcome(std::to_string(o.size()) + " objects left"); mc::describe("%s", t.c_str());
}
