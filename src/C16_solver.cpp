// C16: small linear systems against direct solution in extended precision.
#include "api.h"
typedef long double L; typedef std::vector<L> LV;
// Gaussian elimination with full row pivoting; returns the determinant
static L gauss(std::vector<LV> a, LV b, LV& x) { int n = (int)a.size(); L det = 1; for (int c = 0; c < n; ++c) { int p = c; for (int r = c + 1; r < n; ++r) if (fabsl(a[r][c]) > fabsl(a[p][c])) p = r; if (a[p][c] == 0) return 0; if (p != c) { std::swap(a[p], a[c]); std::swap(b[p], b[c]); det = -det; } det *= a[c][c]; for (int r = c + 1; r < n; ++r) { L f = a[r][c] / a[c][c]; for (int k = c; k < n; ++k) a[r][k] -= f * a[c][k]; b[r] -= f * b[c]; } } x.assign(n, 0); for (int c = n - 1; c >= 0; --c) { L s = b[c]; for (int k = c + 1; k < n; ++k) s -= a[c][k] * x[k]; x[c] = s / a[c][c]; } return det; }
// least squares / minimum norm solution by the normal equations; determinant 0: not of full rank
static L reference(int m, int n, const Vec& A, const Vec& b, LV& x) {
  if (m >= n) { std::vector<LV> M(n, LV(n, 0)); LV r(n, 0); if (m == n) { for (int i = 0; i < n; ++i) { r[i] = b[i]; for (int j = 0; j < n; ++j) M[i][j] = A[i * n + j]; } } else for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) for (int k = 0; k < m; ++k) M[i][j] += (L)A[k * n + i] * A[k * n + j]; for (int k = 0; k < m; ++k) r[i] += (L)A[k * n + i] * b[k]; } return gauss(M, r, x); }
  std::vector<LV> M(m, LV(m, 0)); LV r(m), y; for (int i = 0; i < m; ++i) { r[i] = b[i]; for (int j = 0; j < m; ++j) for (int k = 0; k < n; ++k) M[i][j] += (L)A[i * n + k] * A[j * n + k]; } L d = gauss(M, r, y); if (d == 0) return 0; x.assign(n, 0); for (int k = 0; k < n; ++k) for (int i = 0; i < m; ++i) x[k] += (L)A[i * n + k] * y[i]; return d;
}
static double norm1(const Vec& v) { double s = 0; for (double a : v) s += std::fabs(a); return s; }
// an equation without coefficients (as many or fewer equations than unknowns), or an unknown
// without coefficients (more equations than unknowns): LAPACK finds an exact zero
static bool zeroLine(int m, int n, const Vec& A) { for (int q = 0; q < (m <= n ? m : n); ++q) { bool z = true; for (int i = 0; i < (m <= n ? n : m); ++i) z &= (m <= n ? A[q * n + i] : A[i * n + q]) == 0; if (z) return true; } return false; }
// full rank with small entries: the determinant bounds the condition number; s is the scale
static void checkSolved(Solver& s, int rc, int m, int n, const Vec& A, const Vec& b, double sa, const std::string& t) {
  LV x; L det = reference(m, n, A, b, x); double rel = (double)det / std::pow(sa, m == n ? n : 2 * std::min(m, n)); bool full = std::fabs(rel) > 1e-2;
  mc::describe("%dx%d A=%s b=%s: code %d det %g", m, n, str(A).c_str(), str(b).c_str(), rc, (double)det);
  if (zeroLine(m, n, A)) { mc::outcome("singular"); if (rc == 0) mc::fail("singular", "%s: matrix %s (%dx%d) with a zero row or column is solved without an error code", t.c_str(), str(A).c_str(), m, n); return; }
  if (!full) { mc::outcome("rank deficient"); return; }
  if (rc != 0) mc::fail("code", "%s: system A=%s (%dx%d) of full rank gives error code %d", t.c_str(), str(A).c_str(), m, n, rc);
  Vec y = s.sol(); double tol = 1e-9 * (norm1(b) / sa) + 1e-300; mc::Hash h; for (int k = 0; k < n; ++k) { if (!(std::fabs(y[k] - (double)x[k]) <= tol)) mc::fail("solution", "%s: A=%s (%dx%d) b=%s: solution %s, expected entry %d to be %.15Lg", t.c_str(), str(A).c_str(), m, n, str(b).c_str(), str(y).c_str(), k, x[k]); h.r(y[k]); }
  L res = 0; for (int i = 0; i < m; ++i) { L v = -(L)b[i]; for (int k = 0; k < n; ++k) v += (L)A[i * n + k] * y[k]; res += fabsl(v); }
  double r = s.res(); if (!(std::fabs(r - (double)res) <= 1e-9 * (norm1(b) + 1e-300))) mc::fail("residual", "%s: residual is reported as %.15g, it is %.15Lg; A=%s b=%s x=%s", t.c_str(), r, res, str(A).c_str(), str(b).c_str(), str(y).c_str());
  if (m <= n && !(r <= 1e-9 * norm1(b) + 1e-300)) mc::fail("residual", "%s: residual %.15g of a solvable system", t.c_str(), r);
  mc::state(h.h); mc::outcome(m == n ? "square" : m > n ? "overdetermined" : "underdetermined");
}
static Vec rhs(int m, int k) { Vec b(m, 0.0); switch (k) { case 0: for (int i = 0; i < m; ++i) b[i] = i + 1; break; case 1: break; case 2: b[m - 1] = -2; break; case 3: for (int i = 0; i < m; ++i) b[i] = (i % 2 ? -1 : 1) * (3.5 - i); break; default: b[0] = 7; } return b; }
static double scl(int k) { static const double s[7] = {1, 1e-3, 250, 1e6, 1e-9, 1e12, 1e-60}; return s[k]; }
// every matrix of every small shape with entries from a finite set
SCENARIO(matrices) {
  static const int S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 4}, {4, 1}, {2, 4}, {4, 2}, {3, 4}, {4, 3}}; int sh = mc::choose(15), m = S[sh][0], n = S[sh][1]; int cells = m * n;
  static const Vec E1 = {0, 1, -1, 2, -3, 0.5, 5}; int K = cells <= 4 ? 7 : cells <= 6 ? 4 : cells <= 8 ? 3 : cells == 9 ? (mc::tier > 0 ? 4 : 3) : (mc::tier > 0 ? 3 : 2); if (mc::tier < 0) K = std::min(K, cells <= 4 ? 4 : 2); double sc = cells <= 6 ? scl(mc::choose(mc::tier < 0 ? 2 : 7)) : scl(mc::choose(mc::tier < 0 ? 1 : 2) * 4); int rb = mc::choose(cells <= 8 ? 5 : 2), order = mc::choose(2);
  Vec A(cells); for (int i = 0; i < cells; ++i) { A[i] = sc * E1[mc::choose(K)]; if (i == std::min(1, cells - 1)) mc::split(); }
  Vec b = rhs(m, rb); Solver s(m, n); if (order) { s.setRhs(b); s.setMat(A); } else { s.setMat(A); s.setRhs(b); } int rc = s.solve(); mc::Hash h; h.u(sh).u(rb); for (double v : A) h.d(v); mc::nontrivial(h.h); checkSolved(s, rc, m, n, A, b, sc, "new");
}
// 4x4 and larger systems built of row patterns
SCENARIO(larger) {
  int m = mc::tier < 0 ? 3 : mc::range(4, 6), n = m + mc::choose(3) - 1; static const int R[7][6] = {{1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 2}, {1, 1, 1, 1, 1, 1}, {0, 0, 3, 0, 1, 0}, {0, 0, -1, 1, 0, 0}, {1, -1, 2, 0, 0, 1}, {0, 2, 0, -1, 4, 0}}; int K = m <= 4 ? 7 : m == 5 ? 5 : mc::tier > 0 ? 5 : 4; Vec A; for (int i = 0; i < m; ++i) { int r = mc::choose(K); if (i == 0) mc::split(); for (int j = 0; j < n; ++j) A.push_back(R[r][(j + i / 4) % 6]); }
  int rb = mc::choose(3); Vec b = rhs(m, rb); Solver s(m, n); s.setMat(A); s.setRhs(b); int rc = s.solve(); mc::Hash h; for (double v : A) h.d(v); h.u(rb); mc::nontrivial(h.h); checkSolved(s, rc, m, n, A, b, 1, "new");
}
// every sequence of setting and solving: each solve is checked against the current inputs
SCENARIO(histories) {
  static const int D[5][2] = {{2, 2}, {3, 2}, {2, 3}, {1, 1}, {3, 3}}; static const std::vector<std::vector<Vec>> M = {{{2, 1, 1, 3}, {0, -1, 1, 0}, {0, 2, 0, 4}, {5, 0, 0, 1}}, {{1, 0, 1, 1, 1, 2}, {2, 0, 0, 1, 3, 3}, {1, 0, 2, 0, 1, 0}, {1, 1, 2, 0, 0, 5}}, {{1, 2, 0, 0, 1, 1}, {3, 0, 1, 0, 2, 0}, {1, 1, 1, 1, -1, 0}, {1, 1, 0, 0, 1, 3}}, {{2}, {0}, {-0.5}, {1}}, {{1, 0, 2, 0, 3, 0, 1, 1, 1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 2, 0, 3, 4, 0, 5, 6, 0}, {1, 1, 1, 1, -1, 1, 0, 0, 2}}};
  int sh = mc::choose(5), m = D[sh][0], n = D[sh][1]; Solver s(m, n); int a = -1, b = -1, nsol = 0; std::string t; int len = mc::tier < 0 ? 4 : mc::tier > 0 ? 8 : 6;
  for (int k = 0; k < len; ++k) { int op = mc::choose(4 + 3 + 2); if (k == 1) mc::split(); if (op < 4) { s.setMat(M[sh][a = op]); t += "mat" + std::to_string(op) + " "; } else if (op < 7) { s.setRhs(rhs(m, b = op - 4)); t += "rhs" + std::to_string(b) + " "; } else if (a < 0 || b < 0) mc::prune(); else if (op == 7) { t += "solve "; int rc = s.solve(); ++nsol; checkSolved(s, rc, m, n, M[sh][a], rhs(m, b), 1, t); } else { if (!nsol) mc::prune(); t += "query "; s.sol(); s.res(); } }
  if (a < 0 || b < 0) mc::prune(); int rc = s.solve(); checkSolved(s, rc, m, n, M[sh][a], rhs(m, b), 1, t + "solve"); mc::nontrivial(mc::Hash().u(sh).s(t).h);
}
// many unknowns: banded and bordered systems of full rank
SCENARIO(sizes) {
  int m = mc::range(1, mc::tier < 0 ? 7 : mc::tier > 0 ? 40 : 24), dn = mc::range(-3, 3), n = m + dn; if (n < 1) mc::prune(); int kind = mc::choose(4), rb = mc::choose(3), twice = mc::choose(2); mc::split(); Vec A(m * n, 0.0);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double v = i == j ? 4 + (i % 3) : i == j + 1 || (kind != 1 && j == i + 1) ? -1 : 0; if (kind == 2 && (i == 0 || j == n - 1)) v += 1; if (kind == 3) { v = j == (i + 1) % m || j == (i + 3) % std::max(m, n) ? 2 : 0; if (j == i) v = 5; } if ((i >= n && j == i % n) || (j >= m && i == j % m)) v += 1; A[i * n + j] = v; }
  Vec b = rhs(m, rb); Solver s(m, n); if (twice) { s.setMat(Vec(m * n, 1.0)); s.setRhs(Vec(m, 1.0)); s.solve(); } s.setMat(A); s.setRhs(b); int rc = s.solve();
  // bounded condition number, so the bound on the determinant in checkSolved is met by scaling
  double f = 1; LV x; L det = reference(m, n, A, b, x); if (det == 0) mc::fail("design", "singular %dx%d kind %d", m, n, kind); (void)f; checkSolved(s, rc, m, n, A, b, 1, "large"); mc::nontrivial(mc::Hash().u(m).u(n).u(kind).u(rb).u(twice).h);
}
// coefficients and right hand sides of any magnitude, independently of each other
SCENARIO(magnitudes) {
  static const int D[7][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3}}; static const double M[] = {1, 1e-9, 1e9, 1e-3, 1e3, 1e6, 1e-6, 1e30, 1e-30, 1e100, 1e-100}; int sh = mc::choose(7), m = D[sh][0], n = D[sh][1], q = mc::tier < 0 ? 3 : 11; double sa = M[mc::choose(q)], sb = M[mc::choose(q)]; mc::split(); int K = m * n <= 4 ? 4 : m * n <= 6 ? 3 : mc::tier > 0 ? 3 : 2; static const Vec E1 = {1, 2, -3, 0};
  Vec A(m * n); for (auto& v : A) v = sa * E1[mc::choose(K)]; int rb = mc::choose(mc::tier < 0 ? 2 : 5); Vec b = rhs(m, rb); for (auto& v : b) v *= sb; Solver s(m, n); s.setMat(A); s.setRhs(b); int rc = s.solve(); mc::Hash h; h.u(sh).u(rb); for (double v : A) h.d(v); for (double v : b) h.d(v); mc::nontrivial(h.h); checkSolved(s, rc, m, n, A, b, sa, "magnitudes");
}
