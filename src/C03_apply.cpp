// C03: applying weights is linear, overwrites what has weights and touches nothing else.
#include "api.h"
#include <fcntl.h>
#include <unistd.h>
using namespace geo;
static void quiet() { static bool done = false; if (done || mc::verbose) return; done = true; int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); if (!getenv("MC_KEEP_STDERR")) dup2(n, 2); close(n); }
// one configured interpolator of any kind
struct Interp {
  int kind, nd = 0; std::vector<int> ns; Conserve* c = nullptr; Node* n = nullptr; Flow* f = nullptr; std::vector<bool> surelyNot, surely;
  Interp(int k) : kind(k) { if (k == 0) c = new Conserve; else if (k == 1) n = new Node(50, 1e-9); else f = new Flow; }
  ~Interp() { delete c; delete n; delete f; }
  Interp(const Interp&) = delete;
  void set(const Grid& s, const Grid& d, const Vec& lx, const Vec& ly) {
    double x0 = *std::min_element(s.x.begin(), s.x.end()), x1 = *std::max_element(s.x.begin(), s.x.end()), y0 = *std::min_element(s.y.begin(), s.y.end()), y1 = *std::max_element(s.y.begin(), s.y.end());
    auto off = [&](double xa, double xb, double ya, double yb) { return xb < x0 - 1e-3 || xa > x1 + 1e-3 || yb < y0 - 1e-3 || ya > y1 + 1e-3; }; Poly dom = ccw({s.p(0), s.p(s.node(s.dims[0] - 1, 0)), s.p(s.nodes() - 1), s.p(s.node(0, s.dims[1] - 1))}); auto in = [&](double xa, double xb, double ya, double yb) { return insideDepth({xa, ya}, dom) > 1e-3 && insideDepth({xb, yb}, dom) > 1e-3 && insideDepth({xa, yb}, dom) > 1e-3 && insideDepth({xb, ya}, dom) > 1e-3; };
    if (kind == 0) { c->setSrc(s); c->setDst(d); c->compute(); nd = d.cells(); ns = {s.cells()}; for (int k = 0; k < nd; ++k) { Poly p = d.cell(k); double a = 1e300, b = -1e300, e = 1e300, f = -1e300; for (auto& q : p) { a = std::min(a, (double)q.x); b = std::max(b, (double)q.x); e = std::min(e, (double)q.y); f = std::max(f, (double)q.y); } surelyNot.push_back(off(a, b, e, f)); surely.push_back(in(a, b, e, f)); } }
    if (kind == 1) { n->setSrc(s); n->setDst(d); n->compute(); nd = d.nodes(); ns = {s.nodes()}; for (int k = 0; k < nd; ++k) { surelyNot.push_back(off(d.x[k], d.x[k], d.y[k], d.y[k])); surely.push_back(in(d.x[k], d.x[k], d.y[k], d.y[k])); } }
    if (kind == 2) { f->setSrc(s); f->setDst(lx, ly); f->compute(); nd = (int)lx.size() - 1; ns = {(s.dims[0] - 1) * s.dims[1], s.dims[0] * (s.dims[1] - 1)}; for (int k = 0; k < nd; ++k) { double a = std::min(lx[k], lx[k + 1]), b = std::max(lx[k], lx[k + 1]), e = std::min(ly[k], ly[k + 1]), g = std::max(ly[k], ly[k + 1]); surelyNot.push_back(off(a, b, e, g)); surely.push_back(in(a, b, e, g)); } }
  }
  int nsrc() const { int t = 0; for (int v : ns) t += v; return t; }
  int apply(const double* s, double* d) { mc::step(); if (kind == 0) return SgConserveInterp2D_apply(&c->h, s, d); if (kind == 1) return SgNodeInterp2D_apply(&n->h, s, d); const double* p[2] = {s, s + ns[0]}; return SgFlowInterp2D_apply(&f->h, p, d); }
};
static const double GUARD = -7.77e77;
static const char* kindName(int k) { return k == 0 ? "conservative" : k == 1 ? "nodal" : "flow"; }
// destination array between guards
struct Dst { Vec v; int n; Dst(int n_, double fill) : v(n_ + 8, GUARD), n(n_) { for (int k = 0; k < n; ++k) v[k + 4] = fill; } double* p() { return &v[4]; } void guards(const char* w) { for (int k = 0; k < 4; ++k) if (v[k] != GUARD || v[n + 4 + k] != GUARD) mc::fail("guard", "%s: memory beside the destination array was written", w); } };
static Vec field(int i, int n) { Vec v(n); for (int k = 0; k < n; ++k) { switch (i) { case 0: v[k] = 0; break; case 1: v[k] = 1; break; case 2: v[k] = std::sin(1.7 * k + 0.3); break; case 3: v[k] = (k % 2 ? -1 : 1) * (k + 1) * 1e6; break; case 4: v[k] = 1e-9 * (k + 2); break; default: v[k] = k == 1 ? -3 : 0; } } return v; }
static void config(int cfg, Grid& s, Grid& d, Vec& lx, Vec& ly) {
  static const Embed es[3] = {{"id", 1, 0, 0, 1, 0, 0}, {"rot", 0.6, -0.8, 0.8, 0.6, 0.1, 0.2}, {"deg", 30, 0, 0, 20, -10, 5}}; const Embed& e = es[cfg % 3]; cfg /= 3; int place = cfg % 6; cfg /= 6; int sn = 2 + cfg % 2, dn = 2 + cfg / 2 % 2 * 2;
  s = uniform(sn, 3, 0, 2, 0, 2); static const double P[6][4] = {{0.1, 1.9, 0.2, 1.7}, {0, 2, 0, 2}, {-1, 1.1, 0.3, 3}, {2.5, 4, 0, 2}, {-1, 3.3, -0.7, 2.9}, {0.5, 0.9, -3, -1}}; const double* p = P[place]; d = uniform(dn, 3, p[0], p[1], p[2], p[3]);
  lx = {p[0], p[1], 0.5 * (p[0] + p[1]), p[1], p[1]}; ly = {p[2], p[3], p[3], p[2], p[2]}; if (dn > 3) { lx.push_back(0.3); ly.push_back(0.4); }
  s = s.mapped(e); d = d.mapped(e); for (size_t k = 0; k < lx.size(); ++k) { double o[2]; apply(e, lx[k], ly[k], o); lx[k] = o[0]; ly[k] = o[1]; }
}
SCENARIO(applications) {
  quiet(); int kind = mc::choose(3), cfg = mc::choose(3 * 6 * 4); if (mc::tier < 0 && cfg % 5) mc::prune(); mc::split(); Grid s, d; Vec lx, ly; config(cfg, s, d, lx, ly); Interp I(kind); I.set(s, d, lx, ly); int N = I.nsrc();
  // which destinations have weights, and the weights
  Dst probe(I.nd, NAN); Vec zero(N, 0.0); I.apply(zero.data(), probe.p()); probe.guards("probe"); std::vector<bool> has(I.nd); int cnt = 0; for (int k = 0; k < I.nd; ++k) { has[k] = !std::isnan(probe.p()[k]); cnt += has[k]; if (has[k] && I.surelyNot[k]) mc::fail("touched", "%s: destination %d is off the source grid and was written", kindName(kind), k); if (!has[k] && I.surely[k]) mc::fail("left", "%s: destination %d lies in the source grid and was not written", kindName(kind), k); if (has[k] && probe.p()[k] != 0) mc::fail("linear", "%s: zero field gives %g", kindName(kind), probe.p()[k]); }
  std::vector<Vec> W(I.nd, Vec(N, 0.0)); for (int j = 0; j < N; ++j) { Vec u(N, 0.0); u[j] = 1; Dst o(I.nd, 0.0); I.apply(u.data(), o.p()); for (int k = 0; k < I.nd; ++k) W[k][j] = has[k] ? o.p()[k] : 0; }
  // the weights applied are the weights computed: those listed by the iteration, and, for nodes, a partition of one
  if (kind == 0 && cnt) { std::vector<Vec> V(I.nd, Vec(N, 0.0)); for (auto& e : I.c->entries()) { if (e.dst < 0 || e.dst >= I.nd || e.src < 0 || e.src >= N) mc::fail("listed", "entry src %d dst %d", e.src, e.dst); V[e.dst][e.src] += e.w; } for (int k = 0; k < I.nd; ++k) for (int j = 0; j < N; ++j) if (!(std::fabs(V[k][j] - W[k][j]) <= 1e-15 * std::fabs(V[k][j]))) mc::fail("listed", "conservative: weight of source %d for destination %d applied as %.17g, listed as %.17g", j, k, W[k][j], V[k][j]); }
  if (kind == 1) for (int k = 0; k < I.nd; ++k) if (has[k]) { L t = 0; for (int j = 0; j < N; ++j) t += W[k][j]; if (!(fabsl(t - 1) <= 1e-13L)) mc::fail("partition", "nodal: the weights of destination %d add up to %.17g", k, (double)t); }
  mc::describe("%s configuration %d: src %s dst %s", kindName(kind), cfg, s.str().c_str(), d.str().c_str()); mc::Hash h; for (auto& r : W) for (double w : r) h.r(w); mc::state(h.h);
  // a sequence of applications to arrays with different contents; one array is used again
  Dst again(I.nd, 5.0); int len = mc::range(1, mc::tier > 0 ? 4 : mc::tier < 0 ? 2 : 3); Vec first; double fills[] = {0.0, 123.456, NAN, -1e30};
  for (int a = 0; a < len; ++a) { int fi = mc::choose(mc::tier > 0 && len > 3 ? 3 : 6), where = mc::choose(mc::tier > 0 ? 3 : 2); Vec src = field(fi, N), keep = src; Vec guarded(N + 8, GUARD); std::copy(src.begin(), src.end(), guarded.begin() + 4);
    Dst fresh(I.nd, fills[(a + fi + where) % 4]); Dst& o = where == 0 ? again : fresh; Vec before(o.p(), o.p() + I.nd); int rc = I.apply(&guarded[4], o.p()); if (rc) mc::fail("rc", "apply returned %d", rc); o.guards(kindName(kind));
    for (int k = 0; k < N; ++k) if (guarded[k + 4] != keep[k]) mc::fail("source", "%s: source value %d was changed", kindName(kind), k);
    for (int k = 0; k < I.nd; ++k) { double got = o.p()[k]; if (!has[k]) { if (memcmp(&got, &before[k], 8)) mc::fail("untouched", "%s: destination %d without weights was changed from %g to %g", kindName(kind), k, before[k], got); continue; }
      L want = 0, mag = 0; for (int j = 0; j < N; ++j) { want += (L)W[k][j] * src[j]; mag += fabsl((L)W[k][j] * src[j]); } mc::describe("application %d of field %d into %s array: destination %d is %.15g, expected %.15g", a, fi, where ? "another" : "the same", k, got, (double)want);
      if (!(std::fabs(got - (double)want) <= 1e-12 * (double)mag)) mc::fail("sum", "%s: application %d of field %d (before: %g): destination %d is %.17g, weighted sum is %.17g", kindName(kind), a, fi, before[k], k, got, (double)want); }
    if (a == 0) first.assign(o.p(), o.p() + I.nd);
    if (a + 1 == len) { Dst r(I.nd, 9.0); I.apply(keep.data(), r.p()); for (int k = 0; k < I.nd; ++k) if (has[k] && r.p()[k] != o.p()[k]) mc::fail("repeat", "%s: applying again to the same data gives %.17g, was %.17g", kindName(kind), r.p()[k], o.p()[k]); } }
  char b[64]; snprintf(b, 64, "%s %s", kindName(kind), cnt == 0 ? "nothing" : cnt == I.nd ? "all" : "some"); mc::outcome(b); if (cnt) mc::nontrivial(mc::Hash().u(kind).u(cfg).u(len).h);
}
// values of any size, and values that are often used for something else: one source value, or all of them
SCENARIO(values) {
  quiet(); static const Vec V = {-999, -9999, 1e10, 1e20, -1e30, 9.96921e36, 1e38, -3e200, 1e300, 1e-20, -1e-38, 1e-45, 1e-200, 1e-300, 5e-324, 32767, 2147483648.0, 65504, -0.0, 0.1f, 255, NAN, INFINITY, -INFINITY};
  int kind = mc::choose(3), cfg = mc::choose(3 * 6 * 4); if (mc::tier < 0 && cfg % 9) mc::prune(); if (mc::tier == 0 && cfg % 3 != cfg / 3 % 3) mc::prune(); mc::split(); Grid s, d; Vec lx, ly; config(cfg, s, d, lx, ly); Interp I(kind); I.set(s, d, lx, ly); int N = I.nsrc(); std::vector<Vec> W(I.nd, Vec(N, 0.0)); std::vector<bool> has(I.nd); int cnt = 0;
  for (int j = 0; j < N; ++j) { Vec u(N, 0.0); u[j] = 1; Dst o(I.nd, NAN); I.apply(u.data(), o.p()); for (int k = 0; k < I.nd; ++k) { has[k] = !std::isnan(o.p()[k]); W[k][j] = has[k] ? o.p()[k] : 0; cnt += has[k]; } }
  int at = mc::choose(N + 1); double v = mc::pick(V), rest = mc::pick(Vec{0, 1, 1e20}); Vec src(N, rest); if (at == N) std::fill(src.begin(), src.end(), v); else src[at] = v; Dst o(I.nd, -55.5); I.apply(src.data(), o.p()); o.guards(kindName(kind)); mc::Hash h;
  for (int k = 0; k < I.nd; ++k) { double got = o.p()[k]; if (!has[k]) { if (got != -55.5) mc::fail("untouched", "%s: destination %d without weights was changed to %g", kindName(kind), k, got); continue; }
    bool bad = false, none = false; L want = 0, mag = 0; for (int j = 0; j < N; ++j) { if (!std::isfinite(src[j])) { if (std::fabs(W[k][j]) > 1e-9) bad = true; else none = true; } else { want += (L)W[k][j] * src[j]; mag += fabsl((L)W[k][j] * src[j]); } } mc::describe("%s: source %d is %g, others %g: destination %d is %.15g", kindName(kind), at, v, rest, k, got); h.r(got);
    if (bad) { if (std::isfinite(got)) mc::fail("undefined", "%s: source %d with weight %.9g is %g, but destination %d is %.15g", kindName(kind), at, at < N ? W[k][at] : 0., v, k, got); }
    else if (!none && !(fabsl(got - want) <= 1e-12L * mag + 1e-323L * N)) mc::fail("sum", "%s: source %d is %g, others %g: destination %d is %.17g, weighted sum is %.17Lg", kindName(kind), at, v, rest, k, got, want); }
  mc::state(h.h); if (cnt) mc::nontrivial(mc::Hash().u(kind).u(cfg).u(at).d(v).d(rest).h); mc::outcome(!std::isfinite(v) ? "undefined value" : std::fabs(v) > 1e15 ? "huge value" : std::fabs(v) < 1e-15 ? "tiny value" : "value");
}
