// C04: iterating over the weights: every sequence of operations against a cursor model.
#include "api.h"
using namespace geo;
static const int NCFG = 9;
static void config(int k, Grid& s, Grid& d) {
  s = uniform(3, 3, 0, 2, 0, 2); switch (k) {
    case 0: d = uniform(2, 2, 0.5, 1.5, 0.5, 1.5); break;          // one destination, four sources
    case 1: d = uniform(3, 3, 0, 2, 0, 2); break;                  // one by one (and touching ones)
    case 2: d = uniform(2, 2, 5, 6, 5, 6); break;                  // nothing overlaps
    case 3: d = uniform(5, 2, -2, 4, 0.5, 1.5); break;             // first and last destination off the grid
    case 4: d = uniform(2, 2, 0.1, 0.2, 0.1, 0.2); break;          // exactly one weight
    case 5: d = uniform(4, 4, -1, 5, -1, 5); break;                // only some rows
    case 6: d = uniform(2, 2, 2, 3, 0, 2); break;                  // touches along an edge
    case 7: d = uniform(3, 2, 1, 3, 1, 1.5); break;                // hole at the end
    default: s = uniform(4, 4, 0, 1, 0, 1); d = uniform(2, 2, -1, 2, -1, 2); } }
typedef std::pair<int, int> Key;
// no cell of one touches a cell of the other
static bool isApart(const Grid& a, const Grid& b) { for (int i = 0; i < a.cells(); ++i) for (int j = 0; j < b.cells(); ++j) { Poly c = clip(ccw(a.cell(i)), ccw(b.cell(j))); if (!c.empty()) return false; } return true; }
SCENARIO(operations) {
  int cfg = mc::choose(NCFG), cfg2 = mc::choose(mc::tier <= 0 ? 2 : NCFG); if (mc::tier <= 0) cfg2 = cfg2 ? (cfg * 2 + 3) % NCFG : 2; int depth = mc::tier < 0 ? 3 : mc::tier > 0 ? 6 : 5; if (mc::tier < 0 && cfg % 2) mc::prune(); mc::split();
  Grid s, d, s2, d2; config(cfg, s, d); config(cfg2, s2, d2); Conserve c; c.setSrc(s); c.setDst(d); if (c.compute()) mc::fail("rc", "computeWeights failed");
  auto truth = [&](const Grid& S, const Grid& D) { std::map<Key, double> m; for (int i = 0; i < D.cells(); ++i) for (int j = 0; j < S.cells(); ++j) { double a = (double)(overlapArea(D.cell(i), S.cell(j)) / area(D.cell(i))); if (a > 1e-9) m[{i, j}] = a; } return m; };
  auto T = truth(s, d); bool apart = isApart(s, d); bool known = false; std::vector<std::pair<Key, double>> order; // the order, once it has been seen
  long pos = 0; std::vector<std::pair<Key, double>> seen; // entries seen since the traversal started
  bool complete = true; // the traversal started at the first entry
  std::string trace; int count = 0; mc::Hash h; bool fromStart = true; bool looked = false; std::pair<Key, double> cur;
  auto get = [&]() { int si = -9, di = -9; double w = NAN; SgConserveInterp2D_get(&c.h, &si, &di, &w); mc::step(); return std::make_pair(Key(di, si), w); };
  auto visit = [&]() { // the current entry
    auto e = get(); auto e2 = get(); if (e != e2) mc::fail("get", "reading twice gives different entries; %s", trace.c_str()); h.u(e.first.first + 1).u(e.first.second + 1);
    if (T.empty() && e.second == 0) return e; // no weight
    auto it = T.find(e.first); double w = it == T.end() ? 0 : it->second;
    if (e.first.first < 0 || e.first.first >= c.nd || e.first.second < 0 || e.first.second >= c.ns) mc::fail("index", "entry with destination %d source %d; %s", e.first.first, e.first.second, trace.c_str());
    if (!(std::fabs(e.second - w) <= 1e-9)) mc::fail("value", "entry (dst %d, src %d) has weight %.12g, expected %.12g; %s", e.first.first, e.first.second, e.second, w, trace.c_str());
    for (auto& p : seen) if (p.first == e.first) mc::fail("twice", "weight (dst %d, src %d) is visited twice; %s", e.first.first, e.first.second, trace.c_str());
    if (known) { if (pos >= (long)order.size()) mc::fail("order", "traversal is longer than before; %s", trace.c_str()); if (order[pos] != e) mc::fail("order", "entry %ld is (dst %d, src %d), was (dst %d, src %d) in the previous traversal; %s", pos, e.first.first, e.first.second, order[pos].first.first, order[pos].first.second, trace.c_str()); }
    return e; };
  auto start = [&]() { pos = 0; seen.clear(); };
  auto advance = [&](std::pair<Key, double> e) { seen.push_back(e); int end = SgConserveInterp2D_next(&c.h); mc::step(); ++pos; if (end != 0 && end != 1) mc::fail("signal", "next returned %d", end);
    if (end) { std::set<Key> k; for (auto& p : seen) if (p.second > 1e-9) k.insert(p.first); for (auto& t : T) if (!k.count(t.first)) mc::fail("missed", "weight (dst %d, src %d) was not visited; %s", t.first.first, t.first.second, trace.c_str()); if (known && seen.size() != order.size()) mc::fail("order", "traversal has %zu entries, %zu before; %s", seen.size(), order.size(), trace.c_str()); order = seen; known = true; start(); ++count; }
    else if (T.empty() && apart) mc::fail("empty", "no cells overlap, and the traversal goes on; %s", trace.c_str()); else if (seen.size() > (size_t)c.nd * c.ns) mc::fail("endless", "traversal does not end; %s", trace.c_str()); return end; };
  bool same2 = cfg == cfg2; int n = depth, nrec = 0; start(); // what holds along a sequence holds for its prefixes
  for (int k = 0; k < n; ++k) { int op = mc::choose(same2 ? 6 : 7); if (op >= 5 && ++nrec > 2) mc::prune();
    switch (op) {
      case 0: trace += "next "; advance(visit()); break;
      case 1: trace += "reset "; SgConserveInterp2D_reset(&c.h); mc::step(); start(); break;
      case 2: { trace += "all "; int g = 0; while (!advance(visit())) if (++g > 1000) mc::fail("endless", "traversal does not end; %s", trace.c_str()); break; }
      case 3: { trace += "get "; visit(); break; }
      case 4: { trace += "apply "; Vec src(c.ns, 2.0), dst(c.nd, -1.0); c.apply(src, dst); for (int i = 0; i < c.nd; ++i) { double w = 0; bool any = false; for (auto& t : T) if (t.first.first == i) { w += 2 * t.second; any = true; } if (any && !(std::fabs(dst[i] - w) <= 1e-9)) mc::fail("apply", "destination %d is %.12g, expected %.12g; %s", i, dst[i], w, trace.c_str()); } break; }
      case 5: { trace += "recompute "; if (c.compute()) mc::fail("rc", "computeWeights failed"); SgConserveInterp2D_reset(&c.h); mc::step(); start(); break; }
      case 6: { trace += "other-grids "; c.setSrc(s2); c.setDst(d2); if (c.compute()) mc::fail("rc", "computeWeights failed"); T = truth(s2, d2); apart = isApart(s2, d2); SgConserveInterp2D_reset(&c.h); mc::step(); start(); known = false; same2 = true; break; } } }
  mc::describe("configuration %d then %d: %s", cfg, cfg2, trace.c_str()); mc::state(h.u(pos).u(T.size()).h); if (count || !T.empty()) mc::nontrivial(mc::Hash().u(cfg).u(cfg2).s(trace).h); mc::outcome(T.empty() ? "empty" : count ? "wrapped" : "not wrapped");
}
// larger weight sets: full traversals after stopping at every position
SCENARIO(positions) {
  int n0 = mc::range(2, mc::tier > 0 ? 7 : 5), n1 = mc::range(2, 5), m0 = mc::range(2, 5), m1 = mc::range(2, mc::tier > 0 ? 6 : 4), place = mc::choose(3); if (mc::tier < 0 && n0 + n1 + m0 + m1 > 10) mc::prune(); mc::split(); static const double P[3][4] = {{0, 1, 0, 1}, {-0.6, 0.7, 0.35, 1.8}, {-2, 3, -1.5, 2.5}}; const double* p = P[place];
  Grid s = uniform(n0, n1, 0, 1, 0, 1), d = uniform(m0, m1, p[0], p[1], p[2], p[3]); Conserve c; c.setDst(d); c.setSrc(s); c.compute(); auto e = c.entries(false); // the first traversal needs no reset
  std::map<Key, double> T; for (int i = 0; i < d.cells(); ++i) for (int j = 0; j < s.cells(); ++j) { double a = (double)(overlapArea(d.cell(i), s.cell(j)) / area(d.cell(i))); if (a > 1e-9) T[{i, j}] = a; }
  std::set<Key> k; for (auto& x : e) { if (!k.insert({x.dst, x.src}).second) mc::fail("twice", "weight (dst %d, src %d) visited twice", x.dst, x.src); if (x.dst < 0 || x.dst >= d.cells() || x.src < 0 || x.src >= s.cells()) mc::fail("index", "entry dst %d src %d", x.dst, x.src); double w = T.count({x.dst, x.src}) ? T[{x.dst, x.src}] : 0; if (!(std::fabs(w - x.w) <= 1e-9)) mc::fail("value", "weight (dst %d, src %d) is %.12g, expected %.12g", x.dst, x.src, x.w, w); } for (auto& t : T) if (!k.count(t.first)) mc::fail("missed", "weight (dst %d, src %d) was not visited", t.first.first, t.first.second);
  int stop = mc::choose((int)std::min<size_t>(e.size(), mc::tier > 0 ? 60 : 12)) ; for (int q = 0; q < stop; ++q) { SgConserveInterp2D_next(&c.h); mc::step(); } auto f = c.entries(true), g = c.entries(false);
  auto eq = [&](const std::vector<Conserve::Entry>& a) { if (a.size() != e.size()) return false; for (size_t q = 0; q < a.size(); ++q) if (a[q].src != e[q].src || a[q].dst != e[q].dst || a[q].w != e[q].w) return false; return true; };
  mc::describe("%zu entries, stopped at %d", e.size(), stop); if (!eq(f)) mc::fail("restart", "traversal after a reset at position %d differs", stop); if (!eq(g)) mc::fail("wrap", "traversal after the wrap-around differs"); mc::Hash h; for (auto& x : e) h.u(x.dst).u(x.src).r(x.w); mc::state(h.h); mc::nontrivial(h.u(stop).h); mc::outcome(e.size() > 10 ? "more than ten weights" : "up to ten weights");
}
