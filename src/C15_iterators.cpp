// C15: index iterators enumerate their range exactly once, the last index fastest.
#include "mc.h"
#include <memory>
#include "SgBoxIterator.h"
#include "SgSideIterator.h"
typedef std::vector<int> Ints;
static std::string str(const Ints& k) { std::string s = "["; for (int v : k) s += std::to_string(v) + " "; return s + "]"; }
SCENARIO(boxes) {
  int nd = mc::range(1, mc::tier > 0 ? 5 : 4); static const Ints lows = {0, -2, 3, 1000, -100000}; Ints b, e; long num = 1;
  for (int i = 0; i < nd; ++i) { b.push_back(lows[mc::choose(nd < 3 ? 5 : nd == 3 ? 4 : nd == 4 ? 3 : 2)]); int n = mc::choose(nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 6 : nd == 4 ? 4 : 4); e.push_back(b[i] + n); num *= n; if (i == 0) mc::split(); }
  SgBoxIterator_type* h = nullptr; { Ints c(b), d(e); SgBoxIterator_new(&h, nd, c.data(), d.data()); std::fill(c.begin(), c.end(), 99999); std::fill(d.begin(), d.end(), -99999); } mc::step();
  std::unique_ptr<SgBoxIterator_type*, std::function<void(SgBoxIterator_type**)>> del(&h, [](SgBoxIterator_type** p) { SgBoxIterator_del(p); });
  int n = -1; SgBoxIterator_getNumberOfElements(&h, &n); mc::step(); if (n != num) mc::fail("number", "box %s to %s: %d elements, expected %ld", str(b).c_str(), str(e).c_str(), n, num);
  Ints want = b; mc::Hash hh; for (int k = 0; k < n; ++k) { // want: odometer, last index fastest
    Ints got(nd + 1, 12345); SgBoxIterator_getElement(&h, k, got.data()); mc::step(2); if (got[nd] != 12345) mc::fail("beyond", "getElement writes beyond the index set"); got.pop_back();
    if (got != want) mc::fail("element", "box %s to %s: element %d is %s, expected %s", str(b).c_str(), str(e).c_str(), k, str(got).c_str(), str(want).c_str());
    int back = -7; Ints w(want); SgBoxIterator_getIndex(&h, w.data(), &back); if (back != k || w != want) mc::fail("index", "box %s to %s: index of %s is %d, expected %d", str(b).c_str(), str(e).c_str(), str(want).c_str(), back, k);
    for (int v : got) hh.u((unsigned)v); for (int i = nd - 1; i >= 0; --i) { if (++want[i] < e[i]) break; want[i] = b[i]; } }
  // the queries in the opposite order give the same
  for (int k = n - 1; k >= 0; --k) { Ints got(nd); SgBoxIterator_getElement(&h, k, got.data()); int back = -7; SgBoxIterator_getIndex(&h, got.data(), &back); mc::step(2); if (back != k) mc::fail("repeat", "box %s to %s: element %d maps back to %d", str(b).c_str(), str(e).c_str(), k, back); }
  mc::state(hh.h); if (n > 0) mc::nontrivial(mc::Hash().s(str(b)).s(str(e)).h); mc::outcome(n == 0 ? "empty" : n == 1 ? "one element" : "several"); mc::describe("box %s to %s: %d elements", str(b).c_str(), str(e).c_str(), n);
}
// boxes of many dimensions: every choice of one or two elements along each of up to ten (twelve) axes
SCENARIO(dimensions) {
  int nd = mc::range(4, mc::tier < 0 ? 6 : mc::tier > 0 ? 12 : 10); Ints b, e; long num = 1; int lo = mc::choose(3); for (int i = 0; i < nd; ++i) { b.push_back(lo == 0 ? 0 : lo == 1 ? i + 1 : -3 * i); int n = 1 + mc::choose(2); e.push_back(b[i] + n); num *= n; if (i == 3) mc::split(); }
  if (mc::tier <= 0 && nd > 8 && num < 64) mc::prune();
  SgBoxIterator_type* h = nullptr; SgBoxIterator_new(&h, nd, b.data(), e.data()); mc::step(); std::unique_ptr<SgBoxIterator_type*, std::function<void(SgBoxIterator_type**)>> del(&h, [](SgBoxIterator_type** p) { SgBoxIterator_del(p); });
  int n = -1; SgBoxIterator_getNumberOfElements(&h, &n); if (n != num) mc::fail("number", "box %s to %s: %d elements, expected %ld", str(b).c_str(), str(e).c_str(), n, num); Ints want = b, got(nd); mc::Hash hh;
  for (int k = 0; k < n; ++k) { std::fill(got.begin(), got.end(), 12345); SgBoxIterator_getElement(&h, k, got.data()); mc::step(2); if (got != want) mc::fail("element", "box %s to %s: element %d is %s, expected %s", str(b).c_str(), str(e).c_str(), k, str(got).c_str(), str(want).c_str());
    int back = -7; SgBoxIterator_getIndex(&h, want.data(), &back); if (back != k) mc::fail("index", "box %s to %s: index of %s is %d, expected %d", str(b).c_str(), str(e).c_str(), str(want).c_str(), back, k); for (int i = nd - 1; i >= 0; --i) { if (++want[i] < e[i]) break; want[i] = b[i]; } }
  mc::state(hh.u(nd).u(num).s(str(e)).h); mc::nontrivial(mc::Hash().s(str(b)).s(str(e)).h); mc::outcome("many dimensions"); mc::describe("%d dimensions, %ld elements", nd, num);
}
// boxes with up to 2^31 - 1 elements: their corners, and what is next to these and in the middle along each axis
SCENARIO(wide) {
  static const std::vector<long> N = {1, 2, 255, 257, 32769, 65535, 65537, 70000, 1000003, 16777217, 2147483647}; int nd = mc::range(1, mc::tier > 0 ? 4 : 3); Ints b, e, dim; long num = 1; int lo = mc::choose(3);
  for (int i = 0; i < nd; ++i) { long n = N[mc::choose((int)N.size())], low = lo == 0 ? 0 : lo == 1 ? -(n / 2) : std::min(77L, 2147483647L - n); num *= n; if (num > 2147483647L) mc::prune(); b.push_back((int)low); e.push_back((int)(low + n)); dim.push_back((int)n); if (i == 0) mc::split(); }
  SgBoxIterator_type* h = nullptr; SgBoxIterator_new(&h, nd, b.data(), e.data()); mc::step(); std::unique_ptr<SgBoxIterator_type*, std::function<void(SgBoxIterator_type**)>> del(&h, [](SgBoxIterator_type** p) { SgBoxIterator_del(p); });
  int n = -1; SgBoxIterator_getNumberOfElements(&h, &n); if (n != num) mc::fail("number", "box %s to %s: %d elements, expected %ld", str(b).c_str(), str(e).c_str(), n, num); mc::Hash hh;
  int combos = 1; for (int i = 0; i < nd; ++i) combos *= 5;
  for (int c = 0; c < combos; ++c) { long k = 0; Ints want; int r = c; for (int i = 0; i < nd; ++i, r /= 5) { long p = r % 5 == 0 ? 0 : r % 5 == 1 ? std::min(1, dim[i] - 1) : r % 5 == 2 ? dim[i] / 2 : r % 5 == 3 ? std::max(0, dim[i] - 2) : dim[i] - 1; want.push_back((int)(b[i] + p)); k = k * dim[i] + p; }
    Ints got(nd, 12345); SgBoxIterator_getElement(&h, (int)k, got.data()); int back = -7; SgBoxIterator_getIndex(&h, want.data(), &back); mc::step(2); if (got != want) mc::fail("element", "box %s to %s: element %ld is %s, expected %s", str(b).c_str(), str(e).c_str(), k, str(got).c_str(), str(want).c_str()); if (back != k) mc::fail("index", "box %s to %s: index of %s is %d, expected %ld", str(b).c_str(), str(e).c_str(), str(want).c_str(), back, k); hh.u((unsigned)k); }
  mc::state(hh.h); mc::nontrivial(mc::Hash().s(str(b)).s(str(e)).h); mc::outcome("wide"); mc::describe("box %s to %s: %ld elements", str(b).c_str(), str(e).c_str(), num);
}
static Ints sideAt(size_t nd, size_t k) { Ints r(nd); for (size_t i = nd; i-- > 0;) { r[i] = (int)(k % 3) - 1; k /= 3; } return r; }
// histories of next/reset/get against a counter
SCENARIO(sides) {
  size_t nd = (size_t)mc::range(1, mc::tier > 0 ? 7 : 6); SgSideIterator_type it(nd); mc::step(); size_t N = 1; for (size_t i = 0; i < nd; ++i) N *= 3; if (it.getNumberOfElements() != N) mc::fail("number", "%zu dimensions: %zu sides, expected %zu", nd, it.getNumberOfElements(), N);
  // a run of r steps, then reset or not, then a complete enumeration
  int rounds = mc::choose(3), cut = 0; for (int q = 0; q < rounds; ++q) { cut = mc::choose((int)std::min<size_t>(N + 2, 30)); for (int k = 0; k < cut; ++k) { it.next(); if (k % 3 == 0 && k + 1 < (int)N) it.get(); mc::step(2); } it.reset(); mc::step(); } mc::split();
  std::set<Ints> seen; mc::Hash h; for (size_t k = 0;; ++k) { Ints g = it.get(), again = it.get(); mc::step(2); if (g != again) mc::fail("get", "asking twice gives %s and %s", str(g).c_str(), str(again).c_str()); if (g.size() != nd) mc::fail("size", "%zu entries in %zu dimensions", g.size(), nd); for (int v : g) if (v < -1 || v > 1) mc::fail("range", "side %s", str(g).c_str());
    if (!seen.insert(g).second) mc::fail("twice", "side %s is visited twice", str(g).c_str()); if (g != sideAt(nd, k)) mc::fail("order", "side %zu is %s, expected %s (last index fastest)", k, str(g).c_str(), str(sideAt(nd, k)).c_str()); for (int v : g) h.u(v + 1); int end = it.next(); mc::step(); if ((end != 0) != (k + 1 >= N)) mc::fail("end", "next returns %d after %zu of %zu sides", end, k + 1, N); if (end) break; }
  if (seen.size() != N) mc::fail("missing", "%zu of %zu sides visited", seen.size(), N); for (int k = 0; k < 3; ++k) if (!it.next()) mc::fail("stop", "next goes on after the last side"); mc::state(h.h); mc::nontrivial(mc::Hash().u(nd).u(rounds).u(cut).h); mc::outcome(rounds ? "after reset" : "new"); mc::describe("%zu dimensions: %zu sides, %d resets", nd, N, rounds);
}
SCENARIO(sideHistories) {
  size_t nd = (size_t)mc::range(1, 3), N = 1; for (size_t i = 0; i < nd; ++i) N *= 3; SgSideIterator_type a(nd), b(nd); size_t pa = 0, pb = 0; std::string t; int n = mc::tier < 0 ? 5 : mc::tier > 0 ? 9 : 7;
  for (int k = 0; k < n; ++k) { int op = mc::choose(6); if (k == 1) mc::split(); SgSideIterator_type& it = op < 3 ? a : b; size_t& p = op < 3 ? pa : pb; mc::step(); switch (op % 3) { case 0: { int e = it.next(); ++p; t += op < 3 ? "n" : "N"; if ((e != 0) != (p >= N)) mc::fail("end", "%s: next returns %d at position %zu of %zu", t.c_str(), e, p, N); break; } case 1: it.reset(); p = 0; t += op < 3 ? "r" : "R"; break; default: t += op < 3 ? "g" : "G"; if (p < N && it.get() != sideAt(nd, p)) mc::fail("history", "%s: side is %s, expected %s", t.c_str(), str(it.get()).c_str(), str(sideAt(nd, p)).c_str()); } }
  mc::state(mc::Hash().u(nd).u(pa).u(pb).h); mc::nontrivial(mc::Hash().u(nd).s(t).h); mc::describe("%s", t.c_str());
}
