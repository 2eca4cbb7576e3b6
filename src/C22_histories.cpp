// C22: all sequences of calls on an object, with deletion at every point: what was allocated on
// its behalf is released. The same histories run under the address sanitizer, under memcheck and
// with different initial memory contents.
#include "actors.h"
#include <fcntl.h>
#include <unistd.h>
static void quiet() { static bool done = false; if (done || mc::verbose) return; done = true; int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); if (!getenv("MC_KEEP_STDERR")) dup2(n, 2); close(n); }
static const int FIRST = 10; // actors with more than three operations come first
SCENARIO(histories) {
  quiet(); act::printDebug = true; int k = mc::choose(NACTORS), v = mc::choose(8); if (v >= 2 && !(k == 9 || (k == 11 && v == 2))) mc::prune(); mc::split(); int n = mc::tier < 0 ? 4 : mc::tier > 0 ? (k < FIRST ? 7 : 8) : (k < FIRST ? 5 : 6); std::vector<int> ops; uint64_t digest[2]; const char* name = "";
  // the same sequence twice: memory kept for good by the first use of something is no leak
  long before = 0, after = 0, bytes = 0; std::string t; t.reserve(200); ops.reserve(64);
  for (int round = 0; round < 2; ++round) {
    before = mc::liveBlocks(); long b0 = mc::liveBytes();
    { std::unique_ptr<Actor> a = makeActor(k, v); name = a->name(); a->create(); size_t at = 0; bool gone = false;
      for (int i = 0; i < n; ++i) { int op; if (round) { if (at == ops.size()) break; op = ops[at++]; } else { op = mc::choose(a->nops() + 2); if (op < a->nops() && (gone || !a->can(op))) mc::prune(); if (gone && op == a->nops()) mc::prune(); ops.push_back(op); }
        if (op == a->nops() + 1) { if (!gone) break; a->create(); gone = false; if (!round) t += "new "; } else if (op == a->nops()) { a->remove(); gone = true; if (!round) t += "del "; } else { a->run(op); if (!round) { t += (char)('0' + op); t += ' '; } } }
      if (!gone) a->remove(); digest[round] = a->h.h; }
    after = mc::liveBlocks(); bytes = mc::liveBytes() - b0; }
  mc::describe("%s (data %d): %s blocks %ld -> %ld", name, v, t.c_str(), before, after);
  if (after != before || bytes) mc::fail("leak", "%s (data %d): calls %sand deletion leave %ld blocks, %ld bytes", name, v, t.c_str(), after - before, bytes);
  if (digest[0] != digest[1]) mc::fail("memory", "%s (data %d): calls %sgive different results the second time", name, v, t.c_str());
  mc::state(digest[0]); mc::nontrivial(mc::Hash().u(k).u(v).s(t).h); mc::outcome(name);
}
// several objects alive at the same time, deleted in every order
SCENARIO(orders) {
  quiet(); int a = mc::choose(NACTORS), b = mc::choose(NACTORS); int c = mc::tier < 0 ? 0 : mc::choose(mc::tier > 0 ? NACTORS : 3); mc::split(); int p = mc::choose(6); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; long before = 0, after = 0; mc::Hash h;
  for (int round = 0; round < 2; ++round) { before = mc::liveBlocks(); { std::unique_ptr<Actor> x[3] = {makeActor(a, 0), makeActor(b, 1), makeActor(c, 1)}; for (auto& o : x) o->create(); for (int q : P[p]) { for (int op : x[q]->program()) if (x[q]->can(op)) x[q]->run(op); } for (int q : P[5 - p]) { x[q]->remove(); if (round) h.u(x[q]->h.h); } } after = mc::liveBlocks(); }
  if (after != before) mc::fail("leak", "objects %d %d %d, order %d: %ld blocks are left", a, b, c, p, after - before); mc::state(h.h); mc::nontrivial(mc::Hash().u(a).u(b).u(c).u(p).h); mc::describe("objects %d %d %d order %d", a, b, c, p);
}
