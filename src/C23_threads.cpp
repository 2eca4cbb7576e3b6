// C23: two objects in two threads, under the race detector. The threads are driven through
// every schedule of their calls with a bounded number of switches; the hand-over uses relaxed
// atomics only, which order nothing, so that every conflicting access outside of the objects is a race
// whatever the schedule.
#include "actors.h"
#include <atomic>
#include <fcntl.h>
#include <thread>
#include <unistd.h>
static void quiet() { static bool done = false; if (done || mc::verbose) return; done = true; int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); close(n); }
static std::atomic<int> g_turn; static std::string g_sched;
struct Run { std::unique_ptr<Actor> a; std::vector<int> p; size_t pc = 0; Run(int k, int v) : a(makeActor(k, v)), p(a->program()) {} size_t size() const { return p.size() + 2; } bool finished() const { return pc == size(); } void next() { if (pc == 0) a->create(); else if (pc == p.size() + 1) a->remove(); else if (a->can(p[pc - 1])) a->run(p[pc - 1]); ++pc; } };
static uint64_t alone(int k, int v) { Run r(k, v); while (!r.finished()) r.next(); return r.a->h.h; }
static void threads(int k, int a, int l, int b, int maxSwitch) {
  quiet(); uint64_t want[2]; { // statics of the library and of the harness which are made on first use are made here
    static std::map<int, uint64_t> m; int key[2] = {k * 2 + a, l * 2 + b}; for (int q = 0; q < 2; ++q) { if (!m.count(key[q])) m[key[q]] = q ? alone(l, b) : alone(k, a); want[q] = m[key[q]]; } }
  Run r[2] = {Run(k, a), Run(l, b)}; size_t left[2] = {r[0].size(), r[1].size()}; std::string t; int last = -1, sw = 0;
  while (left[0] + left[1]) { int i; if (!left[0] || !left[1]) i = left[0] ? 0 : 1; else if (last >= 0 && sw >= maxSwitch) i = last; else { int c = mc::choose(2); i = last < 0 ? c : c ? 1 - last : last; if (last >= 0 && i != last) ++sw; } last = i; left[i]--; t += (char)('A' + i); }
  g_sched = t; g_turn.store(0, std::memory_order_relaxed);
  auto body = [&](int me) { for (size_t i = 0; i < t.size(); ++i) if (t[i] == 'A' + me) { while (g_turn.load(std::memory_order_relaxed) != (int)i) sched_yield(); r[me].next(); g_turn.store((int)i + 1, std::memory_order_relaxed); } };
  std::thread x(body, 0), y(body, 1); x.join(); y.join();
  for (int q = 0; q < 2; ++q) { if (r[q].a->h.h != want[q]) mc::fail("interference", "%s (%c in the schedule %s) has other results in a thread than alone", r[q].a->name(), 'A' + q, t.c_str()); mc::state(want[q]); }
  mc::nontrivial(mc::Hash().u(k).u(l).u(a).u(b).s(t).h); mc::outcome(k == l ? "same class" : "different classes"); mc::describe("%s and %s: schedule %s", r[0].a->name(), r[1].a->name(), t.c_str());
}
SCENARIO(threadPairs) { int k = mc::choose(NACTORS), l = mc::choose(NACTORS); if (l < k) mc::prune(); int a = mc::tier > 0 ? mc::choose(2) : 0, b = mc::tier > 0 ? mc::choose(2) : 1; mc::split(); threads(k, a, l, b, mc::tier > 0 ? 3 : 1); }
