// C23: every interleaving of the calls on two objects gives each the results it has alone.
#include "actors.h"
#include <fcntl.h>
#include <unistd.h>
static void quiet() { static bool done = false; if (done || mc::verbose) return; done = true; int n = open("/dev/null", O_WRONLY); fflush(stdout); dup2(n, 1); if (!getenv("MC_KEEP_STDERR")) dup2(n, 2); close(n); }
// steps of a program: create, the operations (those that are allowed), delete
struct Run { std::unique_ptr<Actor> a; std::vector<int> p; size_t pc = 0; int done = 0; Run(int k, int v) : a(makeActor(k, v)), p(a->program()) {} bool finished() const { return pc == p.size() + 2; } void next() { if (pc == 0) a->create(); else if (pc == p.size() + 1) a->remove(); else if (a->can(p[pc - 1])) { a->run(p[pc - 1]); ++done; } ++pc; } };
static uint64_t alone(int k, int v) { static std::map<int, uint64_t> m; int key = k * 10 + v; auto i = m.find(key); if (i != m.end()) return i->second; Run r(k, v); while (!r.finished()) r.next(); if (r.done < 1) mc::fail("vacuous", "%s does nothing", r.a->name()); return m[key] = r.a->h.h; }
static void interleave(const std::vector<std::pair<int, int>>& who, int maxSwitch) {
  quiet(); std::vector<uint64_t> want; for (auto& w : who) want.push_back(alone(w.first, w.second)); std::vector<Run> r; for (auto& w : who) r.emplace_back(w.first, w.second); std::string t; int last = -1, sw = 0; mc::Hash s;
  for (;;) { std::vector<int> c; if (last >= 0 && !r[last].finished()) c.push_back(last); for (int i = 0; i < (int)r.size(); ++i) if (i != last && !r[i].finished()) c.push_back(i); if (c.empty()) break; bool mayStay = last >= 0 && !r[last].finished(); int i = mayStay && sw >= maxSwitch ? last : c[mc::choose((int)c.size())]; if (mayStay && i != last) ++sw; last = i; r[i].next(); t += (char)('A' + i); s.u(i); }
  for (size_t i = 0; i < r.size(); ++i) { if (r[i].a->h.h != want[i]) mc::fail("interference", "%s (data %d, %c in the schedule %s) has other results than alone", r[i].a->name(), who[i].second, (char)('A' + i), t.c_str()); mc::state(mc::Hash().u(r[i].a->h.h).h); }
  std::string n; for (size_t i = 0; i < r.size(); ++i) n += std::string(i ? " and " : "") + r[i].a->name(); mc::nontrivial(mc::Hash().s(n).s(t).h); mc::outcome(who.size() == 2 && who[0].first == who[1].first ? "same class" : "different classes"); mc::describe("%s: schedule %s", n.c_str(), t.c_str());
}
// the same class: every schedule
SCENARIO(sameClass) { int k = mc::choose(NACTORS), a = mc::choose(2), b = mc::choose(2); mc::split(); interleave({{k, a}, {k, b}}, mc::tier < 0 ? 2 : mc::tier > 0 ? 99 : 4); }
// every pair of classes, schedules with a bounded number of switches (thorough: all)
SCENARIO(pairs) { int k = mc::choose(NACTORS), l = mc::choose(NACTORS); if (l <= k) mc::prune(); int a = mc::tier > 0 ? mc::choose(2) : 0, b = mc::tier > 0 ? mc::choose(2) : 1; mc::split(); interleave({{k, a}, {l, b}}, mc::tier < 0 ? 1 : mc::tier > 0 ? 6 : 3); }
// three objects of the classes which use other classes inside
SCENARIO(triples) { int n = mc::tier > 0 ? 9 : 4; int k = mc::choose(n), l = mc::choose(n), m = mc::choose(n); if (l < k || m < l) mc::prune(); mc::split(); interleave({{k, 0}, {l, 1}, {m, 0}}, mc::tier < 0 ? 0 : mc::tier > 0 ? 3 : 2); }
