// mc.h - explicit exhaustive exploration of choice sequences against the real code.
//
// A scenario body is a deterministic function which asks mc::choose(n) for every
// nondeterministic decision (an operation, an argument, an environment answer).
// The explorer runs the body once for every sequence of answers (depth-first, default
// answer 0 first), so the set of executions is exactly the set of leaves of the choice
// tree - nothing is sampled.  Outer choices may be followed by one mc::split(), which
// is where the tree is dealt out to worker processes.
//
// Every worker runs in its own process and publishes the choice sequence of the execution
// it is in, so that a crash, an abort, a sanitizer report or a hang of the code
// under test is attributed to one replayable choice sequence.
#ifndef MC_H
#define MC_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Pruned {};
struct Skipped {};
struct Failure { std::string key, msg; };

extern int tier;      // -1 mini (used by the sanitizer/leak passes), 0 quick, 1 thorough
extern bool verbose;  // describe() has an effect: replay or sample

int choose(int n);                       // 0..n-1, exhaustively
inline bool flip() { return choose(2) != 0; }
template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); } // inclusive
void split();                            // deal the subtree below to one worker
[[noreturn]] void prune();               // execution outside the space (does not count)
void step(long n = 1);                   // n calls of the real code: transitions
void state(uint64_t h);                  // an observed state
void nontrivial(uint64_t h);             // an execution which is not trivial, by its identity
void outcome(const std::string& cls);    // class of observed outcome (vacuity report)
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// a failure which does not end the execution (used to go on after a known finding)
void report(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// hashing of observations
struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  Hash& u(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return *this; }
  Hash& d(double v) { if (v == 0) v = 0; uint64_t b; memcpy(&b, &v, 8); return u(b); }
  // rounded to 1e-9: two runs of the same behaviour count as one state
  Hash& r(double v) { return u((uint64_t)(int64_t)std::llround(std::max(-1e9, std::min(1e9, v)) * 1e9)); }
  Hash& s(const std::string& v) { for (char c : v) u((unsigned char)c); return u(v.size()); }
};

// observation digest of an execution (differential passes compare digests)
void observe(uint64_t h);

struct Scenario { const char* name; void (*fn)(); double weight; };
std::vector<Scenario>& registry();
struct Register { Register(const char* n, void (*f)(), double w = 1) { registry().push_back({n, f, w}); } };
#define SCENARIO(NAME) static void NAME(); static mc::Register reg_##NAME(#NAME, NAME); static void NAME()

// heap accounting (mc.cpp overrides operator new/delete)
long liveBlocks();
long liveBytes();
int main(int argc, char** argv);

} // namespace mc
#endif
