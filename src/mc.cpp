#include "mc.h"
#include <atomic>
#include <cerrno>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#ifdef MC_VALGRIND
#include <valgrind/memcheck.h>
#endif

// ---------------------------------------------------------------- heap accounting
static std::atomic<long> g_live{0}, g_liveBytes{0};
static int g_fill = -1;   // byte used to fill fresh memory, -1: leave as is
#ifndef MC_NO_NEW
// every allocation of the process, C or C++
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void* counted(void* p, size_t n, bool fill) { if (p) { g_live.fetch_add(1, std::memory_order_relaxed); g_liveBytes.fetch_add((long)malloc_usable_size(p), std::memory_order_relaxed); if (fill && g_fill >= 0) memset(p, g_fill, n); } return p; }
static void uncounted(void* p) { if (p) { g_live.fetch_sub(1, std::memory_order_relaxed); g_liveBytes.fetch_sub((long)malloc_usable_size(p), std::memory_order_relaxed); } }
void* malloc(size_t n) { return counted(__libc_malloc(n), n, true); }
void free(void* p) { uncounted(p); __libc_free(p); }
void* calloc(size_t n, size_t m) { return counted(__libc_calloc(n, m), n * m, false); }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); uncounted(p); void* q = __libc_realloc(p, n); if (q) return counted(q, n, false); if (n) counted(p, 0, false); return nullptr; }
void* memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n), n, true); }
void* aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n), n, true); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = counted(__libc_memalign(a, n), n, true); if (!q) return ENOMEM; *p = q; return 0; }
}
#endif

namespace mc {
int tier = 0;
bool verbose = false;
long liveBlocks() { return g_live; }
long liveBytes() { return g_liveBytes; }

std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }

static const int MAXD = 4096;
struct Slot {                       // one per worker, shared with the parent
  volatile uint64_t execs;          // completed + pruned + skipped executions (progress)
  volatile int len;
  volatile int choices[MAXD];
  volatile int done;
};
struct Shared {
  std::atomic<long> tickets[1 << 16]; // claimed split points, per scenario use
  std::atomic<int> nviol;
};
static Slot* slots = nullptr;
static unsigned char* claimed = nullptr;     // one byte per split point (hash order)
static const size_t CLAIMS = 1u << 26;

static std::vector<int> cur, arity;  // current execution
static size_t pos = 0;
static size_t fixedLen = 0;          // replay: everything fixed
static bool replaying = false, didSplit = false;
static long splitIndex = 0;
static Slot* slot = nullptr;

struct Stats {
  uint64_t execs = 0, pruned = 0, known = 0, splits = 0;
  std::atomic<uint64_t> steps{0};
  uint64_t digest = 0;
  std::unordered_set<uint64_t> states, nontriv;
  std::map<std::string, uint64_t> outcomes;
  std::map<std::string, uint64_t> knownHits;
};
static Stats* st = nullptr;
static std::string desc;
static uint64_t execDigest = 0;
static std::vector<Failure> pending;

static uint64_t sampleSeed = 0;      // sampling of printed examples only
int choose(int n) {
  if (n <= 0) prune();
  if (sampleSeed) {
    uint64_t h = sampleSeed * 0x9e3779b97f4a7c15ull + pos * 0xbf58476d1ce4e5b9ull; h ^= h >> 29; h *= 0x94d049bb133111ebull; h ^= h >> 32;
    int v = (int)(h % (uint64_t)n); cur.push_back(v); pos++; return v;
  }
  if (pos < cur.size()) {
    if (replaying) { if (cur[pos] >= n) { fprintf(stderr, "mc: replay diverged at %zu\n", pos); _exit(3); } }
    else if (pos < arity.size() && arity[pos] != n) {
      fprintf(stderr, "mc: nondeterministic harness at choice %zu (%d != %d)\n", pos, arity[pos], n); _exit(3);
    }
    if (replaying) arity.push_back(n);
    if (slot && pos < MAXD) { slot->choices[pos] = cur[pos]; slot->len = (int)pos + 1; }
    return cur[pos++];
  }
  if (replaying) { fprintf(stderr, "mc: replay sequence too short\n"); _exit(3); }
  cur.push_back(0); arity.push_back(n);
  if (slot && pos < MAXD) { slot->choices[pos] = 0; slot->len = (int)pos + 1; }
  pos++;
  return 0;
}
static size_t splitPos = 0;
void split() {
  if (sampleSeed) return;
  if (didSplit) { fprintf(stderr, "mc: two splits in one execution\n"); _exit(3); }
  didSplit = true;
  splitPos = pos;
  if (replaying || !claimed) return;
  static std::vector<int> mine; static bool have = false;
  // still inside the subtree claimed by this worker?
  std::vector<int> pre(cur.begin(), cur.begin() + pos);
  if (have && pre == mine) return;
  long idx = splitIndex++;
  if (idx >= (long)CLAIMS) { fprintf(stderr, "mc: too many split points\n"); _exit(3); }
  if (__sync_bool_compare_and_swap(&claimed[idx], 0, 1)) { mine = pre; have = true; st->splits++; return; }
  throw Skipped();
}
void prune() { throw Pruned(); }
void step(long n) { if (st) st->steps.fetch_add((uint64_t)n, std::memory_order_relaxed); }
void state(uint64_t h) { if (st && st->states.size() < 4000000) st->states.insert(h); execDigest = (execDigest ^ h) * 0x9e3779b97f4a7c15ull; }
void observe(uint64_t h) { execDigest = (execDigest ^ h) * 0x9e3779b97f4a7c15ull; }
void nontrivial(uint64_t h) { if (st && st->nontriv.size() < 4000000) st->nontriv.insert(h); }
void outcome(const std::string& c) { if (st) st->outcomes[c]++; if (verbose) describe("outcome: %s", c.c_str()); }
static std::string vfmt(const char* fmt, va_list ap) {
  char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap); return buf;
}
void describe(const char* fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt); desc += vfmt(fmt, ap) + "\n"; va_end(ap);
}
void fail(const char* key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  throw Failure{key, m};
}
void report(const char* key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); std::string m = vfmt(fmt, ap); va_end(ap);
  pending.push_back(Failure{key, m});
}

static std::string seq(const std::vector<int>& v) {
  std::string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s;
}
static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// known findings: a set of keys (scenario:key)
static std::set<std::string> knownKeys;

// one execution; returns the failures (empty: fine)
enum Res { OK, PRUNE, SKIP, BAD };
static Res runOnce(const Scenario& sc, std::vector<Failure>& fs) {
  pos = 0; didSplit = false; desc.clear(); execDigest = 0x1234567; pending.clear();
  Res r = OK;
  try { sc.fn(); }
  catch (Pruned&) { r = PRUNE; }
  catch (Skipped&) { r = SKIP; }
  catch (Failure& f) { pending.push_back(f); }
  catch (std::exception& e) { pending.push_back(Failure{"exception", std::string("unexpected exception: ") + e.what()}); }
  catch (std::string& e) { pending.push_back(Failure{"exception", std::string("unexpected exception: ") + e}); }
#ifdef MC_VALGRIND
  static unsigned long seen = 0; unsigned long errs = VALGRIND_COUNT_ERRORS;
  if (errs != seen) { pending.push_back(Failure{"memory", "invalid access or decision on an uninitialised value (memcheck)"}); r = OK; seen = errs; }
#endif
  fs = pending;
  if (r == OK && !fs.empty()) r = BAD;
  if (r == OK && replaying && pos != cur.size()) { fprintf(stderr, "mc: replay sequence too long\n"); _exit(3); }
  return r;
}
static bool advance() { // next sequence in DFS order
  cur.resize(pos); arity.resize(pos);
  while (!cur.empty()) {
    if (cur.back() + 1 < arity.back()) { cur.back()++; return true; }
    cur.pop_back(); arity.pop_back();
  }
  return false;
}

static std::string violPath;
static void writeViolation(const Scenario& sc, const std::vector<int>& s, const Failure& f) {
  std::string line = std::string("{\"scenario\":\"") + sc.name + "\",\"key\":\"" + jesc(f.key) + "\",\"msg\":\"" + jesc(f.msg) + "\",\"choices\":\"" + seq(s) + "\"}\n";
  int fd = open(violPath.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { if (write(fd, line.data(), line.size()) < 0) {} close(fd); }
}

static void worker(const Scenario& sc, int w, const std::string& out, double deadline) {
  slot = &slots[w];
  Stats s; st = &s;
  cur.clear(); arity.clear(); splitIndex = 0; cur.reserve(MAXD); arity.reserve(MAXD);
  int nviol = 0; bool capped = false;
  bool more = true;
  while (more) {
    std::vector<Failure> fs;
    Res r = runOnce(sc, fs);
    slot->execs = slot->execs + 1;
    if (r == OK || r == BAD) { s.execs++; s.digest += execDigest; }
    if (r == PRUNE) s.pruned++;
    if (r == BAD) {
      for (auto& f : fs) {
        std::string k = std::string(sc.name) + ":" + f.key;
        if (knownKeys.count(k)) { s.known++; s.knownHits[k]++; }
        else { writeViolation(sc, std::vector<int>(cur.begin(), cur.begin() + pos), f); nviol++; }
      }
      if (nviol >= 5) { capped = true; break; }
    }
    if (deadline > 0 && now() > deadline) { capped = true; break; }
    more = advance();
  }
  FILE* f = fopen(out.c_str(), "w");
  fprintf(f, "execs %llu\nsteps %llu\npruned %llu\nsplits %llu\ndigest %llu\ncapped %d\n", (unsigned long long)s.execs, (unsigned long long)s.steps.load(),
          (unsigned long long)s.pruned, (unsigned long long)s.splits, (unsigned long long)s.digest, (int)capped);
  for (auto& o : s.outcomes) fprintf(f, "outcome %llu %s\n", (unsigned long long)o.second, o.first.c_str());
  for (auto& o : s.knownHits) fprintf(f, "known %llu %s\n", (unsigned long long)o.second, o.first.c_str());
  fclose(f);
  auto dump = [&](const char* suf, const std::unordered_set<uint64_t>& x) {
    std::vector<uint64_t> v(x.begin(), x.end());
    FILE* g = fopen((out + suf).c_str(), "wb"); if (!v.empty()) fwrite(v.data(), 8, v.size(), g); fclose(g);
  };
  dump(".states", s.states); dump(".nontriv", s.nontriv);
  slot->done = 1;
  fflush(stdout); fflush(stderr);
  _exit(0);
}

// Replay one sequence in a child: 0 fine, 1 violation (msg), 2 crash, 4 hang
static int replayChild(const Scenario& sc, const std::vector<int>& s, double limit, std::string& text) {
  int p[2]; if (pipe(p)) return 3;
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    Stats x; st = &x; slot = nullptr; claimed = nullptr;
    cur = s; arity.clear(); arity.reserve(MAXD); cur.reserve(MAXD); replaying = true; verbose = true;
    std::vector<Failure> fs; Res r = runOnce(sc, fs);
    std::string o = desc; int rc = 0;
    if (r == PRUNE) { o += "pruned\n"; }
    for (auto& f : fs) if (!knownKeys.count(std::string(sc.name) + ":" + f.key)) { o += "VIOLATED [" + f.key + "] " + f.msg + "\n"; rc = 1; }
                       else o += "known finding [" + f.key + "] " + f.msg + "\n";
    const char* q = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(p[1], q, n); if (k <= 0) break; q += k; n -= k; }
    fflush(stdout); fflush(stderr);
    _exit(rc);
  }
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  double t0 = now(); int status = 0; char buf[4096];
  for (;;) {
    ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) text.append(buf, k);
    pid_t q = waitpid(pid, &status, WNOHANG);
    if (q == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &status, 0); close(p[0]); text += "VIOLATED [hang] no result within the time limit\n"; return 4; }
    usleep(2000);
  }
  ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) text.append(buf, k);
  close(p[0]);
  if (WIFSIGNALED(status)) { text += std::string("VIOLATED [crash] killed by signal ") + std::to_string(WTERMSIG(status)) + "\n"; return 2; }
  int e = WEXITSTATUS(status);
  if (e == 0 || e == 1) return e;
  if (e == 3) return 3;
  text += std::string("VIOLATED [crash] exit status ") + std::to_string(e) + " (sanitizer report or abnormal exit)\n"; return 2;
}

int main(int argc, char** argv) {
  std::string mode = "run", outDir = ".", replaySeq, scen, knownFile; int nw = 8; double hang = 15, budget = 0; long mem = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--list") { for (auto& s : registry()) printf("%s\n", s.name); return 0; }
    else if (a == "--tier") tier = atoi(nx().c_str());
    else if (a == "--out") outDir = nx();
    else if (a == "--workers") nw = atoi(nx().c_str());
    else if (a == "--scenario") scen = nx();
    else if (a == "--replay") { mode = "replay"; replaySeq = nx(); }
    else if (a == "--known") knownFile = nx();
    else if (a == "--hang") hang = atof(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--fill") g_fill = atoi(nx().c_str());
    else if (a == "--mem") mem = atol(nx().c_str());
  }
  if (!knownFile.empty()) { // lines "scenario:key"
    FILE* f = fopen(knownFile.c_str(), "r"); char line[1024];
    if (f) { while (fgets(line, sizeof line, f)) { std::string s = line; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); if (!s.empty()) knownKeys.insert(s); } fclose(f); }
  }
  if (mode == "replay") {
    for (auto& s : registry()) if (scen == s.name) {
      std::vector<int> v; const char* q = replaySeq.c_str();
      while (*q) { v.push_back(strtol(q, (char**)&q, 10)); if (*q == ',') ++q; }
      std::string text; int rc = replayChild(s, v, hang * 2, text);
      printf("%s", text.c_str()); return rc == 0 ? 0 : (rc == 3 ? 3 : 1);
    }
    fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3;
  }
  slots = (Slot*)mmap(nullptr, sizeof(Slot) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  violPath = outDir + "/violations.jsonl"; unlink(violPath.c_str());
  FILE* js = fopen((outDir + "/result.json").c_str(), "w");
  fprintf(js, "{\"scenarios\":[");
  bool first = true; int rcAll = 0; bool hung = false;
  for (auto& sc : registry()) {
    if (!scen.empty() && scen != sc.name) continue;
    if (hung) break; // the rest would wait for the time limit as well
    memset((void*)slots, 0, sizeof(Slot) * nw);
    claimed = (unsigned char*)mmap(nullptr, CLAIMS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now();
    fflush(nullptr);
    std::vector<pid_t> pids(nw); std::vector<uint64_t> last(nw, 0); std::vector<double> lastT(nw, now());
    double deadline = budget > 0 ? now() + budget : 0;
    // a scenario without split() is explored by one worker: only split() deals work out
    { // probe: does the scenario split?
      int p[2]; if (pipe(p)) return 3;
      pid_t pid = fork();
      if (pid == 0) { Stats x; st = &x; slot = nullptr; claimed = nullptr; cur.clear(); arity.clear(); pos = 0; didSplit = false; alarm(60);
        freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout);
        char yes = 'n';
        std::vector<Failure> fs;
        // look at the first executions until one completes or splits
        for (int k = 0; k < 1000; ++k) { Res r = runOnce(sc, fs); if (didSplit) { yes = 'y'; break; } if (r != PRUNE || !advance()) break; }
        if (write(p[1], &yes, 1) < 0) {} _exit(0); }
      close(p[1]); char yes = 'y'; if (read(p[0], &yes, 1) != 1) yes = 'y'; close(p[0]); int stt; waitpid(pid, &stt, 0);
      if (yes == 'n') { for (int w = 1; w < nw; ++w) pids[w] = 0; pids[0] = -1; }
      else for (int w = 0; w < nw; ++w) pids[w] = -1;
    }
    for (int w = 0; w < nw; ++w) if (pids[w] == -1) {
      pid_t pid = fork();
      if (pid == 0) {
        if (mem > 0) { struct rlimit r = {(rlim_t)mem << 20, (rlim_t)mem << 20}; setrlimit(RLIMIT_AS, &r); }
        std::string e = outDir + "/" + sc.name + "." + std::to_string(w);
        freopen((e + ".err").c_str(), "w", stderr); freopen("/dev/null", "w", stdout);
        worker(sc, w, e, deadline);
      }
      pids[w] = pid;
    }
    int running = 0; for (int w = 0; w < nw; ++w) running += pids[w] > 0;
    int internal = 0;
    struct Bad { std::vector<int> s; std::string kind; };
    std::vector<Bad> bads;
    while (running) {
      usleep(5000);
      for (int w = 0; w < nw; ++w) if (pids[w] > 0) {
        int status; pid_t q = waitpid(pids[w], &status, WNOHANG);
        auto grab = [&](const char* kind) { Bad b; b.kind = kind; for (int i = 0; i < slots[w].len && i < MAXD; ++i) b.s.push_back((int)slots[w].choices[i]); bads.push_back(b); };
        if (q == pids[w]) {
          pids[w] = 0; running--;
          if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0 && slots[w].done)) {
            if (WIFEXITED(status) && WEXITSTATUS(status) == 3) internal = 3; else grab("crash");
          }
          continue;
        }
        if (slots[w].execs != last[w]) { last[w] = slots[w].execs; lastT[w] = now(); }
        else if (now() - lastT[w] > hang) { kill(pids[w], SIGKILL); waitpid(pids[w], &status, 0); pids[w] = 0; running--; grab("hang"); }
      }
    }
    int confirmed = 0;
    for (auto& b : bads) { // confirm alone
      if (confirmed >= 2 || (confirmed && b.kind == "hang")) break;
      std::string text; int rc = replayChild(sc, b.s, hang * 2, text);
      if (rc == 1 || rc == 2 || rc == 4) { confirmed++; hung |= rc == 4; size_t at = text.find("VIOLATED"); writeViolation(sc, b.s, Failure{rc == 4 ? "hang" : "crash", text.substr(at == std::string::npos ? 0 : at)}); }
      else { // needs what came before: reported, and counts only when it comes back in a run by one worker
        confirmed++; hung |= b.kind == "hang"; writeViolation(sc, b.s, Failure{b.kind, "the process died or stopped in this execution, which does not happen when it is run alone"}); }
    }
    // merge
    uint64_t execs = 0, steps = 0, pruned = 0, splits = 0, digest = 0; int capped = 0; std::map<std::string, uint64_t> outc, knownH;
    std::vector<uint64_t> states, nontriv;
    for (int w = 0; w < nw; ++w) {
      std::string e = outDir + "/" + sc.name + "." + std::to_string(w);
      FILE* f = fopen(e.c_str(), "r"); if (!f) continue; char line[2048];
      while (fgets(line, sizeof line, f)) { unsigned long long v; int n = 0;
        if (sscanf(line, "execs %llu", &v) == 1) execs += v; else if (sscanf(line, "steps %llu", &v) == 1) steps += v;
        else if (sscanf(line, "pruned %llu", &v) == 1) pruned += v; else if (sscanf(line, "splits %llu", &v) == 1) splits += v;
        else if (sscanf(line, "digest %llu", &v) == 1) digest += v; else if (sscanf(line, "capped %llu", &v) == 1) capped |= (int)v;
        else if (sscanf(line, "outcome %llu %n", &v, &n) == 1) { std::string s = line + n; if (!s.empty()) s.pop_back(); outc[s] += v; }
        else if (sscanf(line, "known %llu %n", &v, &n) == 1) { std::string s = line + n; if (!s.empty()) s.pop_back(); knownH[s] += v; } }
      fclose(f); unlink(e.c_str());
      auto rd = [&](const char* suf, std::vector<uint64_t>& v) { FILE* g = fopen((e + suf).c_str(), "rb"); if (!g) return; fseek(g, 0, SEEK_END); long n = ftell(g) / 8; rewind(g); size_t o = v.size(); v.resize(o + n); if (n && fread(&v[o], 8, n, g) != (size_t)n) v.resize(o); fclose(g); unlink((e + suf).c_str()); };
      rd(".states", states); rd(".nontriv", nontriv);
      struct stat sb; if (stat((e + ".err").c_str(), &sb) == 0 && internal != 3) unlink((e + ".err").c_str());
    }
    auto uniq = [](std::vector<uint64_t>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size(); };
    // samples: the first and two further executions, written out by replay
    std::string samples;
    {
      int p[2]; if (pipe(p)) return 3; pid_t pid = fork();
      if (pid == 0) {
        freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout); alarm(20);
        Stats x; st = &x; slot = nullptr; claimed = nullptr; verbose = true; cur.clear(); arity.clear();
        std::string o; int got = 0;
        for (uint64_t k = 1; got < 3 && k < 200; ++k) {
          sampleSeed = k; cur.clear(); arity.clear(); std::vector<Failure> fs; Res r = runOnce(sc, fs);
          if (r == OK && !desc.empty()) { std::string d = desc; if (d.size() > 900) d = d.substr(0, 900) + "..."; o += "choices " + seq(cur) + "\n" + d + "\x1f"; got++; }
        }
        if (write(p[1], o.data(), o.size()) < 0) {} _exit(0);
      }
      close(p[1]); char buf[4096]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) samples.append(buf, k); close(p[0]); int stt; waitpid(pid, &stt, 0);
    }
    fprintf(js, "%s{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"subtrees\":%llu,\"digest\":\"%llx\",\"complete\":%s,\"states\":%zu,\"nontrivial\":%zu,\"wall_s\":%.2f,\"internal\":%d,\"outcomes\":{",
            first ? "" : ",", sc.name, (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)pruned, (unsigned long long)splits, (unsigned long long)digest,
            (capped || !bads.empty()) ? "false" : "true", uniq(states), uniq(nontriv), now() - t0, internal);
    bool ff = true; for (auto& o : outc) { fprintf(js, "%s\"%s\":%llu", ff ? "" : ",", jesc(o.first).c_str(), (unsigned long long)o.second); ff = false; }
    fprintf(js, "},\"known\":{"); ff = true; for (auto& o : knownH) { fprintf(js, "%s\"%s\":%llu", ff ? "" : ",", jesc(o.first).c_str(), (unsigned long long)o.second); ff = false; }
    fprintf(js, "},\"samples\":["); ff = true; size_t a = 0;
    while (a < samples.size()) { size_t b = samples.find('\x1f', a); if (b == std::string::npos) break; fprintf(js, "%s\"%s\"", ff ? "" : ",", jesc(samples.substr(a, b - a)).c_str()); ff = false; a = b + 1; }
    fprintf(js, "]}"); first = false;
    if (internal) rcAll = 3;
    munmap(claimed, CLAIMS);
    claimed = nullptr;
  }
  fprintf(js, "]}\n"); fclose(js);
  struct stat sb; if (rcAll == 0 && stat(violPath.c_str(), &sb) == 0 && sb.st_size > 0) rcAll = 1;
  return rcAll;
}
} // namespace mc

int main(int argc, char** argv) { return mc::main(argc, argv); }
