// C20: the command line parser against a model of its documented behaviour.
#include "mc.h"
#include "CmdLineArgParser.h"
#include <iostream>
#include <limits>
#include <sstream>
typedef std::vector<std::string> Args;
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
static std::string str(const Args& a) { std::string s; for (auto& x : a) s += "'" + x + "' "; return s; }
static bool number(const std::string& a) { if (a.empty()) return false; char* e; strtod(a.c_str(), &e); return *e == 0; }
static bool integer(const std::string& a) { if (a.empty()) return false; char* e; strtol(a.c_str(), &e, 10); return *e == 0; }
// ---- options: kind d(ouble) i(nt) s(tring) c(har pointer default) b(ool)
struct Opt { const char* name; char kind; double d; int i; const char* s; bool b; };
static const std::vector<Opt>& options() { static const std::vector<Opt> o = {{"--d", 'd', 2.5, 0, "", false}, {"--n", 'i', 0, -4, "", false}, {"--s", 's', 0, 0, "dflt", false}, {"-v", 'b', 0, 0, "", false}, {"--dd", 'd', -1e-3, 0, "", false}, {"--nn", 'i', 0, 7, "", false}, {"--t", 'c', 0, 0, "1, 2", false}, {"--on", 'b', 0, 0, "", true}}; return o; }
static void define(CmdLineArgParser& p, const Opt& o) { std::string h = std::string("help of ") + o.name; switch (o.kind) { case 'd': p.set(o.name, o.d, h); break; case 'i': p.set(o.name, o.i, h); break; case 's': p.set(o.name, std::string(o.s), h); break; case 'c': p.set(o.name, o.s, h); break; default: p.set(o.name, o.b, h); } mc::step(); }
struct Model { // what was given last for an option, number of times for flags
  std::map<std::string, char> kind; std::map<std::string, std::string> given; std::map<std::string, int> flips; };
static bool isName(const std::string& a) { return a.size() >= 2 && a[0] == '-' && !isdigit(a[1]) && !(a[1] == '.' && a.size() > 2 && isdigit(a[2])); } // a number or a list which starts with a negative one is a value
static bool parse(CmdLineArgParser& p, const Args& args) { std::vector<std::string> c = {"prog"}; c.insert(c.end(), args.begin(), args.end()); std::vector<char*> v; for (auto& s : c) v.push_back(&s[0]); v.push_back(nullptr); Quiet q; bool r = p.parse((int)c.size(), v.data()); mc::step(); for (size_t k = 0; k < c.size(); ++k) std::fill(c[k].begin(), c[k].end(), 'Z'); return r; }
// 1 accepted, 0 refused, -1: not covered by the statement
static int model(Model& m, const Args& a) {
  int rc = 1; for (auto& x : a) if (isName(x) && !m.kind.count(x)) rc = 0; if (!rc) return 0;
  for (size_t k = 0; k < a.size(); ++k) { auto it = m.kind.find(a[k]); if (it == m.kind.end()) continue; if (it->second == 'b') { m.flips[a[k]]++; continue; } if (k + 1 == a.size()) continue; const std::string& v = a[k + 1]; if (m.kind.count(v)) return -1; m.given[it->first] = v; ++k; }
  return 1;
}
static void checkValues(CmdLineArgParser& p, const std::vector<Opt>& defs, const Model& m, const std::string& t) {
  mc::Hash h; for (auto& o : defs) { auto g = m.given.find(o.name); bool given = g != m.given.end(); std::string v = given ? g->second : ""; mc::step(5);
    double d = p.get<double>(o.name); int n = p.get<int>(o.name); std::string s = p.get<std::string>(o.name), cs = p.get<const char*>(o.name); bool b = p.get<bool>(o.name);
    if (o.kind == 'd') { double w = given ? strtod(v.c_str(), nullptr) : o.d; if ((!given || number(v)) && d != w) mc::fail("double", "%s: %s is %.17g, expected %.17g", t.c_str(), o.name, d, w); h.d(d); } else if (d != -std::numeric_limits<double>::max()) mc::fail("fallback", "%s: %s asked for as double gives %g", t.c_str(), o.name, d);
    if (o.kind == 'i') { long w = given ? strtol(v.c_str(), nullptr, 10) : o.i; if ((!given || integer(v)) && n != w) mc::fail("int", "%s: %s is %d, expected %ld", t.c_str(), o.name, n, w); h.u((unsigned)n); } else if (n != -std::numeric_limits<int>::max()) mc::fail("fallback", "%s: %s asked for as int gives %d", t.c_str(), o.name, n);
    if (o.kind == 's' || o.kind == 'c') { std::string w = given ? v : o.s; if (s != w || cs != w) mc::fail("string", "%s: %s is '%s' / '%s', expected '%s'", t.c_str(), o.name, s.c_str(), cs.c_str(), w.c_str()); h.s(s); } else if (s != "" || cs != "") mc::fail("fallback", "%s: %s asked for as string gives '%s'", t.c_str(), o.name, s.c_str());
    if (o.kind == 'b') { auto f = m.flips.find(o.name); bool w = o.b ^ (f != m.flips.end() && f->second % 2); if (b != w) mc::fail("flag", "%s: %s is %d, expected %d", t.c_str(), o.name, b, w); h.u(b); } else if (b) mc::fail("fallback", "%s: %s asked for as bool is true", t.c_str(), o.name); }
  if (p.get<double>("--none") != -std::numeric_limits<double>::max() || p.get<int>("--none") != -std::numeric_limits<int>::max() || p.get<std::string>("--none") != "" || p.get<bool>("--none") || std::string(p.get<const char*>("--none")) != "" || !p.get<std::vector<double>>("--none").empty() || !p.get<std::vector<int>>("--none").empty()) mc::fail("fallback", "%s: an option which was never defined has a value", t.c_str()); mc::state(h.h);
}
static void run(const std::vector<Opt>& defs, const Args& a, const std::string& pre) {
  CmdLineArgParser p; Model m; m.kind["-h"] = m.kind["--help"] = 'b'; for (auto& o : defs) { define(p, o); m.kind[o.name] = o.kind; } std::string t = pre + str(a); int want = model(m, a); if (want < 0) mc::prune(); bool r = parse(p, a); mc::describe("%s: %s", t.c_str(), r ? "accepted" : "refused"); mc::outcome(r ? "accepted" : "refused");
  if (r != (want == 1)) mc::fail(r ? "accepted" : "refused", "%s is %s", t.c_str(), r ? "accepted" : "refused"); if (!r) return; checkValues(p, defs, m, t); for (const char* f : {"-h", "--help"}) { auto i = m.flips.find(f); if (p.get<bool>(f) != (i != m.flips.end() && i->second % 2)) mc::fail("flag", "%s: %s is %d", t.c_str(), f, p.get<bool>(f)); } if (!m.given.empty() || !m.flips.empty()) mc::nontrivial(mc::Hash().s(t).h);
}
// every sequence of arguments
SCENARIO(sequences) {
  static const Args A = {"--d", "--n", "--s", "-v", "-h", "010", "-1", "-.5", "foo", "--bad", "--dd", "1e-3", "-x", "", "-", "--on", "-2e5", "a,b c", "--help", "-", ".5", "--", "--nn", "-1,2", "010"}; int K = mc::tier < 0 ? 10 : mc::tier > 0 ? 18 : 14, n = mc::tier < 0 ? 3 : mc::tier > 0 ? 6 : 5; int len = mc::choose(n + 1); Args a; for (int k = 0; k < len; ++k) { a.push_back(A[mc::choose(K)]); if (k == 0) mc::split(); } if (len == 0) mc::split(); run(options(), a, "");
}
// the complete alphabet, shorter
SCENARIO(alphabet) {
  static const Args A = {"--d", "--n", "--s", "-v", "-h", "3", "-1", "-.5", "foo", "--bad", "--dd", "1e-3", "-x", "", "-", "--on", "-2e5", "a,b c", "--help", "+7", ".5", "--", "--nn", "--t", "-1,2", "-d", "d", "2147483647", "-2147483647", "1e300", "--D", "--s=foo", "010", "-012", "08", "0x1F", "1e2"}; int len = mc::range(1, mc::tier < 0 ? 2 : mc::tier > 0 ? 4 : 3); Args a; for (int k = 0; k < len; ++k) { a.push_back(mc::pick(A)); if (k == 0) mc::split(); }
  run(options(), a, "");
}
// options in every order, defined in every order: the result is the same
SCENARIO(orders) {
  std::vector<int> perm = {0, 1, 2, 3, 4}, rest = perm; std::vector<Opt> defs; int q = mc::tier < 0 ? 3 : 5; for (int k = 0; k < q; ++k) { int c = mc::choose((int)rest.size()); defs.push_back(options()[rest[c]]); rest.erase(rest.begin() + c); } mc::split(); std::vector<Args> groups = {{"--d", "-7.5"}, {"--n", "12"}, {"--s", "-3"}, {"-v"}, {"--dd", "1e-2"}}; Args a; std::vector<int> left; for (int k = 0; k < q; ++k) left.push_back(k); std::vector<Opt> byName = defs; while (!left.empty()) { int c = mc::choose((int)left.size() + 1); if (c == (int)left.size()) break; for (int g = 0; g < 5; ++g) if (std::string(options()[g].name) == defs[left[c]].name) a.insert(a.end(), groups[g].begin(), groups[g].end()); left.erase(left.begin() + c); } run(defs, a, "");
}
// an option defined again has the new default and type stays apart by name; parsed more than once the last value stands
SCENARIO(again) {
  int first = mc::choose(8), second = mc::choose(8); mc::split(); std::vector<Opt> defs = {options()[first]}; if (second != first) defs.push_back(options()[second]); static const Args A = {"--d", "--n", "--s", "-v", "4", "-6"}; Args a, b; int na = mc::choose(mc::tier < 0 ? 2 : 3), nb = mc::choose(mc::tier > 0 ? 5 : mc::tier < 0 ? 3 : 4); for (int k = 0; k < na; ++k) a.push_back(mc::pick(A)); for (int k = 0; k < nb; ++k) b.push_back(mc::pick(A));
  CmdLineArgParser p; Model m; m.kind["-h"] = m.kind["--help"] = 'b'; for (auto& o : defs) { Opt x = o; x.d += 1; x.i += 1; x.s = "other"; x.b = !x.b; if (mc::flip()) define(p, x); } for (auto& o : defs) { define(p, o); m.kind[o.name] = o.kind; } int w1 = model(m, a); if (w1 < 0) mc::prune(); bool r1 = parse(p, a); if (r1 != (w1 == 1)) mc::fail("refused", "%s", str(a).c_str()); Model mb = m; int w2 = model(m, b); if (w2 < 0) mc::prune(); bool r2 = parse(p, b); if (r2 != (w2 == 1)) mc::fail("refused", "%s then %s", str(a).c_str(), str(b).c_str()); if (w1 == 1 && w2 == 1) checkValues(p, defs, m, str(a) + "then " + str(b)); mc::nontrivial(mc::Hash().u(first).u(second).s(str(a)).s(str(b)).h); mc::outcome(w1 && w2 ? "accepted twice" : "refused");
}
// lists
SCENARIO(lists) {
  static const Args E = {"0", "-1", "2.5", "-.5", "1e-3", " 7", "-5.24e-45", "12345678", "010", ""}, I = {"0", "-1", "25", " 7", "-2147483647", "010", ""}; bool ints = mc::flip(); int n = mc::choose(mc::tier < 0 ? 4 : mc::tier > 0 ? 7 : 6); const Args& A = ints ? I : E; std::string s; Args el; for (int k = 0; k < n; ++k) { el.push_back(mc::pick(A)); if (k == 0) mc::split(); s += (k ? "," : "") + el.back(); } if (n == 0) mc::split(); if (n == 1 && s.empty()) mc::prune(); bool cmd = mc::flip(); CmdLineArgParser p; if (cmd) { if (n && isName(s)) mc::prune(); p.set("--l", "9,9,9", "list"); if (!parse(p, {"--l", s})) mc::fail("refused", "'%s' is refused", s.c_str()); } else p.set("--l", s, "list"); mc::step(); mc::Hash h;
  if (ints) { auto v = p.get<std::vector<int>>("--l"); if ((int)v.size() != n) mc::fail("list", "'%s' gives %zu values", s.c_str(), v.size()); for (int k = 0; k < n; ++k) { if (v[k] != strtol(el[k].c_str(), nullptr, 10)) mc::fail("list", "'%s': value %d is %d", s.c_str(), k, v[k]); h.u((unsigned)v[k]); } }
  else { auto v = p.get<std::vector<double>>("--l"); if ((int)v.size() != n) mc::fail("list", "'%s' gives %zu values", s.c_str(), v.size()); for (int k = 0; k < n; ++k) { if (v[k] != strtod(el[k].c_str(), nullptr)) mc::fail("list", "'%s': value %d is %g", s.c_str(), k, v[k]); h.d(v[k]); } } mc::state(h.h); mc::nontrivial(mc::Hash().u(ints).u(cmd).s(s).h); mc::outcome(n ? "list" : "empty list"); mc::describe("'%s' %s: %d values", s.c_str(), cmd ? "on the command line" : "as default", n);
}
// the help text names every option with its description
SCENARIO(help) {
  int mask = mc::choose(256); CmdLineArgParser p; p.setPurpose("purpose of it"); for (int k = 0; k < 8; ++k) if (mask >> k & 1) define(p, options()[k]); bool foot = mc::flip(); if (foot) p.addFootnote("note at the end"); parse(p, {}); std::string out; { Quiet q; p.help(); out = q.s.str(); } mc::step(); for (int k = 0; k < 8; ++k) { bool in = out.find(std::string("help of ") + options()[k].name) != std::string::npos; if (in != (mask >> k & 1)) { bool pre = false; for (int j = 0; j < 8; ++j) pre |= j != k && (mask >> j & 1) && std::string(options()[j].name).find(options()[k].name) == 0; if (!pre) mc::fail("help", "option %s is %s in the help text", options()[k].name, in ? "there" : "missing"); } } if (out.find("purpose of it") == std::string::npos || out.find("prog") == std::string::npos || (out.find("note at the end") != std::string::npos) != foot || out.find("--help") == std::string::npos) mc::fail("help", "help text is incomplete: %s", out.c_str()); mc::state(mc::Hash().s(out).h); mc::nontrivial(mask); mc::describe("%s", out.c_str());
}
// two options of any kinds whose names resemble each other
SCENARIO(names) {
  static const Args N = {"-a", "-ab", "--a", "-A", "-ba", "--a-b", "--a_b", "-a b"}; int k1 = mc::choose(mc::tier < 0 ? 3 : (int)N.size()), k2 = mc::choose(mc::tier < 0 ? 3 : (int)N.size()); if (k1 == k2) mc::prune(); const char K[] = "disb"; int t1 = mc::choose(4), t2 = mc::choose(4); mc::split();
  std::vector<Opt> defs = {{N[k1].c_str(), K[t1], 1.5, 11, "one", false}, {N[k2].c_str(), K[t2], -2.5, 22, "two", true}}; Args al = {N[k1], N[k2], "7", "-3"}, a; int len = mc::choose(mc::tier > 0 ? 6 : mc::tier < 0 ? 4 : 5); for (int k = 0; k < len; ++k) a.push_back(mc::pick(al)); run(defs, a, "");
}
