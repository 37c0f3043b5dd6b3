// Support for the concrete replay programs: seeded cases, one-line FAIL reports, crash and hang reports.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
namespace rp {
inline std::string& cur() { static std::string s; return s; }
inline char* curbuf() { static char b[8192]; return b; }
inline int& fails() { static int f = 0; return f; }
inline long& ncases() { static long n = 0; return n; }
inline std::set<uint64_t>& seen() { static std::set<uint64_t> s; return s; }
inline uint64_t& seed() { static uint64_t s = 1; return s; }
inline int& scale() { static int s = 1; return s; }
inline std::string& tmp() { static std::string s = "."; return s; }
inline std::set<std::string>& known() { static std::set<std::string> s; return s; }
inline int& limit_s() { static int s = 30; return s; }
struct CE { std::string job; std::map<std::string, std::string> v;
  bool has(const std::string& k) const { return v.count(k); }
  std::string bytes(const std::string& k) const { std::string r; auto i = v.find(k); if (i == v.end() || i->second == "-") return r;
    for (size_t p = 0; p + 1 < i->second.size(); p += 2) r.push_back((char)strtoul(i->second.substr(p, 2).c_str(), 0, 16)); return r; }
  uint64_t num(const std::string& k, uint64_t d = 0) const { auto i = v.find(k); return i == v.end() ? d : strtoull(i->second.c_str(), 0, 10); } };
inline std::vector<CE>& ces() { static std::vector<CE> c; return c; }
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool flip() { return next() & 1; }
  bool one_in(unsigned n) { return below(n) == 0; }
  uint8_t byte() { unsigned k = below(6); return k == 0 ? 0 : k == 1 ? 0xff : (uint8_t)next(); }
  std::string str(size_t n) { std::string r; for (size_t i = 0; i < n; i++) r.push_back((char)byte()); return r; }
  std::string text(size_t n) { std::string r; for (size_t i = 0; i < n; i++) r.push_back((char)(33 + below(94))); return r; }
  template <class A> A arr() { A a; for (auto& x : a) x = byte(); return a; }
  // sizes around the interesting boundaries
  size_t size(size_t mx) { static const size_t b[] = {0,1,2,3,4,5,7,8,15,16,17,31,32,33,47,48,63,64,65,127,128,129,255,256,1023,1024,1025,4095,4096,4097,8191,8192,8193,65535,65536,65537};
    size_t v = flip() ? b[below(sizeof b / sizeof *b)] : below(flip() ? 100 : mx + 1); return v > mx ? v % (mx + 1) : v; } };
inline std::string hex(const std::string& s, size_t mx = 200) { std::string r; char b[3]; for (size_t i = 0; i < s.size() && i < mx; i++) { snprintf(b, 3, "%02x", (unsigned char)s[i]); r += b; } if (s.size() > mx) r += "...(" + std::to_string(s.size()) + " bytes)"; return r; }
template <class A> std::string hexa(const A& a) { return hex(std::string((const char*)a.data(), a.size())); }
inline uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
// start of a case; the description identifies the input
inline void begin(const std::string& d) {
  cur() = d; snprintf(curbuf(), 8192, "%s", d.c_str()); ncases()++; seen().insert(fnv(d)); alarm(limit_s());
  if (ncases() <= 3 || ((ncases() & (ncases() - 1)) == 0 && ncases() < 2048)) printf("SAMPLE %s\n", d.substr(0, 250).c_str()); }
inline std::map<std::string, int>& perkind() { static std::map<std::string, int> m; return m; }
inline void fail(const std::string& why) {
  std::string l = why + " | input: " + cur(); for (char& c : l) if (c == '\n' || c == '\r') c = ' ';
  if (perkind()[why.substr(0, 40)]++ < 3) printf("FAIL %s\n", l.substr(0, 3000).c_str());
  fflush(stdout); fails()++; if (fails() > 200) { printf("CASES %ld %zu\n", ncases(), seen().size()); fflush(stdout); _exit(1); } }
inline bool check(bool ok, const std::string& why) { if (!ok) fail(why); return ok; }
// a finding recorded in KNOWN_FINDINGS: reported as known, not as a failure
inline void fail_known(const char* id, const std::string& why) { if (known().count(id)) { if (perkind()[id]++ < 1) printf("KNOWN %s %s | input: %s\n", id, why.c_str(), cur().substr(0, 200).c_str()); } else fail(why); }
inline void put(const char* s) { size_t n = strlen(s); while (n) { ssize_t k = write(1, s, n); if (k <= 0) return; s += k; n -= k; } }
inline void died(const char* what) { put("\nFAIL "); put(what); put(" | input: "); put(curbuf()); put("\n"); }
inline void onsig(int s) { if (s == SIGALRM) { died("does not terminate"); _exit(1); }
  died(s == SIGABRT ? "aborts (std::terminate, assertion or abort)" : "crashes with a signal"); _exit(1); }
}
extern "C" inline void rp_asan_death() { rp::died("memory error or undefined behaviour (sanitizer)"); }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace rp {
inline void init(int argc, char** argv) {
  setvbuf(stdout, 0, _IOLBF, 0);
  for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed() = strtoull(v.c_str(), 0, 10); else if (a == "--scale") scale() = atoi(v.c_str()); else if (a == "--tmp") tmp() = v;
    else if (a == "--known") { std::stringstream s(v); std::string x; while (std::getline(s, x, ',')) if (!x.empty()) known().insert(x); }
    else if (a == "--ce") { std::ifstream f(v); std::string l; CE c; while (std::getline(f, l)) { if (l == "end") { ces().push_back(c); c = CE(); } else { size_t p = l.find(' '); if (p == std::string::npos) continue; std::string k = l.substr(0, p); if (k == "job") c.job = l.substr(p + 1); else c.v[k] = l.substr(p + 1); } } } }
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_set_death_callback(rp_asan_death);
#endif
  signal(SIGALRM, onsig); signal(SIGABRT, onsig); }
inline int finish() { alarm(0); printf("CASES %ld %zu\n", ncases(), seen().size()); return fails() ? 1 : 0; }
// run f; "" when it returns, else the kind of exception
template <class F> std::string thrown(F f);
}
