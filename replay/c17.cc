#include "db.hh"
#include <sys/resource.h>
using namespace db;
static void limit(rlim_t n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); }
// export with the destination refusing everything after n bytes
template <class F> static void at(Database& d, const K& k, const S& full, size_t n, const char* fmt, bool back) {
  rp::begin(S(fmt) + " destination takes " + std::to_string(n) + " of " + std::to_string(full.size()) + " bytes"); S p = path("lim"); unlink(p.c_str()); fflush(stdout); limit(n); S kd = kind([&] { F f; f.Export(p, d, k.key()); }); limit(RLIM_INFINITY); S got = read(p);
  // a KDBX file's size varies by a few bytes with the start bytes drawn and the hash stored, when compressed
  size_t slack = back ? 64 : 0; (void)back;
  if (n + slack < full.size()) { rp::check(got.size() <= n, "the limit was not effective"); rp::check(kd == "I/O error", "an export that could not be written ends with: " + kd); } else if (n >= full.size() + slack) rp::check(kd == "ok", "a complete export fails: " + kd); else rp::check(kd == "ok" || kd == "I/O error", "an export ends with: " + kd);
  if (kd == "ok") { S im = kind([&] { F f; f.Import(p, k.key()); }); rp::check(im == "ok" && (slack || got.size() == full.size()), "a successful export is incomplete, reading it gives: " + im); } }
template <class F> static void to(Database& d, const S& p, const char* fmt) { rp::begin(S(fmt) + " export to " + p); S kd = kind([&] { F f; f.Export(p, d, K().key()); }); rp::check(kd == "I/O error", "an export that could not be written ends with: " + kd); }
template <class F> static void all(Database& d, const char* fmt, int n) { rp::Rng& r = R(); K k; S p = path("full"); S kd = kind([&] { F f; f.Export(p, d, k.key()); }); rp::begin(S(fmt) + " complete export"); if (!rp::check(kd == "ok", "export fails: " + kd)) return; S full = read(p); size_t L = full.size();
  std::set<size_t> at_; for (size_t x : {(size_t)0, (size_t)1, (size_t)11, (size_t)12, (size_t)13, (size_t)100, (size_t)123, (size_t)124, (size_t)125, (size_t)140, (size_t)217, (size_t)218, (size_t)250, (size_t)4095, (size_t)4096, (size_t)8191, (size_t)8192, (size_t)16384, L / 2, L - 17, L - 16, L - 15, L - 2, L - 1, L, L + 1, L + 5000}) at_.insert(x); for (int i = 0; i < n; i++) { at_.insert(r.below(L)); at_.insert(L - 1 - r.below(std::min<size_t>(L, 200))); at_.insert((L / 8191) * 8191); at_.insert((L / 8191) * 8191 - (r.below(3))); } for (size_t x : at_) if (x < L + 5001) at<F>(d, k, full, x, fmt, S(fmt) == "KDBX"); }
int main(int argc, char** argv) { rp::init(argc, argv); signal(SIGXFSZ, SIG_IGN); rp::Rng& r = R(); setenv("TZ", "UTC", 1); tzset();
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int i = 0; i < 6; i++) { auto d = kdb(i == 0 ? Cfg{0, 0, 0, 0} : Cfg{2, 2, 2, 0}); d->set_transform_rounds(1); if (i == 0) d->set_root(std::make_shared<Group>()); if (i > 2) { auto g = std::make_shared<Group>(); auto e = std::make_shared<Entry>(); e->set_notes(protect<S>(S(i == 3 ? 8190 - 300 : i == 4 ? 40000 : r.below(20000), 'n'), false)); g->AddEntry(e); d->root()->AddGroup(g); } all<KdbFile>(*d, "KDB", 25); to<KdbFile>(*d, "/dev/full", "KDB"); to<KdbFile>(*d, "/nonexistent/x", "KDB"); to<KdbFile>(*d, rp::tmp(), "KDB"); }
    // destinations whose last bytes do not fit, for every content size modulo the buffer size
    for (int i = 0; i < 8; i++) { auto d = kdbx(i < 2 ? Cfg{0, 0, 0, 0} : Cfg{1, 1, 1, 1}); d->set_transform_rounds(1); d->set_compress(i & 1); if (i > 3) { auto e = std::make_shared<Entry>(); S s; for (int j = i == 4 ? 6000 : 30000 + (int)r.below(30000); j > 0; j--) s.push_back((char)('a' + r.below(26))); e->set_notes(protect<S>(s, false)); d->root()->AddEntry(e); } all<KdbxFile>(*d, "KDBX", 25); to<KdbxFile>(*d, "/dev/full", "KDBX"); to<KdbxFile>(*d, "/nonexistent/x", "KDBX"); to<KdbxFile>(*d, rp::tmp(), "KDBX"); }
  }
  return rp::finish(); }
