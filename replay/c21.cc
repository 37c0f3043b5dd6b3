#include "rp.hh"
#include "kdbx.cc"
#include <ctime>
using namespace keepass;
static std::string zone;
static KdbxFile* F;
static long long days(long long y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long long)doe - 719468; }
static std::string ref_text(long long t) {
  if (t == 0) return "2999-12-28T22:59:59Z";
  long long dn = t / 86400, s = t % 86400; if (s < 0) { s += 86400; dn--; }
  // civil from days
  long long z = dn + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long long y = yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
  char b[80]; snprintf(b, 80, "%04lld-%02u-%02uT%02lld:%02lld:%02lldZ", y, m, d, s / 3600, s / 60 % 60, s % 60); return b;
}
static void one(long long t) {
  if (t < -30610224000ll || t > 253402300799ll) return;
  rp::begin("time " + std::to_string(t) + " zone " + zone);
  std::string want = ref_text(t), got = F->WriteDateTime(t);
  rp::check(got == want, "written as " + got + " instead of " + want);
  if (t != 0 && want == "2999-12-28T22:59:59Z") return;
  try { long long r = F->ParseDateTime(got.c_str()); rp::check(r == t, "read back as " + std::to_string(r)); 
    if (got == want) { r = F->ParseDateTime(want.substr(0, 19).c_str()); if (t) rp::check(r == t, "without Z read as " + std::to_string(r)); } }
  catch (std::exception& e) { rp::fail(std::string("reading a written time throws ") + e.what()); }
}
// 0: value v; 1: must be rejected or unset
static void text(const std::string& s) {
  rp::begin("text \"" + s + "\" zone " + zone);
  bool never = s == "2999-12-28T22:59:59Z", empty = s.empty(), wf = s.size() == 20 && s[19] == 'Z';
  int v[6]; static const int off[] = {0, 5, 8, 11, 14, 17}, len[] = {4, 2, 2, 2, 2, 2}, lo[] = {0, 1, 1, 0, 0, 0}, hi[] = {9999, 12, 31, 23, 59, 59}; static const char sep[] = "--T::Z";
  for (int f = 0; f < 6 && wf; f++) { v[f] = 0; for (int k = 0; k < len[f]; k++) { char c = s[off[f] + k]; if (c < '0' || c > '9') wf = false; else v[f] = v[f] * 10 + c - '0'; } if (wf && (v[f] < lo[f] || v[f] > hi[f])) wf = false; if (s[off[f] + len[f]] != sep[f]) wf = false; }
  bool digitish = false;
  if (!wf) { struct tm q; memset(&q, 0, sizeof q); char* r = strptime(s.c_str(), "%Y-%m-%dT%H:%M:%S", &q); digitish = r && (*r == 'Z' || !*r); }
  try { long long r = F->ParseDateTime(s.c_str());
    if (never || empty) rp::check(r == 0, "never/unset text read as " + std::to_string(r));
    else if (wf) { long long w = days(v[0], v[1], v[2]) * 86400 + v[3] * 3600 + v[4] * 60 + v[5]; rp::check(r == w, "read as " + std::to_string(r) + " instead of " + std::to_string(w)); }
    else rp::check(digitish || r == 0, "malformed timestamp accepted as " + std::to_string(r));
  } catch (FormatError&) { if (wf || never || empty) rp::fail("a valid timestamp is rejected"); }
  catch (std::exception& e) { rp::fail(std::string("wrong exception ") + e.what()); }
}
int main(int c, char** v) {
  rp::init(c, v);
  rp::Rng r(rp::seed());
  KdbxFile file; F = &file;
  for (const char* z : {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"}) {
    zone = z; setenv("TZ", z, 1); tzset();
    for (auto& ce : rp::ces()) { if (ce.has("t")) one((long long)ce.num("t")); if (ce.has("text")) text(ce.bytes("text")); }
    one(0); one(-1); one(1); one(32503676399ll); one(32503676398ll);
    for (int y = 1001; y <= 9999; y += 1 + r.below(60)) for (int m = 1; m <= 12; m++) { long long b = days(y, m, 1) * 86400; one(b); one(b - 1); one(b + r.below(28 * 86400)); one(b + 28 * 86400); }
    for (int s = 0; s < 86400; s += 1 + r.below(60)) one(1700000000 - 1700000000 % 86400 + s);
    for (int i = 0; i < 5000 * rp::scale(); i++) one((long long)(r.next() % 284012524799ull) - 30610224000ll);
    text(""); text("2999-12-28T22:59:59Z"); text("2999-12-28T22:59:59"); text("2999-12-28T22:59:58Z"); text("x"); text("Z"); text("2014-01-01"); text("2014-01-01T10:00:00+02:00"); text("2014-01-01T10:00:00 Z"); text("2014-01-01T10:00:00z"); text("2014-01-01 10:00:00Z"); text("2014-13-01T10:00:00Z"); text("2014-02-30T10:00:00Z"); text("2014-01-01T24:00:00Z"); text("2014-01-01T10:60:00Z"); text("2014-01-01T10:00:99Z"); text("0"); text("1400000000");
    std::string b = "2014-06-15T12:34:56Z";
    for (size_t p = 0; p < b.size(); p++) { for (int ch = 1; ch < 256; ch++) { std::string q = b; q[p] = ch; text(q); } text(b.substr(0, p)); }
    for (int i = 0; i < 2000 * rp::scale(); i++) { std::string q = ref_text((long long)(r.next() % 253402300799ull)); text(q); q[r.below(20)] = '0' + r.below(10); text(q); if (r.flip()) q.erase(r.below(q.size()), 1); else q.insert(r.below(q.size()), 1, (char)(33 + r.below(90))); text(q); }
  }
  return rp::finish();
}
