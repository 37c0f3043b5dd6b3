#include "rp.hh"
#include "kdb.cc"
#include <ctime>
using namespace keepass;
static const uint8_t NEVER[5] = {0x2e, 0xdf, 0x39, 0x7e, 0xfb};
static std::string zone;
static std::array<uint8_t, 5> ref_pack(time_t t) {
  std::array<uint8_t, 5> r; 
  if (t == 0 || t == -1) { memcpy(r.data(), NEVER, 5); return r; }
  struct tm m; localtime_r(&t, &m);
  uint64_t v = (uint64_t)(m.tm_year + 1900) << 26 | (uint64_t)(m.tm_mon + 1) << 22 | m.tm_mday << 17 | m.tm_hour << 12 | m.tm_min << 6 | m.tm_sec;
  for (int i = 0; i < 5; i++) r[i] = v >> (32 - 8 * i);
  return r;
}
static void one(time_t t) {
  struct tm m; if (!localtime_r(&t, &m) || m.tm_year < 0 || m.tm_year + 1900 > 4095) return;
  rp::begin("time " + std::to_string((long long)t) + " zone " + zone);
  auto want = ref_pack(t);
  KdbTime k(t);
  rp::check(k.packed == want, "packed bytes " + rp::hexa(k.packed) + " instead of " + rp::hexa(want));
  bool never = memcmp(want.data(), NEVER, 5) == 0;
  struct tm q = m; q.tm_isdst = -1;
  bool unamb = mktime(&q) == t;
  try { time_t r = KdbTime(t).ToTime(); 
    if (never) { if (t == 0 || t == -1) rp::check(r == 0, "never is not read back as never"); }
    else if (unamb) rp::check(r == t, "unpacking gives " + std::to_string((long long)r));
  } catch (std::exception& e) { rp::fail(std::string("unpacking a packed time throws ") + e.what()); }
}
static void unp(const std::array<uint8_t, 5>& p) {
  rp::begin("packed " + rp::hexa(p) + " zone " + zone);
  uint64_t v = 0; for (int i = 0; i < 5; i++) v = v << 8 | p[i];
  unsigned y = v >> 26, mo = v >> 22 & 15, d = v >> 17 & 31, h = v >> 12 & 31, mi = v >> 6 & 63, s = v & 63;
  bool bad = y < 1900 || mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || s > 60;
  KdbTime k; k.packed = p;
  try { time_t r = k.ToTime();
    if (!memcmp(p.data(), NEVER, 5)) { rp::check(r == 0, "the never constant is not read as never"); return; }
    if (bad) { rp::fail("a malformed packed time is accepted as " + std::to_string((long long)r)); return; }
    struct tm m; memset(&m, 0, sizeof m); m.tm_year = y - 1900; m.tm_mon = mo - 1; m.tm_mday = d; m.tm_hour = h; m.tm_min = mi; m.tm_sec = s; m.tm_isdst = -1;
    time_t w = mktime(&m); if (w == -1) w = 0;
    rp::check(r == w, "unpacked time " + std::to_string((long long)r) + " instead of " + std::to_string((long long)w));
  } catch (FormatError&) { if (!(bad || s == 60)) rp::fail("a valid packed time is rejected"); }
  catch (std::exception& e) { rp::fail(std::string("wrong exception ") + e.what()); }
}
int main(int c, char** v) {
  rp::init(c, v);
  rp::Rng r(rp::seed());
  for (const char* z : {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3"}) {
    zone = z; setenv("TZ", z, 1); tzset();
    for (auto& ce : rp::ces()) { if (ce.has("t")) one((time_t)ce.num("t")); if (ce.has("p_0")) { std::array<uint8_t, 5> p; for (int i = 0; i < 5; i++) p[i] = ce.num("p_" + std::to_string(i)); unp(p); } }
    one(0); one(-1); one(1); one(-2);
    for (int y = 1900; y <= 4095; y += 1 + r.below(40)) for (int mo = 0; mo < 12; mo++) {
      struct tm m; memset(&m, 0, sizeof m); m.tm_year = y - 1900; m.tm_mon = mo; m.tm_mday = 1; m.tm_isdst = -1; time_t b = mktime(&m); one(b); one(b - 1); one(b + 15 * 86400 + r.below(86400)); one(b + 28 * 86400 + r.below(86400)); }
    for (int i = 0; i < 5000 * rp::scale(); i++) one((time_t)(r.next() % 70000000000ull) - 2208988800ll);
    for (int s = 0; s < 86400; s += 1 + r.below(60)) one(1700000000 - 1700000000 % 86400 + s);
    { std::array<uint8_t, 5> p; memcpy(p.data(), NEVER, 5); unp(p); for (int i = 0; i < 40; i++) { auto q = p; q[i / 8] ^= 1 << i % 8; unp(q); } p.fill(0); unp(p); p.fill(255); unp(p); }
    for (int f = 0; f < 6; f++) for (unsigned x = 0; x < (f == 0 ? 16384u : 64u); x += f == 0 ? 7 : 1) {
      uint64_t w[6] = {2014, 6, 15, 12, 30, 30}; w[f] = x; uint64_t b = w[0] << 26 | (w[1] & 15) << 22 | (w[2] & 31) << 17 | (w[3] & 31) << 12 | (w[4] & 63) << 6 | (w[5] & 63);
      std::array<uint8_t, 5> p; for (int i = 0; i < 5; i++) p[i] = b >> (32 - 8 * i); unp(p); }
    for (int i = 0; i < 5000 * rp::scale(); i++) unp(r.arr<std::array<uint8_t, 5>>());
  }
  return rp::finish();
}
