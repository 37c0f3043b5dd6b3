#include "rp.hh"
#include "stream.hh"
#include "exception.hh"
#include <zlib.h>
using namespace keepass;
// reference: zlib on the whole buffer
static std::string deflated(const std::string& d, int level, int mem = 8, int strategy = Z_DEFAULT_STRATEGY) {
  z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 16 + MAX_WBITS, mem, strategy);
  std::string o(deflateBound(&z, d.size()) + 64, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
  deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
enum { OK, CUT, CORRUPT };
static int inflated(const std::string& s, std::string& out, size_t& used) {
  z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, 16 + MAX_WBITS); out.clear(); z.next_in = (Bytef*)s.data(); z.avail_in = s.size();
  int r; std::string b(1 << 16, 0);
  do { z.next_out = (Bytef*)&b[0]; z.avail_out = b.size(); r = inflate(&z, Z_NO_FLUSH); out.append(b.data(), b.size() - z.avail_out); } while (r == Z_OK && (z.avail_in || !z.avail_out));
  used = s.size() - z.avail_in; inflateEnd(&z); return r == Z_STREAM_END ? OK : r == Z_OK || r == Z_BUF_ERROR ? CUT : CORRUPT; }
struct Slow : std::streambuf { std::string s; size_t p = 0, n; Slow(const std::string& x, size_t n) : s(x), n(n) {}
  int underflow() override { if (p >= s.size()) return EOF; size_t k = std::min(n, s.size() - p); setg(&s[p], &s[p], &s[p] + k); p += k; return (unsigned char)*gptr(); } };
static bool readall(std::istream& src, int mode, std::string& got, std::string& why) {
  gzip_istreambuf b(src); got.clear();
  try {
    if (mode == 0) { for (int c; (c = b.sbumpc()) != EOF;) got.push_back((char)c); }
    else if (mode == 1) { char t[20001]; for (std::streamsize n; (n = b.sgetn(t, sizeof t)) > 0;) got.append(t, n); }
    else if (mode == 2) got.assign(std::istreambuf_iterator<char>(&b), std::istreambuf_iterator<char>());
    else { std::istream s(&b); s.exceptions(std::ios::badbit); char t[1000]; while (s.read(t, sizeof t), s.gcount() > 0) got.append(t, s.gcount()); }
    if (b.sgetc() != EOF || b.sbumpc() != EOF) { why = "data after the end"; return false; }
    return true;
  } catch (IoError& e) { why = e.what(); return false; } }
static void reads(const std::string& what, const std::string& s, rp::Rng& r, bool all = true) {
  rp::begin(what + " source " + std::to_string(s.size()) + ":" + rp::hex(s, 60));
  std::string want, got, why; size_t used; int v = inflated(s, want, used);
  for (int m = 0; m < 4; m++) { if (!all && m != (int)(s.size() % 4)) continue;
    for (int slow = 0; slow < 2; slow++) {
    Slow sb(s, slow ? 1 + r.below(5000) : s.size() + 1); std::istream src(&sb);
    bool e = readall(src, m, got, why);
    if (v == OK) { if (rp::check(e, "valid stream is rejected: " + why)) rp::check(got == want, "decompressed data differs"); }
    else { if (e) rp::fail(v == CUT ? "truncated stream ends normally" : "corrupt stream ends normally"); rp::check(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "wrong data is delivered before the error"); } } } }
static std::string written(const std::string& data, int mode, rp::Rng& r) {
  std::stringstream dst;
  { gzip_ostreambuf b(dst); bool ok = true;
    if (mode == 0) for (char c : data) ok = ok && b.sputc(c) == (unsigned char)c;
    else if (mode == 1) ok = b.sputn(data.data(), data.size()) == (std::streamsize)data.size();
    else { std::ostream s(&b); for (size_t p = 0; p < data.size();) { size_t n = std::min<size_t>(1 + r.below(r.one_in(3) ? 40000 : 900), data.size() - p); s.write(&data[p], n); p += n; } s.flush(); ok = s.good(); }
    if (mode != 2) ok = ok && b.pubsync() == 0;
    rp::check(ok, "writing fails"); }
  return dst.str(); }
static void writes(const std::string& what, const std::string& d, rp::Rng& r) {
  for (int m = 0; m < 3; m++) { rp::begin(what + " way " + std::to_string(m) + " data " + std::to_string(d.size()) + ":" + rp::hex(d, 40));
    std::string w = written(d, m, r), back; size_t used = 0; int v = inflated(w, back, used);
    if (rp::check(v == OK, "the output is not a complete gzip stream")) { rp::check(back == d, "the output does not decompress to the data"); rp::check(used == w.size(), "extra output after the stream"); }
    std::stringstream s(w); std::string g, why; rp::check(readall(s, 1, g, why) && g == d, "data written is not read back: " + why); } }
static std::string rnd(rp::Rng& r, size_t n) { std::string d(n, 0); for (auto& c : d) c = (char)r.next(); return d; }
static std::string mixed(rp::Rng& r, size_t n) { std::string d; while (d.size() < n) { if (r.flip()) d += rnd(r, 1 + r.below(500)); else d += std::string(1 + r.below(3000), (char)r.byte()); } d.resize(n); return d; }
int main(int argc, char** argv) {
  rp::init(argc, argv); rp::Rng r(rp::seed());
  static const size_t sz[] = {0, 1, 2, 100, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65536, 98304, 200000, 1000003};
  for (size_t n : sz) { writes("zeros", std::string(n, 0), r); writes("random", rnd(r, n), r); writes("mixed", mixed(r, n), r); }
  { std::string d; for (int i = 0; i < 256; i++) d.push_back((char)i); writes("all bytes", d, r); }
  // incompressible data whose compressed form is near a multiple of the 16 KiB buffers
  for (size_t base : {16384, 32768, 65536}) for (int o = -60; o <= 4; o += 1) { std::string d = rnd(r, base + o); if (r.one_in(3)) writes("random", d, r); reads("random", deflated(d, r.below(10)), r, false); }
  for (int k = 1; k <= 3; k++) { // exact multiples
    for (int lev : {0, 6}) for (int o = -40; o <= 0; o++) { std::string d = rnd(r, 16384 * k + o), s = deflated(d, lev); if (s.size() % 16384 <= 1 || s.size() % 16384 == 16383) { reads("aligned", s, r); for (size_t cut : {1, 2, 7, 8, 9}) reads("aligned, cut", s.substr(0, s.size() - cut), r); } } 
    for (size_t n : {16384u * k - 1, 16384u * k, 16384u * k + 1}) for (int lev = 0; lev < 10; lev += 3) reads("output of whole buffers", deflated(mixed(r, n), lev), r); }
  for (int it = 0; it < 60 * rp::scale(); it++) { size_t n = r.size(120000); std::string d = r.flip() ? mixed(r, n) : r.flip() ? rnd(r, n) : r.text(n); writes("case", d, r);
    std::string s = deflated(d, r.below(10), 1 + r.below(9), r.below(5)); reads("level", s, r); reads("trailing data", s + r.str(1 + r.below(20000)), r, false); reads("second member", s + deflated("x", 6), r, false); }
  // damage
  for (size_t n : {0, 1, 10, 100, 300}) { std::string s = deflated(n & 1 ? mixed(r, n) : r.text(n), 6);
    for (size_t i = 0; i <= s.size(); i++) { reads("cut at " + std::to_string(i), s.substr(0, i), r); if (i == s.size()) break;
      for (int b = 0; b < 8; b += 1 + r.below(3)) { std::string t = s; t[i] ^= 1 << b; reads("bit " + std::to_string(b) + " of byte " + std::to_string(i) + " flipped", t, r, false); } } }
  for (int it = 0; it < 40 * rp::scale(); it++) { std::string d = r.flip() ? mixed(r, 20000 + r.below(90000)) : rnd(r, 16000 + r.below(40000)), s = deflated(d, r.below(10));
    for (int k = 0; k < 4; k++) { size_t at = r.one_in(3) ? 16384 * (s.size() / 16384 ? 1 + r.below(s.size() / 16384) : 0) : r.one_in(3) ? s.size() - 1 - r.below(std::min<size_t>(s.size(), 9)) : r.below(s.size()); if (at > s.size()) at = s.size();
      reads("cut at " + std::to_string(at), s.substr(0, at), r, false); std::string t = s; t[at < s.size() ? at : 0] ^= 1 << r.below(8); reads("bit of byte " + std::to_string(at) + " flipped", t, r, false); } }
  reads("not gzip", "", r); reads("not gzip", "hello world, this is not gzip", r); reads("zlib header", "\x78\x9c\x03\x00\x00\x00\x00\x01", r);
  return rp::finish();
}
