#include "rp.hh"
#include "stream.hh"
#include "exception.hh"
#include <openssl/sha.h>
using namespace keepass;
typedef std::vector<std::string> Blocks;
// the documented format: index, SHA-256, size, data; an end block of size and hash zero
static std::string le32(uint32_t v) { std::string r; for (int i = 0; i < 4; i++) r.push_back((char)(v >> (8 * i))); return r; }
static std::string sha(const std::string& s) { unsigned char h[32]; SHA256((const unsigned char*)s.data(), s.size(), h); return std::string((char*)h, 32); }
static std::string blk(uint32_t i, const std::string& d) { return le32(i) + (d.empty() ? std::string(32, 0) : sha(d)) + le32(d.size()) + d; }
static std::string ref(const std::string& data, size_t bs) { std::string r; uint32_t i = 0; for (size_t p = 0; p < data.size(); p += bs) r += blk(i++, data.substr(p, bs)); return r + blk(i, ""); }
// a source that delivers at most n characters at a time
struct Slow : std::streambuf { std::string s; size_t p = 0, n; Slow(const std::string& x, size_t n) : s(x), n(n) {}
  int underflow() override { if (p >= s.size()) return EOF; size_t k = std::min(n, s.size() - p); setg(&s[p], &s[p], &s[p] + k); p += k; return (unsigned char)*gptr(); } };
enum { END, DAMAGED };
// reads everything; -> how it ended
static int readall(std::istream& src, int mode, std::string& got, std::string& why) {
  hashed_istreambuf b(src); got.clear();
  try {
    if (mode == 0) { for (int c; (c = b.sbumpc()) != EOF;) got.push_back((char)c); }
    else if (mode == 1) { char t[777]; for (std::streamsize n; (n = b.sgetn(t, sizeof t)) > 0;) got.append(t, n); }
    else if (mode == 2) { got.assign(std::istreambuf_iterator<char>(&b), std::istreambuf_iterator<char>()); }
    else { std::istream s(&b); s.exceptions(std::ios::badbit); char t[100]; while (s.read(t, sizeof t), s.gcount() > 0) got.append(t, s.gcount()); }
    if (b.sgetc() != EOF || b.sbumpc() != EOF) { why = "data after the end"; return DAMAGED; }
    return END;
  } catch (IoError& e) { why = e.what(); return DAMAGED; } }
static std::string written(const std::string& data, size_t bs, bool dflt, int mode, rp::Rng& r) {
  std::stringstream dst;
  { std::unique_ptr<hashed_ostreambuf> b(dflt ? new hashed_ostreambuf(dst) : new hashed_ostreambuf(dst, bs)); bool ok = true;
    if (mode == 0) for (char c : data) ok = ok && b->sputc(c) == (unsigned char)c;
    else if (mode == 1) ok = b->sputn(data.data(), data.size()) == (std::streamsize)data.size();
    else { std::ostream s(b.get()); for (size_t p = 0; p < data.size();) { size_t n = std::min<size_t>(1 + r.below(r.one_in(3) ? 2 * bs + 1 : 9), data.size() - p); if (r.flip()) s.write(&data[p], n); else s << data.substr(p, n); p += n; } s.flush(); ok = s.good(); }
    if (mode != 2) ok = ok && b->pubsync() == 0;
    rp::check(ok, "writing fails"); }
  return dst.str(); }
static void one(const std::string& data, size_t bs, bool dflt, rp::Rng& r) {
  rp::begin((dflt ? "default block size" : "block size " + std::to_string(bs)) + " data " + std::to_string(data.size()) + ":" + rp::hex(data, 48));
  std::string want = ref(data, dflt ? 1024 * 1024 : bs ? bs : data.size() + 1);
  for (int m = 0; m < 3; m++) { if (data.size() > 100000 && m == 0) continue;
    std::string w = written(data, bs, dflt, m, r);
    if (dflt) { std::stringstream s(w); std::string g, why; rp::check(readall(s, 1, g, why) == END && g == data, "data written is not read back (" + why + ")"); }
    else rp::check(w == want, "the blocks written are not those of the format"); }
  for (int m = 0; m < 4; m++) { std::string g, why; std::stringstream s(want + (r.flip() ? "" : "trailing"));
    rp::check(readall(s, m, g, why) == END, "valid stream is rejected: " + why); rp::check(g == data, "data read differs");
    if (data.size() < 3000) { Slow sb(want, 1 + r.below(50)); std::istream t(&sb); rp::check(readall(t, m, g, why) == END && g == data, "data read from a slow source differs: " + why); } } }
static void bad(const std::string& what, const std::string& s, const std::string& data, rp::Rng& r) {
  rp::begin(what + " stream " + rp::hex(s, 200));
  for (int m = 0; m < 4; m++) { std::string g, why; std::stringstream t(s);
    if (readall(t, m, g, why) == END) rp::fail("damaged stream ends normally");
    rp::check(g.size() <= data.size() && data.compare(0, g.size(), g) == 0, "damaged data is delivered"); } }
int main(int argc, char** argv) {
  rp::init(argc, argv); rp::Rng r(rp::seed());
  for (size_t bs = 1; bs <= 9; bs++) for (size_t n = 0; n <= 3 * bs + 1; n++) one(r.str(n), bs, false, r);
  for (int it = 0; it < 200 * rp::scale(); it++) { size_t bs = 1 + r.size(5000), n = r.one_in(4) ? bs * r.below(4) : r.one_in(2) ? bs * r.below(4) + r.below(bs) : r.size(20000); if (r.one_in(10)) bs = 0; one(r.str(n), bs, false, r); }
  for (size_t n : {0, 1, 1048575, 1048576, 1048577, 2097152, 2500001}) one(r.str(n), 0, true, r);
  { std::string d; for (int i = 0; i < 256; i++) d.push_back((char)i); one(d, 100, false, r); one(d + d, 256, false, r); }
  { std::string d(70000, 0); one(d, 1, false, r); one(d, 65536, false, r); }
  // damage
  for (int it = 0; it < 12 * rp::scale(); it++) {
    size_t bs = 1 + r.below(40), nb = it < 3 ? it : r.below(5); Blocks b; std::string data, s; std::vector<size_t> at;
    for (size_t i = 0; i < nb; i++) b.push_back(r.str(i + 1 == nb ? 1 + r.below(bs) : bs));
    auto join = [&](const Blocks& x, bool end) { std::string q; for (size_t i = 0; i < x.size(); i++) q += blk(i, x[i]); return end ? q + blk(x.size(), "") : q; };
    for (auto& x : b) data += x; s = join(b, true);
    for (size_t i = 0; i < s.size(); i++) { bad("cut at " + std::to_string(i), s.substr(0, i), data, r);
      std::string t = s; t[i] ^= 1 << r.below(8); 
      bad("bit of byte " + std::to_string(i) + " flipped", t, data, r);
      if (r.one_in(6)) { t = s; t[i] = ~t[i]; bad("byte " + std::to_string(i) + " inverted", t, data, r); }
      if (r.one_in(6)) { t = s; t.erase(i, 1); if (t != s.substr(0, t.size())) bad("byte " + std::to_string(i) + " removed", t, data, r); }
      if (r.one_in(6)) { t = s; t.insert(i, 1, t[i] ^ 5); bad("byte inserted at " + std::to_string(i), t, data, r); } }
    for (size_t i = 0; i < nb; i++) { Blocks x;
      std::string q; for (size_t j = 0; j < nb; j++) if (j != i) q += blk(j, b[j]); q += blk(nb, ""); bad("block " + std::to_string(i) + " missing", q, data, r);
      q.clear(); for (size_t j = 0; j < nb; j++) { q += blk(j, b[j]); if (j == i) q += blk(j, b[j]); } q += blk(nb, ""); bad("block " + std::to_string(i) + " repeated", q, data, r);
      q.clear(); for (size_t j = 0; j < nb; j++) q += blk(j == i ? j + 1 : j, b[j]); q += blk(nb, ""); bad("block " + std::to_string(i) + " has the wrong index", q, data, r);
      q.clear(); for (size_t j = 0; j < nb; j++) { std::string z = blk(j, b[j]); if (j == i) z.replace(4, 32, std::string(32, 0)); q += z; } q += blk(nb, ""); bad("block " + std::to_string(i) + " has hash zero", q, data, r); }
    { std::string q = join(b, false); std::string e = blk(nb, ""); std::string z = e; z.replace(0, 4, le32(nb + 1)); bad("end block index", q + z, data, r);
      z = e; z.replace(4, 32, sha("")); bad("end block with the hash of nothing", q + z, data, r); bad("no end block", q, data, r);
      for (size_t k : {0, 1, 15, 30, 31}) { z = e; z[4 + k] = 1; bad("end block hash byte", q + z, data, r); } 
      for (uint32_t big : {0x7fffffffu, 0x80000000u, 0xffffffffu}) { z = blk(nb, "x"); z.replace(36, 4, le32(big)); bad("huge block size", q + z, data, r); } } }
  return rp::finish();
}
