#include "rp.hh"
#include "random.hh"
using namespace keepass;
typedef std::array<uint8_t, 32> K; typedef std::array<uint8_t, 8> N8;
// Salsa20/20 written from the published specification
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint32_t le(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void qr(uint32_t& y0, uint32_t& y1, uint32_t& y2, uint32_t& y3) { y1 ^= rol(y0 + y3, 7); y2 ^= rol(y1 + y0, 9); y3 ^= rol(y2 + y1, 13); y0 ^= rol(y3 + y2, 18); }
static void block(const uint8_t* key, const uint8_t* nonce, uint64_t ctr, uint8_t* out) {
  static const char* sg = "expand 32-byte k"; uint8_t in[64];
  memcpy(in, sg, 4); memcpy(in + 4, key, 16); memcpy(in + 20, sg + 4, 4); memcpy(in + 24, nonce, 8); for (int i = 0; i < 8; i++) in[32 + i] = ctr >> (8 * i);
  memcpy(in + 40, sg + 8, 4); memcpy(in + 44, key + 16, 16); memcpy(in + 60, sg + 12, 4);
  uint32_t x[16], z[16]; for (int i = 0; i < 16; i++) x[i] = z[i] = le(in + 4 * i);
  for (int r = 0; r < 10; r++) {
    qr(z[0], z[4], z[8], z[12]); qr(z[5], z[9], z[13], z[1]); qr(z[10], z[14], z[2], z[6]); qr(z[15], z[3], z[7], z[11]);
    qr(z[0], z[1], z[2], z[3]); qr(z[5], z[6], z[7], z[4]); qr(z[10], z[11], z[8], z[9]); qr(z[15], z[12], z[13], z[14]); }
  for (int i = 0; i < 16; i++) { uint32_t v = x[i] + z[i]; for (int k = 0; k < 4; k++) out[4 * i + k] = v >> (8 * k); } }
static std::string stream(const K& k, const N8& n, uint64_t from, size_t len) {
  std::string r; uint8_t b[64]; uint64_t c = from / 64; size_t o = from % 64;
  while (r.size() < len) { block(k.data(), n.data(), c++, b); while (o < 64 && r.size() < len) r.push_back((char)b[o++]); o = 0; }
  return r; }
static std::string xs(std::string a, const std::string& b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
static void one(const K& k, const N8& n, const std::string& data, const std::vector<size_t>& cuts, rp::Rng& r) {
  std::string d = "key " + rp::hexa(k) + " nonce " + rp::hexa(n) + " pieces"; for (size_t c : cuts) d += " " + std::to_string(c);
  rp::begin(d + " data " + rp::hex(data, 64));
  RandomObfuscator a(k, n), b(k, n); std::string out, back; size_t p = 0, q = 0;
  for (size_t c : cuts) {
    std::string piece = data.substr(p, c);
    if (r.flip()) { std::string o = a.Process(piece); rp::check(o.size() == piece.size(), "length of the result differs"); out += o; }
    else { std::vector<uint8_t> v(piece.begin(), piece.end()), o = a.Process(v); rp::check(o.size() == piece.size(), "length of the result differs"); out.append(o.begin(), o.end()); rp::check(std::string(v.begin(), v.end()) == piece, "input is modified"); }
    p += c; }
  if (!rp::check(out == xs(data, stream(k, n, 0, data.size())), "result is not the Salsa20 key stream")) return;
  while (q < out.size()) { size_t c = 1 + r.below(200); std::string o = b.Process(out.substr(q, c)); back += o; q += c; }
  rp::check(back == data, "an equally initialised stream does not restore the data"); }
int main(int argc, char** argv) {
  rp::init(argc, argv); rp::Rng r(rp::seed());
  for (size_t n = 0; n < 300; n++) { K k = r.arr<K>(); N8 v = r.arr<N8>(); one(k, v, r.str(n), {n}, r); }
  for (int it = 0; it < 400 * rp::scale(); it++) {
    K k; for (auto& x : k) x = r.next(); N8 v; for (auto& x : v) x = r.next(); if (r.one_in(3)) k = r.arr<K>();
    std::vector<size_t> cuts; size_t t = 0; int m = r.below(30);
    for (int i = 0; i < m; i++) { static const size_t sp[] = {0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 256}; size_t c = r.flip() ? sp[r.below(12)] : r.below(r.one_in(5) ? 3000 : 100); cuts.push_back(c); t += c; }
    one(k, v, r.str(t), cuts, r); }
  { K k = r.arr<K>(); N8 v = r.arr<N8>(); one(k, v, r.str(300000), {300000}, r); }
  // the block counter carries into its upper word (state prepared through the private members)
  for (int it = 0; it < 40; it++) { K k = r.arr<K>(); N8 v = r.arr<N8>(); uint64_t c = it < 10 ? 0xfffffffeull : it < 20 ? 0x1fffffffeull + it : r.next();
    rp::begin("key " + rp::hexa(k) + " nonce " + rp::hexa(v) + " block counter " + std::to_string(c));
    RandomObfuscator o(k, v); o.cipher_.input_[8] = (uint32_t)c; o.cipher_.input_[9] = c >> 32;
    std::string want; uint8_t b[64]; for (int i = 0; i < 4; i++) { block(k.data(), v.data(), c + i, b); want.append((char*)b, 64); }
    rp::check(o.Process(std::string(256, 0)) == want, "key stream differs where the block counter is " + std::to_string(c)); }
  for (int it = 0; it < 100; it++) { K k = r.arr<K>(); N8 v = r.arr<N8>(); rp::begin("cipher blocks, key " + rp::hexa(k) + " nonce " + rp::hexa(v)); Salsa20Cipher c(k, v);
    for (int i = 0; i < 5; i++) { std::array<uint8_t, 64> s = r.arr<std::array<uint8_t, 64>>(), d; c.Process(s, d); uint8_t b[64]; block(k.data(), v.data(), i, b); for (int j = 0; j < 64; j++) b[j] ^= s[j]; rp::check(!memcmp(b, d.data(), 64), "Salsa20 block " + std::to_string(i) + " differs"); } }
  return rp::finish();
}
