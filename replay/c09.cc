#include "rp.hh"
#include "key.hh"
#include "base64.hh"
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <openssl/sha.h>
using namespace keepass;
typedef std::array<uint8_t, 32> K;
static std::string sha(const std::string& s) { unsigned char o[32]; SHA256((const unsigned char*)s.data(), s.size(), o); return std::string((char*)o, 32); }
static std::string xf(std::string k, const K& seed, uint64_t n) { AES_KEY a; AES_set_encrypt_key(seed.data(), 256, &a);
  unsigned char b[32]; memcpy(b, k.data(), 32); for (uint64_t i = 0; i < n; i++) { AES_encrypt(b, b, &a); AES_encrypt(b + 16, b + 16, &a); } return sha(std::string((char*)b, 32)); }
static std::string comp(const std::string* pw, const std::string* kf, bool hashall) {
  std::string all; int n = 0; if (pw) { all += sha(*pw); n++; } if (kf) { all += *kf; n++; }
  if (hashall || n == 2) return sha(all); if (!n) return std::string(32, 0); return all; }
static void keyfile(const std::string& raw, int form) { std::ofstream f(rp::tmp() + "/kf", std::ios::binary);
  static const char* D = "0123456789abcdef"; static const char* U = "0123456789ABCDEF"; std::string hx; for (unsigned char c : raw) { const char* t = form & 2 ? D : U; hx.push_back(t[c >> 4]); hx.push_back(t[c & 15]); }
  if (form & 1) f << hx; else f << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>" << base64_encode(raw) << "</Data></Key></KeyFile>"; }
static void one(const std::string* pw, const std::string* kf, int order, const K& seed, uint64_t rounds, int form) {
  rp::begin(std::string("password ") + (pw ? rp::hex(*pw, 60) : "none") + " key file " + (kf ? rp::hex(*kf) : "none") + " order " + std::to_string(order) + " seed " + rp::hexa(seed) + " rounds " + std::to_string(rounds));
  try {
    Key k; if (pw && order == 2) k = Key(*pw);
    if (order == 1 && kf) { keyfile(*kf, form); k.SetKeyFile(rp::tmp() + "/kf"); }
    if (order == 3) { k.SetPassword("something else"); if (!pw) k = Key(); }
    if (pw && order != 2) k.SetPassword(*pw);
    if (order != 1 && kf) { keyfile(*kf, form); k.SetKeyFile(rp::tmp() + "/kf"); }
    for (int h = 0; h < 2; h++) {
      K got = k.Transform(seed, rounds, h ? Key::SubKeyResolution::kHashSubKeys : Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey);
      rp::check(rp::hexa(got) == rp::hex(xf(comp(pw, kf, h), seed, rounds)), std::string("transformed key differs from the specification, ") + (h ? "all components hashed (KDBX)" : "single component used as is (KDB)")); }
    // transforming is repeatable
    K a = k.Transform(seed, rounds, Key::SubKeyResolution::kHashSubKeys), b = k.Transform(seed, rounds, Key::SubKeyResolution::kHashSubKeys); rp::check(a == b, "not repeatable");
  } catch (std::exception& e) { rp::fail(std::string("throws ") + e.what()); } }
int main(int argc, char** argv) {
  rp::init(argc, argv); rp::Rng r(rp::seed());
  for (int it = 0; it < 900 * rp::scale(); it++) {
    static const size_t L[] = {0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 119, 128, 1000}; std::string pw = r.str(r.flip() ? L[r.below(14)] : r.below(80)), kf = r.str(32);
    if (r.one_in(8)) kf = std::string(32, 0);
    static const uint64_t R[] = {0, 1, 2, 3, 5, 6, 7, 15, 16, 17, 100, 255, 256, 257, 1000, 6000}; uint64_t n = r.flip() ? R[r.below(16)] : r.below(300);
    if (it == 17) n = 65535; if (it == 18) n = 65536; if (it == 19) n = 65537; if (it == 20) n = 200000; if (it == 21) n = 600001;
    int c = r.below(8); one(c == 0 ? nullptr : &pw, c == 1 || c == 0 || r.flip() ? (c == 0 && r.flip() ? nullptr : &kf) : nullptr, r.below(4), r.arr<K>(), n, r.below(4)); }
  return rp::finish();
}
