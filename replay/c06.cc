#include "rp.hh"
#include "cipher.hh"
#include "exception.hh"
using namespace keepass;
typedef std::array<uint8_t, 16> B;
static std::string str(const B& b) { return std::string((const char*)b.data(), 16); }
// independent references: AES through the OpenSSL block functions, and a toy permutation
struct Ref { virtual ~Ref() {} virtual B enc(const B&) const = 0; virtual B dec(const B&) const = 0; };
struct RefAes : Ref { AES_KEY e, d; RefAes(const std::array<uint8_t, 32>& k) { AES_set_encrypt_key(k.data(), 256, &e); AES_set_decrypt_key(k.data(), 256, &d); }
  B enc(const B& x) const override { B y; AES_encrypt(x.data(), y.data(), &e); return y; }
  B dec(const B& x) const override { B y; AES_decrypt(x.data(), y.data(), &d); return y; } };
struct RefToy : Ref { uint8_t a, r; RefToy(uint8_t a, uint8_t r) : a(a), r(r % 16) {}
  B enc(const B& x) const override { B y; for (int i = 0; i < 16; i++) y[(i + r) % 16] = (uint8_t)((x[i] ^ (a + i)) + 7 * i + a); return y; }
  B dec(const B& x) const override { B y; for (int i = 0; i < 16; i++) y[i] = (uint8_t)(x[(i + r) % 16] - 7 * i - a) ^ (uint8_t)(a + i); return y; } };
struct Toy final : Cipher<16> { RefToy t; B iv; Toy(uint8_t a, uint8_t r, const B& iv) : t(a, r), iv(iv) {}
  const B& InitializationVector() const override { return iv; }
  void Decrypt(const B& s, B& d) const override { B x = s; d = t.dec(x); }
  void Encrypt(const B& s, B& d) const override { B x = s; d = t.enc(x); } };
static std::string ref_cbc(const std::string& p, const Ref& c, const B& iv) {
  std::string in = p; size_t n = 16 - p.size() % 16; in.append(n, (char)n);
  std::string out; B prv = iv;
  for (size_t i = 0; i < in.size(); i += 16) { B x; for (int k = 0; k < 16; k++) x[k] = (uint8_t)in[i + k] ^ prv[k]; prv = c.enc(x); out += str(prv); }
  return out; }
// false: the reference says it must be rejected
static bool ref_uncbc(const std::string& ct, const Ref& c, const B& iv, std::string& out) {
  out.clear(); if (ct.size() % 16) return false; if (ct.empty()) return false;
  B prv = iv;
  for (size_t i = 0; i < ct.size(); i += 16) { B x; memcpy(x.data(), &ct[i], 16); B y = c.dec(x); for (int k = 0; k < 16; k++) out.push_back((char)(y[k] ^ prv[k])); prv = x; }
  unsigned n = (uint8_t)out.back(); if (!n || n > 16) return false;
  for (unsigned k = 1; k <= n; k++) if ((uint8_t)out[out.size() - k] != n) return false;
  out.resize(out.size() - n); return true; }
static std::string run(const std::string& in, size_t skip, const Cipher<16>& c, bool enc, bool& err) {
  std::stringstream src(std::string(skip, 'x') + in), dst; src.seekg(skip); err = false;
  try { if (enc) encrypt_cbc(src, dst, c); else decrypt_cbc(src, dst, c); } catch (std::exception&) { err = true; }
  return dst.str(); }
static void one(const std::string& p, size_t skip, const Ref& ref, const Cipher<16>& c, const std::string& d) {
  rp::begin("cbc " + d + " iv " + rp::hexa(c.InitializationVector()) + " start " + std::to_string(skip) + " length " + std::to_string(p.size()) + " plaintext " + rp::hex(p));
  bool err; std::string want = ref_cbc(p, ref, c.InitializationVector());
  std::string ct = run(p, skip, c, true, err);
  rp::check(!err, "CBC encryption throws");
  if (!rp::check(ct == want, "ciphertext is not the standard CBC/PKCS#7 ciphertext: " + rp::hex(ct))) return;
  std::string back = run(ct, skip, c, false, err);
  rp::check(!err, "decryption of a valid ciphertext fails");
  rp::check(err || back == p, "decryption does not return the original: " + rp::hex(back)); }
static void dec(const std::string& ct, size_t skip, const Ref& ref, const Cipher<16>& c, const std::string& d) {
  rp::begin("cbc decrypt " + d + " iv " + rp::hexa(c.InitializationVector()) + " start " + std::to_string(skip) + " ciphertext " + rp::hex(ct));
  std::string want; bool ok = ref_uncbc(ct, ref, c.InitializationVector(), want), err;
  std::string got = run(ct, skip, c, false, err);
  if (ok) { rp::check(!err, "decryption of a valid ciphertext fails"); rp::check(err || got == want, "wrong plaintext: " + rp::hex(got)); }
  else rp::check(err, ct.size() % 16 ? "input that is no whole number of blocks is accepted" : "invalid padding is accepted"); }
// a ciphertext whose plaintext ends in the given final block
static std::string craft(const std::string& head, const B& last, const Ref& c, const B& iv) {
  std::string out; B prv = iv; std::string in = head; in.resize(head.size() / 16 * 16); in += str(last);
  for (size_t i = 0; i < in.size(); i += 16) { B x; for (int k = 0; k < 16; k++) x[k] = (uint8_t)in[i + k] ^ prv[k]; prv = c.enc(x); out += str(prv); }
  return out; }
int main(int argc, char** argv) {
  rp::init(argc, argv); rp::Rng r(rp::seed());
  for (int it = 0; it < 12 * rp::scale(); it++) {
    std::array<uint8_t, 32> key = r.arr<std::array<uint8_t, 32>>(); B iv = r.arr<B>();
    AesCipher aes(key, iv); RefAes raes(key); uint8_t ta = r.byte(), tr = r.below(16); Toy toy(ta, tr, iv); RefToy rtoy(ta, tr);
    for (int w = 0; w < 2; w++) {
      const Ref& ref = w ? (const Ref&)rtoy : (const Ref&)raes; const Cipher<16>& c = w ? (const Cipher<16>&)toy : (const Cipher<16>&)aes;
      std::string d = w ? "toy cipher" : "AES key " + rp::hexa(key);
      if (it < 2) for (size_t n = 0; n < 100; n++) one(r.str(n), 0, ref, c, d);
      for (int k = 0; k < 20; k++) { size_t n = r.size(70000); if (r.flip()) n = n % 1100; one(r.one_in(3) ? std::string(n, (char)r.below(17)) : r.str(n), r.one_in(3) ? r.below(40) : 0, ref, c, d); }
      for (size_t n = 0; n < 50; n++) dec(r.str(n), r.one_in(4) ? r.below(20) : 0, ref, c, d);
      // every padding length with each kind of damage
      for (unsigned p = 0; p < 256; p = p < 40 ? p + 1 : p + 13) {
        std::string head = r.str(16 * r.below(4));
        B last; for (auto& x : last) x = r.byte(); for (unsigned k = 0; k < p && k < 16; k++) last[15 - k] = p;
        last[15] = p; dec(craft(head, last, ref, iv), 0, ref, c, d);
        if (p >= 2 && p <= 16) for (unsigned k = 1; k < p; k++) { B l2 = last; l2[15 - k] ^= 1 << r.below(8); dec(craft(head, l2, ref, iv), 0, ref, c, d); }
        if (p && p < 16) { B l2 = last; l2[15 - p] = p; dec(craft(head, l2, ref, iv), 0, ref, c, d); } }
      for (int k = 0; k < 8; k++) {
        std::array<uint8_t, 32> in = r.arr<std::array<uint8_t, 32>>();
        if (k == 1) memcpy(&in[16], &in[0], 16);
        rp::begin("ecb " + d + " input " + rp::hexa(in));
        try {
          B a, b; memcpy(a.data(), &in[0], 16); memcpy(b.data(), &in[16], 16);
          rp::check(rp::hexa(encrypt_ecb(in, c)) == rp::hexa(ref.enc(a)) + rp::hexa(ref.enc(b)), "ECB encryption differs");
          rp::check(rp::hexa(decrypt_ecb(in, c)) == rp::hexa(ref.dec(a)) + rp::hexa(ref.dec(b)), "ECB decryption differs");
        } catch (std::exception& e) { rp::fail(std::string("ECB throws ") + e.what()); } } } }
  return rp::finish();
}
