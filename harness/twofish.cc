#include "vf.hh"
#include "cipher.cc"
using namespace keepass;
static std::array<uint8_t, 32> zkey() { std::array<uint8_t, 32> k = {{0}}; return k; }
static TwofishCipher* obj() { return nullptr; }
extern "C" void h_f32(const TwofishCipher* c) {
  uint32_t x = vf_u32("x"); uint32_t k[4]; for (int i = 0; i < 4; i++) k[i] = 0;
  k[0] = vf_u32("k0"); k[1] = vf_u32("k1"); k[2] = vf_u32("k2"); k[3] = vf_u32("k3");
  std::array<uint8_t, 32> key = zkey(); TwofishCipher t(key);
  uint32_t r = t.F32(x, k);
  vf_hook("f32", r, k);
}
extern "C" void h_rs() {
  std::array<uint8_t, 32> key = zkey(); TwofishCipher t(key);
  uint32_t a = vf_u32("k0"), b = vf_u32("k1");
  uint32_t r = t.ReedSolomonEncode(a, b);
  vf_hook("rs", r);
}
extern "C" void h_key() {
  std::array<uint8_t, 32> key; vf_bytes(key.data(), 32, "key");
  std::array<uint8_t, 16> iv; vf_bytes(iv.data(), 16, "iv");
  TwofishCipher t(key, iv);
  vf_hook("key", t.key_.sbox_keys, t.key_.sub_keys, t.InitializationVector().data());
}
static void anykey(TwofishCipher& t) { vf_bytes(t.key_.sbox_keys, 16, "S"); vf_bytes(t.key_.sub_keys, 160, "K"); }
extern "C" void h_enc() {
  std::array<uint8_t, 32> key = zkey(); TwofishCipher t(key); anykey(t);
  std::array<uint8_t, 16> p, c; vf_bytes(p.data(), 16, "p");
  t.Encrypt(p, c); vf_hook("enc", c.data(), p.data());
}
extern "C" void h_round() {
  std::array<uint8_t, 32> key = zkey(); TwofishCipher t(key); anykey(t);
  std::array<uint8_t, 16> p, c, d; vf_bytes(p.data(), 16, "p");
  t.Encrypt(p, c); t.Decrypt(c, d); vf_hook("round", d.data());
}
extern "C" void h_round2() {
  std::array<uint8_t, 32> key = zkey(); TwofishCipher t(key); anykey(t);
  std::array<uint8_t, 16> p, c, d; vf_bytes(p.data(), 16, "p");
  t.Decrypt(p, c); t.Encrypt(c, d); vf_hook("round", d.data());
}
