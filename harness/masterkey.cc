#include "vf.hh"
#include "key.cc"
using namespace keepass;
static void anykey(Key& k) {
  vf_bytes(k.key_.password_key_.data(), 32, "pwkey");
  vf_bytes(k.key_.keyfile_key_.data(), 32, "kfkey");
  k.key_.has_password_ = vf_bool("haspw");
  k.key_.has_keyfile_ = vf_bool("haskf");
}
extern "C" void h_setpw() {
  Key k; anykey(k); std::string pw; vf_string(&pw, "pw");
  k.SetPassword(pw);
  vf_hook("set", k.key_.password_key_.data(), k.key_.keyfile_key_.data(), k.key_.has_password_, k.key_.has_keyfile_);
}
extern "C" void h_ctor() {
  std::string pw; vf_string(&pw, "pw");
  Key k(pw);
  vf_hook("set", k.key_.password_key_.data(), k.key_.keyfile_key_.data(), k.key_.has_password_, k.key_.has_keyfile_);
}
extern "C" void h_empty() {
  Key k;
  vf_hook("empty", k.key_.password_key_.data(), k.key_.keyfile_key_.data(), k.key_.has_password_, k.key_.has_keyfile_);
}
extern "C" void h_transform(uint8_t mode) {
  Key k; anykey(k); std::array<uint8_t, 32> seed; vf_bytes(seed.data(), 32, "seed");
  uint64_t rounds = vf_u64("rounds");
  std::array<uint8_t, 32> r = k.Transform(seed, rounds, mode ? Key::SubKeyResolution::kHashSubKeys : Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey);
  vf_hook("transformed", r.data());
}
// contract of encrypt_ecb (proved by C06): each block of the source through the cipher on its own
namespace keepass { std::array<uint8_t, 32> contract_ecb(const std::array<uint8_t, 32>& src, const Cipher<16>& cipher) {
  std::array<uint8_t, 16> a, b, x, y; std::array<uint8_t, 32> r;
  for (int i = 0; i < 16; i++) { a[i] = src[i]; b[i] = src[16 + i]; }
  cipher.Encrypt(a, x); cipher.Encrypt(b, y);
  for (int i = 0; i < 16; i++) { r[i] = x[i]; r[16 + i] = y[i]; }
  return r;
} }
