#include "vf.hh"
#include "cipher.cc"
namespace keepass {
void encrypt_ecb(std::istream& src, std::ostream& dst, const Cipher<16>& cipher);
void decrypt_ecb(std::istream& src, std::ostream& dst, const Cipher<16>& cipher);
}
using namespace keepass;
// an arbitrary block cipher
struct AnyCipher final : Cipher<16> {
  std::array<uint8_t, 16> iv;
  AnyCipher() { vf_bytes(iv.data(), 16, "iv"); }
  const std::array<uint8_t, 16>& InitializationVector() const override { return iv; }
  void Decrypt(const std::array<uint8_t, 16>& src, std::array<uint8_t, 16>& dst) const override { vf_blk_d(src.data(), dst.data()); }
  void Encrypt(const std::array<uint8_t, 16>& src, std::array<uint8_t, 16>& dst) const override { vf_blk_e(src.data(), dst.data()); }
};
extern "C" void h_cbc_enc() {
  AnyCipher c; std::stringstream src; std::stringstream dst;
  vf_istream(&src, "src@");
  encrypt_cbc(src, dst, c);
  std::string r = dst.str();
  vf_hook("done", &r);
}
extern "C" void h_cbc_dec() {
  AnyCipher c; std::stringstream src; std::stringstream dst;
  vf_istream(&src, "src@");
  decrypt_cbc(src, dst, c);
  std::string r = dst.str();
  vf_hook("done", &r);
}
extern "C" void h_ecb_enc() {
  AnyCipher c; std::array<uint8_t, 32> src;
  vf_bytes(src.data(), 32, "src");
  std::array<uint8_t, 32> r = encrypt_ecb(src, c);
  vf_hook("done", r.data());
}
extern "C" void h_ecb_dec() {
  AnyCipher c; std::array<uint8_t, 32> src;
  vf_bytes(src.data(), 32, "src");
  std::array<uint8_t, 32> r = decrypt_ecb(src, c);
  vf_hook("done", r.data());
}
extern "C" void h_cbc_sink() {
  AnyCipher c; std::stringstream src; std::stringstream dst;
  vf_istream(&src, "src@");
  std::ostream& d = dst;
  vf_hook("dst", &d);
  encrypt_cbc(src, d, c);
  vf_hook("sinkdone");
}
