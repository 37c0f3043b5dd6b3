#include "vf.hh"
#include "random.cc"
using namespace keepass;
// cipher state after construction
extern "C" void h_ctor() {
  std::array<uint8_t, 32> key; std::array<uint8_t, 8> iv;
  vf_bytes(key.data(), 32, "key"); vf_bytes(iv.data(), 8, "iv");
  Salsa20Cipher c(key, iv);
  vf_hook("state", c.input_.data());
}
extern "C" void h_block() {
  std::array<uint8_t, 32> key = {{0}}; std::array<uint8_t, 8> iv = {{0}};
  Salsa20Cipher c(key, iv);
  vf_bytes(c.input_.data(), 64, "state");
  std::array<uint8_t, 64> src, dst; vf_bytes(src.data(), 64, "src");
  c.Process(src, dst);
  vf_hook("block", dst.data(), c.input_.data(), src.data());
}
extern "C" void h_obf_ctor() {
  std::array<uint8_t, 32> key; std::array<uint8_t, 8> iv;
  vf_bytes(key.data(), 32, "key"); vf_bytes(iv.data(), 8, "iv");
  RandomObfuscator o(key, iv);
  vf_hook("fresh", o.cipher_.input_.data(), &o.buffer_pos_);
}
extern "C" void h_obf_string() {
  std::array<uint8_t, 32> key = {{0}}; std::array<uint8_t, 8> iv = {{0}};
  RandomObfuscator o(key, iv);
  vf_hook("init", o.cipher_.input_.data(), o.buffer_.data(), &o.buffer_pos_);
  std::string d; vf_string(&d, "data");
  std::string r = o.Process(d);
  vf_hook("done", &r, &d, o.cipher_.input_.data(), o.buffer_.data(), &o.buffer_pos_);
}
extern "C" void h_obf_vector() {
  std::array<uint8_t, 32> key = {{0}}; std::array<uint8_t, 8> iv = {{0}};
  RandomObfuscator o(key, iv);
  vf_hook("init", o.cipher_.input_.data(), o.buffer_.data(), &o.buffer_pos_);
  std::vector<uint8_t> d; vf_vector(&d, "data");
  std::vector<uint8_t> r = o.Process(d);
  vf_hook("done", &r, &d, o.cipher_.input_.data(), o.buffer_.data(), &o.buffer_pos_);
}
