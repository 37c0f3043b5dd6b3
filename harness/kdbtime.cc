#include "vf.hh"
#include "kdb.cc"
using namespace keepass;
extern "C" void h_pack() {
  std::time_t t = vf_i64("t");
  KdbTime k(t);
  vf_hook("packed", k.packed.data());
}
extern "C" void h_unpack() {
  KdbTime k;
  vf_bytes(k.packed.data(), 5, "p");
  std::time_t r = k.ToTime();
  vf_hook("unpacked", r);
}
extern "C" void h_round() {
  std::time_t t = vf_i64("t");
  KdbTime k(t);
  std::time_t r = k.ToTime();
  vf_hook("round", r);
}
