#include "vf.hh"
#include "kdbx.cc"
using namespace keepass;
static const KdbxFile& file() {
  static std::aligned_storage<sizeof(KdbxFile), alignof(KdbxFile)>::type s;
  return *reinterpret_cast<KdbxFile*>(&s);
}
extern "C" void h_parse() {
  std::string s;
  vf_string(&s, "text");
  std::time_t r = file().ParseDateTime(s.c_str());
  vf_hook("parsed", r);
}
extern "C" void h_write() {
  std::time_t t = vf_i64("t");
  std::string s = file().WriteDateTime(t);
  vf_hook("written", &s);
}
extern "C" void h_round() {
  std::time_t t = vf_i64("t");
  std::string s = file().WriteDateTime(t);
  std::time_t r = file().ParseDateTime(s.c_str());
  vf_hook("round", r);
}
