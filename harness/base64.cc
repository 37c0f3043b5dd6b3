#include "vf.hh"
#include "base64.hh"
using namespace keepass;
extern "C" void h_encode_string() {
  std::string src;
  vf_string(&src, "src");
  std::string dst = base64_encode(src.begin(), src.end());
  vf_hook("encoded", &dst);
}
extern "C" void h_encode_wrapper() {
  std::string src;
  vf_string(&src, "src");
  std::string dst = base64_encode(src);
  vf_hook("encoded", &dst);
}
extern "C" void h_encode_vector() {
  std::vector<uint8_t> src;
  vf_vector(&src, "src");
  std::string dst = base64_encode(src.begin(), src.end());
  vf_hook("encoded", &dst);
}
extern "C" void h_decode_string() {
  std::string src, dst;
  vf_string(&src, "src");
  base64_decode(src, std::back_inserter(dst));
  vf_hook("decoded", &dst);
}
