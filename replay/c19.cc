#include "rp.hh"
#include <algorithm>
#include "base64.hh"
#include "iterator.hh"
using namespace keepass;
template <class C> static void one(C proto, const std::string& data, int how) {
  static const char* names[] = {"prefix", "postfix", "copy", "base64", "move assignment"};
  size_t N = proto.size();
  rp::begin(std::string(names[how]) + " into " + std::to_string(N) + " bytes: " + rp::hex(data));
  // container in the middle of a heap object so that overruns are seen
  std::unique_ptr<C> d(new C(proto));
  std::string want(proto.begin(), proto.end());
  for (size_t i = 0; i < N && i < data.size(); i++) want[i] = data[i];
  bool thrown = false;
  try {
    auto it = bounds_checked(*d);
    if (how == 0) for (char c : data) { const uint8_t v = c; *it = v; ++it; }
    else if (how == 1) for (char c : data) *it++ = (uint8_t)c;
    else if (how == 2) { std::vector<uint8_t> s(data.begin(), data.end()); std::copy(s.begin(), s.end(), it); }
    else if (how == 3) base64_decode(base64_encode(data), it);
    else for (char c : data) { uint8_t v = c; *it = std::move(v); ++it; }
  } catch (std::out_of_range&) { thrown = true; }
  catch (std::exception& e) { rp::fail(std::string("wrong exception ") + e.what()); return; }
  rp::check(thrown == (data.size() > N), thrown ? "data that fits is refused" : "overlong data is accepted");
  rp::check(std::string(d->begin(), d->end()) == want, "stored bytes differ: " + rp::hexa(*d));
}
int main(int c, char** v) {
  rp::init(c, v);
  rp::Rng r(rp::seed());
  for (auto& ce : rp::ces()) if (ce.has("src")) for (int h = 0; h < 5; h++) { one(std::array<uint8_t, 16>{{0}}, ce.bytes("src"), h); one(std::array<uint8_t, 32>{{0}}, ce.bytes("src"), h); }
  for (int k = 0; k < rp::scale(); k++) for (size_t n = 0; n < 80; n++) for (int h = 0; h < 5; h++) {
    one(r.arr<std::array<uint8_t, 16>>(), r.str(n), h); one(r.arr<std::array<uint8_t, 32>>(), r.str(n), h);
    one(r.arr<std::array<uint8_t, 1>>(), r.str(n % 5), h); one(r.arr<std::array<uint8_t, 8>>(), r.str(n % 20), h);
    std::vector<uint8_t> w(r.below(65), 7); one(w, r.str(n), h);
  }
  return rp::finish();
}
