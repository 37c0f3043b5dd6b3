#include "vf.hh"
#include <algorithm>
#include "base64.hh"
#include "iterator.hh"
using namespace keepass;
// data of any length written one byte at a time through the iterator
template <std::size_t N> static void pre() {
  std::vector<uint8_t> src;
  vf_vector(&src, "src");
  std::array<uint8_t, N> dst;
  vf_bytes(dst.data(), N, "old");
  try {
    auto it = bounds_checked(dst);
    for (uint8_t c : src) { *it = c; ++it; }
    vf_hook("done", dst.data(), N);
  } catch (const std::out_of_range&) { vf_hook("full", dst.data(), N); }
}
template <std::size_t N> static void post() {
  std::vector<uint8_t> src;
  vf_vector(&src, "src");
  std::array<uint8_t, N> dst;
  vf_bytes(dst.data(), N, "old");
  try {
    auto it = bounds_checked(dst);
    for (const uint8_t& c : src) *it++ = c;
    vf_hook("done", dst.data(), N);
  } catch (const std::out_of_range&) { vf_hook("full", dst.data(), N); }
}
template <std::size_t N> static void move() {
  std::vector<uint8_t> src;
  vf_vector(&src, "src");
  std::array<uint8_t, N> dst;
  vf_bytes(dst.data(), N, "old");
  try {
    auto it = bounds_checked(dst);
    for (uint8_t c : src) { *it = static_cast<uint8_t>(c); ++it; }
    vf_hook("done", dst.data(), N);
  } catch (const std::out_of_range&) { vf_hook("full", dst.data(), N); }
}
template <std::size_t N> static void copy() {
  std::vector<uint8_t> src;
  vf_vector(&src, "src");
  std::array<uint8_t, N> dst;
  vf_bytes(dst.data(), N, "old");
  try {
    std::copy(src.begin(), src.end(), bounds_checked(dst));
    vf_hook("done", dst.data(), N);
  } catch (const std::out_of_range&) { vf_hook("full", dst.data(), N); }
}
template <std::size_t N> static void decode() {
  std::string src;
  vf_string(&src, "src");
  std::array<uint8_t, N> dst;
  vf_bytes(dst.data(), N, "old");
  try {
    base64_decode(src, bounds_checked(dst));
    vf_hook("done", dst.data(), N);
  } catch (const std::out_of_range&) { vf_hook("full", dst.data(), N); }
}
extern "C" void h_pre16() { pre<16>(); }
extern "C" void h_pre32() { pre<32>(); }
extern "C" void h_post16() { post<16>(); }
extern "C" void h_post32() { post<32>(); }
extern "C" void h_move16() { move<16>(); }
extern "C" void h_move32() { move<32>(); }
extern "C" void h_copy16() { copy<16>(); }
extern "C" void h_copy32() { copy<32>(); }
extern "C" void h_decode16() { decode<16>(); }
extern "C" void h_decode32() { decode<32>(); }
