#include "vf.hh"
#include "stream.cc"
using namespace keepass;
extern "C" void h_overflow() {
  std::stringstream dst; uint32_t bs = vf_u32("bs");
  hashed_ostreambuf b(dst, bs);
  vf_vector(&b.block_, "blk"); b.block_index_ = vf_u32("index");
  int c = static_cast<int>(vf_u32("c"));
  vf_hook("pre", b.block_.size(), c, bs);
  int r = b.overflow(c);
  bool good = dst.good();
  std::string out = dst.str();
  vf_hook("overflowed", r, b.block_.data(), b.block_.size(), b.block_index_, &out, good, c, bs);
}
extern "C" void h_sync() {
  std::stringstream dst; uint32_t bs = vf_u32("bs");
  hashed_ostreambuf b(dst, bs);
  vf_vector(&b.block_, "blk"); b.block_index_ = vf_u32("index");
  vf_hook("pre", b.block_.size(), 0, bs);
  int r = b.sync();
  bool good = dst.good();
  std::string out = dst.str();
  vf_hook("synced", r, b.block_.size(), b.block_index_, &out, good);
}
extern "C" void h_ctor() {
  std::stringstream dst; uint32_t bs = vf_u32("bs");
  hashed_ostreambuf b(dst, bs); hashed_ostreambuf d(dst); hashed_istreambuf s(dst);
  vf_hook("made", b.block_.size(), b.block_index_, b.block_size_, d.block_.size(), d.block_index_, d.block_size_, s.block_index_, s.end_of_stream_);
}
extern "C" void h_underflow(uint8_t empty) {
  std::stringstream src; vf_istream(&src, "src@");
  hashed_istreambuf b(src);
  vf_vector(&b.block_, "blk"); b.block_index_ = vf_u32("index"); b.end_of_stream_ = vf_bool("eos");
  std::size_t pos = vf_u64("gpos");
  vf_assume(pos <= b.block_.size()); vf_assume((pos == b.block_.size()) == (empty != 0));
  b.setg(b.block_.data(), b.block_.data() + pos, b.block_.data() + b.block_.size());
  int r = b.underflow();
  vf_hook("got", r, b.eback(), b.gptr(), b.egptr(), b.block_index_, b.end_of_stream_, static_cast<uint64_t>(src.tellg()));
}
// one whole block through the writer, back through the reader
extern "C" void h_block() {
  std::stringstream dst; hashed_ostreambuf w(dst, 0);
  vf_vector(&w.block_, "blk"); w.block_index_ = vf_u32("index");
  vf_hook("pre", w.block_.size(), 0, 0);
  int ok = w.sync();
  std::string out = dst.str();
  std::stringstream src(out);
  hashed_istreambuf r(src); r.block_index_ = vf_u32("index");
  int c = r.underflow();
  vf_hook("back", ok, c, r.gptr(), r.egptr());
  r.setg(nullptr, nullptr, nullptr);
  vf_hook("back2", r.underflow(), r.underflow());
}
