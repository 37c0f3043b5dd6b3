#include "vf.hh"
#include "stream.cc"
using namespace keepass;
// the state of a reader between two calls: anything the invariant allows
extern "C" void h_gunder(uint8_t fresh) {
  std::stringstream src; vf_istream(&src, "src@");
  gzip_istreambuf b(src);
  vf_split(b.input_.data(), b.input_.size(), "ibuf");
  vf_split(b.output_.data(), b.output_.size(), "obuf");
  if (!fresh) {
    b.z_stream_.avail_in = vf_u32("avail");
    std::size_t off = vf_u64("ioff");
    vf_assume(b.z_stream_.avail_in <= b.input_.size() && off <= b.input_.size() - b.z_stream_.avail_in);
    b.z_stream_.next_in = reinterpret_cast<uint8_t*>(b.input_.data()) + off;
    b.z_stream_.avail_out = vf_u32("aout");
    b.end_of_stream_ = vf_bool("eos");
    std::size_t n = vf_u64("on"), g = vf_u64("og");
    vf_assume(n <= b.output_.size() && g <= n);
    b.setg(b.output_.data(), b.output_.data() + g, b.output_.data() + n);
  }
  vf_hook("pre", &b, &b.z_stream_, b.input_.data(), b.output_.data(), &b.end_of_stream_, static_cast<std::istream*>(&src));
  int r = b.underflow();
  vf_hook("got", r, b.eback(), b.gptr(), b.egptr());
}
extern "C" void h_gover() {
  std::stringstream dst;
  gzip_ostreambuf b(dst);
  vf_vector(&b.buffer_, "buf");
  int c = static_cast<int>(vf_u32("c"));
  vf_hook("pre", &b.z_stream_, &b.buffer_, c, &dst);
  int r = b.overflow(c);
  vf_hook("overflowed", r, b.buffer_.data(), b.buffer_.size());
}
extern "C" void h_gsync() {
  std::stringstream dst;
  gzip_ostreambuf b(dst);
  vf_vector(&b.buffer_, "buf");
  vf_hook("pre", &b.z_stream_, &b.buffer_, 0, &dst);
  int r = b.sync();
  vf_hook("synced", r, b.buffer_.size());
}
