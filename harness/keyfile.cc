#include "vf.hh"
#include "key.cc"
using namespace keepass;
extern "C" void h_keyfile() {
  Key k; std::string path;
  vf_bytes(k.key_.password_key_.data(), 32, "pwkey");
  vf_bytes(k.key_.keyfile_key_.data(), 32, "kfkey");
  k.key_.has_password_ = vf_bool("haspw");
  k.key_.has_keyfile_ = vf_bool("haskf");
  vf_string(&path, "path");
  vf_hook("pre", k.key_.password_key_.data(), k.key_.keyfile_key_.data(), &k.key_.has_password_, &k.key_.has_keyfile_);
  k.SetKeyFile(path);
  vf_hook("done");
}
