#include "vf.hh"
#include "kdbx.cc"
using namespace keepass;
alignas(16) static unsigned char key_mem[256];
alignas(16) static unsigned char db_mem[sizeof(Database)];
alignas(16) static unsigned char file_mem[sizeof(KdbxFile)];
// an object in whatever state an earlier operation left it
alignas(16) static unsigned char fresh_mem[sizeof(KdbxFile)];
static void stale(KdbxFile* f) {
  KdbxFile* fresh = new (fresh_mem) KdbxFile();
  vf_hook("fresh", fresh->header_hash_.data());
  vf_bytes(f->header_hash_.data(), 32, "oldhash");
  vf_hook("pools", &f->binary_pool_, &f->icon_pool_, &f->group_pool_);
}
extern "C" void h_kdbx_import() {
  std::string path;
  vf_string(&path, "path");
  const Key& key = *reinterpret_cast<const Key*>(key_mem);
  KdbxFile* f = new (file_mem) KdbxFile();
  stale(f);
  vf_hook("pre", &key, f->header_hash_.data());
  std::unique_ptr<Database> db = f->Import(path, key);
  Database* p = db.release();
  vf_hook("imported", p);
}
extern "C" void h_db_layout(Database* d) {
  vf_hook("layout", &d->master_seed_, d->transform_seed_.data(), &d->transform_rounds_, d->init_vector_.data(), d->inner_random_stream_key_.data(), &d->compress_, &d->cipher_);
}
extern "C" void h_kdbx_export() {
  std::string path;
  vf_string(&path, "path");
  const Key& key = *reinterpret_cast<const Key*>(key_mem);
  KdbxFile* f = new (file_mem) KdbxFile();
  stale(f);
  Database* db = new (db_mem) Database();
  vf_hook("db", db);
  std::array<uint8_t, 32> a;
  vf_bytes(a.data(), 32, "ts"); db->set_transform_seed(a);
  vf_bytes(a.data(), 32, "irs"); db->set_inner_random_stream_key(a);
  std::array<uint8_t, 16> b;
  vf_bytes(b.data(), 16, "iv"); db->set_init_vector(b);
  vf_vector(&db->master_seed_, "ms");
  db->set_transform_rounds(vf_u64("rounds"));
  db->set_compress(vf_bool("comp"));
  vf_hook("pre", &key, f->header_hash_.data());
  f->Export(path, *db, key);
  vf_hook("exported");
}
