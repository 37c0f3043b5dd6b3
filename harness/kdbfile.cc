#include "vf.hh"
#include "kdb.cc"
using namespace keepass;
alignas(16) static unsigned char key_mem[256];
extern "C" void h_kdb_import() {
  std::string path;
  vf_string(&path, "path");
  const Key& key = *reinterpret_cast<const Key*>(key_mem);
  KdbFile f;
  vf_hook("pre", &key);
  std::unique_ptr<Database> db = f.Import(path, key);
  Database* p = db.release();
  vf_hook("imported", p);
}
alignas(16) static unsigned char db_mem[sizeof(Database)];
extern "C" void h_kdb_export() {
  std::string path;
  vf_string(&path, "path");
  const Key& key = *reinterpret_cast<const Key*>(key_mem);
  Database* db = new (db_mem) Database();
  std::array<uint8_t, 32> a;
  vf_bytes(a.data(), 32, "ts"); db->set_transform_seed(a);
  std::array<uint8_t, 16> b;
  vf_bytes(b.data(), 16, "iv"); db->set_init_vector(b);
  vf_bytes(b.data(), 16, "seed"); db->set_master_seed(b);
  db->set_transform_rounds(vf_u64("rounds"));
  db->set_cipher(vf_bool("twofish") ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  std::shared_ptr<Group> root = std::make_shared<Group>();
  std::shared_ptr<Group> g = std::make_shared<Group>();
  root->AddGroup(g);
  g->AddEntry(std::make_shared<Entry>());
  db->set_root(root);
  KdbFile f;
  vf_hook("pre", &key);
  f.Export(path, *db, key);
  vf_hook("exported");
}
// trees for whole-file round trips: icons number the groups and entries
static std::shared_ptr<Group> rt_root;
static std::shared_ptr<Group> rt_group(uint32_t k) { std::shared_ptr<Group> g = std::make_shared<Group>(); g->set_icon(k); return g; }
static std::shared_ptr<Entry> rt_entry(uint32_t k) { std::shared_ptr<Entry> e = std::make_shared<Entry>(); e->set_icon(k); return e; }
extern "C" void h_new_group(std::shared_ptr<Group>* out, uint32_t k) { new (out) std::shared_ptr<Group>(rt_group(k)); }
extern "C" void h_new_entry(std::shared_ptr<Entry>* out, uint32_t k) { new (out) std::shared_ptr<Entry>(rt_entry(k)); }
extern "C" uint32_t h_icon_group(const Group* g) { return g->icon(); }
extern "C" uint32_t h_icon_entry(const Entry* e) { return e->icon(); }
static void rt_same(const std::shared_ptr<Group>& a, const std::shared_ptr<Group>& b) {
  vf_assert(a->Groups().size() == b->Groups().size(), "each group has its subgroups");
  vf_assert(a->Entries().size() == b->Entries().size(), "each group has its entries");
  for (std::size_t i = 0; i < a->Entries().size(); i++) vf_assert(a->Entries()[i]->icon() == b->Entries()[i]->icon(), "entries are in their order");
  for (std::size_t i = 0; i < a->Groups().size(); i++) {
    vf_assert(a->Groups()[i]->icon() == b->Groups()[i]->icon(), "groups are in their order");
    rt_same(a->Groups()[i], b->Groups()[i]);
  }
}
extern "C" void h_kdb_rt(uint64_t parents, uint64_t ng, uint64_t owners, uint64_t ne) {
  std::string path;
  vf_string(&path, "path");
  const Key& key = *reinterpret_cast<const Key*>(key_mem);
  Database* db = new (db_mem) Database();
  std::array<uint8_t, 32> a;
  vf_bytes(a.data(), 32, "ts"); db->set_transform_seed(a);
  std::array<uint8_t, 16> b;
  vf_bytes(b.data(), 16, "iv"); db->set_init_vector(b);
  vf_bytes(b.data(), 16, "seed"); db->set_master_seed(b);
  db->set_transform_rounds(vf_u64("rounds"));
  db->set_cipher(vf_bool("twofish") ? Database::Cipher::kTwofish : Database::Cipher::kAes);
  std::shared_ptr<Group> root = std::make_shared<Group>();
  std::vector<std::shared_ptr<Group>> all;
  all.push_back(root);
  for (uint64_t i = 0; i < ng; i++) { std::shared_ptr<Group> g = rt_group(i + 1); all[parents >> 4 * i & 15]->AddGroup(g); all.push_back(g); }
  for (uint64_t i = 0; i < ne; i++) all[owners >> 4 * i & 15]->AddEntry(rt_entry(i + 1));
  db->set_root(root);
  KdbFile f;
  vf_hook("pre", &key);
  f.Export(path, *db, key);
  vf_hook("exported");
  std::unique_ptr<Database> r = f.Import(path, key);
  vf_hook("imported", r->master_seed().data(), r->master_seed().size(), r->init_vector().data(), r->transform_seed().data(), r->transform_rounds(), static_cast<uint64_t>(r->cipher()));
  rt_same(root, r->root());
  vf_hook("compared");
}
extern "C" void h_kdb_check(Database* db, uint64_t parents, uint64_t ng, uint64_t owners, uint64_t ne) {
  std::shared_ptr<Group> root = std::make_shared<Group>();
  std::vector<std::shared_ptr<Group>> all;
  all.push_back(root);
  for (uint64_t i = 0; i < ng; i++) { std::shared_ptr<Group> g = rt_group(i + 1); all[parents >> 4 * i & 15]->AddGroup(g); all.push_back(g); }
  for (uint64_t i = 0; i < ne; i++) all[owners >> 4 * i & 15]->AddEntry(rt_entry(i + 1));
  rt_same(root, db->root());
}
