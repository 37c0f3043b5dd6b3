#include "db.hh"
using namespace db;
static void trip(Database& d, const K& k, bool reuse, S* raw = 0) {
  static KdbFile shared; KdbFile own, imp; KdbFile& f = reuse ? shared : own; S p = path(); Dump want = dump_kdb(d);
  S kd = kind([&] { f.Export(p, d, k.key()); }); if (!rp::check(kd == "ok", "export fails: " + kd)) return;
  rp::check(differ(want, dump_kdb(d)) == "", "exporting changed the database");
  std::unique_ptr<Database> e; kd = kind([&] { e = (reuse ? f : imp).Import(p, k.key()); }); if (!rp::check(kd == "ok" && e, "import of the exported file fails: " + kd)) return;
  S x = differ(want, dump_kdb(*e)); rp::check(x.empty(), "not preserved: " + x); if (raw) *raw = read(p); }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R(); static const char* Z[] = {"UTC", "XYZ-5:30", "ABC8"};
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int b = 0; b < 2; b++) { Entry e; Group g; accessors_kdb(sc, e, g, b); }
    for (int i = 0; i < 300; i++) { setenv("TZ", Z[i % 3], 1); tzset(); uint64_t s0 = r.s; Cfg c = i < 80 ? Cfg{0, 1, 1, 0} : i % 30 == 0 ? Cfg{12, 2, 1, 0} : Cfg{4, 3, 3, 0}; auto d = kdb(c); K k = some_key(); rp::begin("random database " + std::to_string(i) + " generator state " + std::to_string(s0) + " key " + k.str()); trip(*d, k, r.flip()); }
    setenv("TZ", "UTC", 1); tzset();
    // shapes: every level list of up to 6 groups
    for (int n = 1; n <= 6; n++) { std::vector<int> lv(n, 0); for (;;) { bool ok = lv[0] == 0; for (int i = 1; i < n && ok; i++) ok = lv[i] <= lv[i - 1] + 1; if (ok) { std::unique_ptr<Database> d(new Database()); auto root = std::make_shared<Group>(); std::vector<std::shared_ptr<Group>> st; S ds; for (int i = 0; i < n; i++) { auto g = std::make_shared<Group>(); g->set_name("g" + std::to_string(i)); if (i % 2) { auto e = std::make_shared<Entry>(); e->set_title(protect<S>("e" + std::to_string(i), false)); g->AddEntry(e); } st.resize(lv[i]); (lv[i] ? st[lv[i] - 1] : root)->AddGroup(g); st.push_back(g); ds += std::to_string(lv[i]); } d->set_root(root); d->set_master_seed(r.arr<U>()); d->set_transform_rounds(1); rp::begin("levels " + ds); trip(*d, K(), false); }
        int q = n - 1; while (q >= 0 && ++lv[q] == n) lv[q--] = 0; if (q < 0) break; } }
    for (int size : {0, 1, 1023, 1024, 1025, 65535, 65536, 65537, 300000}) { std::unique_ptr<Database> d(new Database()); auto root = std::make_shared<Group>(), g = std::make_shared<Group>(); root->AddGroup(g); d->set_root(root); d->set_master_seed(r.arr<U>()); d->set_transform_rounds(1); auto e = std::make_shared<Entry>(); S s; for (int i = 0; i < size; i++) s.push_back((char)(1 + r.below(255))); e->set_notes(protect<S>(s, false)); auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(std::make_shared<Binary>(protect<S>(r.str(size), false))); e->AddAttachment(a); g->AddEntry(e); g->set_name(s); d->set_cipher(size & 1 ? Database::Cipher::kTwofish : Database::Cipher::kAes); rp::begin("strings and attachment of " + std::to_string(size) + " bytes"); trip(*d, K(), false); }
    for (uint64_t rounds : {0ull, 1ull, 6000ull}) { auto d = kdb(); d->set_transform_rounds(rounds); rp::begin("rounds " + std::to_string(rounds)); trip(*d, some_key(), false); }
    { auto d = kdb(); d->set_transform_rounds(1ull << 32); rp::begin("rounds 2^32"); S kd = kind([&] { KdbFile f; f.Export(path(), *d, K().key()); }); rp::check(kd != "ok", "a round count that does not fit is exported"); }
    { std::unique_ptr<Database> d(new Database()); auto root = std::make_shared<Group>(); for (int i = 0; i < 700; i++) { auto g = std::make_shared<Group>(); g->set_name(std::to_string(i)); if (i % 100 == 7) g->AddEntry(kdb_entry()); root->AddGroup(g); } d->set_root(root); d->set_master_seed(r.arr<U>()); d->set_transform_rounds(1); rp::begin("700 groups"); trip(*d, K(), false); }
    // the exported file as an independent reader sees it
    for (int i = 0; i < 20; i++) { auto d = kdb(); d->set_cipher(Database::Cipher::kAes); K k = some_key(); S raw; rp::begin("exported file, case " + std::to_string(i)); trip(*d, k, false, &raw); if (raw.size() < 124) continue; S c; try { c = cbc(k.final_key(false, raw.substr(16, 16), raw.substr(88, 32), un(raw, 120, 4)), raw.substr(32, 16), raw.substr(124), false); } catch (std::exception&) { rp::fail("exported contents do not decrypt"); continue; } rp::check(sha(c) == raw.substr(56, 32), "exported content hash is not the SHA-256 of the contents"); }
  }
  return rp::finish(); }
