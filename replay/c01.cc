#include "db.hh"
using namespace db;
static int N = 0;
static void trip(Database& d, const K& k, const S& what, bool reuse) {
  static KdbxFile shared; KdbxFile own; KdbxFile& f = reuse ? shared : own;
  S p = path(); Dump want = dump_kdbx(d); S kd = kind([&] { f.Export(p, d, k.key()); });
  if (!rp::check(kd == "ok", "export fails: " + kd)) return;
  Dump after = dump_kdbx(d); rp::check(differ(want, after) == "", "exporting changed the database: " + differ(want, after));
  std::unique_ptr<Database> e; KdbxFile g; kd = kind([&] { e = (reuse ? f : g).Import(p, k.key()); });
  if (!rp::check(kd == "ok" && e, "import of the exported file fails: " + kd)) return;
  S x = differ(want, dump_kdbx(*e)); rp::check(x.empty(), "not preserved: " + x);
  // a second generation, from the imported database
  if (N++ % 4 == 0) { std::unique_ptr<Database> e2; kd = kind([&] { KdbxFile h; h.Export(p, *e, k.key()); KdbxFile h2; e2 = h2.Import(p, k.key()); }); if (rp::check(kd == "ok", "second export and import fails: " + kd)) { x = differ(want, dump_kdbx(*e2)); rp::check(x.empty(), "not preserved in the second generation: " + x); } } }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R();
  for (int sc = 0; sc < rp::scale(); sc++) {
    accessors(sc);
    for (int i = 0; i < 130; i++) { uint64_t s0 = r.s; Cfg c; if (i < 40) c = Cfg{0, 0, 1, 1}; else if (i < 80) c = Cfg{1, 2, 1, 2}; else if (i % 40 == 0) c = Cfg{6, 2, 1, 1}; auto d = kdbx(c); K k = some_key(); rp::begin("random database " + std::to_string(i) + " generator state " + std::to_string(s0) + " key " + k.str()); trip(*d, k, "random", r.flip()); }
    // every text that XML treats specially, in an unprotected field of its own
    static const char* T[] = {"a\rb", "a\r\nb", "a\nb", "a\tb", "a  b", "<b>", "&lt;", "]]>", "\"'", "\xc2\x85x", "\xe2\x80\xa8y", "%HASH%", "True", "2999-12-28T22:59:59Z", "\xef\xbf\xbd", "a\x01" "b", "a\x1f" "b", "\x7f"};
    for (const char* t : T) { auto d = kdbx(Cfg{0, 0, 0, 0}); auto e = std::make_shared<Entry>(); e->set_title(protect<S>(t, false)); e->set_notes(protect<S>(t, true)); e->set_tags(t); d->root()->AddEntry(e); d->root()->set_notes(t); rp::begin("text " + rp::hex(t)); trip(*d, K(), t, false); }
    for (const char* t : {" x", "x ", "\nx", "x\n", " ", "\n", "\t", "\r", "x\r", "\rx"}) { auto d = kdbx(Cfg{0, 0, 0, 0}); auto e = std::make_shared<Entry>(); e->set_notes(protect<S>(t, false)); e->set_title(protect<S>(t, true)); d->root()->AddEntry(e); rp::begin("unprotected text with white space at its edge " + rp::hex(t)); K k; std::unique_ptr<Database> o; S kd = kind([&] { KdbxFile f; f.Export(path(), *d, k.key()); KdbxFile g; o = g.Import(path(), k.key()); });
      if (!rp::check(kd == "ok" && o && o->root()->Entries().size() == 1, "export and import fails: " + kd)) continue; auto& q = *o->root()->Entries()[0]; rp::check(*q.title() == t, "protected text is not preserved"); if (*q.notes() != t) rp::fail_known("F19", "white space at the edge of an unprotected text is not preserved"); }
    // every flag and number on its own
    for (int i = 0; i < 40; i++) { auto d = kdbx(Cfg{1, 1, 1, 1}); auto m = d->meta(); m->memory_protection().set_title(i == 0); m->memory_protection().set_username(i == 1); m->memory_protection().set_password(i == 2); m->memory_protection().set_url(i == 3); m->memory_protection().set_notes(i == 4); d->root()->set_expires(i == 5); d->root()->set_expanded(i == 6); d->root()->set_autotype(i == 7); d->root()->set_search(i == 8); auto e = entry(m.get(), Cfg{0, 0, 0, 0}, false); e->set_expires(i == 9); e->auto_type().set_enabled(i == 10); e->set_title(protect<S>("a", i == 11)); e->set_url(protect<S>("b", i == 12)); e->set_username(protect<S>("c", i == 13)); e->set_password(protect<S>("d", i == 14)); e->set_notes(protect<S>("e", i == 15)); S kk = "f"; e->AddCustomField(kk, protect<S>("g", i == 16)); d->root()->AddEntry(e); if (i == 17) m->set_recycle_bin(d->root()); if (i == 18) d->root()->set_last_visible_entry(e); rp::begin("single flag " + std::to_string(i) + " case " + std::to_string(sc)); trip(*d, K(), "", true); }
    // an entry and its group with one identifier, with and without a last visible entry
    for (int i = 0; i < 3; i++) { auto d = kdbx(Cfg{0, 0, 0, 0}); auto g = d->root(); for (int k = 0; k < 2; k++) { auto e = entry(d->meta().get(), Cfg{0, 0, 0, 0}, false); if (!k) e->set_uuid(g->uuid()); g->AddEntry(e); } if (i) g->set_last_visible_entry(g->Entries()[i - 1]); rp::begin("entry with the identifier of its group " + std::to_string(i) + " case " + std::to_string(sc)); trip(*d, K(), "", true); }
    // the 'never' second, and a leap day
    // many binaries, groups and entries sharing identifiers
    { auto d = kdbx(Cfg{0, 0, 0, 0}); auto m = d->meta(); for (int i = 0; i < 25; i++) m->AddBinary(std::make_shared<Binary>(protect<S>("binary " + std::to_string(i / 2), i % 3 == 0))); for (int i = 24; i >= 0; i--) { auto e = std::make_shared<Entry>(); auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(m->binaries()[i]); e->AddAttachment(a); d->root()->AddEntry(e); } d->root()->set_last_visible_entry(d->root()->Entries()[20]); rp::begin("25 binaries"); trip(*d, K(), "", false); }
    { auto d = kdbx(Cfg{0, 0, 0, 0}); auto g = d->root(); for (int i = 0; i < 60; i++) { auto n = group(d->meta().get(), Cfg{0, 0, 1, 0}, 0); g->AddGroup(n); g = n; } d->meta()->set_recycle_bin(g); d->meta()->set_last_selected_group(g); rp::begin("60 nested groups"); trip(*d, K(), "", false); }
    { auto d = kdbx(Cfg{0, 0, 0, 0}); S big; for (int i = 0; i < 1500000; i++) big.push_back((char)('a' + r.below(26))); auto e = std::make_shared<Entry>(); e->set_notes(protect<S>(big, false)); d->root()->AddEntry(e); d->set_compress(sc & 1); rp::begin("1.5 MB text"); trip(*d, K(), "", false); d->set_compress(true); rp::begin("1.5 MB text, compressed"); trip(*d, K(), "", false); }
  }
  return rp::finish(); }
