#include "db.hh"
using namespace db;
// one operation: import a prepared file, or export a database; the result is what a caller can observe
struct Op { S name, file; K key; std::shared_ptr<Database> d; };
static S strip(const S& x) { size_t a = x.find("<HeaderHash>"), b = x.find("</HeaderHash>"); return a == S::npos || b == S::npos ? x : x.substr(0, a) + x.substr(b); }
static S flat(const Dump& d) { S s; for (auto& l : d.l) s += l.first + "=" + l.second + "\n"; return s; }
template <class File> static S run(File& f, const Op& o, bool kdb) { S p = path("o"); if (!o.d) { write(p, o.file); std::unique_ptr<Database> d; S k = kind([&] { d = f.Import(o.name == "missing" ? "/nonexistent/x" : p, o.key.key()); }); return k != "ok" ? k : d ? "ok\n" + flat(kdb ? dump_kdb(*d) : dump_kdbx(*d)) : "null"; }
  S k = kind([&] { f.Export(o.name == "unwritable" ? "/nonexistent/x" : p, *o.d, o.key.key()); }); if (k != "ok") return k; S raw = read(p); if (kdb) return "ok " + raw; try { XD x = decode_kdbx(raw, o.key); return "ok\n" + strip(x.xml) + (x.xml.find(b64(sha(x.header))) != S::npos ? " hash right" : " hash wrong"); } catch (std::exception& e) { return S("undecodable ") + e.what(); } }
static S diff(const S& a, const S& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t l = i > 60 ? i - 60 : 0; return "\"" + a.substr(l, 160) + "\" fresh, \"" + b.substr(l, 160) + "\" reused"; }
template <class File> static void seq(const std::vector<Op>& ops, bool kdb, int len, int n) { rp::Rng& r = R(); for (int i = 0; i < n; i++) { File used; S ds; for (int j = 0; j < len; j++) { const Op& o = ops[i < (int)(ops.size() * ops.size()) && j < 2 ? (j ? i % ops.size() : i / ops.size()) : r.below(ops.size())]; ds += (j ? ", " : "") + o.name; rp::begin(S(kdb ? "KDB" : "KDBX") + " operations on one object: " + ds); File fresh; S a = run(fresh, o, kdb), b = run(used, o, kdb); rp::check(a == b, "the result differs from a fresh object's: " + diff(a, b)); } } }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R(); setenv("TZ", "UTC", 1); tzset();
  for (int sc = 0; sc < rp::scale(); sc++) {
    std::vector<Op> ops; auto add = [&](const S& n, const S& f, const K& k = K()) { ops.push_back(Op{n, f, k, nullptr}); };
    S icon = el("CustomIcons", el("Icon", el("UUID", b64(S(16, 'I'))) + el("Data", b64("icon")))), bin = el("Binaries", "<Binary ID=\"0\">" + b64("first") + "</Binary><Binary ID=\"1\">" + b64("second") + "</Binary>"), bin2 = el("Binaries", "<Binary ID=\"0\">" + b64("other") + "</Binary><Binary ID=\"7\">" + b64("seven") + "</Binary>");
    auto ent = [&](const S& more) { return el("Entry", el("UUID", b64(S(16, 'e'))) + more); }; auto ref = [&](const S& id) { return el("Binary", el("Key", "att") + "<Value Ref=\"" + id + "\"/>"); }; S ci = el("CustomIconUUID", b64(S(16, 'I'))); S sub = el("Group", el("UUID", b64(S(16, 'S'))) + el("Name", "sub")); auto rec = [&](const char* n, char c) { return el(n, b64(S(16, c))); };
    X f; f.rounds = 1; X g = f; g.compress = true; g.start = S(32, 'z'); X h = f; h.seed = S(32, 'y');
    add("full file", f.file(doc(icon + bin + el("RecycleBinEnabled", "True") + rec("RecycleBinUUID", 'S') + rec("EntryTemplatesGroup", 'S') + rec("LastSelectedGroup", 'S') + rec("LastTopVisibleGroup", 'S'), ci + ent(ref("0") + ref("1") + ci) + sub)));
    add("other binaries", g.file(doc(bin2, ent(ref("0") + ref("7"))))); add("reference to a missing binary", f.file(doc("", ent(ref("0"))))); add("reference to binary 1 only", f.file(doc(el("Binaries", "<Binary ID=\"0\">" + b64("x") + "</Binary>"), ent(ref("1"))))); add("icon not defined", f.file(doc("", ci + ent(ci)))); add("references to groups not in the tree", f.file(doc(el("RecycleBinEnabled", "True") + rec("RecycleBinUUID", 'S') + rec("EntryTemplatesGroup", 'S') + rec("LastSelectedGroup", 'S') + rec("LastTopVisibleGroup", 'S'), ent(""))));
    { S y = doc(); y.replace(y.find("<HeaderHash>%HASH%</HeaderHash>"), 31, ""); add("no header hash", f.file(y)); y = doc(); y.replace(y.find("%HASH%"), 6, ""); add("empty header hash", f.file(y)); y = doc(); y.replace(y.find("%HASH%"), 6, b64(sha(f.header()).substr(0, 16))); add("half a header hash", f.file(y)); y = doc(); y.replace(y.find("%HASH%"), 6, b64(sha(h.header()))); add("hash of another header", f.file(y)); add("plain file with that header", h.file(doc())); add("plain file", f.file(doc())); }
    add("broken XML", f.file("<KeePassFile><Meta>" + el("HeaderHash", "%HASH%") + bin)); add("fails in the tree", f.file(doc(icon + bin, sub + ent(ref("9"))))); add("truncated", f.file(doc()).substr(0, 300)); add("no file", ""); add("missing", ""); { K k; k.password = "other"; add("wrong password", f.file(doc(bin)), k); }
    for (int i = 0; i < 4; i++) { std::shared_ptr<Database> d(kdbx(Cfg{1, 2, 2, 2}).release()); ops.push_back(Op{"export of database " + std::to_string(i), "", K(), d}); if (i == 0) { // shares the binaries of database 0, but does not list them
        std::shared_ptr<Database> e(kdbx(Cfg{0, 0, 0, 0}).release()); d->meta()->AddBinary(std::make_shared<Binary>(protect<S>("shared", false))); auto en = std::make_shared<Entry>(); for (auto& b : d->meta()->binaries()) { auto a = std::make_shared<Entry::Attachment>(); a->set_name("n"); a->set_binary(b); en->AddAttachment(a); } e->root()->AddEntry(en); auto ic = std::make_shared<Icon>(uuid(), std::vector<uint8_t>{1, 2}); d->meta()->AddIcon(ic); en->set_custom_icon(ic); ops.push_back(Op{"export of a database sharing the binaries of database 0", "", K(), e}); } }
    ops.push_back(Op{"unwritable", "", K(), ops.back().d});
    seq<KdbxFile>(ops, false, 2, ops.size() * ops.size()); seq<KdbxFile>(ops, false, 8, 30);
    // an imported database must be independent of the object that read it
    for (int i = 0; i < 6; i++) { KdbxFile one; write(path("a"), ops[0].file); std::unique_ptr<Database> a, b; rp::begin("database kept while the object is used again, " + ops[i].name); S x = kind([&] { a = one.Import(path("a"), K().key()); }); if (!a) continue; S before = flat(dump_kdbx(*a)); run(one, ops[r.below(ops.size())], false); rp::check(flat(dump_kdbx(*a)) == before, "a later operation changed an earlier result"); }
    // KDB
    ops.clear(); auto kf = [&](const S& c, int ng, int ne) { D d; d.rounds = 1; d.ng = ng; d.ne = ne; return d.file(c); }; add("two groups", kf(kdbgroup(1, 0) + kdbgroup(2, 1) + kdbentry(2), 2, 1)); add("entry in group 1", kf(kdbgroup(3, 0) + kdbentry(1), 1, 1)); add("level 1 first", kf(kdbgroup(1, 1), 1, 0)); add("one group", kf(kdbgroup(1, 0), 1, 0)); add("truncated", kf(kdbgroup(1, 0), 1, 0).substr(0, 130)); add("missing", ""); add("bad record", kf(kdbrec(99, ""), 1, 0)); for (int i = 0; i < 3; i++) ops.push_back(Op{"export of database " + std::to_string(i), "", K(), std::shared_ptr<Database>(kdb(Cfg{2, 2, 2, 0}).release())});
    seq<KdbFile>(ops, true, 2, ops.size() * ops.size()); seq<KdbFile>(ops, true, 8, 20);
  }
  return rp::finish(); }
