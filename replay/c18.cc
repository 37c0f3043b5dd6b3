#include "db.hh"
#include <sys/wait.h>
#include <csignal>
using namespace db;
// absent identifiers are random, so they are not compared (unless they show the pattern)
// fills the stack below with a pattern, so that uninitialised locals are visible
static __attribute__((noinline)) void dirty(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; }
static S sum(Database& d, bool kdb) { Dump x = kdb ? dump_kdb(d) : dump_kdbx(d); S s; for (auto& l : x.l) if (l.second.find("c3c3c3c3") != S::npos || l.second.find("5a5a5a5a") != S::npos || (l.first.find(".uuid") == S::npos && l.second.compare(0, 7, "foreign"))) s += l.first + "=" + l.second + "\n"; return s; }
template <class F> static void one(const S& file, const K& k, bool kdb) { write(path(), file); S res[2]; for (int i = 0; i < 2; i++) { std::unique_ptr<Database> d; dirty(i ? 0x5a : 0xc3); S x = kind([&] { F f; d = f.Import(path(), k.key()); }); rp::check(x != "unknown exception", "something that is no standard exception is thrown"); if (x == "ok" && !rp::check(!!d, "no database and no exception")) return; res[i] = x; if (d) { res[i] += "\n" + sum(*d, kdb); try { S q = path("again"); F f; if (d->root()) kdb ? void() : f.Export(q, *d, k.key()); } catch (std::exception&) {} } } 
  if (res[0] != res[1]) { size_t i = 0; while (i < res[0].size() && res[0][i] == res[1][i]) i++; size_t l = res[0].rfind('\n', i); rp::fail("the result depends on uninitialised data: " + res[0].substr(l + 1, 120) + " or " + res[1].substr(l + 1, 120)); } }
static void kdbf(const S& c, int ng, int ne, const S& what) { rp::begin("KDB " + what + " " + std::to_string(ng) + " groups " + std::to_string(ne) + " entries contents " + rp::hex(c, 600)); D f; f.rounds = 0; f.ng = ng; f.ne = ne; one<KdbFile>(f.file(c), K(), true); }
static void kdbxf(const S& xml, const S& what, bool z = false) { rp::begin("KDBX " + what + " " + (xml.size() > 2500 ? xml.substr(0, 2500) + "..." : xml)); X f; f.rounds = 0; f.compress = z; one<KdbxFile>(f.file(xml), K(), false); }
static S grp(uint32_t id, int lv) { return kdbrec(1, le(id, 4)) + kdbrec(2, S("g\0", 2)) + kdbrec(3, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(4, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(5, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(6, kdbtime(2999, 12, 28, 23, 59, 59)) + kdbrec(7, le(3, 4)) + kdbrec(8, le(lv, 2)) + kdbrec(9, le(1, 4)) + kdbrec(0xffff, ""); }
static S ent(uint32_t g) { return kdbrec(1, S(16, 'u')) + kdbrec(2, le(g, 4)) + kdbrec(3, le(1, 4)) + kdbrec(4, S("t\0", 2)) + kdbrec(5, S("u\0", 2)) + kdbrec(6, S("n\0", 2)) + kdbrec(7, S("p\0", 2)) + kdbrec(8, S("o\0", 2)) + kdbrec(9, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(10, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(11, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(12, kdbtime(2020, 1, 2, 3, 4, 5)) + kdbrec(13, S("a\0", 2)) + kdbrec(14, "data") + kdbrec(0xffff, ""); }
static S tpl() { S u = b64(S(16, 'e')), t = el("Times", el("CreationTime", "2020-01-02T03:04:05Z") + el("LastModificationTime", "2020-01-02T03:04:05Z") + el("LastAccessTime", "2020-01-02T03:04:05Z") + el("ExpiryTime", "2999-12-28T22:59:59Z") + el("LocationChanged", "2020-01-02T03:04:05Z") + el("Expires", "False") + el("UsageCount", "3"));
  auto e = [&](const S& more) { return el("Entry", el("UUID", u) + el("IconID", "4") + el("CustomIconUUID", b64(S(16, 'I'))) + el("ForegroundColor", "#1") + el("Tags", "a;b") + t + el("AutoType", el("Enabled", "True") + el("DataTransferObfuscation", "1") + el("DefaultSequence", "{x}") + el("Association", el("Window", "w") + el("KeystrokeSequence", "k"))) + el("String", el("Key", "Title") + el("Value", "title")) + el("String", el("Key", "Password") + "<Value Protected=\"True\">" + b64("abcdef") + "</Value>") + el("String", el("Key", "mine") + "<Value ProtectedInMemory=\"True\">v</Value>") + el("Binary", el("Key", "r") + "<Value Ref=\"1\"/>") + el("Binary", el("Key", "c") + "<Value Compressed=\"True\">" + b64(gz("compressed data")) + "</Value>") + el("Binary", el("Key", "p") + "<Value Protected=\"True\">" + b64("data") + "</Value>") + more); };
  return doc(el("DatabaseName", "n") + el("DatabaseNameChanged", "2020-01-02T03:04:05Z") + el("MaintenanceHistoryDays", "365") + el("MasterKeyChangeRec", "-1") + el("MemoryProtection", el("ProtectTitle", "True") + el("ProtectPassword", "False")) + el("CustomIcons", el("Icon", el("UUID", b64(S(16, 'I'))) + el("Data", b64("icon")))) + el("RecycleBinEnabled", "True") + el("RecycleBinUUID", b64(S(16, 'S'))) + el("EntryTemplatesGroup", b64(S(16, 'T'))) + el("HistoryMaxItems", "10") + el("HistoryMaxSize", "6291456") + el("LastSelectedGroup", b64(S(16, 'S'))) + el("LastTopVisibleGroup", b64(S(16, 'r'))) + el("Binaries", "<Binary ID=\"0\" Compressed=\"True\">" + b64(gz(S(5000, 'z'))) + "</Binary><Binary ID=\"1\" Protected=\"True\">" + b64("secret") + "</Binary>") + el("CustomData", el("Item", el("Key", "k") + el("Value", "v"))),
    el("IconID", "3") + el("CustomIconUUID", b64(S(16, 'I'))) + t + el("IsExpanded", "True") + el("EnableAutoType", "null") + el("LastTopVisibleEntry", u) + e(el("History", e(""))) + el("Group", el("UUID", b64(S(16, 'S'))) + el("Name", "sub") + t + e(""))); }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R(); setenv("TZ", "UTC", 1); tzset(); for (auto& c : rp::ces()) (void)c;
  for (int sc = 0; sc < rp::scale(); sc++) {
    // KDB: every field type with every small size, and with contents of every kind
    for (int g = 0; g < 2; g++) for (int t = 0; t <= 16; t++) for (int n = 0; n <= 18; n++) { S v = r.str(n); kdbf(g ? kdbrec(t, v) + grp(1, 0) + ent(1) : grp(1, 0) + kdbrec(t, v) + ent(1), 1, 1, "extra field " + std::to_string(t)); }
    for (int t : {0, 1, 2, 15, 100, 0xfffe}) for (uint32_t n : {5u, 0x10000u, 0x7fffffffu, 0xffffffffu, 0x80000000u}) { kdbf(le(t, 2) + le(n, 4) + S(4, 'x'), 1, 0, "oversized group field"); kdbf(grp(1, 0) + le(t, 2) + le(n, 4) + S(4, 'x'), 1, 1, "oversized entry field"); }
    { S c = grp(1, 0) + grp(2, 1) + ent(2); for (size_t n = 0; n < c.size(); n++) kdbf(c.substr(0, n), 2, 1, "cut"); kdbf(c, 3, 1, "too few groups"); kdbf(c, 2, 5, "too few entries"); kdbf(c, -1, 0, "2^32-1 groups"); kdbf(c, 2, -1, "2^32-1 entries"); kdbf(c, 1, 1, "too many groups"); kdbf(c, 0, 0, "none"); kdbf(c, 0, 1, "entry only"); kdbf("", 0, 0, "empty"); kdbf("", 1, 1, "empty"); }
    for (int i = 0; i < 1200; i++) { S c = grp(1, 0) + grp(2, 1) + ent(2) + ent(1); for (int j = 1 + r.below(3); j > 0; j--) { size_t p = r.below(c.size()); switch (r.below(4)) { case 0: c[p] = (char)r.byte(); break; case 1: c.erase(p, 1 + r.below(4)); break; case 2: c.insert(p, r.str(1 + r.below(4))); break; default: c[p] ^= 1 << r.below(8); } if (c.empty()) c = "x"; } kdbf(c, 2, 2, "mutated"); }
    for (int t = 3; t <= 6; t++) for (int i = 0; i < 60; i++) { S v = i < 8 ? S(5, (char)(i * 0x24)) : r.str(5); if (i >= 40) { v = kdbtime(1899 + r.below(20), r.below(16), r.below(32), r.below(32), r.below(64), r.below(64)); } kdbf(kdbrec(t, v) + grp(1, 0), 1, 0, "time stamp"); kdbf(grp(1, 0) + kdbrec(t + 6, v) + ent(1), 1, 1, "time stamp"); }
    for (int lv : {0, 1, 2, 255, 65535}) for (int l2 : {0, 1, 2, 3, 65535}) kdbf(grp(1, lv) + grp(2, l2), 2, 0, "levels"); kdbf(grp(1, 0) + grp(1, 0), 2, 0, "same number twice"); kdbf(grp(1, 0) + grp(2, 1) + grp(3, 2) + grp(4, 0) + grp(5, 2), 5, 0, "jump after return");
    { S a = kdbrec(14, "data") + kdbrec(0xffff, ""), b = kdbrec(13, S("n\0", 2)) + kdbrec(0xffff, ""), n0 = kdbrec(13, S(1, 0)) + kdbrec(14, "") + kdbrec(0xffff, ""), two = kdbrec(14, "a") + kdbrec(13, S("n\0", 2)) + kdbrec(14, "b") + kdbrec(2, le(1, 4)) + kdbrec(0xffff, ""); S g = kdbrec(2, le(1, 4)); kdbf(grp(1, 0) + g + a, 1, 1, "attachment data only"); kdbf(grp(1, 0) + g + b, 1, 1, "attachment name only"); kdbf(grp(1, 0) + g + n0, 1, 1, "empty attachment"); kdbf(grp(1, 0) + two, 1, 1, "data twice"); kdbf(grp(1, 0) + kdbrec(0xffff, ""), 1, 1, "empty entry"); kdbf(kdbrec(0xffff, ""), 1, 0, "empty group"); kdbf(kdbrec(2, "no terminator") + kdbrec(0xffff, ""), 1, 0, "unterminated"); kdbf(kdbrec(2, "") + kdbrec(0xffff, ""), 1, 0, "empty name"); kdbf(kdbrec(2, S("a\0b\0", 4)) + kdbrec(0xffff, ""), 1, 0, "terminator inside"); }
    // KDBX
    S T = tpl(); kdbxf(T, "template"); kdbxf(T, "template compressed", true);
    for (const char* x : {"", " ", "<", "<a/>", "<KeePassFile/>", "<KeePassFile><Meta/></KeePassFile>", "<KeePassFile><Root><Group/></Root></KeePassFile>", "<KeePassFile><Meta/><Root/></KeePassFile>", "<KeePassFile><Meta/><Root><Group/></Root></KeePassFile>", "<KeePassFile><Meta><HeaderHash>%HASH%</HeaderHash></Meta><Root><Group/></Root></KeePassFile>", "<KeePassFile>text<Meta><HeaderHash>%HASH%</HeaderHash></Meta><Root><Group><Entry/><Group/><Entry><History><Entry/></History><String/><Binary/><AutoType><Association/></AutoType><Times/></Entry></Group></Root></KeePassFile>", "\xff\xfe", "\x00\x00\xfe\xff", "<?xml version=\"1.0\" encoding=\"utf-16\"?><KeePassFile/>", "<!DOCTYPE a [<!ENTITY x \"y\">]><KeePassFile/>"}) { kdbxf(x, "document"); kdbxf(x, "document", true); }
    // each element removed, emptied, or given odd contents
    static const char* ODD[] = {"", " ", "=", "====", "A", "AA==", "AAA", "!!!!", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "2020-01-02T03:04:05", "2020-13-02T03:04:05Z", "99999999999-01-01T00:00:00Z", "-1", "99999999999999999999", "0x10", "True", "null", "&#0;", "&#x110000;", "<X/>", "<Value/>", "<Key/>", "\xff\xfe\x80"};
    for (size_t p = 0; (p = T.find('<', p)) != S::npos; p++) { if (T[p + 1] == '/' || T[p + 1] == '?') continue; size_t e = T.find_first_of(" >/", p + 1); S n = T.substr(p + 1, e - p - 1); size_t a = T.find('>', p) + 1; if (T[a - 2] == '/') continue; int depth = 1; size_t q = a; while (depth) { q = T.find('<', q); if (T[q + 1] == '/') depth--; else if (T[T.find('>', q) - 1] != '/') depth++; if (depth) q++; } size_t end = T.find('>', q) + 1; S d = T; d.erase(p, end - p); kdbxf(d, "without " + n); d = T; d.insert(end, T.substr(p, end - p)); kdbxf(d, "twice " + n); int k = q - a < 200 ? 3 : 2; for (int i = 0; i < k; i++) { d = T; S o = i == 0 ? "" : i == 1 ? ODD[1 + r.below(sizeof ODD / sizeof *ODD - 1)] : ODD[r.below(sizeof ODD / sizeof *ODD)]; d.replace(a, q - a, o); kdbxf(d, n + " is " + o); } }
    for (int i = 0; i < 500; i++) { S d = T; for (int j = 1 + r.below(3); j > 0; j--) { size_t p = r.below(d.size()); switch (r.below(5)) { case 0: d[p] = (char)r.byte(); break; case 1: d.erase(p, 1 + r.below(12)); break; case 2: d.insert(p, ODD[r.below(sizeof ODD / sizeof *ODD)]); break; case 3: { size_t a = r.below(d.size()), n = r.below(80); d.insert(p, d.substr(a, n)); break; } default: d[p] ^= 1 << r.below(8); } } kdbxf(d, "mutated", r.one_in(4)); }
    for (const char* id : {"", "0", "2", "99", "-1", "1x"}) { S d = T; size_t p = d.find("Ref=\"1\""); d.replace(p, 7, S("Ref=\"") + id + "\""); kdbxf(d, "reference to binary"); }
    for (int i = 0; i < 40; i++) { S z = gz(S(r.below(9000), 'q')); if (i) { if (i % 2) z[r.below(z.size())] ^= 1 << r.below(8); else z.resize(r.below(z.size())); } kdbxf(doc(el("Binaries", "<Binary ID=\"0\" Compressed=\"True\">" + b64(z) + "</Binary>")), "damaged compressed binary"); kdbxf(doc("", el("Entry", el("Binary", el("Key", "k") + "<Value Compressed=\"True\">" + b64(z) + "</Value>"))), "damaged compressed attachment"); }
    // damaged block stream and gzip stream under correct encryption
    for (int i = 0; i < 200; i++) { X f; f.rounds = 0; f.compress = i & 1; f.bs = i % 3 ? 64 : 1 << 20; S c = f.content(T); size_t p = 32 + (i < 60 ? i : r.below(c.size() - 32)); if (i % 4 == 3) c.resize(p); else c[p] ^= 1 << r.below(8); rp::begin("KDBX block stream damaged at " + std::to_string(p) + " case " + std::to_string(i)); one<KdbxFile>(f.seal(c), K(), false); }
    for (uint32_t n : {0xffffffffu, 0x7fffffffu, 0x40000000u}) { X f; f.rounds = 0; rp::begin("block length " + std::to_string(n)); one<KdbxFile>(f.seal(f.start + le(0, 4) + S(32, 'h') + le(n, 4) + "data"), K(), false); }
    for (int dep : {10, 50}) { S a, b; for (int i = 0; i < dep; i++) { a += "<Group>" + el("UUID", b64(S(16, (char)i))); b += "</Group>"; } kdbxf(doc("", a + b), "nested groups"); a = b = ""; for (int i = 0; i < dep; i++) { a += "<Entry><History>"; b += "</History></Entry>"; } kdbxf(doc("", a + b), "nested history"); }
    // nesting deeper than the stack, in a process of its own
    for (int m = 0; m < 2; m++) { int dep = 100000; S a, b; for (int i = 0; i < dep; i++) { a += m ? "<Entry><History>" : "<Group>"; b += m ? "</History></Entry>" : "</Group>"; } rp::begin(S(m ? "history" : "groups") + " nested 100000 levels"); X f; f.rounds = 0; f.compress = true; write(path(), f.file(doc("", a + b))); fflush(stdout); pid_t c = fork(); if (!c) { for (int s : {SIGSEGV, SIGABRT, SIGBUS}) signal(s, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); try { KdbxFile g; g.Import(path(), K().key()); } catch (std::exception&) {} _exit(0); } int st = 0; waitpid(c, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) rp::fail_known("F20", "importing deeply nested groups or entries overflows the stack"); }
  }
  return rp::finish(); }
