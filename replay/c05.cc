#include "db.hh"
using namespace db;
static S imp(const S& file, const K& k, bool fresh = true) { static KdbxFile shared; write(path(), file); std::unique_ptr<Database> d; S r = kind([&] { KdbxFile own; d = (fresh ? own : shared).Import(path(), k.key()); }); return r == "ok" && !d ? "null" : r; }
static uint64_t rounds_of(const S& g) { uint64_t v = 0; size_t p = 12; while (p + 3 <= g.size()) { int id = g[p]; size_t n = un(g, p + 1, 2); if (id == 6 && p + 11 <= g.size()) v = un(g, p + 3, 8); if (!id) break; p += 3 + n; } return v; }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R();
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int i = 0; i < 6; i++) { X f; f.key = some_key(); f.rounds = i; f.compress = i & 1; f.master = r.str(i == 2 ? 0 : i == 3 ? 300 : 32); f.seed = r.str(32); f.iv = r.str(16); f.inner = r.str(32); f.start = r.str(32); f.bs = i % 3 ? 100 : 1 << 20; S xml = doc(el("DatabaseName", "d"), el("Entry", el("String", el("Key", "Title") + el("Value", r.text(200)))).c_str()); 
      xml = doc(el("DatabaseName", "d"), el("Entry", el("UUID", b64(S(16, 'e')))));
      S file = f.file(xml); size_t hl = f.header().size(), body = file.size() - hl;
      rp::begin("genuine file " + std::to_string(i) + " key " + f.key.str()); S x = imp(file, f.key); if (!rp::check(x == "ok", "the right key is rejected: " + x)) continue;
      for (int j = 0; j < 40; j++) { K k = j < 20 ? f.key : some_key(); if (j < 20) { if (j == 0) k.password += "x"; else if (j == 1) k.pw = !k.pw; else if (j == 2) { k.kf = !k.kf; k.keyfile = r.str(32); } else if (j < 10 && k.kf) k.keyfile[r.below(32)] ^= 1 << r.below(8); else if (k.password.size()) k.password[r.below(k.password.size())] ^= 1; else k.password = "q"; } if (k.composite(true) == f.key.composite(true)) continue; rp::begin("other key " + k.str() + " for " + f.key.str()); S x = imp(file, k, r.flip()); rp::check(x == "password error", "a wrong key gives: " + x); }
      // any change in the header
      for (size_t p = 0; p < hl; p++) { S g = file; g[p] = (char)(g[p] ^ (1 << r.below(8))); rp::begin("file " + std::to_string(i) + " header byte " + std::to_string(p) + " of " + std::to_string(hl) + " is " + std::to_string((unsigned char)g[p])); if (rounds_of(g) > 100000) continue; S x = imp(g, f.key, r.flip()); rp::check(x != "ok" && x != "null", "an altered header opens"); }
      // headers that mean the same but have other bytes: only the hash tells
      for (int j = 0; j < 8; j++) { X g = f; g.custom = true; g.fields = {{2, S("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16)}, {3, le(f.compress, 4)}, {4, f.master}, {5, f.seed}, {6, le(f.rounds, 8)}, {7, f.iv}, {8, f.inner}, {9, f.start}, {10, le(2, 4)}, {0, ""}}; if (j == 0) std::swap(g.fields[0], g.fields[1]); else if (j == 1) g.fields[9].second = "\r\n\r\n"; else if (j == 2) g.fields.insert(g.fields.begin(), g.fields[4]); else if (j == 3) g.version = 0x00030000; else if (j == 4) g.version = 0x00020005; else if (j == 5) g.fields[1].second += S(1, 0); else if (j == 6) g.fields[0].second += "z"; else g.fields.erase(g.fields.begin());
        S sealed = g.header() + file.substr(hl); rp::begin("file " + std::to_string(i) + " equivalent header " + std::to_string(j)); S x = imp(sealed, f.key, r.flip()); rp::check(x == "format error", "a header that is not the one the contents record gives: " + x); x = imp(g.file(xml), f.key, r.flip()); rp::check(x == "ok" || j == 3 || j == 4, "a genuine file with an unusual header gives: " + x); }
      // recorded hashes
      for (int j = 0; j < 45; j++) { S h = sha(f.header()); if (j < 32) h[j] ^= 1 << r.below(8); else if (j == 32) h = S(32, 0); else if (j == 33) h = sha(""); else if (j == 34) h = sha(f.header().substr(0, hl - 1)); else if (j == 35) h = sha(f.header().substr(12)); else if (j == 36) h = h.substr(0, 31); else if (j == 37) h = ""; else if (j == 38) h = sha(file); else h[r.below(32)] ^= (char)(1 + r.below(255)); S y = xml; y.replace(y.find("%HASH%"), 6, b64(h)); rp::begin("recorded header hash " + rp::hex(h) + " for " + rp::hex(sha(f.header()))); S x = imp(f.file(y), f.key, r.flip()); rp::check(x == "format error", "another header hash gives: " + x); }
      { S y = xml; y.replace(y.find("<HeaderHash>%HASH%</HeaderHash>"), 31, ""); rp::begin("no header hash"); S x = imp(f.file(y), f.key, r.flip()); rp::check(x == "format error", "a missing header hash gives: " + x); }
      // start bytes
      S c = f.content(xml); for (int j = 0; j < 40; j++) { S d = c; if (j < 32) d[j] ^= 1 << r.below(8); else d = d.substr(0, j == 32 ? 0 : j == 33 ? 31 : j == 34 ? 1 : j); bool same = d.substr(0, 32) == f.start; if (same) continue; rp::begin("start bytes " + rp::hex(d, 32) + " for " + rp::hex(f.start)); S x = imp(f.seal(d), f.key, r.flip()); rp::check(x == "password error", "other start bytes give: " + x); }
      { rp::begin("exactly the start bytes"); S x = imp(f.seal(f.start), f.key); rp::check(x != "ok", "contents of only the start bytes open"); }
      // changes of the encrypted contents: CBC spreads them
      for (int j = 0; j < 80; j++) { S g = file; size_t p = hl + (j < 20 ? j * 2 : j < 40 ? body - 1 - j : r.below(body)); if (p >= file.size()) continue; g[p] = (char)(g[p] ^ (1 << r.below(8))); rp::begin("file " + std::to_string(i) + " content byte " + std::to_string(p - hl) + " changed"); S x = imp(g, f.key, r.flip()); rp::check(x != "ok" && x != "null", "altered contents open"); if (p < hl + 16) rp::check(x == "password error", "altered start bytes give: " + x); }
      for (size_t n : {(size_t)1, (size_t)15, (size_t)16, (size_t)32, body}) { if (n > body) continue; rp::begin("file " + std::to_string(i) + " cut by " + std::to_string(n)); S x = imp(file.substr(0, file.size() - n), f.key); rp::check(x != "ok" && x != "null", "truncated contents open"); }
    }
    // a used file object must not accept the hash of another file's header
    { X a, b; b.seed = S(32, 'T'); S y = doc(); y.replace(y.find("<HeaderHash>%HASH%</HeaderHash>"), 31, ""); KdbxFile f; write(path("a"), a.file(doc())); write(path("b"), a.file(y)); rp::begin("file without a header hash after a genuine one with the same header"); S x = kind([&] { f.Import(path("a"), a.key.key()); }); rp::check(x == "ok", "genuine file: " + x); x = kind([&] { f.Import(path("b"), a.key.key()); }); rp::check(x == "format error", "a file without header hash gives: " + x); }
  }
  return rp::finish(); }
