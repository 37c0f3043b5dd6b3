#include "db.hh"
using namespace db;
static S imp(const S& file, const K& k) { write(path(), file); std::unique_ptr<Database> d; S r = kind([&] { KdbFile f; d = f.Import(path(), k.key()); }); return r == "ok" && !d ? "null" : r; }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R(); setenv("TZ", "UTC", 1);
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int i = 0; i < 6; i++) { D f; f.key = some_key(); f.rounds = i; f.ng = 2; f.ne = 1; f.master = r.str(16); f.iv = r.str(16); f.seed = r.str(32); S c = kdbgroup(1, 0) + kdbgroup(2, 1, S(r.below(40), 'n')) + kdbentry(2, S(r.below(3000), 't')); S file = f.file(c);
      rp::begin("genuine file " + std::to_string(i) + " key " + f.key.str()); S x = imp(file, f.key); rp::check(x == "ok", "the right key is rejected: " + x);
      // other keys
      for (int j = 0; j < 40; j++) { K k = j < 20 ? f.key : some_key(); if (j < 20) { if (j == 0) k.password += "x"; else if (j == 1) { k.pw = !k.pw; } else if (j == 2) { k.kf = !k.kf; k.keyfile = r.str(32); } else if (j < 10 && k.kf) k.keyfile[r.below(32)] ^= 1 << r.below(8); else if (k.password.size()) k.password[r.below(k.password.size())] ^= 1; else k.password = "q"; } if (k.composite(false) == f.key.composite(false)) continue; rp::begin("other key " + k.str() + " for " + f.key.str()); S x = imp(file, k); rp::check(x == "password error", "a wrong key gives: " + x); }
      // changes anywhere in the contents and in the parameters that determine them
      size_t body = file.size() - 124; for (int j = 0; j < 150; j++) { S g = file; size_t p = 124 + (j < 48 ? (j < 24 ? j * 2 % body : body - 1 - (j - 24) * 2 % body) : r.below(body)); unsigned char v = j % 5 == 0 ? 0 : (unsigned char)(1 << r.below(8)); if (!v) v = 1 + r.below(255); g[p] = (char)(g[p] ^ v); rp::begin("file " + std::to_string(i) + " byte " + std::to_string(p) + " xor " + std::to_string(v)); S x = imp(g, f.key); rp::check(x == "password error", "altered contents give: " + x); }
      for (size_t p = 16; p < 124; p++) { if (p >= 48 && p < 56) continue; S g = file; g[p] = (char)(g[p] ^ (1 << r.below(8))); if (p >= 121 || (!f.rounds && p >= 88 && p < 120)) continue; rp::begin("file " + std::to_string(i) + " header byte " + std::to_string(p)); S x = imp(g, f.key); rp::check(x == "password error", "an altered seed, vector, hash or round count gives: " + x); }
      for (int cut = 0; cut < 40; cut++) { size_t n = cut < 34 ? cut : r.below(body); rp::begin("file " + std::to_string(i) + " cut by " + std::to_string(n)); if (!n) continue; S x = imp(file.substr(0, file.size() - n), f.key); rp::check(x == "password error", "truncated contents give: " + x); }
      for (int n : {1, 2, 15, 16, 17, 32, 48}) { rp::begin("file " + std::to_string(i) + " with " + std::to_string(n) + " bytes appended"); S x = imp(file + r.str(n), f.key); rp::check(x == "password error", "appended bytes give: " + x); }
      for (int n : {0, 1, 2, 3, 4}) { size_t b = body / 16; if (b < 3) break; S g = file; size_t a1 = 124 + 16 * r.below(b), a2 = 124 + 16 * r.below(b); if (g.substr(a1, 16) == g.substr(a2, 16)) continue; S t = g.substr(a1, 16); g.replace(a1, 16, g.substr(a2, 16)); g.replace(a2, 16, t); rp::begin("file " + std::to_string(i) + " blocks " + std::to_string(a1) + " and " + std::to_string(a2) + " swapped " + std::to_string(n)); S x = imp(g, f.key); rp::check(x == "password error", "swapped blocks give: " + x); }
      // contents that decrypt correctly but are not those the header records
      for (int j = 0; j < 60; j++) { D g = f; S h = sha(c); if (j < 32) h[j] ^= 1 << r.below(8); else if (j == 32) h = S(32, 0); else if (j == 33) h = sha(""); else if (j == 34) h = sha(c.substr(0, c.size() - 1)); else if (j == 35) h = sha(c.substr(0, c.size() / 1024 * 1024)); else if (j == 36) h = sha(c + S(1, 0)); else { size_t p = r.below(32); h[p] ^= (char)(1 + r.below(255)); size_t q = r.below(32); if (q != p) h[q] = 0; } if (h == sha(c)) continue; g.hash = h; rp::begin("recorded hash " + rp::hex(h) + " for contents with hash " + rp::hex(sha(c))); S x = imp(g.file(c), f.key); rp::check(x == "password error", "contents with another hash give: " + x); }
      // a hash with a zero byte: all bytes count
      for (int j = 0, found = 0; j < 300 && found < 4; j++) { S c2 = kdbgroup(1, 0, "z" + std::to_string(j)) + kdbgroup(2, 1) + kdbentry(2, r.str(9)); S h = sha(c2); size_t z = h.find('\0'); if (z >= 31) continue; found++; for (size_t p = z + 1; p < 32; p++) { D g = f; S hh = h; hh[p] ^= 1 << r.below(8); g.hash = hh; rp::begin("recorded hash " + rp::hex(hh) + " for contents with hash " + rp::hex(h)); S x = imp(g.file(c2), f.key); rp::check(x == "password error", "contents with another hash give: " + x); } }
      // bad padding, hash of whatever is left after it
      for (int pv = 0; pv < 40; pv++) { if (pv >= 1 && pv <= 16) continue; S z = c + S(16 - c.size() % 16, (char)(pv < 20 ? pv : r.below(239) + 17)); for (int h = 0; h < 3; h++) { D g = f; g.hash = h == 0 ? sha(c) : h == 1 ? sha(z) : sha(""); S x = g.header(c) + cbc(g.fk(), g.iv, z, true, false); rp::begin("padding value " + std::to_string((unsigned char)z.back()) + " hash of " + std::to_string(h)); S y = imp(x, f.key); rp::check(y == "password error", "invalid padding gives: " + y); } }
      for (int pv = 2; pv <= 16; pv++) { S z = S(16 - pv, 'a') + S(pv, (char)pv); z[16 - pv + r.below(pv - 1)] ^= 1 + r.below(255); S body2 = S(16, 'b') + z; D g = f; g.hash = sha(body2.substr(0, 32 - pv)); S x = g.header(c) + cbc(g.fk(), g.iv, body2, true, false); rp::begin("inconsistent padding of " + std::to_string(pv) + " bytes"); S y = imp(x, f.key); rp::check(y == "password error", "inconsistent padding gives: " + y); }
    }
    { D f; rp::begin("no contents at all"); S x = imp(f.header(""), K()); rp::check(x == "password error", "missing contents give: " + x); }
    for (size_t n : {0, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096}) { D f; f.ng = 1; f.rounds = 0; S c; size_t base = kdbgroup(1, 0, "").size(); if (n < base) continue; c = kdbgroup(1, 0, S(n - base, 'x')); rp::begin("contents of " + std::to_string(n) + " bytes"); S x = imp(f.file(c), K()); rp::check(x == "ok", "rejected: " + x); for (size_t p : {(size_t)0, n / 2, n - 1}) { S d2 = c; d2[p] ^= 4; D g = f; g.hash = sha(c); rp::begin("contents of " + std::to_string(n) + " bytes with byte " + std::to_string(p) + " changed"); x = imp(g.file(d2), K()); rp::check(x == "password error", "changed contents give: " + x); } }
  }
  return rp::finish(); }
