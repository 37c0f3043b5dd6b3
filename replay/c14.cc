#include "db.hh"
using namespace db;
static const S AES("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16);
typedef std::vector<std::pair<int, S>> F;
static F std_fields(const X& f) { return {{2, AES}, {3, le(f.compress, 4)}, {4, f.master}, {5, f.seed}, {6, le(f.rounds, 8)}, {7, f.iv}, {8, f.inner}, {9, f.start}, {10, le(2, 4)}, {0, ""}}; }
static X some() { rp::Rng& r = R(); X f; f.key = some_key(); f.rounds = r.below(5); f.compress = r.flip(); f.master = r.str(r.flip() ? 32 : r.below(100)); f.seed = r.str(32); f.iv = r.str(16); f.inner = r.str(32); f.start = r.str(32); return f; }
static S imp(const S& file, const K& k, std::unique_ptr<Database>& d) { write(path(), file); return kind([&] { KdbxFile f; d = f.Import(path(), k.key()); }); }
static void good(const X& f, const S& what) { rp::begin(what + " header " + rp::hex(f.header(), 400)); std::unique_ptr<Database> d; S x = imp(f.file(doc()), f.key, d); if (!rp::check(x == "ok" && d, "a valid header is rejected: " + x)) return;
  rp::check(S(d->master_seed().begin(), d->master_seed().end()) == f.master, "master seed differs"); rp::check(S_(d->transform_seed()) == f.seed, "transform seed differs"); rp::check(d->transform_rounds() == f.rounds, "rounds differ"); rp::check(S_(d->init_vector()) == f.iv, "initialization vector differs"); rp::check(S_(d->inner_random_stream_key()) == f.inner, "inner random stream key differs"); rp::check(d->compress() == f.compress, "compression differs"); rp::check(d->cipher() == Database::Cipher::kAes, "cipher differs"); rp::check(d->root() && d->root()->name() == "root", "contents differ"); }
static void bad(const X& f, const S& what, const S& cut = "") { rp::begin(what + " header " + rp::hex(f.header(), 400)); std::unique_ptr<Database> d; S x = imp(cut.empty() ? f.file(doc()) : cut, f.key, d); rp::check(x == "format error" || x == "I/O error", "a bad header gives: " + x); }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R();
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int b = 0; b < 4; b++) accessors_db(sc, b & 1);
    for (int i = 0; i < 60; i++) { X f = some(); good(f, "standard"); f.custom = true; f.fields = std_fields(f); for (int j = 8; j > 0; j--) std::swap(f.fields[j], f.fields[r.below(j + 1)]); good(f, "reordered"); f.fields.back().second = r.str(r.below(9)); good(f, "end marker with data"); }
    for (int n : {0, 1, 15, 16, 31, 32, 33, 64, 255, 256, 257, 65535}) { X f = some(); f.master = r.str(n); good(f, "master seed of " + std::to_string(n)); }
    for (uint64_t n : {0ull, 1ull, 255ull, 256ull, 6000ull, 65537ull}) { X f = some(); f.rounds = n; good(f, "rounds " + std::to_string(n)); }
    for (uint32_t v : {0x00030001u, 0x00030000u, 0x0003ffffu, 0x00020000u, 0u, 0x0002ffffu}) { X f = some(); f.version = v; good(f, "version"); }
    for (uint32_t v : {0x00040000u, 0x00040001u, 0x00050000u, 0x80030001u, 0xffffffffu, 0x01000000u, 0x00130000u}) { X f = some(); f.version = v; bad(f, "newer version"); }
    for (int b = 0; b < 64; b++) { X f = some(); if (b < 32) f.sig0 ^= 1u << b; else f.sig1 ^= 1u << (b - 32); bad(f, "signature bit"); } { X f = some(); f.sig1 = 0xb54bfb65; bad(f, "KDB signature"); f.sig1 = 0xb54bfb66; bad(f, "pre-release signature"); std::swap(f.sig0, f.sig1); bad(f, "swapped"); }
    for (int b = 0; b < 128; b++) { X f = some(); f.custom = true; f.fields = std_fields(f); f.fields[0].second[b / 8] ^= 1 << b % 8; bad(f, "cipher bit"); }
    for (int b = 1; b < 33; b++) { X f = some(); f.custom = true; f.fields = std_fields(f); f.fields[1].second = le(b == 32 ? 0xffffffffu : b < 31 ? 1u << (b + 0) : 3u, 4); if (b == 32 || b < 31) bad(f, "compression"); f.fields[1].second = le(3, 4); bad(f, "compression"); }
    for (uint64_t v : {0ull, 1ull, 3ull, 4ull, 0x100ull, 0x102ull, 0x80000002ull, 0xffffffffull}) { X f = some(); f.custom = true; f.fields = std_fields(f); f.fields[8].second = le(v, 4); bad(f, "random stream"); }
    for (int id = 0; id < 256; id++) if (id == 1 || id > 10) { X f = some(); f.custom = true; f.fields = std_fields(f); f.fields.insert(f.fields.begin() + r.below(9), std::make_pair(id, r.str(r.below(6)))); bad(f, "unknown field"); }
    for (int q : {3, 5, 6, 7}) for (int n : {0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 34, 64, 255, 256, 288, 65535}) { X f = some(); f.custom = true; f.fields = std_fields(f); if (n == (q == 5 ? 16 : 32)) continue; f.fields[q].second = r.str(n); bad(f, "size " + std::to_string(n) + " of field " + std::to_string(f.fields[q].first)); }
    for (int q : {0, 1, 4, 8}) for (int n = 0; n < (q == 0 ? 16 : q == 4 ? 8 : 4); n++) { X f = some(); f.custom = true; f.fields = std_fields(f); f.fields[q].second.resize(n); bad(f, "short field"); }
    { X f = some(); S h = f.header(), file = f.file(doc()); for (size_t n = 0; n < h.size(); n++) { rp::begin("cut in the header after " + std::to_string(n) + " of " + rp::hex(h, 400)); std::unique_ptr<Database> d; S x = imp(file.substr(0, n), f.key, d); rp::check(x == "format error" || x == "I/O error", "a truncated header gives: " + x); } }
    // exported headers
    for (int i = 0; i < 60; i++) { auto d = kdbx(Cfg{0, 0, 1, 1}); K k = some_key(); if (i < 8) { S ms = r.str(i == 0 ? 0 : i == 1 ? 65535 : i * 16); d->set_master_seed(std::vector<uint8_t>(ms.begin(), ms.end())); } if (i == 9) d->set_transform_rounds(70000); d->set_compress(i & 1); rp::begin("exported header " + std::to_string(i)); S kd = kind([&] { KdbxFile f; f.Export(path(), *d, k.key()); }); if (!rp::check(kd == "ok", "export fails: " + kd)) continue; S raw = read(path());
      X w; w.key = k; w.master = S(d->master_seed().begin(), d->master_seed().end()); w.seed = S_(d->transform_seed()); w.rounds = d->transform_rounds(); w.iv = S_(d->init_vector()); w.inner = S_(d->inner_random_stream_key()); w.compress = d->compress(); XD x; try { x = decode_kdbx(raw, k); } catch (std::exception& e) { rp::fail(S("the exported file is not a KDBX file: ") + e.what()); continue; } w.start = x.start; rp::check(x.header == w.header(), "exported header " + rp::hex(x.header, 500) + " expected " + rp::hex(w.header(), 500)); rp::check(x.xml.find(b64(sha(x.header))) != S::npos, "the exported contents do not record the hash of the header"); rp::check(x.start.size() == 32, "start bytes"); }
    { X f = some(); S ms(65536, 'x'); auto d = kdbx(Cfg{0, 0, 0, 0}); d->set_master_seed(std::vector<uint8_t>(65537, 1)); (void)ms; }
  }
  return rp::finish(); }
