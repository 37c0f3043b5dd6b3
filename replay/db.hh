// Databases for the concrete replay programs: random databases, field-by-field dumps, and independent KDBX and KDB codecs over OpenSSL and zlib.
#pragma once
#include "rp.hh"
#include <optional>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <zlib.h>
#include "database.hh"
#include "entry.hh"
#include "exception.hh"
#include "group.hh"
#include "icon.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "metadata.hh"
namespace db {
using namespace keepass;
typedef std::string S;
inline rp::Rng& R() { static rp::Rng r(rp::seed()); return r; }
// ---- primitives
inline S sha(const S& s) { unsigned char d[32]; SHA256((const unsigned char*)s.data(), s.size(), d); return S((char*)d, 32); }
inline S ecb(const S& key, const S& in) { EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_256_ecb(), 0, (const unsigned char*)key.data(), 0); EVP_CIPHER_CTX_set_padding(c, 0); S o(in.size() + 16, 0); int n = 0; EVP_EncryptUpdate(c, (unsigned char*)&o[0], &n, (const unsigned char*)in.data(), in.size()); EVP_CIPHER_CTX_free(c); o.resize(n); return o; }
inline S cbc(const S& key, const S& iv, const S& in, bool enc, bool pad = true) { EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); EVP_CipherInit_ex(c, EVP_aes_256_cbc(), 0, (const unsigned char*)key.data(), (const unsigned char*)iv.data(), enc); EVP_CIPHER_CTX_set_padding(c, pad); S o(in.size() + 32, 0); int n = 0, m = 0; EVP_CipherUpdate(c, (unsigned char*)&o[0], &n, (const unsigned char*)in.data(), in.size()); int ok = EVP_CipherFinal_ex(c, (unsigned char*)&o[n], &m); EVP_CIPHER_CTX_free(c); if (!ok) throw std::runtime_error("padding"); o.resize(n + m); return o; }
inline S b64(const S& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S r;
  for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0, n = 0; for (int k = 0; k < 3; k++) { v <<= 8; if (i + k < s.size()) { v |= (unsigned char)s[i + k]; n++; } } for (unsigned k = 0; k < 4; k++) r.push_back(k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='); } return r; }
inline S unb64(const S& s) { S r; unsigned v = 0, n = 0; for (unsigned char c : s) { int d = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (d < 0) continue; v = v << 6 | d; n += 6; if (n >= 8) { n -= 8; r.push_back((char)(v >> n)); } } return r; }
inline S le(uint64_t v, int n) { S r; for (int i = 0; i < n; i++) r.push_back((char)(v >> (8 * i))); return r; }
inline uint64_t un(const S& s, size_t p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(unsigned char)s.at(p + i) << (8 * i); return v; }
inline S gz(const S& in, int level = 6) { z_stream z = z_stream(); deflateInit2(&z, level, Z_DEFLATED, 31, 8, 0); S o(in.size() + in.size() / 10 + 200, 0); z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
inline S ungz(const S& in) { z_stream z = z_stream(); inflateInit2(&z, 31); S o; char b[4096]; z.next_in = (Bytef*)in.data(); z.avail_in = in.size(); int r; do { z.next_out = (Bytef*)b; z.avail_out = sizeof b; r = inflate(&z, 0); o.append(b, sizeof b - z.avail_out); } while (r == Z_OK); inflateEnd(&z); if (r != Z_STREAM_END) throw std::runtime_error("gzip"); return o; }
inline S blocks(const S& in, size_t bs = 1 << 20) { S o; uint32_t i = 0; for (size_t p = 0; p < in.size(); p += bs) { S d = in.substr(p, bs); o += le(i++, 4) + sha(d) + le(d.size(), 4) + d; } return o + le(i, 4) + S(32, 0) + le(0, 4); }
inline S unblocks(const S& in) { S o; size_t p = 0; for (uint32_t i = 0;; i++) { if (un(in, p, 4) != i) throw std::runtime_error("block index"); S h = in.substr(p + 4, 32); uint32_t n = un(in, p + 36, 4); p += 40; if (!n) { if (h != S(32, 0)) throw std::runtime_error("end hash"); if (p != in.size()) throw std::runtime_error("trailing data"); return o; } S d = in.substr(p, n); if (d.size() != n || sha(d) != h) throw std::runtime_error("block hash"); o += d; p += n; } }
// ---- keys
struct K { bool pw = true; S password = "secret"; bool kf = false; S keyfile; Key key() const { Key k; if (pw) k.SetPassword(password); if (kf) { k.key_.has_keyfile_ = true; std::copy(keyfile.begin(), keyfile.end(), k.key_.keyfile_key_.begin()); } return k; }
  S composite(bool kdbx) const { S c; if (pw) c += sha(password); if (kf) c += keyfile; return !kdbx && c.size() == 32 ? c : sha(c); }
  S transformed(bool kdbx, const S& seed, uint64_t rounds) const { S c = composite(kdbx); for (uint64_t i = 0; i < rounds; i++) c = ecb(seed, c); return sha(c); }
  S final_key(bool kdbx, const S& master, const S& seed, uint64_t rounds) const { return sha(master + transformed(kdbx, seed, rounds)); }
  S str() const { return (pw ? "password " + rp::hex(password, 40) : S("no password")) + (kf ? " keyfile " + rp::hex(keyfile) : S()); } };
inline K some_key() { rp::Rng& r = R(); K k; unsigned q = r.below(4); k.pw = q != 1; k.kf = q >= 2 || q == 1; if (k.kf) k.keyfile = r.str(32); if (k.pw) { k.password = r.text(r.below(20)); if (r.one_in(10)) k.password = ""; } return k; }
// ---- files
inline S path(const char* n = "f") { return rp::tmp() + "/" + n; }
inline void write(const S& p, const S& c) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << c; }
inline S read(const S& p) { std::ifstream f(p, std::ios::binary); return S(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
// ---- KDBX codec
struct X { uint32_t sig0 = 0x9aa2d903, sig1 = 0xb54bfb67, version = 0x00030001; S master = S(32, 'm'), seed = S(32, 's'), iv = S(16, 'i'), inner = S(32, 'k'), start = S(32, 'b'); uint64_t rounds = 3; bool compress = false; K key; std::vector<std::pair<int, S>> fields; bool custom = false; S body; size_t bs = 1 << 20;
  S header() const { S h = le(sig0, 4) + le(sig1, 4) + le(version, 4); auto fs = fields; if (!custom) fs = {{2, S("\x31\xc1\xf2\xe6\xbf\x71\x43\x50\xbe\x58\x05\x21\x6a\xfc\x5a\xff", 16)}, {3, le(compress, 4)}, {4, master}, {5, seed}, {6, le(rounds, 8)}, {7, iv}, {8, inner}, {9, start}, {10, le(2, 4)}, {0, ""}};
    for (auto& f : fs) h += S(1, (char)f.first) + le(f.second.size(), 2) + f.second; return h; }
  S content(const S& xml) const { S x = xml; size_t p = x.find("%HASH%"); if (p != S::npos) x.replace(p, 6, b64(sha(header()))); return start + blocks(compress ? gz(x) : x, bs); }
  S seal(const S& content) const { return header() + cbc(key.final_key(true, master, seed, rounds), iv, content, true); }
  S file(const S& xml) const { return seal(content(xml)); } };
// decodes an exported file with the expected parameters; throws when it is not a well-formed KDBX file for them
struct XD { std::vector<std::pair<int, S>> fields; S header, start, content, xml, data; bool compress = false; };
inline XD decode_kdbx(const S& f, const K& k) { XD d; if (un(f, 0, 4) != 0x9aa2d903 || un(f, 4, 4) != 0xb54bfb67) throw std::runtime_error("signature"); if (un(f, 8, 4) != 0x00030001) throw std::runtime_error("version"); size_t p = 12; std::map<int, S> m;
  for (;;) { int id = (unsigned char)f.at(p); size_t n = un(f, p + 1, 2); if (p + 3 + n > f.size()) throw std::runtime_error("truncated header"); S v = f.substr(p + 3, n); p += 3 + n; d.fields.push_back({id, v}); if (m.count(id)) throw std::runtime_error("repeated field"); m[id] = v; if (!id) break; }
  d.header = f.substr(0, p); S body = f.substr(p); if (body.size() % 16) throw std::runtime_error("content is not whole blocks"); d.start = m[9]; S fk = k.final_key(true, m[4], m[5], un(m[6], 0, 8)); d.content = cbc(fk, m[7], body, false); if (d.content.substr(0, 32) != d.start || d.start.size() != 32) throw std::runtime_error("start bytes"); d.data = unblocks(d.content.substr(32)); d.compress = un(m[3], 0, 4) == 1; d.xml = d.compress ? ungz(d.data) : d.data; return d; }
// ---- KDB codec
inline S kdbrec(int t, const S& v) { return le(t, 2) + le(v.size(), 4) + v; }
struct D { uint32_t sig0 = 0x9aa2d903, sig1 = 0xb54bfb65, flags = 3, version = 0x00030002; S master = S(16, 'm'), iv = S(16, 'i'), seed = S(32, 's'); uint32_t rounds = 3; uint32_t ng = 0, ne = 0; K key; std::optional<S> hash;
  S header(const S& content) const { return le(sig0, 4) + le(sig1, 4) + le(flags, 4) + le(version, 4) + master + iv + le(ng, 4) + le(ne, 4) + (hash ? *hash : sha(content)) + seed + le(rounds, 4); }
  S fk() const { return key.final_key(false, master, seed, rounds); }
  S file(const S& content) const { return header(content) + cbc(fk(), iv, content, true); } };
inline S kdbtime(int y, int mo, int d, int h, int mi, int s) { S r; r.push_back((char)(y >> 6)); r.push_back((char)((y & 63) << 2 | mo >> 2)); r.push_back((char)((mo & 3) << 6 | d << 1 | h >> 4)); r.push_back((char)((h & 15) << 4 | mi >> 2)); r.push_back((char)((mi & 3) << 6 | s)); return r; }
inline S kdbgroup(uint32_t id, int level, const S& name = "g") { return kdbrec(1, le(id, 4)) + kdbrec(2, name + S(1, 0)) + kdbrec(8, le(level, 2)) + kdbrec(0xffff, ""); }
inline S kdbentry(uint32_t gid, const S& title = "e") { return kdbrec(1, S(16, 'u')) + kdbrec(2, le(gid, 4)) + kdbrec(4, title + S(1, 0)) + kdbrec(0xffff, ""); }
// ---- random databases
template <class A> A arr(const S& s) { A a; for (size_t i = 0; i < a.size(); i++) a[i] = s[i]; return a; }
typedef std::array<uint8_t, 16> U; typedef std::array<uint8_t, 32> H;
inline S S_(const U& u) { return S((const char*)u.data(), 16); } inline S S_(const H& u) { return S((const char*)u.data(), 32); }
// text that XML can hold: no edge white space, no control characters besides tab and line feed inside
inline S text() { rp::Rng& r = R(); if (r.one_in(4)) return ""; S t; int n = r.one_in(8) ? 200 + r.below(5000) : 1 + r.below(14); static const char* P[] = {"a", "B", "7", "<", ">", "&", "\"", "'", "&amp;", "]]>", "<![CDATA[", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x94\x91", " x", "\n y", "\tz", "--", "%s", "\\", "=", "True", "0", "{", "/", "  q", "\x7f", "&#10;x", "\r\nw", "\rv"};
  if (r.one_in(6)) { t = r.text(n); return t; } for (int i = 0; i < n; i++) { S x = P[r.below(sizeof P / sizeof *P)]; if (i == 0 && (x[0] == ' ' || x[0] == '\n' || x[0] == '\t' || x[0] == '\r')) x = "_" + x; t += x; } return t; }
inline S key_text() { S t; do t = text(); while (t.empty()); return t; }
inline std::time_t ktime() { rp::Rng& r = R(); switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 951782400 + (long)r.below(86400); case 3: return 253402300799L; case 4: return -(long)r.below(2000000000); case 5: return 4102444800L + (long)r.below(1000000000); default: return 1000000000 + (long)r.below(1000000000); } }
inline protect<S> prot(bool any = true) { rp::Rng& r = R(); bool p = r.flip(); if (p && any && r.flip()) return protect<S>(r.str(r.size(300)), true); return protect<S>(text(), p); }
inline uint32_t u32() { rp::Rng& r = R(); static const uint32_t v[] = {0, 1, 2, 68, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}; return r.flip() ? v[r.below(11)] : (uint32_t)r.next(); }
inline int64_t i64() { rp::Rng& r = R(); static const int64_t v[] = {0, 1, -1, -2, 365, 0x7fffffff, 0x80000000ll, -0x80000000ll, 0xffffffffll, INT64_MAX, INT64_MIN, 1ll << 32}; return r.flip() ? v[r.below(12)] : (int64_t)r.next(); }
inline U uuid() { return R().arr<U>(); }
struct Cfg { int depth = 2, groups = 3, entries = 3, lists = 3; };
inline std::shared_ptr<Entry> entry(const Metadata* m, Cfg c, bool hist = true) { rp::Rng& r = R(); auto e = std::make_shared<Entry>(); e->set_uuid(uuid()); e->set_icon(u32()); if (m && m->icons().size() && r.flip()) e->set_custom_icon(m->icons()[r.below(m->icons().size())]);
  e->set_title(prot()); e->set_url(prot()); e->set_override_url(text()); e->set_username(prot()); e->set_password(prot()); e->set_notes(prot()); e->set_tags(text()); e->set_creation_time(ktime()); e->set_modification_time(ktime()); e->set_access_time(ktime()); e->set_expiry_time(ktime()); e->set_move_time(ktime()); e->set_expires(r.flip()); e->set_usage_count(u32()); e->set_bg_color(text()); e->set_fg_color(text());
  e->auto_type().set_enabled(r.flip()); e->auto_type().set_obfuscation(u32()); e->auto_type().set_sequence(text()); for (int i = r.below(c.lists + 1); i > 0; i--) e->auto_type().AddAssociation(text(), text());
  for (int i = r.below(c.lists + 1); i > 0; i--) { S k = key_text(); if (r.one_in(5)) k = "title"; e->AddCustomField(k, prot()); }
  for (int i = r.below(c.lists + 1); i > 0; i--) { auto a = std::make_shared<Entry::Attachment>(); a->set_name(text()); if (m && m->binaries().size() && r.flip()) a->set_binary(m->binaries()[r.below(m->binaries().size())]); else a->set_binary(std::make_shared<Binary>(protect<S>(r.str(r.size(3000)), r.flip()))); e->AddAttachment(a); }
  if (hist) for (int i = r.below(c.lists + 1); i > 0; i--) { auto h = entry(m, Cfg{0, 0, 0, 1}, r.one_in(6)); if (r.flip()) h->set_uuid(e->uuid()); e->AddHistoryEntry(h); } return e; }
inline std::shared_ptr<Group> group(const Metadata* m, Cfg c, int depth) { rp::Rng& r = R(); auto g = std::make_shared<Group>(); g->set_uuid(uuid()); g->set_icon(u32()); if (m && m->icons().size() && r.flip()) g->set_custom_icon(m->icons()[r.below(m->icons().size())]); g->set_name(text()); g->set_notes(text()); g->set_creation_time(ktime()); g->set_modification_time(ktime()); g->set_access_time(ktime()); g->set_expiry_time(ktime()); g->set_move_time(ktime()); g->set_expires(r.flip()); g->set_expanded(r.flip()); g->set_usage_count(u32()); g->set_default_autotype_sequence(text()); g->set_autotype(r.flip()); g->set_search(r.flip());
  for (int i = r.below(c.entries + 1); i > 0; i--) g->AddEntry(entry(m, c)); if (g->Entries().size() && r.flip()) g->set_last_visible_entry(g->Entries()[r.below(g->Entries().size())]);
  if (depth > 0) for (int i = r.below(c.groups + 1); i > 0; i--) g->AddGroup(group(m, c, depth - 1)); return g; }
inline void all_groups(const std::shared_ptr<Group>& g, std::vector<std::shared_ptr<Group>>& v) { v.push_back(g); for (auto& x : g->Groups()) all_groups(x, v); }
inline std::shared_ptr<Metadata> meta(Cfg c) { rp::Rng& r = R(); auto m = std::make_shared<Metadata>(); m->set_generator(text()); m->set_database_name(temporal<S>(text(), ktime())); m->set_database_desc(temporal<S>(text(), ktime())); m->set_default_username(temporal<S>(text(), ktime())); m->set_maintenance_hist_days(u32()); m->set_database_color(text()); m->set_master_key_changed(ktime()); m->set_master_key_change_rec(i64()); m->set_master_key_change_force(i64());
  m->memory_protection().set_title(r.flip()); m->memory_protection().set_username(r.flip()); m->memory_protection().set_password(r.flip()); m->memory_protection().set_url(r.flip()); m->memory_protection().set_notes(r.flip()); m->set_recycle_bin_changed(ktime()); m->set_entry_templates_changed(ktime()); m->set_history_max_items((int32_t)u32()); m->set_history_max_size(i64());
  for (int i = r.below(c.lists + 1); i > 0; i--) { S d = r.str(1 + r.size(2000)); m->AddIcon(std::make_shared<Icon>(uuid(), std::vector<uint8_t>(d.begin(), d.end()))); }
  for (int i = r.one_in(10) ? 12 : r.below(c.lists + 1); i > 0; i--) { bool p = r.one_in(3); auto b = std::make_shared<Binary>(protect<S>(r.one_in(6) ? S(20000 + r.below(50000), 'x') : r.str(r.size(5000)), p)); if (!p) b->set_compress(r.flip()); m->AddBinary(b); }
  for (int i = r.below(c.lists + 1); i > 0; i--) m->AddField(key_text(), text()); return m; }
inline std::unique_ptr<Database> kdbx(Cfg c = Cfg()) { rp::Rng& r = R(); std::unique_ptr<Database> d(new Database()); auto m = meta(c); d->set_meta(m); d->set_root(group(m.get(), c, c.depth)); S ms = r.str(r.flip() ? 32 : r.below(70)); d->set_master_seed(std::vector<uint8_t>(ms.begin(), ms.end())); d->set_init_vector(r.arr<U>()); d->set_transform_seed(r.arr<H>()); d->set_inner_random_stream_key(r.arr<H>()); d->set_transform_rounds(r.below(6)); d->set_compress(r.flip());
  std::vector<std::shared_ptr<Group>> gs; all_groups(d->root(), gs); auto g = [&] { return gs[r.below(gs.size())]; }; if (r.flip()) m->set_recycle_bin(g()); if (r.flip()) m->set_entry_templates(g()); if (r.flip()) m->set_last_selected_group(g()); if (r.flip()) m->set_last_visible_group(g()); return d; }
inline S ktext() { rp::Rng& r = R(); S t; if (r.one_in(4)) return ""; int n = r.one_in(8) ? r.size(3000) : 1 + r.below(12); for (int i = 0; i < n; i++) { char c; do c = (char)r.byte(); while (!c); t.push_back(c); } return t; }
inline std::time_t dtime() { rp::Rng& r = R(); return r.one_in(5) ? 0 : r.one_in(4) ? -(long)r.below(2000000000) : (long)r.below(4000000000ul); }
inline std::shared_ptr<Entry> kdb_entry() { rp::Rng& r = R(); auto e = std::make_shared<Entry>(); e->set_uuid(uuid()); e->set_icon(u32()); auto p = [&] { return protect<S>(ktext(), false); }; e->set_title(p()); e->set_url(p()); e->set_username(p()); e->set_password(p()); e->set_notes(p()); e->set_creation_time(dtime()); e->set_modification_time(dtime()); e->set_access_time(dtime()); e->set_expiry_time(dtime());
  if (r.flip()) { auto a = std::make_shared<Entry::Attachment>(); a->set_name(ktext()); a->set_binary(std::make_shared<Binary>(protect<S>(r.str(r.size(3000)), false))); if (a->name().empty() && a->binary()->Empty()) a->set_name("n"); e->AddAttachment(a); } return e; }
inline std::shared_ptr<Group> kdb_group(int depth, Cfg c) { rp::Rng& r = R(); auto g = std::make_shared<Group>(); g->set_name(ktext()); g->set_icon(u32()); g->set_flags((uint16_t)u32()); g->set_creation_time(dtime()); g->set_modification_time(dtime()); g->set_access_time(dtime()); g->set_expiry_time(dtime()); for (int i = r.below(c.entries + 1); i > 0; i--) g->AddEntry(kdb_entry()); if (depth > 0) for (int i = r.below(c.groups + 1); i > 0; i--) g->AddGroup(kdb_group(depth - 1, c)); return g; }
inline std::unique_ptr<Database> kdb(Cfg c = Cfg{4, 3, 3, 0}) { rp::Rng& r = R(); std::unique_ptr<Database> d(new Database()); auto root = std::make_shared<Group>(); for (int i = r.below(c.groups + 1); i > 0; i--) root->AddGroup(kdb_group(r.below(c.depth + 1), c)); d->set_root(root); d->set_cipher(r.flip() ? Database::Cipher::kAes : Database::Cipher::kTwofish); d->set_master_seed(r.arr<U>()); d->set_init_vector(r.arr<U>()); d->set_transform_seed(r.arr<H>()); d->set_transform_rounds(r.below(6)); return d; }
// ---- dumps
struct Dump { std::vector<std::pair<S, S>> l; void a(const S& p, const S& v) { l.push_back({p, v}); } void s(const S& p, const S& v) { a(p, rp::hex(v, 100000)); } void n(const S& p, long long v) { a(p, std::to_string(v)); } };
inline S I(const S& p, size_t i) { return p + "[" + std::to_string(i) + "]"; }
inline void dp(Dump& d, const S& p, const protect<S>& v) { d.s(p, v.value()); d.n(p + ".protected", v.is_protected()); }
inline size_t icon_ix(const std::shared_ptr<Icon>& i, const Metadata* m) { if (!i) return 9999; for (size_t k = 0; m && k < m->icons().size(); k++) if (m->icons()[k] == i) return k; return 8888; }
inline void dump(Dump& d, const S& p, const Binary* b) { if (!b) { d.a(p, "none"); return; } dp(d, p + ".data", b->data()); }
inline void dump(Dump& d, const S& p, Entry& e, const Metadata* m) { d.s(p + ".uuid", S_(e.uuid())); d.n(p + ".icon", e.icon()); d.n(p + ".custom_icon", icon_ix(e.custom_icon().lock(), m)); dp(d, p + ".title", e.title()); dp(d, p + ".url", e.url()); d.s(p + ".override_url", e.override_url()); dp(d, p + ".username", e.username()); dp(d, p + ".password", e.password()); dp(d, p + ".notes", e.notes()); d.s(p + ".tags", e.tags()); d.n(p + ".creation_time", e.creation_time()); d.n(p + ".modification_time", e.modification_time()); d.n(p + ".access_time", e.access_time()); d.n(p + ".expiry_time", e.expiry_time()); d.n(p + ".move_time", e.move_time()); d.n(p + ".expires", e.expires()); d.n(p + ".usage_count", e.usage_count()); d.s(p + ".bg_color", e.bg_color()); d.s(p + ".fg_color", e.fg_color());
  d.n(p + ".auto_type.enabled", e.auto_type().enabled()); d.n(p + ".auto_type.obfuscation", e.auto_type().obfuscation()); d.s(p + ".auto_type.sequence", e.auto_type().sequence()); d.n(p + ".auto_type.associations", e.auto_type().associations().size()); for (size_t i = 0; i < e.auto_type().associations().size(); i++) { d.s(I(p + ".association", i) + ".window", e.auto_type().associations()[i].window()); d.s(I(p + ".association", i) + ".sequence", e.auto_type().associations()[i].sequence()); }
  d.n(p + ".custom_fields", e.custom_fields().size()); for (size_t i = 0; i < e.custom_fields().size(); i++) { d.s(I(p + ".field", i) + ".key", e.custom_fields()[i].key()); dp(d, I(p + ".field", i) + ".value", e.custom_fields()[i].value()); }
  d.n(p + ".attachments", e.attachments().size()); for (size_t i = 0; i < e.attachments().size(); i++) { auto a = e.attachments()[i]; S q = I(p + ".attachment", i); d.s(q + ".name", a->name()); dump(d, q, a->binary().get()); size_t ix = 9999; if (m) for (size_t k = 0; k < m->binaries().size(); k++) if (m->binaries()[k] == a->binary()) ix = k; d.n(q + ".pool", ix); }
  d.n(p + ".history", e.history().size()); for (size_t i = 0; i < e.history().size(); i++) dump(d, I(p + ".history", i), *e.history()[i], m); }
inline void dump(Dump& d, const S& p, Group& g, const Metadata* m) { d.s(p + ".uuid", S_(g.uuid())); d.n(p + ".icon", g.icon()); d.n(p + ".custom_icon", icon_ix(g.custom_icon().lock(), m)); d.s(p + ".name", g.name()); d.s(p + ".notes", g.notes()); d.n(p + ".creation_time", g.creation_time()); d.n(p + ".modification_time", g.modification_time()); d.n(p + ".access_time", g.access_time()); d.n(p + ".expiry_time", g.expiry_time()); d.n(p + ".move_time", g.move_time()); d.n(p + ".expires", g.expires()); d.n(p + ".expanded", g.expanded()); d.n(p + ".usage_count", g.usage_count()); d.s(p + ".default_autotype_sequence", g.default_autotype_sequence()); d.n(p + ".autotype", g.autotype()); d.n(p + ".search", g.search());
  auto lv = g.last_visible_entry().lock(); size_t ix = lv ? 8888 : 9999; for (size_t i = 0; lv && i < g.Entries().size(); i++) if (g.Entries()[i] == lv) ix = i; d.n(p + ".last_visible_entry", ix);
  d.n(p + ".entries", g.Entries().size()); for (size_t i = 0; i < g.Entries().size(); i++) dump(d, I(p + ".entry", i), *g.Entries()[i], m); d.n(p + ".groups", g.Groups().size()); for (size_t i = 0; i < g.Groups().size(); i++) dump(d, I(p + ".group", i), *g.Groups()[i], m); }
inline Dump dump_kdbx(Database& b) { Dump d; auto m = b.meta(); d.s("master_seed", S(b.master_seed().begin(), b.master_seed().end())); d.s("init_vector", S_(b.init_vector())); d.s("transform_seed", S_(b.transform_seed())); d.s("inner_random_stream_key", S_(b.inner_random_stream_key())); d.n("transform_rounds", b.transform_rounds()); d.n("compress", b.compress()); d.n("cipher", (int)b.cipher());
  if (!m || !b.root()) { d.a("meta", "none"); return d; }
  d.s("meta.generator", m->generator()); auto t = [&](const S& p, const temporal<S>& v) { d.s(p, v.value()); d.n(p + ".time", v.time()); }; t("meta.database_name", m->database_name()); t("meta.database_desc", m->database_desc()); t("meta.default_username", m->default_username()); d.n("meta.maintenance_hist_days", m->maintenance_hist_days()); d.s("meta.database_color", m->database_color()); d.n("meta.master_key_changed", m->master_key_changed()); d.n("meta.master_key_change_rec", m->master_key_change_rec()); d.n("meta.master_key_change_force", m->master_key_change_force()); auto& mp = m->memory_protection(); d.n("meta.protect_title", mp.title()); d.n("meta.protect_username", mp.username()); d.n("meta.protect_password", mp.password()); d.n("meta.protect_url", mp.url()); d.n("meta.protect_notes", mp.notes()); d.n("meta.recycle_bin_changed", m->recycle_bin_changed()); d.n("meta.entry_templates_changed", m->entry_templates_changed()); d.n("meta.history_max_items", m->history_max_items()); d.n("meta.history_max_size", m->history_max_size());
  std::vector<std::shared_ptr<Group>> gs; all_groups(b.root(), gs); auto gi = [&](const std::shared_ptr<Group>& g) { if (!g) return S("none"); for (size_t i = 0; i < gs.size(); i++) if (gs[i] == g) return "group " + std::to_string(i); return "foreign group " + rp::hex(S_(g->uuid())); }; d.a("meta.recycle_bin", gi(m->recycle_bin())); d.a("meta.entry_templates", gi(m->entry_templates())); d.a("meta.last_selected_group", gi(m->last_selected_group().lock())); d.a("meta.last_visible_group", gi(m->last_visible_group().lock()));
  d.n("meta.icons", m->icons().size()); for (size_t i = 0; i < m->icons().size(); i++) { d.s(I("meta.icon", i) + ".uuid", S_(m->icons()[i]->uuid())); d.s(I("meta.icon", i) + ".data", S(m->icons()[i]->data().begin(), m->icons()[i]->data().end())); }
  d.n("meta.binaries", m->binaries().size()); for (size_t i = 0; i < m->binaries().size(); i++) { dump(d, I("meta.binary", i), m->binaries()[i].get()); if (!m->binaries()[i]->data().is_protected()) d.n(I("meta.binary", i) + ".compress", m->binaries()[i]->compress()); }
  d.n("meta.fields", m->fields().size()); for (size_t i = 0; i < m->fields().size(); i++) { d.s(I("meta.field", i) + ".key", m->fields()[i].key()); d.s(I("meta.field", i) + ".value", m->fields()[i].value()); }
  dump(d, "root", *b.root(), m.get()); return d; }
inline void dump_kdb(Dump& d, const S& p, Group& g, bool root) { if (!root) { d.s(p + ".name", g.name()); d.n(p + ".icon", g.icon()); d.n(p + ".flags", g.flags()); d.n(p + ".creation_time", g.creation_time()); d.n(p + ".modification_time", g.modification_time()); d.n(p + ".access_time", g.access_time()); d.n(p + ".expiry_time", g.expiry_time()); }
  d.n(p + ".entries", g.Entries().size()); for (size_t i = 0; i < g.Entries().size(); i++) { auto& e = *g.Entries()[i]; S q = I(p + ".entry", i); d.s(q + ".uuid", S_(e.uuid())); d.n(q + ".icon", e.icon()); d.s(q + ".title", *e.title()); d.s(q + ".url", *e.url()); d.s(q + ".username", *e.username()); d.s(q + ".password", *e.password()); d.s(q + ".notes", *e.notes()); d.n(q + ".creation_time", e.creation_time()); d.n(q + ".modification_time", e.modification_time()); d.n(q + ".access_time", e.access_time()); d.n(q + ".expiry_time", e.expiry_time()); d.n(q + ".attachments", e.attachments().size()); for (size_t k = 0; k < e.attachments().size(); k++) { d.s(I(q + ".attachment", k) + ".name", e.attachments()[k]->name()); d.s(I(q + ".attachment", k) + ".data", e.attachments()[k]->binary() ? *e.attachments()[k]->binary()->data() : S("none")); } }
  d.n(p + ".groups", g.Groups().size()); for (size_t i = 0; i < g.Groups().size(); i++) dump_kdb(d, I(p + ".group", i), *g.Groups()[i], false); }
inline Dump dump_kdb(Database& b) { Dump d; d.s("master_seed", S(b.master_seed().begin(), b.master_seed().end())); d.s("init_vector", S_(b.init_vector())); d.s("transform_seed", S_(b.transform_seed())); d.n("transform_rounds", b.transform_rounds()); d.n("cipher", (int)b.cipher()); if (b.root()) dump_kdb(d, "root", *b.root(), true); return d; }
// "" when equal, else what differs
inline S differ(const Dump& a, const Dump& b) { for (size_t i = 0; i < std::max(a.l.size(), b.l.size()); i++) { if (i >= a.l.size()) return b.l[i].first + " appeared"; if (i >= b.l.size()) return a.l[i].first + " is missing"; if (a.l[i].first != b.l[i].first) return a.l[i].first + " is missing"; if (a.l[i].second != b.l[i].second) return a.l[i].first + " was " + a.l[i].second.substr(0, 120) + " and is " + b.l[i].second.substr(0, 120); } return ""; }
template <class F> S kind(F f) { try { f(); return "ok"; } catch (PasswordError&) { return "password error"; } catch (FormatError&) { return "format error"; } catch (FileNotFoundError&) { return "not found"; } catch (IoError&) { return "I/O error"; } catch (InternalError&) { return "internal error"; } catch (std::exception& e) { return S("exception ") + e.what(); } catch (...) { return "unknown exception"; } }
// ---- independent XML writer for a small database, for import tests
// the accessors: what was set is what is read, on an object whose other fields hold other values
#define ACC(o, f, v) do { rp::begin(S("accessor " #f " case ") + std::to_string(sc)); auto w_ = v; (o).set_##f(w_); rp::check((o).f() == w_, "the accessor " #f " does not return what was set"); } while (0)
#define ACP(o, f, v) do { rp::begin(S("accessor " #f " case ") + std::to_string(sc)); auto w_ = v; (o).set_##f(w_); rp::check(*(o).f() == *w_ && (o).f().is_protected() == w_.is_protected(), "the accessor " #f " does not return what was set"); } while (0)
#define ACT(o, f, v) do { rp::begin(S("accessor " #f " case ") + std::to_string(sc)); auto w_ = v; (o).set_##f(w_); rp::check(*(o).f() == *w_ && (o).f().time() == w_.time(), "the accessor " #f " does not return what was set"); } while (0)
inline void accessors_kdb(int sc, Entry& e, Group& g, bool b) { int n = 100; auto str = [&] { return "text " + std::to_string(n++); }; auto tm = [&] { return (std::time_t)(1000 + n++); }; auto num = [&] { return (uint32_t)(5000 + n++); };
  ACC(e, uuid, uuid()); ACC(e, icon, num()); ACC(e, creation_time, tm()); ACC(e, modification_time, tm()); ACC(e, access_time, tm()); ACC(e, expiry_time, tm()); ACP(e, title, protect<S>(str(), b)); ACP(e, url, protect<S>(str(), b)); ACP(e, username, protect<S>(str(), b)); ACP(e, password, protect<S>(str(), b)); ACP(e, notes, protect<S>(str(), b));
  ACC(g, name, str()); ACC(g, icon, num()); ACC(g, creation_time, tm()); ACC(g, modification_time, tm()); ACC(g, access_time, tm()); ACC(g, expiry_time, tm()); ACC(g, flags, (uint16_t)num()); ACC(g, flags, (uint16_t)(0xff00 + n)); }
inline void accessors_kdbx(int sc, Entry& e, Group& g, Metadata& m, bool b) { int n = 200; auto str = [&] { return "text " + std::to_string(n++); }; auto tm = [&] { return (std::time_t)(1000 + n++); }; auto num = [&] { return (uint32_t)(5000 + n++); };
  ACC(e, fg_color, str()); ACC(e, bg_color, str()); ACC(e, override_url, str()); ACC(e, tags, str()); ACC(e, move_time, tm()); ACC(e, expires, b); ACC(e, usage_count, num()); ACC(e.auto_type(), enabled, b); ACC(e.auto_type(), obfuscation, num()); ACC(e.auto_type(), sequence, str());
  ACC(g, uuid, uuid()); ACC(g, notes, str()); ACC(g, move_time, tm()); ACC(g, expires, b); ACC(g, usage_count, num()); ACC(g, expanded, b); ACC(g, default_autotype_sequence, str()); ACC(g, autotype, b); ACC(g, search, b);
  ACC(m, generator, str()); ACT(m, database_name, temporal<S>(str(), tm())); ACT(m, database_desc, temporal<S>(str(), tm())); ACT(m, default_username, temporal<S>(str(), tm())); ACC(m, maintenance_hist_days, num()); ACC(m, database_color, str()); ACC(m, master_key_changed, tm()); ACC(m, master_key_change_rec, i64()); ACC(m, master_key_change_force, i64()); ACC(m, recycle_bin_changed, tm()); ACC(m, entry_templates_changed, tm()); ACC(m, history_max_items, (int32_t)num()); ACC(m, history_max_size, i64());
  auto g1 = std::make_shared<Group>(), g2 = std::make_shared<Group>(); ACC(m, recycle_bin, g1); ACC(m, entry_templates, g2);
  auto& p = m.memory_protection(); for (int k = 0; k < 5; k++) { ACC(p, title, k == 0); ACC(p, username, k == 1); ACC(p, password, k == 2); ACC(p, url, k == 3); ACC(p, notes, k == 4); rp::check(p.title() == (k == 0) && p.username() == (k == 1) && p.password() == (k == 2) && p.url() == (k == 3) && p.notes() == (k == 4), "the memory protection accessors do not return what was set"); } }
inline void accessors_db(int sc, bool b) { rp::Rng& r = R(); Database d; ACC(d, root, std::make_shared<Group>()); ACC(d, meta, std::make_shared<Metadata>()); ACC(d, master_seed, (std::vector<uint8_t>(r.below(60), (uint8_t)(b + 7)))); ACC(d, init_vector, r.arr<U>()); ACC(d, transform_seed, r.arr<H>()); ACC(d, inner_random_stream_key, r.arr<H>()); ACC(d, transform_rounds, (uint64_t)(b + 1) << 32 | 7); ACC(d, compress, b); ACC(d, cipher, b ? Database::Cipher::kAes : Database::Cipher::kTwofish); }
inline void accessors(int sc) { for (int b = 0; b < 4; b++) { auto e = entry(nullptr, Cfg{0, 0, 0, 0}, false); auto g = group(nullptr, Cfg{0, 0, 0, 0}, 0); auto m = meta(Cfg{0, 0, 0, 0}); accessors_kdb(sc, *e, *g, b & 1); accessors_kdbx(sc, *e, *g, *m, b & 1); accessors_kdbx(sc, *e, *g, *m, !(b & 1)); } }
inline S esc(const S& s) { S o; for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else o.push_back(c); return o; }
inline S el(const S& n, const S& v) { return "<" + n + ">" + v + "</" + n + ">"; }
inline S doc(const S& meta = "", const S& group = "") { return "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeePassFile><Meta>" + el("HeaderHash", "%HASH%") + el("Generator", "gen") + meta + "</Meta><Root><Group>" + el("UUID", b64(S(16, 'r'))) + el("Name", "root") + group + "</Group></Root></KeePassFile>"; }
}
