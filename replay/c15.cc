#include "db.hh"
using namespace db;
template <class T> using P = std::shared_ptr<T>;
// reference comparison over the public accessors
static bool eq(const protect<S>& a, const protect<S>& b) { return a.value() == b.value() && a.is_protected() == b.is_protected(); }
static bool eq(const Binary& a, const Binary& b) { return eq(a.data(), b.data()); }
template <class T> static bool ptr(const P<T>& a, const P<T>& b, bool (*f)(T&, T&)) { return (!a || !b) ? !a && !b : f(*a, *b); }
template <class T> static bool list(const std::vector<P<T>>& a, const std::vector<P<T>>& b, bool (*f)(T&, T&)) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!ptr(a[i], b[i], f)) return false; return true; }
static bool eqb(Binary& a, Binary& b) { return eq(a, b); }
static bool eqa(Entry::Attachment& a, Entry::Attachment& b) { return a.name() == b.name() && ptr(a.binary(), b.binary(), eqb); }
static bool eqe(Entry& a, Entry& b) { auto &x = a.auto_type(), &y = b.auto_type(); bool at = x.enabled() == y.enabled() && x.obfuscation() == y.obfuscation() && x.sequence() == y.sequence() && x.associations().size() == y.associations().size(); for (size_t i = 0; at && i < x.associations().size(); i++) at = x.associations()[i].window() == y.associations()[i].window() && x.associations()[i].sequence() == y.associations()[i].sequence();
  bool cf = a.custom_fields().size() == b.custom_fields().size(); for (size_t i = 0; cf && i < a.custom_fields().size(); i++) cf = a.custom_fields()[i].key() == b.custom_fields()[i].key() && eq(a.custom_fields()[i].value(), b.custom_fields()[i].value());
  return at && cf && a.uuid() == b.uuid() && a.icon() == b.icon() && a.custom_icon().lock() == b.custom_icon().lock() && eq(a.title(), b.title()) && eq(a.url(), b.url()) && a.override_url() == b.override_url() && eq(a.username(), b.username()) && eq(a.password(), b.password()) && eq(a.notes(), b.notes()) && a.tags() == b.tags() && a.creation_time() == b.creation_time() && a.modification_time() == b.modification_time() && a.access_time() == b.access_time() && a.expiry_time() == b.expiry_time() && a.move_time() == b.move_time() && a.expires() == b.expires() && a.usage_count() == b.usage_count() && a.bg_color() == b.bg_color() && a.fg_color() == b.fg_color() && list(a.attachments(), b.attachments(), eqa) && list(a.history(), b.history(), eqe); }
static bool eqg(Group& a, Group& b) { return a.uuid() == b.uuid() && a.icon() == b.icon() && a.custom_icon().lock() == b.custom_icon().lock() && a.name() == b.name() && a.notes() == b.notes() && a.creation_time() == b.creation_time() && a.modification_time() == b.modification_time() && a.access_time() == b.access_time() && a.expiry_time() == b.expiry_time() && a.move_time() == b.move_time() && a.flags() == b.flags() && a.expires() == b.expires() && a.expanded() == b.expanded() && a.usage_count() == b.usage_count() && a.default_autotype_sequence() == b.default_autotype_sequence() && a.autotype() == b.autotype() && a.search() == b.search() && a.last_visible_entry().lock() == b.last_visible_entry().lock() && list(a.Groups(), b.Groups(), eqg) && list(a.Entries(), b.Entries(), eqe); }
template <class T> static void cmp(T& a, T& b, bool want, const S& what) { rp::begin(what); rp::check((a == b) == want, want ? "equal objects compare unequal" : "different objects compare equal"); rp::check((b == a) == want, "comparison is not symmetric: " + S(want ? "equal objects compare unequal" : "different objects compare equal")); rp::check((a != b) == !want && (b != a) == !want, "operator!= is not the negation of equality"); }
// values from small sets, so that single fields differ or agree by chance
static P<Icon> ICON[3]; static P<Entry> LV[3];
static S t2() { static const char* v[] = {"", "a", "A", "ab", "a long text that is not stored inside the string object"}; return R().below(3) ? "a" : v[R().below(5)]; }
static protect<S> p2() { return protect<S>(t2(), R().one_in(4)); }
static P<Binary> b2() { if (R().one_in(6)) return nullptr; auto b = std::make_shared<Binary>(p2()); b->set_compress(R().flip()); return b; }
static P<Entry::Attachment> a2() { if (R().one_in(8)) return nullptr; auto a = std::make_shared<Entry::Attachment>(); a->set_name(t2()); a->set_binary(b2()); return a; }
static U u2(int v) { U u; for (int i = 0; i < 16; i++) u[i] = v + i; return u; }
// m: which field (if any) takes its other value
static P<Entry> e2(int m, int d) { rp::Rng& r = R(); auto e = std::make_shared<Entry>(); int k = 0; auto x = [&] { return m == k++; }; U u = u2(0); if (x()) u[r.below(16)] ^= 1 << r.below(8); e->set_uuid(u); e->set_icon(x() ? 0x10000 : 0); if (x()) e->set_custom_icon(ICON[1 + r.below(2)]); else if (d & 1) e->set_custom_icon(ICON[0]);
  auto p = [&](const char* v) { if (m == k) { k += 2; return protect<S>(S(v) + "x", false); } k++; bool q = m == k++; return protect<S>(v, q); }; e->set_title(p("t")); e->set_url(p("u")); e->set_username(p("n")); e->set_password(p("p")); e->set_notes(p("o")); e->set_override_url(x() ? "1" : ""); e->set_tags(x() ? "1" : ""); e->set_creation_time(x() ? 1l << 40 : 0); e->set_modification_time(x() ? 1l << 32 : 0); e->set_access_time(x()); e->set_expiry_time(x()); e->set_move_time(x()); e->set_expires(x()); e->set_usage_count(x() ? 1u << 31 : 0); e->set_bg_color(x() ? "#" : "q"); e->set_fg_color(x() ? "#" : "q"); e->auto_type().set_enabled(x()); e->auto_type().set_obfuscation(x()); e->auto_type().set_sequence(x() ? "s" : "");
  bool more = x(), as0 = x(), as1 = x(); for (int i = 0; i < (d & 2 ? 2 : 0) + more; i++) e->auto_type().AddAssociation(as0 && i == 1 ? "W" : "w", as1 && i == 0 ? "S" : "s"); 
  bool fm = x(), fk = x(), fv = x(), fp = x(), fo = x(); for (int i = 0; i < (d & 2 ? 3 : 0) + fm; i++) { int j = fo ? 2 - i : i; S key = (fk && i == 2 ? "K" : "k") + std::to_string(j); e->AddCustomField(key, protect<S>(S(fv && i == 1 ? "V" : "v") + std::to_string(j), fp && i == 0)); }
  bool am = x(), an = x(), ad = x(), ap = x(), az = x(), anull = x(); for (int i = 0; i < (d & 4 ? 3 : 0) + am; i++) { if (anull && i == 2) { e->AddAttachment(nullptr); continue; } auto a = std::make_shared<Entry::Attachment>(); a->set_name(S(an && i == 2 ? "N" : "n") + std::to_string(i)); if (!(az && i == 0)) a->set_binary(std::make_shared<Binary>(protect<S>(S(ad && i == 1 ? "D" : "d"), ap && i == 0))); e->AddAttachment(a); }
  bool hm = x(), hc = x(), hn = x(), hd = x(); if (d & 8 || hm) for (int i = 0; i < 2 + hm; i++) { if (hn && i == 1) { e->AddHistoryEntry(nullptr); continue; } e->AddHistoryEntry(e2(hc && i == 1 ? (int)r.below(46) : -1, hd && i == 0 ? 0 : 4)); } return e; }
static const int NE = 46 + 10;
static P<Group> g2(int m, int d) { rp::Rng& r = R(); auto g = std::make_shared<Group>(); int k = 0; auto x = [&] { return m == k++; }; U u = u2(3); if (x()) u[r.below(16)] ^= 1 << r.below(8); g->set_uuid(u); g->set_icon(x() ? 0x10000 : 0); if (x()) g->set_custom_icon(ICON[1]); else if (d & 1) g->set_custom_icon(ICON[0]); g->set_name(x() ? "N" : "n"); g->set_notes(x() ? "x" : ""); g->set_creation_time(x() ? 1l << 33 : 0); g->set_modification_time(x()); g->set_access_time(x()); g->set_expiry_time(x()); g->set_move_time(x()); g->set_flags(x() ? 0x100 : 0); g->set_expires(x()); g->set_expanded(x()); g->set_usage_count(x() ? 1u << 20 : 0); g->set_default_autotype_sequence(x() ? "q" : ""); g->set_autotype(x()); g->set_search(x()); if (x()) g->set_last_visible_entry(LV[1]); else if (d & 1) g->set_last_visible_entry(LV[0]);
  bool em = x(), ec = x(), en = x(), gm = x(), gc = x(), gn = x(), eo = x(); for (int i = 0; i < (d & 2 ? 3 : 0) + em; i++) { if (en && i == 2) g->AddEntry(nullptr); else { int j = eo && i < 2 ? 1 - i : i; auto e = e2(ec && i == 1 ? (int)r.below(40) : -1, 4); e->set_icon(j); g->AddEntry(e); } } for (int i = 0; i < (d & 4 ? 2 : 0) + gm; i++) { if (gn && i == 1) g->AddGroup(nullptr); else g->AddGroup(g2(gc && i == 1 ? (int)r.below(18) : -1, d & 3)); } return g; }
static const int NG = 25;
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R(); for (auto& i : ICON) i = std::make_shared<Icon>(u2(1), std::vector<uint8_t>{1}); for (auto& l : LV) l = std::make_shared<Entry>();
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int d = 0; d < 16; d++) for (int m = -1; m < NE; m++) { auto a = e2(-1, d), b = e2(m, d); cmp(*a, *b, eqe(*a, *b), "entries differing in field " + std::to_string(m) + " shape " + std::to_string(d)); }
    for (int d = 0; d < 8; d++) for (int m = -1; m < NG; m++) { auto a = g2(-1, d), b = g2(m, d); cmp(*a, *b, eqg(*a, *b), "groups differing in field " + std::to_string(m) + " shape " + std::to_string(d)); }
    for (int i = 0; i < 300; i++) { int m1 = r.below(NE), m2 = r.below(NE), d1 = r.below(16), d2 = r.below(16); auto a = e2(m1, d1), b = e2(m2, d2); cmp(*a, *b, eqe(*a, *b), "entries " + std::to_string(m1) + "/" + std::to_string(d1) + " and " + std::to_string(m2) + "/" + std::to_string(d2) + " case " + std::to_string(i)); }
    for (int i = 0; i < 200; i++) { int m1 = r.below(NG), m2 = r.below(NG), d1 = r.below(8), d2 = r.below(8); auto a = g2(m1, d1), b = g2(m2, d2); cmp(*a, *b, eqg(*a, *b), "groups " + std::to_string(m1) + "/" + std::to_string(d1) + " and " + std::to_string(m2) + "/" + std::to_string(d2) + " case " + std::to_string(i)); }
    for (int i = 0; i < 400; i++) { Entry::Attachment a, b; a.set_name(t2()); b.set_name(t2()); a.set_binary(b2()); b.set_binary(r.one_in(5) ? a.binary() : b2()); cmp(a, b, eqa(a, b), "attachments case " + std::to_string(i)); }
    // lists of different sizes, element by element
    for (int n = 0; n < 6; n++) for (int k = 0; k < 6; k++) for (int w = 0; w < 5; w++) { auto mk = [&](int c) { auto e = std::make_shared<Entry>(); auto g = std::make_shared<Group>(); e->set_uuid(u2(0)); g->set_uuid(u2(0)); for (int i = 0; i < c; i++) { S key = "k"; auto s = std::make_shared<Entry>(); s->set_uuid(u2(0)); auto sg = std::make_shared<Group>(); sg->set_uuid(u2(0)); auto at = std::make_shared<Entry::Attachment>(); switch (w) { case 0: e->AddHistoryEntry(s); g->AddGroup(sg); break; case 1: e->AddAttachment(at); g->AddEntry(s); break; case 2: e->AddCustomField(key, protect<S>("v", false)); g->AddEntry(nullptr); break; case 3: e->auto_type().AddAssociation("w", "s"); g->AddGroup(nullptr); break; default: e->AddAttachment(nullptr); e->AddHistoryEntry(nullptr); } } return std::make_pair(e, g); }; auto a = mk(n), b = mk(k); cmp(*a.first, *b.first, n == k, "entries with lists of " + std::to_string(n) + " and " + std::to_string(k) + " elements, list " + std::to_string(w)); if (w < 4) cmp(*a.second, *b.second, n == k, "groups with lists of " + std::to_string(n) + " and " + std::to_string(k) + " elements, list " + std::to_string(w)); }
    // expired references
    { auto a = e2(-1, 1), b = e2(-1, 1); { auto i = std::make_shared<Icon>(u2(1), std::vector<uint8_t>{1}); b->set_custom_icon(i); } cmp(*a, *b, false, "icon set and icon gone"); { auto i = std::make_shared<Icon>(u2(2), std::vector<uint8_t>{1}); a->set_custom_icon(i); } cmp(*a, *b, true, "both icons gone"); auto g = g2(-1, 1), h = g2(-1, 1); { auto l = std::make_shared<Entry>(); h->set_last_visible_entry(l); } cmp(*g, *h, false, "visible entry set and gone"); g->set_last_visible_entry(std::weak_ptr<Entry>()); cmp(*g, *h, true, "visible entry unset and gone"); }
    { auto a = e2(-1, 15); cmp(*a, *a, true, "entry with itself"); auto g = g2(-1, 7); cmp(*g, *g, true, "group with itself"); Entry c(*a); cmp(*a, c, true, "entry with a copy"); Group h(*g); cmp(*g, h, true, "group with a copy"); }
  }
  return rp::finish(); }
