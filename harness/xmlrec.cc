#include "vf.hh"
#include "kdbx.cc"
using namespace keepass;
static std::time_t tm_(const char* n) { return static_cast<std::time_t>(vf_u64(n)); }
template <class T> static std::shared_ptr<T> at(T* p) { return std::shared_ptr<T>(std::shared_ptr<T>(), p); }
typedef std::unordered_map<std::string, std::shared_ptr<Binary>> BinaryPool_t; typedef std::unordered_map<std::string, std::weak_ptr<Icon>> IconPool_t;
alignas(16) static unsigned char file2_mem[sizeof(KdbxFile)], db_mem[sizeof(Database)], db2_mem[sizeof(Database)];
alignas(16) static unsigned char obf_mem[sizeof(RandomObfuscator)], file_mem[sizeof(KdbxFile)], ea_mem[sizeof(Entry)], ga_mem[sizeof(Group)], ma_mem[sizeof(Metadata)], bn_mem[3][sizeof(Binary)], at_mem[2][sizeof(Entry::Attachment)];
static RandomObfuscator& obf() { return *reinterpret_cast<RandomObfuscator*>(obf_mem); }
// entries and groups written by their contract: numbered by their icon
static std::shared_ptr<Entry> num_entry(uint32_t k) { std::shared_ptr<Entry> e = std::make_shared<Entry>(); e->set_icon(k); return e; }
static std::shared_ptr<Group> num_group(uint32_t k) { std::shared_ptr<Group> g = std::make_shared<Group>(); g->set_icon(k); return g; }
extern "C" void h_new_entry(std::shared_ptr<Entry>* out, uint32_t k) { new (out) std::shared_ptr<Entry>(num_entry(k)); }
extern "C" void h_new_group(std::shared_ptr<Group>* out, uint32_t k) { new (out) std::shared_ptr<Group>(num_group(k)); }
extern "C" void h_new_meta(std::shared_ptr<Metadata>* out, uint32_t k) { std::shared_ptr<Metadata> m = std::make_shared<Metadata>(); m->set_maintenance_hist_days(k); new (out) std::shared_ptr<Metadata>(m); }
extern "C" uint32_t h_icon_entry(const Entry* e) { return e->icon(); }
extern "C" uint32_t h_icon_group(const Group* g) { return g->icon(); }
extern "C" uint32_t h_num_meta(const Metadata* m) { return m->maintenance_hist_days(); }
static void same(const std::string& a, const std::string& b, const char* l) { vf_hook("same string", &a, &b, l); }
static void same(const protect<std::string>& a, const protect<std::string>& b, const char* l) { vf_hook("same string", &*a, &*b, l); vf_assert(a.is_protected() == b.is_protected(), "the protection marks are kept"); }
static void same(const temporal<std::string>& a, const temporal<std::string>& b, const char* l) { vf_hook("same string", &*a, &*b, l); vf_assert(a.time() == b.time(), "the times of change are kept"); }
static void same(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b, const char* l) { vf_hook("same vector", &a, &b, l); }
template <std::size_t N> static void same(const std::array<uint8_t, N>& a, const std::array<uint8_t, N>& b, const char* l) { vf_hook("same bytes", a.data(), b.data(), static_cast<uint64_t>(N), l); }
static std::string str(const char* n) { std::string s; vf_string(&s, n); return s; }
static protect<std::string> pro(const char* n, const char* p) { return protect<std::string>(str(n), vf_bool(p)); }
static std::array<uint8_t, 16> id(const char* n) { std::array<uint8_t, 16> a; vf_bytes(a.data(), 16, n); return a; }
static Binary* bin(unsigned k) { return new (bn_mem[k]) Binary(pro(k ? "data1" : "data0", k ? "data1_p" : "data0_p")); }
static Entry* entry() {
  Entry* n = new (ea_mem) Entry();
  n->set_uuid(id("uuid"));
  n->set_icon(vf_u32("icon"));
  n->set_fg_color(str("fg")); n->set_bg_color(str("bg")); n->set_override_url(str("override")); n->set_tags(str("tags"));
  n->set_creation_time(tm_("ctime")); n->set_modification_time(tm_("mtime")); n->set_access_time(tm_("atime")); n->set_expiry_time(tm_("etime")); n->set_move_time(tm_("vtime"));
  n->set_expires(vf_bool("expires")); n->set_usage_count(vf_u32("usage"));
  n->auto_type().set_enabled(vf_bool("auto")); n->auto_type().set_obfuscation(vf_u32("obf")); n->auto_type().set_sequence(str("seq"));
  n->set_title(pro("title", "title_p")); n->set_url(pro("url", "url_p")); n->set_username(pro("user", "user_p")); n->set_password(pro("pass", "pass_p")); n->set_notes(pro("notes", "notes_p"));
  return n;
}
// the accessors: what was set is what is read
static const char acc[] = "an accessor returns what was set";
#define GET(v, in) vf_assert((v) == (in), acc)
static void is(const std::string& a, const char* n) { std::string b = str(n); same(a, b, acc); }
static void is(const protect<std::string>& a, const char* n, const char* p) { is(*a, n); GET(a.is_protected(), vf_bool(p)); }
static void is(const std::array<uint8_t, 16>& a, const char* n) { std::array<uint8_t, 16> b = id(n); same(a, b, acc); }
static void entry_set(const Entry& n) {
  is(n.uuid(), "uuid"); GET(n.icon(), vf_u32("icon")); is(n.fg_color(), "fg"); is(n.bg_color(), "bg"); is(n.override_url(), "override"); is(n.tags(), "tags");
  GET(n.creation_time(), tm_("ctime")); GET(n.modification_time(), tm_("mtime")); GET(n.access_time(), tm_("atime")); GET(n.expiry_time(), tm_("etime")); GET(n.move_time(), tm_("vtime"));
  GET(n.expires(), vf_bool("expires")); GET(n.usage_count(), vf_u32("usage"));
  const Entry::AutoType& a = const_cast<Entry&>(n).auto_type(); GET(a.enabled(), vf_bool("auto")); GET(a.obfuscation(), vf_u32("obf")); is(a.sequence(), "seq");
  is(n.title(), "title", "title_p"); is(n.url(), "url", "url_p"); is(n.username(), "user", "user_p"); is(n.password(), "pass", "pass_p"); is(n.notes(), "notes", "notes_p");
}
static void entry_lists_set(const Entry& n, uint64_t what) {
  const std::vector<Entry::AutoType::Association>& as = const_cast<Entry&>(n).auto_type().associations(); std::size_t k = (what & 1) + (what >> 1 & 1);
  GET(as.size(), k); GET(n.custom_fields().size(), k);
  if (what & 1) { is(as[0].window_, "win0"); is(as[0].sequence_, "key0"); is(n.custom_fields()[0].key(), "field0"); is(n.custom_fields()[0].value(), "value0", "value0_p"); }
  if ((what & 3) == 3) { is(as[1].window_, "win1"); is(as[1].sequence_, "key1"); is(n.custom_fields()[1].key(), "field1"); is(n.custom_fields()[1].value(), "value1", "value1_p"); }
  std::size_t j = 0;
  GET(n.attachments().size(), static_cast<std::size_t>((what >> 2 & 1) + (what >> 3 & 1) + (what >> 7 & 1)));
  if (what & 4) { is(n.attachments()[j]->name(), "aname0"); is(n.attachments()[j]->binary()->data(), "data0", "data0_p"); j++; }
  if (what & 136) { is(n.attachments()[j]->name(), "aname1"); is(n.attachments()[j]->binary()->data(), "data1", "data1_p"); }
  j = 0; GET(n.history().size(), static_cast<std::size_t>((what >> 4 & 1) + (what >> 5 & 1)));
  if (what & 16) GET(n.history()[j++]->icon(), 1u);
  if (what & 32) GET(n.history()[j]->icon(), 2u);
}
// what: 1, 2: associations and custom fields; 4: attachment of the pool, 8: one not in the pool, 128: another of the pool; 16, 32: history entries; 64: custom icon
extern "C" void h_entry(uint64_t what) {
  Entry* n = entry();
  KdbxFile& f = *new (file_mem) KdbxFile();
  if (what & 1) n->auto_type().AddAssociation(str("win0"), str("key0"));
  if (what & 2) n->auto_type().AddAssociation(str("win1"), str("key1"));
  if (what & 1) { std::string k = str("field0"); n->AddCustomField(k, pro("value0", "value0_p")); }
  if (what & 2) { std::string k = str("field1"); n->AddCustomField(k, pro("value1", "value1_p")); }
  std::shared_ptr<Binary> pool;
  if (what & 4) {
    pool = at(bin(0));
    f.binary_pool_.insert(std::make_pair(std::string("0"), pool));
    Entry::Attachment* a = new (at_mem[0]) Entry::Attachment(); a->set_name(str("aname0")); a->set_binary(pool); n->AddAttachment(at(a));
  }
  if (what & 8) { Entry::Attachment* a = new (at_mem[1]) Entry::Attachment(); a->set_name(str("aname1")); a->set_binary(at(bin(1))); n->AddAttachment(at(a)); }
  if (what & 128) {
    std::shared_ptr<Binary> b = at(bin(1));
    f.binary_pool_.insert(std::make_pair(std::string("1"), b));
    Entry::Attachment* a = new (at_mem[1]) Entry::Attachment(); a->set_name(str("aname1")); a->set_binary(b); n->AddAttachment(at(a));
  }
  if (what & 16) n->AddHistoryEntry(num_entry(1));
  if (what & 32) n->AddHistoryEntry(num_entry(2));
  std::shared_ptr<Icon> icon;
  if (what & 64) {
    icon = std::make_shared<Icon>(id("icon_id"), std::vector<uint8_t>());
    n->set_custom_icon(icon);
    f.icon_pool_.insert(std::make_pair(base64_encode(icon->uuid().begin(), icon->uuid().end()), icon));
  }
  pugi::xml_document doc;
  pugi::xml_node node = doc.append_child("Entry");
  vf_hook("made");
  if (!what) entry_set(*n); else entry_lists_set(*n, what);
  f.WriteEntry(node, obf(), at(n));
  vf_hook("written");
  std::array<uint8_t, 16> u = { { 0 } };
  std::shared_ptr<Entry> r = f.ParseEntry(node, u, obf());
  vf_hook("read");
  same(n->uuid(), r->uuid(), "the entry identifier is kept"); same(n->uuid(), u, "the entry identifier is reported");
  vf_assert(n->icon() == r->icon(), "the icon number of an entry is kept");
  same(n->fg_color(), r->fg_color(), "the foreground colour is kept"); same(n->bg_color(), r->bg_color(), "the background colour is kept");
  same(n->override_url(), r->override_url(), "the override URL is kept"); same(n->tags(), r->tags(), "the tags are kept");
  vf_assert(n->creation_time() == r->creation_time(), "the creation time of an entry is kept"); vf_assert(n->modification_time() == r->modification_time(), "the modification time of an entry is kept");
  vf_assert(n->access_time() == r->access_time(), "the access time of an entry is kept"); vf_assert(n->expiry_time() == r->expiry_time(), "the expiry time of an entry is kept"); vf_assert(n->move_time() == r->move_time(), "the move time of an entry is kept");
  vf_assert(n->expires() == r->expires(), "the expiry mark of an entry is kept"); vf_assert(n->usage_count() == r->usage_count(), "the usage count of an entry is kept");
  vf_assert(n->auto_type().enabled() == r->auto_type().enabled(), "the auto-type mark is kept"); vf_assert(n->auto_type().obfuscation() == r->auto_type().obfuscation(), "the auto-type obfuscation is kept"); same(n->auto_type().sequence(), r->auto_type().sequence(), "the auto-type sequence is kept");
  same(n->title(), r->title(), "the title is kept"); same(n->url(), r->url(), "the URL is kept"); same(n->username(), r->username(), "the user name is kept"); same(n->password(), r->password(), "the password is kept"); same(n->notes(), r->notes(), "the notes are kept");
  vf_assert(n->auto_type().associations().size() == r->auto_type().associations().size(), "the associations are kept");
  for (std::size_t i = 0; i < r->auto_type().associations().size(); i++) { same(n->auto_type().associations()[i].window_, r->auto_type().associations()[i].window_, "the association windows are kept in order"); same(n->auto_type().associations()[i].sequence_, r->auto_type().associations()[i].sequence_, "the association sequences are kept in order"); }
  vf_assert(n->custom_fields().size() == r->custom_fields().size(), "the custom fields are kept");
  for (std::size_t i = 0; i < r->custom_fields().size(); i++) { same(n->custom_fields()[i].key(), r->custom_fields()[i].key(), "the custom field names are kept in order"); same(n->custom_fields()[i].value(), r->custom_fields()[i].value(), "the custom field values are kept in order"); }
  vf_assert(n->attachments().size() == r->attachments().size(), "the attachments are kept");
  for (std::size_t i = 0; i < r->attachments().size(); i++) { same(n->attachments()[i]->name(), r->attachments()[i]->name(), "the attachment names are kept in order"); vf_assert(!!r->attachments()[i]->binary(), "an attachment has its data"); same(n->attachments()[i]->binary()->data(), r->attachments()[i]->binary()->data(), "the attachment data is kept"); }
  vf_assert(n->history().size() == r->history().size(), "the history is kept");
  for (std::size_t i = 0; i < r->history().size(); i++) vf_assert(n->history()[i]->icon() == r->history()[i]->icon(), "the history is kept in order");
  vf_assert(n->custom_icon().lock() == r->custom_icon().lock(), "the custom icon of an entry is kept");
  vf_hook("compared");
}
extern "C" void h_entry_uuid(const Entry* e) { vf_hook("entry uuid", e->uuid().data()); }
extern "C" void h_set_entry_uuid(std::shared_ptr<Entry>* e, const uint8_t* p) { std::array<uint8_t, 16> a; std::copy(p, p + 16, a.begin()); (*e)->set_uuid(a); }
extern "C" void h_set_group_uuid(std::shared_ptr<Group>* g, const uint8_t* p) { std::array<uint8_t, 16> a; std::copy(p, p + 16, a.begin()); (*g)->set_uuid(a); }
static Group* group() {
  Group* g = new (ga_mem) Group();
  g->set_uuid(id("uuid"));
  g->set_icon(vf_u32("icon"));
  g->set_name(str("name")); g->set_notes(str("notes"));
  g->set_creation_time(tm_("ctime")); g->set_modification_time(tm_("mtime")); g->set_access_time(tm_("atime")); g->set_expiry_time(tm_("etime")); g->set_move_time(tm_("vtime"));
  g->set_expires(vf_bool("expires")); g->set_usage_count(vf_u32("usage")); g->set_expanded(vf_bool("expanded"));
  g->set_default_autotype_sequence(str("seq")); g->set_autotype(vf_bool("auto")); g->set_search(vf_bool("search"));
  return g;
}
static void group_set(const Group& g) {
  is(g.uuid(), "uuid"); GET(g.icon(), vf_u32("icon")); is(g.name(), "name"); is(g.notes(), "notes");
  GET(g.creation_time(), tm_("ctime")); GET(g.modification_time(), tm_("mtime")); GET(g.access_time(), tm_("atime")); GET(g.expiry_time(), tm_("etime")); GET(g.move_time(), tm_("vtime"));
  GET(g.expires(), vf_bool("expires")); GET(g.usage_count(), vf_u32("usage")); GET(g.expanded(), vf_bool("expanded")); is(g.default_autotype_sequence(), "seq"); GET(g.autotype(), vf_bool("auto")); GET(g.search(), vf_bool("search"));
}
// what: 1, 2: entries; 4, 8: subgroups; 16: custom icon; 32, 64: the first, second entry is the last visible one
extern "C" void h_group(uint64_t what) {
  Group* g = group();
  KdbxFile& f = *new (file_mem) KdbxFile();
  std::shared_ptr<Entry> en[2];
  for (unsigned k = 0; k < 2; k++) if (what & (1u << k)) { en[k] = num_entry(k + 1); en[k]->set_uuid(id(k ? "euuid1" : "euuid0")); g->AddEntry(en[k]); }
  for (unsigned k = 0; k < 2; k++) if (what & (4u << k)) g->AddGroup(num_group(k + 1));
  std::shared_ptr<Icon> icon;
  if (what & 16) {
    icon = std::make_shared<Icon>(id("icon_id"), std::vector<uint8_t>());
    g->set_custom_icon(icon);
    f.icon_pool_.insert(std::make_pair(base64_encode(icon->uuid().begin(), icon->uuid().end()), icon));
  }
  if (what & 32) g->set_last_visible_entry(en[0]);
  if (what & 64) g->set_last_visible_entry(en[1]);
  pugi::xml_document doc;
  pugi::xml_node node = doc.append_child("Group");
  vf_hook("made");
  if (!what) group_set(*g);
  for (std::size_t k = 0, i = 0, j = 0; k < 2; k++) {
    if (what & (1u << k)) { GET(g->Entries().at(i), en[k]); GET(g->Entries()[i]->icon(), static_cast<uint32_t>(k + 1)); i++; }
    if (what & (4u << k)) { GET(g->Groups().at(j)->icon(), static_cast<uint32_t>(k + 1)); j++; }
  }
  if (what & 16) GET(g->custom_icon().lock(), icon);
  GET(g->last_visible_entry().lock(), what & 32 ? en[0] : what & 64 ? en[1] : std::shared_ptr<Entry>());
  f.WriteGroup(node, obf(), at(g));
  vf_hook("written");
  std::shared_ptr<Group> r = f.ParseGroup(node, obf());
  vf_hook("read");
  same(g->uuid(), r->uuid(), "the group identifier is kept");
  vf_assert(g->icon() == r->icon(), "the icon number of a group is kept");
  same(g->name(), r->name(), "the group name is kept"); same(g->notes(), r->notes(), "the group notes are kept");
  vf_assert(g->creation_time() == r->creation_time(), "the creation time of a group is kept"); vf_assert(g->modification_time() == r->modification_time(), "the modification time of a group is kept");
  vf_assert(g->access_time() == r->access_time(), "the access time of a group is kept"); vf_assert(g->expiry_time() == r->expiry_time(), "the expiry time of a group is kept"); vf_assert(g->move_time() == r->move_time(), "the move time of a group is kept");
  vf_assert(g->expires() == r->expires(), "the expiry mark of a group is kept"); vf_assert(g->usage_count() == r->usage_count(), "the usage count of a group is kept"); vf_assert(g->expanded() == r->expanded(), "the expanded mark is kept");
  same(g->default_autotype_sequence(), r->default_autotype_sequence(), "the default auto-type sequence is kept"); vf_assert(g->autotype() == r->autotype(), "the auto-type mark of a group is kept"); vf_assert(g->search() == r->search(), "the search mark is kept");
  vf_assert(g->custom_icon().lock() == r->custom_icon().lock(), "the custom icon of a group is kept");
  vf_assert(g->Entries().size() == r->Entries().size(), "the entries of a group are kept");
  for (std::size_t i = 0; i < r->Entries().size(); i++) vf_assert(g->Entries()[i]->icon() == r->Entries()[i]->icon(), "the entries of a group are kept in order");
  vf_assert(g->Groups().size() == r->Groups().size(), "the subgroups are kept");
  for (std::size_t i = 0; i < r->Groups().size(); i++) vf_assert(g->Groups()[i]->icon() == r->Groups()[i]->icon(), "the subgroups are kept in order");
  std::shared_ptr<Entry> a = g->last_visible_entry().lock(), b = r->last_visible_entry().lock();
  vf_assert(!a == !b, "the last visible entry is kept");
  if (a && b) vf_assert(a->icon() == b->icon(), "the last visible entry is kept");
  vf_hook("compared");
}
static temporal<std::string> temp(const char* n, const char* t) { return temporal<std::string>(str(n), tm_(t)); }
static Metadata* meta() {
  Metadata* m = new (ma_mem) Metadata();
  m->set_generator(str("generator")); m->set_database_name(temp("dbname", "dbname_t")); m->set_database_desc(temp("desc", "desc_t")); m->set_default_username(temp("defuser", "defuser_t"));
  m->set_maintenance_hist_days(vf_u32("days")); m->set_database_color(str("color"));
  m->set_master_key_changed(tm_("mkc")); m->set_master_key_change_rec(vf_i64("mkrec")); m->set_master_key_change_force(vf_i64("mkforce"));
  m->memory_protection().set_title(vf_bool("mp_title")); m->memory_protection().set_username(vf_bool("mp_user")); m->memory_protection().set_password(vf_bool("mp_pass")); m->memory_protection().set_url(vf_bool("mp_url")); m->memory_protection().set_notes(vf_bool("mp_notes"));
  m->set_recycle_bin_changed(tm_("bin_t")); m->set_entry_templates_changed(tm_("tpl_t"));
  m->set_history_max_items(static_cast<int32_t>(vf_u32("hitems"))); m->set_history_max_size(vf_i64("hsize"));
  return m;
}
static void tis(const temporal<std::string>& a, const char* n, const char* t) { is(*a, n); GET(a.time(), tm_(t)); }
static void meta_set(Metadata& m) {
  is(m.generator(), "generator"); tis(m.database_name(), "dbname", "dbname_t"); tis(m.database_desc(), "desc", "desc_t"); tis(m.default_username(), "defuser", "defuser_t");
  GET(m.maintenance_hist_days(), vf_u32("days")); is(m.database_color(), "color"); GET(m.master_key_changed(), tm_("mkc")); GET(m.master_key_change_rec(), vf_i64("mkrec")); GET(m.master_key_change_force(), vf_i64("mkforce"));
  GET(m.memory_protection().title(), vf_bool("mp_title")); GET(m.memory_protection().username(), vf_bool("mp_user")); GET(m.memory_protection().password(), vf_bool("mp_pass")); GET(m.memory_protection().url(), vf_bool("mp_url")); GET(m.memory_protection().notes(), vf_bool("mp_notes"));
  GET(m.recycle_bin_changed(), tm_("bin_t")); GET(m.entry_templates_changed(), tm_("tpl_t")); GET(m.history_max_items(), static_cast<int32_t>(vf_u32("hitems"))); GET(m.history_max_size(), vf_i64("hsize"));
}
// what: 1, 2: icons; 4, 8: binaries; 16, 32: custom data; 64: the binaries are compressed
extern "C" void h_meta(uint64_t what) {
  Metadata* m = meta();
  KdbxFile& f = *new (file_mem) KdbxFile(), & f2 = *new (file2_mem) KdbxFile();
  vf_bytes(f.header_hash_.data(), 32, "hash");
  std::array<uint8_t, 32> hash = f.header_hash_;
  for (unsigned k = 0; k < 2; k++) if (what & (1u << k)) { std::vector<uint8_t> d; vf_vector(&d, k ? "icon1" : "icon0"); m->AddIcon(std::make_shared<Icon>(id(k ? "icon_id1" : "icon_id0"), d)); }
  for (unsigned k = 0; k < 2; k++) if (what & (4u << k)) { std::shared_ptr<Binary> b = at(bin(k)); b->set_compress(what & 64); m->AddBinary(b); }
  for (unsigned k = 0; k < 2; k++) if (what & (16u << k)) m->AddField(str(k ? "ckey1" : "ckey0"), str(k ? "cval1" : "cval0"));
  pugi::xml_document doc;
  pugi::xml_node node = doc.append_child("Meta");
  vf_hook("made");
  if (!what) meta_set(*m);
  if ((what & 3) == 3) { is(m->icons().at(0)->uuid(), "icon_id0"); is(m->icons().at(1)->uuid(), "icon_id1"); }
  if ((what & 12) == 12) { is(m->binaries().at(0)->data(), "data0", "data0_p"); is(m->binaries().at(1)->data(), "data1", "data1_p"); GET(m->binaries()[0]->compress(), !!(what & 64)); }
  if ((what & 48) == 48) { is(m->fields().at(0).key(), "ckey0"); is(m->fields()[0].value(), "cval0"); is(m->fields().at(1).key(), "ckey1"); is(m->fields()[1].value(), "cval1"); }
  f.WriteMeta(node, obf(), at(m));
  vf_hook("written");
  std::shared_ptr<Metadata> r = f2.ParseMeta(node, obf());
  vf_hook("read");
  same(hash, f2.header_hash_, "the header hash is kept");
  same(m->generator(), r->generator(), "the generator is kept"); same(m->database_name(), r->database_name(), "the database name is kept"); same(m->database_desc(), r->database_desc(), "the database description is kept"); same(m->default_username(), r->default_username(), "the default user name is kept");
  vf_assert(m->maintenance_hist_days() == r->maintenance_hist_days(), "the maintenance history days are kept"); same(m->database_color(), r->database_color(), "the colour is kept");
  vf_assert(m->master_key_changed() == r->master_key_changed(), "the time of the master key change is kept"); vf_assert(m->master_key_change_rec() == r->master_key_change_rec(), "the recommended key change is kept"); vf_assert(m->master_key_change_force() == r->master_key_change_force(), "the forced key change is kept");
  vf_assert(m->memory_protection().title() == r->memory_protection().title(), "the title protection setting is kept"); vf_assert(m->memory_protection().username() == r->memory_protection().username(), "the user name protection setting is kept");
  vf_assert(m->memory_protection().password() == r->memory_protection().password(), "the password protection setting is kept"); vf_assert(m->memory_protection().url() == r->memory_protection().url(), "the URL protection setting is kept"); vf_assert(m->memory_protection().notes() == r->memory_protection().notes(), "the notes protection setting is kept");
  vf_assert(m->recycle_bin_changed() == r->recycle_bin_changed(), "the time of the recycle bin change is kept"); vf_assert(m->entry_templates_changed() == r->entry_templates_changed(), "the time of the entry templates change is kept");
  vf_assert(m->history_max_items() == r->history_max_items(), "the maximum history length is kept"); vf_assert(m->history_max_size() == r->history_max_size(), "the maximum history size is kept");
  vf_assert(m->icons().size() == r->icons().size(), "the custom icons are kept");
  for (std::size_t i = 0; i < r->icons().size(); i++) { same(m->icons()[i]->uuid(), r->icons()[i]->uuid(), "the custom icon identifiers are kept in order"); same(m->icons()[i]->data(), r->icons()[i]->data(), "the custom icon images are kept in order"); }
  vf_assert(m->binaries().size() == r->binaries().size(), "the binaries are kept");
  for (std::size_t i = 0; i < r->binaries().size(); i++) { same(m->binaries()[i]->data(), r->binaries()[i]->data(), "the binaries are kept in order"); vf_assert(m->binaries()[i]->data().is_protected() || m->binaries()[i]->compress() == r->binaries()[i]->compress(), "the compression marks are kept"); }
  vf_assert(m->fields().size() == r->fields().size(), "the custom data is kept");
  for (std::size_t i = 0; i < r->fields().size(); i++) { same(m->fields()[i].key(), r->fields()[i].key(), "the custom data keys are kept in order"); same(m->fields()[i].value(), r->fields()[i].value(), "the custom data values are kept in order"); }
  vf_assert(f.binary_pool_.size() == m->binaries().size(), "the writer numbers the binaries"); vf_assert(f2.binary_pool_.size() == m->binaries().size(), "the reader knows the binaries by number");
  vf_assert(f2.icon_pool_.size() == m->icons().size(), "the reader knows the icons by identifier");
  for (std::size_t i = 0; i < r->binaries().size(); i++) {
    BinaryPool_t::iterator x = f.binary_pool_.find(i ? "1" : "0"), y = f2.binary_pool_.find(i ? "1" : "0");
    vf_assert(x != f.binary_pool_.end() && y != f2.binary_pool_.end(), "the binaries are numbered in order");
    vf_assert(x->second == m->binaries()[i] && y->second == r->binaries()[i], "a number means the same binary to the writer and the reader");
  }
  for (std::size_t i = 0; i < r->icons().size(); i++) {
    IconPool_t::iterator y = f2.icon_pool_.find(base64_encode(r->icons()[i]->uuid().begin(), r->icons()[i]->uuid().end()));
    vf_assert(y != f2.icon_pool_.end() && y->second.lock() == r->icons()[i], "an identifier means the icon that has it");
  }
  vf_hook("compared");
}
// the whole document: root group and metadata by contract.  what & 3: recycle bin (1 root, 2 subgroup, 3 one not in the tree); then entry templates, last selected, last visible
extern "C" void h_doc(uint64_t what) {
  KdbxFile& f = *new (file_mem) KdbxFile(), & f2 = *new (file2_mem) KdbxFile();
  std::shared_ptr<Metadata> m = std::make_shared<Metadata>(); m->set_maintenance_hist_days(7);
  std::shared_ptr<Group> g[4];
  g[1] = num_group(1); g[2] = num_group(2); g[3] = num_group(3);
  g[1]->set_uuid(id("guuid1")); g[2]->set_uuid(id("guuid2")); g[3]->set_uuid(id("guuid3"));
  g[1]->AddGroup(g[2]);
  m->set_recycle_bin(g[what & 3]); m->set_entry_templates(g[what >> 2 & 3]);
  if (what >> 4 & 3) m->set_last_selected_group(g[what >> 4 & 3]);
  if (what >> 6 & 3) m->set_last_visible_group(g[what >> 6 & 3]);
  Database* db = new (db_mem) Database(), * db2 = new (db2_mem) Database();
  db->set_meta(m); db->set_root(g[1]);
  vf_hook("made");
  GET(db->meta(), m); GET(db->root(), g[1]); GET(m->recycle_bin(), g[what & 3]); GET(m->entry_templates(), g[what >> 2 & 3]);
  GET(m->last_selected_group().lock(), g[what >> 4 & 3]); GET(m->last_visible_group().lock(), g[what >> 6 & 3]);
  std::stringstream s;
  f.WriteXml(s, obf(), *db);
  vf_hook("written");
  f2.ParseXml(s, obf(), *db2);
  vf_hook("read");
  std::shared_ptr<Metadata> r = db2->meta();
  vf_assert(!!r, "the metadata is kept"); vf_assert(!!db2->root(), "the root group is kept");
  vf_assert(r->maintenance_hist_days() == 7, "the metadata is kept");
  vf_assert(db2->root()->icon() == 1 && db2->root()->Groups().size() == 1 && db2->root()->Groups()[0]->icon() == 2, "the group tree is kept");
  vf_assert(!m->recycle_bin() == !r->recycle_bin(), "the recycle bin is kept"); if (r->recycle_bin()) { same(m->recycle_bin()->uuid(), r->recycle_bin()->uuid(), "the recycle bin is kept"); if ((what & 3) != 3) vf_assert(r->recycle_bin()->icon() == m->recycle_bin()->icon(), "the recycle bin is the group of the tree"); }
  vf_assert(!m->entry_templates() == !r->entry_templates(), "the entry templates group is kept"); if (r->entry_templates()) { same(m->entry_templates()->uuid(), r->entry_templates()->uuid(), "the entry templates group is kept"); if ((what >> 2 & 3) != 3) vf_assert(r->entry_templates()->icon() == m->entry_templates()->icon(), "the entry templates group is the group of the tree"); }
  std::shared_ptr<Group> a = m->last_selected_group().lock(), b = r->last_selected_group().lock();
  vf_assert(!a == !b, "the last selected group is kept"); if (a && b) vf_assert(a->icon() == b->icon(), "the last selected group is kept");
  a = m->last_visible_group().lock(); b = r->last_visible_group().lock();
  vf_assert(!a == !b, "the last visible group is kept"); if (a && b) vf_assert(a->icon() == b->icon(), "the last visible group is kept");
  vf_hook("compared");
}
#include "defined.hh"
// readers on any document: what: 0 metadata, 1 entry, 2 group, 3 document
extern "C" void h_read(uint64_t what) {
  KdbxFile& f = *new (file_mem) KdbxFile();
  vf_bytes(f.header_hash_.data(), 32, "hash");
  pugi::xml_document doc;
  vf_hook("document", &doc);
  if (what == 0) {
    pugi::xml_node n = doc.child("Meta");
    std::shared_ptr<Metadata> m = f.ParseMeta(n, obf());
    vf_hook("accepted");
    def_(m->database_name().time(), "the time of the database name"); def_(m->database_desc().time(), "the time of the description"); def_(m->default_username().time(), "the time of the default user name");
    def_(m->maintenance_hist_days(), "the maintenance history days"); def_(m->master_key_changed(), "the time of the master key change"); def_(m->master_key_change_rec(), "the recommended key change"); def_(m->master_key_change_force(), "the forced key change");
    def_(m->memory_protection().title() | m->memory_protection().username() << 1 | m->memory_protection().password() << 2 | m->memory_protection().url() << 3 | m->memory_protection().notes() << 4, "the protection settings");
    def_(m->recycle_bin_changed(), "the time of the recycle bin change"); def_(m->entry_templates_changed(), "the time of the templates change"); def_(m->history_max_items(), "the maximum history length"); def_(m->history_max_size(), "the maximum history size");
    for (std::size_t i = 0; i < m->icons().size(); i++) defb_(m->icons()[i]->uuid(), "the identifier of an icon");
    for (std::size_t i = 0; i < m->binaries().size(); i++) { def_(m->binaries()[i]->data().is_protected(), "the protection mark of a binary"); def_(m->binaries()[i]->compress(), "the compression mark of a binary"); }
    defb_(f.header_hash_, "the header hash");
  } else if (what == 1) {
    if (vf_bool("pool")) f.binary_pool_.insert(std::make_pair(std::string("0"), at(bin(0))));
    std::array<uint8_t, 16> u = { { 0 } };
    pugi::xml_node n = doc.child("Entry");
    std::shared_ptr<Entry> e = f.ParseEntry(n, u, obf());
    vf_hook("accepted"); defined(*e);
    for (std::size_t i = 0; i < e->attachments().size(); i++) vf_assert(!!e->attachments()[i] && !!e->attachments()[i]->binary(), "an attachment that is read has data");
  } else if (what == 2) {
    pugi::xml_node n = doc.child("Group");
    std::shared_ptr<Group> g = f.ParseGroup(n, obf());
    vf_hook("accepted"); defined(*g);
    for (std::size_t i = 0; i < g->Entries().size(); i++) vf_assert(!!g->Entries()[i], "an entry that is read exists");
    for (std::size_t i = 0; i < g->Groups().size(); i++) vf_assert(!!g->Groups()[i], "a group that is read exists");
  } else {
    std::stringstream s;
    Database* db = new (db_mem) Database();
    f.ParseXml(s, obf(), *db);
    vf_hook("accepted");
    vf_assert(!!db->meta() && !!db->root(), "a database that is read has metadata and a root group");
  }
}
