#include "vf.hh"
#include "kdb.cc"
using namespace keepass;
extern "C" void h_string() {
  std::stringstream s;
  vf_hook("text", &s);
  std::string r = consume<std::string>(s);
  vf_hook("string", &r);
}
static std::time_t tm_(const char* n) { return static_cast<std::time_t>(vf_u64(n)); }
alignas(16) static unsigned char ga_mem[sizeof(Group)], ea_mem[sizeof(Entry)], at_mem[sizeof(Entry::Attachment)], bn_mem[sizeof(Binary)];
template <class T> static std::shared_ptr<T> at(T* p) { return std::shared_ptr<T>(std::shared_ptr<T>(), p); }
extern "C" void h_group() {
  Group* g = new (ga_mem) Group();
  std::string s;
  vf_string(&s, "name"); g->set_name(s);
  g->set_icon(vf_u32("icon"));
  g->set_flags(vf_u16("flags"));
  g->set_creation_time(tm_("ctime")); g->set_modification_time(tm_("mtime"));
  g->set_access_time(tm_("atime")); g->set_expiry_time(tm_("etime"));
  vf_hook("made");
  KdbFile f;
  std::stringstream st;
  f.WriteGroup(st, at(g), vf_u32("id"), vf_u16("level"));
  vf_hook("written", &st);
  uint32_t id = 0; uint16_t level = 0;
  std::shared_ptr<Group> r = f.ReadGroup(st, id, level);
  vf_hook("group", &r->name(), r->icon(), r->flags(), r->creation_time(), r->modification_time(), r->access_time(), r->expiry_time(), id, level, r->Groups().size() + r->Entries().size(), &st);
}
extern "C" void h_entry() {
  Entry* n = new (ea_mem) Entry();
  std::array<uint8_t, 16> u; vf_bytes(u.data(), 16, "uuid"); n->set_uuid(u);
  std::string s;
  n->set_icon(vf_u32("icon"));
  vf_string(&s, "title"); n->set_title(protect<std::string>(s, false));
  vf_string(&s, "url"); n->set_url(protect<std::string>(s, false));
  vf_string(&s, "username"); n->set_username(protect<std::string>(s, false));
  vf_string(&s, "password"); n->set_password(protect<std::string>(s, false));
  vf_string(&s, "notes"); n->set_notes(protect<std::string>(s, false));
  n->set_creation_time(tm_("ctime")); n->set_modification_time(tm_("mtime"));
  n->set_access_time(tm_("atime")); n->set_expiry_time(tm_("etime"));
  if (vf_bool("attached")) {
    Entry::Attachment* a = new (at_mem) Entry::Attachment();
    vf_string(&s, "aname"); a->set_name(s);
    vf_string(&s, "adata");
    a->set_binary(at(new (bn_mem) Binary(protect<std::string>(s, false))));
    n->AddAttachment(at(a));
  }
  vf_hook("made");
  KdbFile f;
  std::stringstream st;
  f.WriteEntry(st, at(n), vf_u32("id"));
  vf_hook("written", &st);
  uint32_t id = 0;
  std::shared_ptr<Entry> r = f.ReadEntry(st, id);
  vf_hook("entry", r->uuid().data(), r->icon(), &r->title(), &r->url(), &r->username(), &r->password(), &r->notes(), r->creation_time(), r->modification_time(), r->access_time(), r->expiry_time(), id, r->attachments().size(), &st);
  if (r->attachments().size() == 1)
    vf_hook("attachment", &r->attachments()[0]->name(), r->attachments()[0]->binary() ? 1 : 0, &*r->attachments()[0]->binary()->data());
}
// records with any contents
extern "C" void h_group_layout(Group* g) { vf_hook("group layout", &g->name_, &g->icon_, &g->flags_, &g->creation_time_, &g->modification_time_, &g->access_time_, &g->expiry_time_); }
extern "C" void h_entry_layout(Entry* n) { vf_hook("entry layout", &*n->title_, &*n->url_, &*n->username_, &*n->password_, &*n->notes_); }
extern "C" void h_att_layout(Entry::Attachment* n) { vf_hook("attachment layout", &n->name_); }
#include "defined.hh"
extern "C" void h_read_group() {
  std::stringstream s;
  vf_hook("text", &s);
  KdbFile f;
  uint32_t id = vf_u32("id"); uint16_t level = vf_u16("level");
  std::shared_ptr<Group> r = f.ReadGroup(s, id, level);
  vf_hook("record", &s, r ? 1 : 0);
  if (r) defined(*r);
  def_(id, "the number of a group"); def_(level, "the level of a group");
}
extern "C" void h_read_entry() {
  std::stringstream s;
  vf_hook("text", &s);
  KdbFile f;
  uint32_t id = vf_u32("id");
  std::shared_ptr<Entry> r = f.ReadEntry(s, id);
  vf_hook("record", &s, r ? 1 : 0);
  if (r) defined(*r);
  def_(id, "the group number of an entry");
}
