#include "vf.hh"
#include "entry.cc"
#include "group.cc"
#include "icon.hh"
#include <new>
using namespace keepass;
// never destroyed: the lists have symbolic length
#define NEW(T, x, args) alignas(T) static char buf_##x[sizeof(T)]; T& x = *new (buf_##x) T args
#define STR(x, n) vf_string(&(x), n)
#define PRO(x, n) vf_string(&(x).value_, n); (x).protected_ = vf_bool(n "_prot")
#define ENTRY(e, p) vf_bytes(e.uuid_.data(), 16, p "uuid"); e.icon_ = vf_u32(p "icon"); PRO(e.title_, p "title"); PRO(e.url_, p "url"); STR(e.override_url_, p "override_url"); \
  PRO(e.username_, p "username"); PRO(e.password_, p "password"); PRO(e.notes_, p "notes"); STR(e.tags_, p "tags"); e.creation_time_ = vf_i64(p "creation_time"); e.modification_time_ = vf_i64(p "modification_time"); \
  e.access_time_ = vf_i64(p "access_time"); e.expiry_time_ = vf_i64(p "expiry_time"); e.move_time_ = vf_i64(p "move_time"); e.expires_ = vf_bool(p "expires"); e.usage_count_ = vf_u32(p "usage_count"); \
  STR(e.bg_color_, p "bg_color"); STR(e.fg_color_, p "fg_color"); e.auto_type_.enabled_ = vf_bool(p "at_enabled"); e.auto_type_.obfuscation_ = vf_u32(p "at_obfuscation"); STR(e.auto_type_.sequence_, p "at_sequence"); \
  vf_hook("weak", &e.custom_icon_, p "custom_icon"); vf_hook("list", &e.auto_type_.associations_, p "associations", (int)sizeof(Entry::AutoType::Association)); vf_hook("plist", &e.attachments_, p "attachments"); \
  vf_hook("plist", &e.history_, p "history"); vf_hook("list", &e.custom_fields_, p "custom_fields", (int)sizeof(Entry::Field))
#define GROUP(g, p) vf_bytes(g.uuid_.data(), 16, p "uuid"); g.icon_ = vf_u32(p "icon"); STR(g.name_, p "name"); STR(g.notes_, p "notes"); g.creation_time_ = vf_i64(p "creation_time"); g.modification_time_ = vf_i64(p "modification_time"); \
  g.access_time_ = vf_i64(p "access_time"); g.expiry_time_ = vf_i64(p "expiry_time"); g.move_time_ = vf_i64(p "move_time"); g.flags_ = vf_u16(p "flags"); g.expires_ = vf_bool(p "expires"); g.expanded_ = vf_bool(p "expanded"); \
  g.usage_count_ = vf_u32(p "usage_count"); STR(g.default_autotype_sequence_, p "default_autotype_sequence"); g.autotype_ = vf_bool(p "autotype"); g.search_ = vf_bool(p "search"); \
  vf_hook("weak", &g.custom_icon_, p "custom_icon"); vf_hook("weak", &g.last_visible_entry_, p "last_visible_entry"); vf_hook("plist", &g.groups_, p "groups"); vf_hook("plist", &g.entries_, p "entries")
#define H(n, T, FILL) \
  extern "C" void h_##n##_eq() { NEW(T, a, ()); NEW(T, b, ()); FILL(a, "a_"); FILL(b, "b_"); vf_hook("top", &a, &b); bool r = a == b; vf_hook("done", (int)r); } \
  extern "C" void h_##n##_ne() { NEW(T, a, ()); NEW(T, b, ()); FILL(a, "a_"); FILL(b, "b_"); vf_hook("top", &a, &b); bool r = a != b; vf_hook("done", (int)!r); }
H(entry, Entry, ENTRY)
H(group, Group, GROUP)
#define ATT(x, p) STR(x.name_, p "name"); vf_hook("ptr", &x.binary_, p "binary")
H(attachment, Entry::Attachment, ATT)
#define ASSOC(x, p) STR(x.window_, p "window"); STR(x.sequence_, p "sequence")
extern "C" void h_association_eq() { NEW(Entry::AutoType::Association, a, ("", "")); NEW(Entry::AutoType::Association, b, ("", "")); ASSOC(a, "a_"); ASSOC(b, "b_"); vf_hook("top", &a, &b); bool r = a == b; vf_hook("done", (int)r); }
extern "C" void h_association_ne() { NEW(Entry::AutoType::Association, a, ("", "")); NEW(Entry::AutoType::Association, b, ("", "")); ASSOC(a, "a_"); ASSOC(b, "b_"); vf_hook("top", &a, &b); bool r = a != b; vf_hook("done", (int)!r); }
#define FIELD(x, p) STR(x.key_, p "key"); PRO(x.value_, p "value")
extern "C" void h_field_eq() { protect<std::string> v; NEW(Entry::Field, a, ("", v)); NEW(Entry::Field, b, ("", v)); FIELD(a, "a_"); FIELD(b, "b_"); vf_hook("top", &a, &b); bool r = a == b; vf_hook("done", (int)r); }
extern "C" void h_field_ne() { protect<std::string> v; NEW(Entry::Field, a, ("", v)); NEW(Entry::Field, b, ("", v)); FIELD(a, "a_"); FIELD(b, "b_"); vf_hook("top", &a, &b); bool r = a != b; vf_hook("done", (int)!r); }
#define BIN(x, p) PRO(x.data_, p "data"); x.compress_ = vf_bool(p "compress")
extern "C" void h_binary_eq() { protect<std::string> v; NEW(Binary, a, (v)); NEW(Binary, b, (v)); BIN(a, "a_"); BIN(b, "b_"); vf_hook("top", &a, &b); bool r = a == b; vf_hook("done", (int)r); }
extern "C" void h_binary_ne() { protect<std::string> v; NEW(Binary, a, (v)); NEW(Binary, b, (v)); BIN(a, "a_"); BIN(b, "b_"); vf_hook("top", &a, &b); bool r = a != b; vf_hook("done", (int)!r); }
