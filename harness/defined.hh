// every value of what was read is handed to the checker, which asks that none of them is uninitialised memory
static void def_(uint64_t v, const char* l) { vf_hook("defined", v, l); }
template <class A> static void defb_(const A& a, const char* l) { vf_hook("defined bytes", a.data(), static_cast<uint64_t>(a.size()), l); }
static void defined(keepass::Entry& e) {
  defb_(e.uuid(), "the identifier of an entry"); def_(e.icon(), "the icon of an entry");
  def_(e.creation_time(), "the creation time of an entry"); def_(e.modification_time(), "the modification time of an entry"); def_(e.access_time(), "the access time of an entry"); def_(e.expiry_time(), "the expiry time of an entry"); def_(e.move_time(), "the move time of an entry");
  def_(e.expires(), "the expiry mark of an entry"); def_(e.usage_count(), "the usage count of an entry");
  def_(e.auto_type().enabled(), "the auto-type mark of an entry"); def_(e.auto_type().obfuscation(), "the auto-type obfuscation of an entry");
  def_(e.title().is_protected(), "the protection mark of a title"); def_(e.url().is_protected(), "the protection mark of a URL"); def_(e.username().is_protected(), "the protection mark of a user name"); def_(e.password().is_protected(), "the protection mark of a password"); def_(e.notes().is_protected(), "the protection mark of notes");
  for (std::size_t i = 0; i < e.custom_fields().size(); i++) def_(e.custom_fields()[i].value().is_protected(), "the protection mark of a custom field");
}
static void defined(keepass::Group& g) {
  defb_(g.uuid(), "the identifier of a group"); def_(g.icon(), "the icon of a group");
  def_(g.creation_time(), "the creation time of a group"); def_(g.modification_time(), "the modification time of a group"); def_(g.access_time(), "the access time of a group"); def_(g.expiry_time(), "the expiry time of a group"); def_(g.move_time(), "the move time of a group");
  def_(g.expires(), "the expiry mark of a group"); def_(g.usage_count(), "the usage count of a group"); def_(g.flags(), "the flags of a group");
  def_(g.expanded(), "the expanded mark of a group"); def_(g.autotype(), "the auto-type mark of a group"); def_(g.search(), "the search mark of a group");
}
