#include "db.hh"
using namespace db;
// expected tree of a level list: "" when it must be rejected, else "parent indices"
static S show(Group& g, std::map<const Group*, int>& ix, int self) { S s; for (auto& c : g.Groups()) { s += std::to_string(self) + ">" + c->name() + " "; int q = atoi(c->name().c_str() + 1); s += show(*c, ix, q); } for (auto& e : g.Entries()) s += std::to_string(self) + ":" + *e->title() + " "; return s; }
struct Rec { std::vector<int> level; std::vector<uint32_t> id; std::vector<uint32_t> entries; };
static S model(const Rec& q) { size_t n = q.level.size(); std::vector<int> par(n); std::vector<std::vector<int>> ch(n + 1), en(n + 1);
  for (size_t i = 0; i < n; i++) { if (q.level[i] == 0) par[i] = -1; else { int p = -2; for (int j = (int)i - 1; j >= 0; j--) if (q.level[j] == q.level[i] - 1) { p = j; break; } if (p == -2) return ""; if (i == 0 || q.level[i] > q.level[i - 1] + 1) return ""; par[i] = p; } ch[par[i] + 1].push_back(i); }
  for (size_t e = 0; e < q.entries.size(); e++) { int g = -2; for (size_t i = 0; i < n; i++) if (q.id[i] == q.entries[e]) g = i; if (g == -2) return ""; en[g + 1].push_back(e); }
  std::function<S(int)> rec = [&](int g) { S s; for (int c : ch[g + 1]) s += std::to_string(g) + ">g" + std::to_string(c) + " " + rec(c); for (int e : en[g + 1]) s += std::to_string(g) + ":e" + std::to_string(e) + " "; return s; }; return "tree " + rec(-1); }
static void one(const Rec& q) { S ds = "levels"; for (int l : q.level) ds += " " + std::to_string(l); ds += " ids"; for (auto l : q.id) ds += " " + std::to_string(l); ds += " entries in"; for (auto l : q.entries) ds += " " + std::to_string(l); rp::begin(ds);
  D f; f.rounds = 0; f.ng = q.level.size(); f.ne = q.entries.size(); S c; for (size_t i = 0; i < q.level.size(); i++) c += kdbgroup(q.id[i], q.level[i], "g" + std::to_string(i)); for (size_t i = 0; i < q.entries.size(); i++) c += kdbentry(q.entries[i], "e" + std::to_string(i)); write(path(), f.file(c));
  std::unique_ptr<Database> d; S kd = kind([&] { KdbFile k; d = k.Import(path(), K().key()); }); S want = model(q);
  if (want.empty()) { rp::check(kd == "format error", "a malformed level list or orphaned entry gives: " + kd); return; }
  if (!rp::check(kd == "ok" && d && d->root(), "a well-formed file is rejected: " + kd)) return;
  std::map<const Group*, int> ix; S got = "tree " + show(*d->root(), ix, -1); rp::check(got == want, "tree is " + got.substr(0, 300) + " expected " + want.substr(0, 300)); }
int main(int argc, char** argv) { rp::init(argc, argv); rp::Rng& r = R(); setenv("TZ", "UTC", 1);
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int n = 0; n <= 5; n++) { std::vector<int> lv(n, 0); for (;;) { Rec q; q.level = lv; for (int i = 0; i < n; i++) { q.id.push_back(i); } if (n) for (int i = n - 1; i >= 0; i--) q.entries.push_back(i); one(q); int k = n - 1; while (k >= 0 && ++lv[k] == 4) lv[k--] = 0; if (k < 0) break; } }
    for (int i = 0; i < 400; i++) { Rec q; int n = 1 + r.below(i % 10 == 0 ? 60 : 12); int l = 0; for (int j = 0; j < n; j++) { q.level.push_back(l); q.id.push_back(r.below(4) ? 100 + j * 7 : 0xffffffffu - j); int m = l + 1; l = r.below(3) ? r.below(m + 1) : m; if (r.one_in(40)) l = m + 1 + r.below(3); } for (int j = r.below(8); j > 0; j--) q.entries.push_back(r.one_in(25) ? 5 : q.id[r.below(n)]); one(q); }
    // deep walks: down, a few steps up, down again
    for (int i = 0; i < 60; i++) { Rec q; int l = -1; for (int t = 1 + r.below(5); t > 0; t--) { for (int k = 1 + r.below(i % 5 ? 14 : 60); k > 0; k--) { q.level.push_back(++l); q.id.push_back(q.id.size()); } l -= 1 + r.below(std::min(l + 1, 5)); } for (int j = r.below(6); j > 0; j--) q.entries.push_back(q.id[r.below(q.id.size())]); one(q); }
    for (int l : {1, 2, 255, 256, 257, 65534, 65535}) { Rec q; q.level = {l}; q.id = {0}; one(q); q.level = {0, l}; q.id = {0, 1}; one(q); q.level = {0, 1, l}; q.id = {0, 1, 2}; one(q); }
    { Rec q; for (int i = 0; i < 400; i++) { q.level.push_back(i); q.id.push_back(i); } for (int i = 0; i < 400; i += 9) q.entries.push_back(399 - i); q.level.push_back(300); q.id.push_back(1000); q.level.push_back(0); q.id.push_back(1001); one(q); q.level.push_back(2); q.id.push_back(1002); one(q); }
    { Rec q; q.level = {0, 1, 0}; q.id = {5, 6, 7}; q.entries = {6, 7, 5, 6, 6, 7}; one(q); q.entries.push_back(4); one(q); Rec z; z.entries = {0}; one(z); }
  }
  return rp::finish(); }
