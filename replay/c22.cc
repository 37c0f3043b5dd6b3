#include "rp.hh"
#include "key.hh"
#include "exception.hh"
using namespace keepass;
typedef std::array<uint8_t, 32> K;
static std::string b64(const std::string& s) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
  for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0, n = 0; for (int k = 0; k < 3; k++) { v <<= 8; if (i + k < s.size()) { v |= (unsigned char)s[i + k]; n++; } }
    for (unsigned k = 0; k < 4; k++) r.push_back(k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='); } return r; }
static void write(const std::string& s) { std::ofstream f(rp::tmp() + "/kf", std::ios::binary); f << s; }
static rp::Rng R(1);
// expect: the 32 bytes, or "" for rejection
static void one(const char* what, const std::string& content, const std::string& expect, const char* path = 0) {
  rp::begin(std::string(what) + " file " + rp::hex(content, 500));
  if (!path) write(content);
  Key k; if (R.flip()) k.SetPassword("pw"); k.key_.keyfile_key_ = R.arr<K>(); k.key_.has_keyfile_ = R.flip(); Key k0 = k;
  std::string r = "ok"; try { k.SetKeyFile(path ? path : rp::tmp() + "/kf"); } catch (FormatError&) { r = "format error"; } catch (FileNotFoundError&) { r = "not found"; } catch (std::exception& e) { r = std::string("exception ") + e.what(); } catch (...) { r = "unknown exception"; }
  rp::check(k.key_.password_key_ == k0.key_.password_key_ && k.key_.has_password_ == k0.key_.has_password_, "the password component changed");
  if (expect.empty()) { rp::check(r != "ok", "an invalid key file is accepted"); rp::check(r == "ok" || r[0] != 'u', "not a standard exception");
    if (r != "ok") rp::check(k.key_.keyfile_key_ == k0.key_.keyfile_key_ && k.key_.has_keyfile_ == k0.key_.has_keyfile_, "a rejected file changed the key"); return; }
  if (!rp::check(r == "ok", "a valid key file is rejected: " + r)) return;
  rp::check(k.key_.has_keyfile_ && rp::hexa(k.key_.keyfile_key_) == rp::hex(expect), std::string("key differs: ") + (k.key_.has_keyfile_ ? "" : "not used ") + rp::hexa(k.key_.keyfile_key_) + " expected " + rp::hex(expect)); }
static std::string xml(const std::string& data, int form = 0) {
  std::string h = form & 1 ? "" : "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", m = form & 2 ? "" : "<Meta><Version>1.00</Version></Meta>", pre = form & 4 ? "\n  " : "", x = form & 8 ? "<!-- a comment -->" : "", o = form & 16 ? "<Other>1</Other><Key2><Data>AAAA</Data></Key2>" : "", o2 = form & 32 ? "<Datum>zz</Datum>" : "";
  return h + "<KeyFile>" + x + m + o + pre + "<Key>" + o2 + pre + "<Data>" + data + "</Data>" + pre + "</Key>" + pre + "</KeyFile>" + pre; }
int main(int argc, char** argv) {
  rp::init(argc, argv); R = rp::Rng(rp::seed()); rp::Rng& r = R;
  static const char* LO = "0123456789abcdef"; static const char* UP = "0123456789ABCDEF";
  auto hx = [&](const std::string& s, int form) { std::string o; for (unsigned char c : s) for (int q = 0; q < 2; q++) { unsigned d = q ? c % 16 : c / 16; bool lo = form == 0 || (form == 2 && r.flip()); o.push_back(lo ? LO[d] : UP[d]); } return o; };
  for (int sc = 0; sc < rp::scale(); sc++) {
    for (int n = 0; n <= 80; n++) { std::string k = r.str(n); for (int f = 0; f < 2; f++) one("xml key of other length", xml(b64(k), r.below(64)), n == 32 ? k : ""); }
    for (int i = 0; i < 300; i++) { std::string k = i == 0 ? std::string(32, 0) : i == 1 ? std::string(32, (char)0xff) : r.str(32); if (i > 1 && i < 34) { k[i - 2] = 0; k[31 - (i - 2)] = (char)0xff; } std::string t = b64(k);
      if (r.flip()) for (int j = r.below(6); j >= 0; j--) t.insert(r.below(t.size() + 1), 1, " \n\t"[r.below(3)]);
      one("xml", xml(t, r.below(64)), k); }
    for (int i = 0; i < 100; i++) { std::string k = r.str(32), t = b64(k); size_t p = r.below(t.size() - 2); static const char* B = "-_*!.,:;#$"; t[p] = B[r.below(10)]; one("xml, illegal character in the key", xml(t, r.below(64)), ""); }
    { std::string k = r.str(32), t = b64(k); 
      one("xml, key text one character short", xml(t.substr(0, t.size() - 1)), ""); one("xml, text appended", xml(t + "A"), "");
      one("xml, no Data", "<KeyFile><Key></Key></KeyFile>", ""); one("xml, Data outside Key", "<KeyFile><Data>" + t + "</Data></KeyFile>", ""); one("xml, other root", "<KeyFile2><Key><Data>" + t + "</Data></Key></KeyFile2>", "");
      one("xml, root below", "<X><KeyFile><Key><Data>" + t + "</Data></Key></KeyFile></X>", ""); one("xml, key in attribute", "<KeyFile><Key Data=\"" + t + "\"/></KeyFile>", ""); one("xml, empty", "<KeyFile/>", ""); one("xml, hex in Data", xml(hx(k, 0)), "");
      one("broken xml", xml(t).substr(0, 60), ""); one("xml, unclosed", "<KeyFile><Key><Data>" + t + "</Data></Key>", ""); one("base64 alone", t, ""); one("raw key", k, ""); one("bom and xml", "\xef\xbb\xbf" + xml(t), k); }
    for (int n = 0; n <= 130; n++) { std::string t; for (int i = 0; i < n; i++) t.push_back(UP[r.below(16)]); std::string v; for (int i = 0; i + 1 < n; i += 2) v.push_back((char)strtoul(t.substr(i, 2).c_str(), 0, 16)); one("hex digits", t, n == 64 ? v : ""); }
    for (int i = 0; i < 200; i++) { std::string k = i < 2 ? std::string(32, i ? (char)0xff : 0) : r.str(32); one("64 hex digits", hx(k, r.below(3)), k); }
    for (int b = 0; b < 256; b++) { std::string k; for (int i = 0; i < 32; i++) k.push_back((char)(b + i)); one("64 hex digits, every byte", hx(k, r.below(3)), k); }
    for (int c = 0; c < 256; c++) for (int q = 0; q < 6; q++) { int p = q == 0 ? 0 : q == 1 ? 63 : q == 2 ? 1 : q == 3 ? 62 : r.below(64); std::string k = r.str(32), t = hx(k, r.below(3)); t[p] = (char)c;
      if (isxdigit(c)) { std::string v; for (int i = 0; i < 64; i += 2) v.push_back((char)strtoul(t.substr(i, 2).c_str(), 0, 16)); one("hex with one character set", t, v); } else one("hex with one illegal character", t, ""); }
    for (int i = 0; i < 40; i++) { std::string t = hx(r.str(32), 2); static const char* S[] = {"\n", "\r\n", " ", "0", "00", "\0"}; const char* s = S[r.below(5)]; one("hex with something appended", t + s, ""); one("hex with something in front", s + t, ""); one("63 digits and a space", t.substr(0, 63) + " ", ""); one("prefix 0x", "0x" + t.substr(2), ""); one("sign", (r.flip() ? "+" : "-") + t.substr(1), ""); t[2 * r.below(32)] = ' '; one("space inside", t, ""); }
    one("missing file", "", "", "/nonexistent/key"); one("directory", "", "", "/"); one("empty file", "", "");
  }
  return rp::finish();
}
