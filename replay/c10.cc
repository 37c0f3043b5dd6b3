#include "rp.hh"
#include "base64.hh"
using namespace keepass;
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_encode(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned n = s.size() - i, v = (unsigned char)s[i] << 16;
    if (n > 1) v |= (unsigned char)s[i + 1] << 8;
    if (n > 2) v |= (unsigned char)s[i + 2];
    r += A[v >> 18]; r += A[v >> 12 & 63]; r += n > 1 ? A[v >> 6 & 63] : '='; r += n > 2 ? A[v & 63] : '=';
  }
  return r;
}
static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// 0 value, 1 must be rejected, 2 unspecified
static int ref_decode(const std::string& t, std::string& out) {
  std::string d; out.clear();
  for (char c : t) if (!space(c)) d += c;
  if (d.size() % 4) return 1;
  size_t fs = 0;
  while (fs < d.size() && d[fs] && strchr(A, d[fs])) fs++;
  if (fs < d.size() && d[fs] != '=') return 1;
  if (fs < d.size() && fs % 4 < 2) return 2;
  for (size_t i = 0; i < fs; i += 4) {
    unsigned v = 0, n = std::min<size_t>(4, fs - i);
    for (unsigned k = 0; k < 4; k++) v = v << 6 | (k < n ? strchr(A, d[i + k]) - A : 0);
    out += (char)(v >> 16); if (n > 2) out += (char)(v >> 8); if (n > 3) out += (char)v;
  }
  return 0;
}
static void enc(const std::string& s) {
  rp::begin("encode " + rp::hex(s));
  std::string want = ref_encode(s);
  std::vector<uint8_t> v(s.begin(), s.end());
  try {
    rp::check(base64_encode(s) == want, "encoding a string is not the standard Base64 text");
    rp::check(base64_encode(s.begin(), s.end()) == want, "encoding a character range is not the standard Base64 text");
    rp::check(base64_encode(v.begin(), v.end()) == want, "encoding a byte range is not the standard Base64 text");
    rp::check(base64_decode(want) == s, "decoding an encoded string does not return it");
  } catch (std::exception& e) { rp::fail(std::string("exception while encoding or decoding: ") + e.what()); }
}
static void dec(const std::string& t) {
  rp::begin("decode text " + rp::hex(t));
  std::string want, got; int k = ref_decode(t, want);
  try { got = base64_decode(t); if (k == 1) rp::fail("malformed Base64 text is accepted"); else if (k == 0) rp::check(got == want, "decoded bytes differ"); }
  catch (FormatError&) { if (k == 0) rp::fail("valid Base64 text is rejected"); }
  catch (std::exception& e) { rp::fail(std::string("wrong exception: ") + e.what()); }
  if (k == 0) { std::vector<uint8_t> v; try { base64_decode(t, std::back_inserter(v)); rp::check(std::string(v.begin(), v.end()) == want, "decoding into a vector differs"); } catch (std::exception& e) { rp::fail("decoding into a vector fails"); } }
}
int main(int c, char** v) {
  rp::init(c, v);
  for (auto& ce : rp::ces()) { if (ce.has("src")) { enc(ce.bytes("src")); dec(ce.bytes("src")); } }
  rp::Rng r(rp::seed());
  for (int i = 0; i < 256; i++) { enc(std::string(1, i)); dec(std::string("QU") + (char)i + "D"); dec(std::string("QUI=") + (char)i); dec(std::string("QUJD") + (char)i + "UJD"); for (int p = 0; p < 4; p++) { std::string t = "QUJD"; t[p] = i; dec(t); } for (int j = 0; j < 256; j += 1 + r.below(3)) { enc(std::string(1, i) + (char)j); } }
  for (int i = 0; i < 3000 * rp::scale(); i++) {
    std::string s = r.str(r.size(i % 50 ? 300 : 20000)); enc(s);
    std::string t = ref_encode(s), u;
    static const char ws[] = " \t\n\v\f\r";
    for (char x : t) { while (r.one_in(8)) u += ws[r.below(6)]; u += x; }
    while (r.one_in(3)) u += ws[r.below(6)];
    dec(u);
    std::string w = u; if (!w.empty()) { size_t p = r.below(w.size()); w[p] = (char)(r.flip() ? "-_@[`{/:=+*"[r.below(11)] : r.next()); dec(w); if (r.flip()) dec(w.substr(0, r.below(w.size()))); }
  }
  return rp::finish();
}
