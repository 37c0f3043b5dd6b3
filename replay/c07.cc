#include "rp.hh"
#include "cipher.hh"
using namespace keepass;
typedef std::array<uint8_t, 16> B; typedef std::array<uint8_t, 32> K;
// Twofish written from the published description (nibble tables, GF arithmetic), for 256-bit keys
static uint8_t Q[2][256];
static uint8_t gf(uint8_t a, uint8_t b, unsigned p) { unsigned r = 0, x = a; for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= p; } return r; }
static void initq() {
  static const uint8_t t[2][4][16] = {
    {{8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4},{14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13},{11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1},{13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10}},
    {{2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5},{1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8},{4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15},{11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10}}};
  for (int q = 0; q < 2; q++) for (int x = 0; x < 256; x++) {
    unsigned a = x / 16, b = x % 16, a2, b2;
    for (int s = 0; s < 2; s++) { a2 = a ^ b; b2 = (a ^ (b >> 1) ^ ((b & 1) << 3) ^ (8 * a)) & 15; a = t[q][2 * s][a2]; b = t[q][2 * s + 1][b2]; }
    Q[q][x] = 16 * b + a; } }
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint32_t ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
static uint32_t h(uint32_t X, const uint32_t L[4]) {
  uint8_t y[4]; for (int i = 0; i < 4; i++) y[i] = X >> (8 * i);
  auto l = [&](int i, int j) { return (uint8_t)(L[i] >> (8 * j)); };
  y[0] = Q[1][y[0]] ^ l(3, 0); y[1] = Q[0][y[1]] ^ l(3, 1); y[2] = Q[0][y[2]] ^ l(3, 2); y[3] = Q[1][y[3]] ^ l(3, 3);
  y[0] = Q[1][y[0]] ^ l(2, 0); y[1] = Q[1][y[1]] ^ l(2, 1); y[2] = Q[0][y[2]] ^ l(2, 2); y[3] = Q[0][y[3]] ^ l(2, 3);
  y[0] = Q[1][Q[0][Q[0][y[0]] ^ l(1, 0)] ^ l(0, 0)];
  y[1] = Q[0][Q[0][Q[1][y[1]] ^ l(1, 1)] ^ l(0, 1)];
  y[2] = Q[1][Q[1][Q[0][y[2]] ^ l(1, 2)] ^ l(0, 2)];
  y[3] = Q[0][Q[1][Q[1][y[3]] ^ l(1, 3)] ^ l(0, 3)];
  static const uint8_t M[4][4] = {{0x01,0xef,0x5b,0x5b},{0x5b,0xef,0xef,0x01},{0xef,0x5b,0x01,0xef},{0xef,0x01,0xef,0x5b}};
  uint32_t z = 0; for (int i = 0; i < 4; i++) { uint8_t v = 0; for (int j = 0; j < 4; j++) v ^= gf(y[j], M[i][j], 0x169); z |= (uint32_t)v << (8 * i); }
  return z; }
struct Ref { uint32_t k[40], S[4];
  Ref(const K& key) { static const uint8_t RS[4][8] = {{0x01,0xa4,0x55,0x87,0x5a,0x58,0xdb,0x9e},{0xa4,0x56,0x82,0xf3,0x1e,0xc6,0x68,0xe5},{0x02,0xa1,0xfc,0xc1,0x47,0xae,0x3d,0x19},{0xa4,0x55,0x87,0x5a,0x58,0xdb,0x9e,0x03}};
    uint32_t Me[4], Mo[4]; auto w = [&](int i) { return (uint32_t)key[4*i] | key[4*i+1] << 8 | key[4*i+2] << 16 | (uint32_t)key[4*i+3] << 24; };
    for (int i = 0; i < 4; i++) { Me[i] = w(2 * i); Mo[i] = w(2 * i + 1);
      uint32_t s = 0; for (int r = 0; r < 4; r++) { uint8_t v = 0; for (int c = 0; c < 8; c++) v ^= gf(key[8 * i + c], RS[r][c], 0x14d); s |= (uint32_t)v << (8 * r); }
      S[3 - i] = s; }
    for (uint32_t i = 0; i < 20; i++) { uint32_t a = h(2 * i * 0x01010101u, Me), b = rol(h((2 * i + 1) * 0x01010101u, Mo), 8); k[2 * i] = a + b; k[2 * i + 1] = rol(a + 2 * b, 9); } }
  B enc(const B& p) const { uint32_t R[4]; for (int i = 0; i < 4; i++) R[i] = ((uint32_t)p[4*i] | p[4*i+1] << 8 | p[4*i+2] << 16 | (uint32_t)p[4*i+3] << 24) ^ k[i];
    for (int r = 0; r < 16; r++) { uint32_t t0 = h(R[0], S), t1 = h(rol(R[1], 8), S); uint32_t f0 = t0 + t1 + k[2 * r + 8], f1 = t0 + 2 * t1 + k[2 * r + 9];
      uint32_t n0 = ror(R[2] ^ f0, 1), n1 = rol(R[3], 1) ^ f1; R[2] = R[0]; R[3] = R[1]; R[0] = n0; R[1] = n1; }
    B c; for (int i = 0; i < 4; i++) { uint32_t v = R[(i + 2) % 4] ^ k[i + 4]; for (int j = 0; j < 4; j++) c[4 * i + j] = v >> (8 * j); } return c; } };
static B unhex(const char* s) { B b; for (int i = 0; i < 16; i++) { char t[3] = {s[2*i], s[2*i+1], 0}; b[i] = strtoul(t, 0, 16); } return b; }
static void one(const K& key, const B& p) {
  rp::begin("twofish key " + rp::hexa(key) + " block " + rp::hexa(p));
  TwofishCipher c(key); Ref r(key); B got, back; got.fill(0xaa); back.fill(0x55);
  c.Encrypt(p, got);
  if (!rp::check(got == r.enc(p), "encryption differs from the published cipher: " + rp::hexa(got))) return;
  c.Decrypt(got, back); rp::check(back == p, "decryption does not return the block: " + rp::hexa(back));
  // decryption of an arbitrary block, and iteration without the reference
  B d, e; c.Decrypt(p, d); rp::check(r.enc(d) == p, "decryption of an arbitrary block is not the inverse: " + rp::hexa(d));
  c.Encrypt(d, e); rp::check(e == p, "encryption does not return a decrypted block"); 
  B iv = p; TwofishCipher c2(key, iv); rp::check(c2.InitializationVector() == iv, "initialization vector is not kept");
  c2.Encrypt(p, e); rp::check(e == got, "encryption depends on the vector"); }
int main(int argc, char** argv) {
  rp::init(argc, argv); rp::Rng r(rp::seed()); initq();
  K z; z.fill(0); B zb; zb.fill(0);
  { Ref k(z); if (k.enc(zb) != unhex("57FF739D4DC92C1BD7FC01700CC8216F")) { printf("reference self-test failed\n"); return 2; }
    static const uint8_t kk[32] = {0x01,0x23,0x45,0x67,0x89,0xAB,0xCD,0xEF,0xFE,0xDC,0xBA,0x98,0x76,0x54,0x32,0x10,0,0x11,0x22,0x33,0x44,0x55,0x66,0x77,0x88,0x99,0xAA,0xBB,0xCC,0xDD,0xEE,0xFF}; K k2; memcpy(k2.data(), kk, 32);
    if (Ref(k2).enc(zb) != unhex("37527BE0052334B89F0CFCCAE87CFA20")) { printf("reference self-test failed\n"); return 2; }
    one(k2, zb); }
  one(z, zb);
  // every key byte and every bit of the key and block on its own
  for (int i = 0; i < 256; i++) { K k; k.fill(i); B b; b.fill(255 - i); one(k, b); k = z; k[i / 8] = 1 << (i % 8); one(k, zb); if (i < 128) { b = zb; b[i / 8] = 1 << (i % 8); one(z, b); } }
  for (int i = 0; i < 32; i++) for (int v = 0; v < 256; v += 5) { K k = r.arr<K>(); k[i] = v; one(k, r.arr<B>()); }
  for (int i = 0; i < 3000 * rp::scale(); i++) { K k; for (auto& x : k) x = r.next(); B b; for (auto& x : b) x = r.next(); one(k, b); }
  return rp::finish();
}
