"""C07: Twofish encryption matches the published cipher, decryption inverts it."""
import re
from llvc import terms as T, seqs as S, models, irparse
from llvc.check import *
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/twofish.cc']
# ---- the published algorithm
_t = (((8,1,7,13,6,15,3,2,0,11,5,9,14,12,10,4),(14,12,11,8,1,2,3,5,15,4,10,6,7,0,9,13),(11,10,5,14,6,13,9,0,12,8,15,3,2,4,7,1),(13,7,15,4,1,2,6,14,9,11,3,0,8,5,12,10)),
      ((2,8,11,13,15,7,6,14,3,1,9,4,0,10,12,5),(1,14,2,11,4,12,3,7,6,13,10,5,15,9,0,8),(4,12,7,5,1,6,9,10,0,14,13,8,2,11,3,15),(11,9,5,1,12,3,13,14,6,4,7,15,2,0,8,10)))
def _q(n, x):
    a, b = x >> 4, x & 15
    for s in (0, 2):
        a, b = a ^ b, (a ^ (b >> 1) ^ ((b & 1) << 3) ^ (8 * a)) & 15
        a, b = _t[n][s][a], _t[n][s + 1][b]
    return 16 * b + a
Q = [tuple(_q(n, x) for x in range(256)) for n in (0, 1)]
assert Q[0][:3] == (0xa9, 0x67, 0xb3) and Q[1][:3] == (0x75, 0xf3, 0xc6)
def gmul(a, b, p):
    r = 0
    for i in range(8):
        if b >> i & 1: r ^= a
        a <<= 1
        if a & 0x100: a ^= p
    return r
def q(n, x): return T.tbl(Q[n], T.zext(x, 64), 8)
def xor(*ts):
    r = ts[0]
    for t in ts[1:]: r = T.xor(r, t)
    return r
def gfmul(x, k, p):
    """x * k in GF(2^8): XOR over the bits of x"""
    r = T.bv(0, 8)
    for i in range(8): r = T.xor(r, T.ite(T.eq(T.extract(x, i, i), T.bv(1, 1)), T.bv(gmul(1 << i, k, p), 8), T.bv(0, 8)))
    return r
MDS = ((0x01, 0xef, 0x5b, 0x5b), (0x5b, 0xef, 0xef, 0x01), (0xef, 0x5b, 0x01, 0xef), (0xef, 0x01, 0xef, 0x5b))
RS = ((0x01, 0xa4, 0x55, 0x87, 0x5a, 0x58, 0xdb, 0x9e), (0xa4, 0x56, 0x82, 0xf3, 0x1e, 0xc6, 0x68, 0xe5), (0x02, 0xa1, 0xfc, 0xc1, 0x47, 0xae, 0x3d, 0x19), (0xa4, 0x55, 0x87, 0x5a, 0x58, 0xdb, 0x9e, 0x03))
ORDER = ((1, 0, 0, 1, 1), (0, 0, 1, 1, 0), (1, 1, 0, 0, 0), (0, 1, 1, 0, 1))      # q-permutations of byte i, last applied first
def by(x, i): return T.extract(x, 8 * i + 7, 8 * i)
def sboxes(x, k):
    ys = []
    for i in range(4):
        y = by(x, i); o = ORDER[i]
        for s in (4, 3, 2, 1): y = T.xor(q(o[s], y), by(k[s - 1], i))
        ys.append(q(o[0], y))
    return ys
def rotl(x, n): return T.concat_lo([T.extract(x, 31, 32 - n), T.extract(x, 31 - n, 0)])
def rotr(x, n): return rotl(x, 32 - n)

def run_f32(c):
    x = T.var('in_x', 32); k = [T.var('in_k%d' % i, 32) for i in range(4)]
    ys = sboxes(x, k)
    contract(c, 'keepass::TwofishCipher::InitializeKey', lambda e, st, a, i: [('ret', st, None)])
    def f32(e, st, r, kp):
        for i in range(4): c.goal(st, T.eq(by(r, i), xor(*[gfmul(ys[j], MDS[i][j], 0x169) for j in range(4)])), 'h: byte %d is the MDS product of the published S-boxes' % i)
        s = e.read_seq(st, kp, 16)
        for i in range(4): c.goal(st, T.eq(T.concat_lo([S.at(s, C64(4 * i + j), st) for j in range(4)]), k[i]), 'h: the key words are not modified')
    c.hook('f32', f32)
    for o in c.call('h_f32', [Ptr(0, Z64)]):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'never throws')

def run_rs(c):
    k = [T.var('in_k0', 32), T.var('in_k1', 32)]
    m = [by(k[i // 4], i % 4) for i in range(8)]
    contract(c, 'keepass::TwofishCipher::InitializeKey', lambda e, st, a, i: [('ret', st, None)])
    def rs(e, st, r):
        for i in range(4): c.goal(st, T.eq(by(r, i), xor(*[gfmul(m[j], RS[i][j], 0x14d) for j in range(8)])), 'Reed-Solomon code word byte %d' % i)
    c.hook('rs', rs)
    c.call('h_rs')

def contract(c, name, fn): c.eng.overrides.append((re.compile('^' + r'(?:[\w ]+ )?' + re.escape(name) + r'\('), fn))
def H(x, k): return T.uf('TF_h', (x, *k), 32)
def use_h(c):
    def h(e, st, a, ins):
        s = e.read_seq(st, a[2], 16)
        return [('ret', st, H(a[1], [T.concat_lo([S.at(s, C64(4 * i + j), st) for j in range(4)]) for i in range(4)]))]
    contract(c, 'keepass::TwofishCipher::F32', h)
def word(n, i): return T.concat_lo([T.var('in_%s_%d' % (n, 4 * i + k), 8) for k in range(4)])
def w4(s, i, st): return T.concat_lo([S.at(s, C64(4 * i + k), st) for k in range(4)])

def run_key(c):
    use_h(c)
    RSU = lambda a, b: T.uf('TF_rs', (a, b), 32)
    contract(c, 'keepass::TwofishCipher::ReedSolomonEncode', lambda e, st, a, i: [('ret', st, RSU(a[1], a[2]))])
    M = [word('key', i) for i in range(8)]
    me, mo = M[0::2], M[1::2]
    def key(e, st, sp, kp, ivp):
        s = e.read_seq(st, sp, 16)
        for i in range(4): c.goal(st, T.eq(w4(s, 3 - i, st), RSU(M[2 * i], M[2 * i + 1])), 'key schedule: S-box key words in reverse order')
        s = e.read_seq(st, kp, 160)
        for i in range(20):
            a = H(T.bv(2 * i * 0x01010101, 32), me); b = rotl(H(T.bv((2 * i + 1) * 0x01010101, 32), mo), 8)
            c.goal(st, T.eq(w4(s, 2 * i, st), T.add(a, b)), 'key schedule: subkey %d' % (2 * i))
            c.goal(st, T.eq(w4(s, 2 * i + 1, st), rotl(T.add(a, T.mulc(b, 2)), 9)), 'key schedule: subkey %d' % (2 * i + 1))
        s = e.read_seq(st, ivp, 16)
        for i in range(16): c.goal(st, T.eq(S.at(s, C64(i), st), T.var('in_iv_%d' % i, 8)), 'initialization vector kept')
    c.hook('key', key)
    c.call('h_key')

def spec_enc(p, K, Sx):
    R = [T.xor(p[i], K[i]) for i in range(4)]
    for r in range(16):
        t0 = H(R[0], Sx); t1 = H(rotl(R[1], 8), Sx)
        f0 = T.add(t0, t1, K[2 * r + 8]); f1 = T.add(t0, T.mulc(t1, 2), K[2 * r + 9])
        R = [rotr(T.xor(R[2], f0), 1), T.xor(rotl(R[3], 1), f1), R[0], R[1]]
    return [T.xor(R[(i + 2) % 4], K[i + 4]) for i in range(4)]

def run_enc(c):
    use_h(c)
    contract(c, 'keepass::TwofishCipher::InitializeKey', lambda e, st, a, i: [('ret', st, None)])
    want = spec_enc([word('p', i) for i in range(4)], [word('K', i) for i in range(40)], [word('S', i) for i in range(4)])
    def enc(e, st, p, sp):
        s = e.read_seq(st, p, 16)
        for i in range(4): c.goal(st, T.eq(w4(s, i, st), want[i]), 'encryption: word %d of the published 16-round network' % i)
        s = e.read_seq(st, sp, 16)
        for i in range(4): c.goal(st, T.eq(w4(s, i, st), word('p', i)), 'encryption: the source block is not modified')
    c.hook('enc', enc)
    c.call('h_enc')

def run_round(c, h):
    use_h(c)
    contract(c, 'keepass::TwofishCipher::InitializeKey', lambda e, st, a, i: [('ret', st, None)])
    def rnd(e, st, p):
        s = e.read_seq(st, p, 16)
        for i in range(4): c.goal(st, T.eq(w4(s, i, st), word('p', i)), ('decryption inverts encryption' if h == 'h_round' else 'encryption inverts decryption') + ', word %d' % i)
    c.hook('round', rnd)
    c.call(h)

def jobs(tier):
    return [Job('h function', run_f32, UNITS, what='TwofishCipher::F32 for all inputs and keys'),
            Job('Reed-Solomon', run_rs, UNITS, what='TwofishCipher::ReedSolomonEncode for all inputs'),
            Job('key schedule', run_key, UNITS, what='TwofishCipher constructor and InitializeKey for all keys'),
            Job('encrypt', run_enc, UNITS, what='TwofishCipher::Encrypt for all blocks and subkeys'),
            Job('decrypt of encrypt', lambda c: run_round(c, 'h_round'), UNITS, what='Decrypt after Encrypt, for any round function, subkeys and block'),
            Job('encrypt of decrypt', lambda c: run_round(c, 'h_round2'), UNITS, what='Encrypt after Decrypt, for any round function, subkeys and block')]
REPLAY = dict(src='c07.cc', units=['cipher'], rule='published vectors, every single key and block bit, all byte values in each key position, random keys and blocks, against Twofish written from the published nibble tables and field arithmetic; distinct by key and block')
TRUSTED = ['F32 and ReedSolomonEncode are used through their contracts (functions of their arguments, proved by the first two jobs) in the other jobs']
ASSUMPTIONS = ['the machine is little endian (words are accessed through pointer casts)', 'source and destination blocks are distinct objects']
