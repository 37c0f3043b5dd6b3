"""C08: the protected-value stream is Salsa20 and independent of how data is split."""
import re
from llvc import terms as T, seqs as S, models, loops
from llvc.check import *
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/salsa.cc', 'cipher']
def word(n, i): return T.concat_lo([T.var('in_%s_%d' % (n, 4 * i + k), 8) for k in range(4)])
def w4(s, i, st): return T.concat_lo([S.at(s, C64(4 * i + k), st) for k in range(4)])
SIGMA = [T.bv(int.from_bytes(b'expand 32-byte k'[4 * i:4 * i + 4], 'little'), 32) for i in range(4)]
def rotl(x, n): return T.concat_lo([T.extract(x, 31, 32 - n), T.extract(x, 31 - n, 0)])
def core(x):
    """Salsa20/20 of the published specification, on 16 words"""
    z = list(x)
    def qr(a, b, c, d):
        z[b] = T.xor(z[b], rotl(T.add(z[a], z[d]), 7)); z[c] = T.xor(z[c], rotl(T.add(z[b], z[a]), 9))
        z[d] = T.xor(z[d], rotl(T.add(z[c], z[b]), 13)); z[a] = T.xor(z[a], rotl(T.add(z[d], z[c]), 18))
    for r in range(10):
        for q in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)): qr(*q)
    return [T.add(a, b) for a, b in zip(x, z)]

def run_ctor(c, h):
    want = [SIGMA[0], *[word('key', i) for i in range(4)], SIGMA[1], word('iv', 0), word('iv', 1), T.bv(0, 32), T.bv(0, 32), SIGMA[2], *[word('key', i) for i in range(4, 8)], SIGMA[3]]
    def state(e, st, p, pos=None):
        s = e.read_seq(st, p, 64)
        for i in range(16): c.goal(st, T.eq(w4(s, i, st), want[i]), 'initial state: word %d of the Salsa20 matrix' % i)
        if pos is not None: c.goal(st, T.eq(T.concat_lo([S.at(e.read_seq(st, pos, 8), C64(k), st) for k in range(8)]), C64(64)), 'a new stream starts at its first byte')
    c.hook('state' if h == 'h_ctor' else 'fresh', state)
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'never throws')

def run_block(c):
    x = [word('state', i) for i in range(16)]
    ks = core(x)
    def block(e, st, d, p, sp):
        s = e.read_seq(st, d, 64)
        for i in range(16): c.goal(st, T.eq(w4(s, i, st), T.xor(word('src', i), ks[i])), 'block: source XOR Salsa20 of the state, word %d' % i)
        n = e.read_seq(st, p, 64)
        ctr = T.add(T.concat_lo([x[8], x[9]]), C64(1))
        for i in range(16):
            w = T.extract(ctr, 31, 0) if i == 8 else T.extract(ctr, 63, 32) if i == 9 else x[i]
            c.goal(st, T.eq(w4(n, i, st), w), 'block: the 64-bit block counter advances by one, nothing else')
        n = e.read_seq(st, sp, 64)
        for i in range(16): c.goal(st, T.eq(w4(n, i, st), word('src', i)), 'block: source unchanged')
    c.hook('block', block)
    for o in c.call('h_block'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'never throws')

# ---- the obfuscator at stream position P
def KS(i): return T.uf('KS', (i,), 8)
P0 = T.var('in_position', 64)
def ctr(P): return T.lshr(T.addc(P, 63), C64(6))          # blocks drawn so far
def bpos(P): return T.addc(T.zext(T.extract(T.addc(P, 63), 5, 0), 64), 1)
def bufbyte(P, k, old): return T.ite(T.eq(P, Z64), old, KS(T.add(T.mulc(T.addc(ctr(P), -1), 64), k)))
def run_obf(c, h):
    g = {}
    old = S.var('in_oldbuf', C64(64))
    def contract(e, st, args, ins):
        """Salsa20Cipher::Process: source XOR block number [counter] of the key stream, counter + 1"""
        this, src, dst = args
        s = e.read_seq(st, this, 64); x = e.read_seq(st, src, 64)
        n = T.concat_lo([w4(s, 8, st), w4(s, 9, st)])
        out = S.bytes_([T.xor(S.at(x, C64(k), st), KS(T.addc(T.mulc(n, 64), k))) for k in range(64)])
        e.write_seq(st, dst, out)
        n = T.addc(n, 1)
        e.write_seq(st, Ptr(this.obj, T.addc(this.off, 32)), S.of_term(n))
        return [('ret', st, None)]
    c.eng.overrides.append((re.compile(r'^keepass::Salsa20Cipher::Process\('), contract))
    c.assume(T.ult(P0, C64(1 << 60)))
    def init(e, st, inp, buf, pos):
        e.write_seq(st, Ptr(inp.obj, T.addc(inp.off, 32)), S.of_term(ctr(P0)))
        e.write_seq(st, buf, S.lam(bufbyte(P0, S._j, T.uf('in_oldbuf', (S._j,), 8)), C64(64)))
        e.rawstore(st, pos, 8, bpos(P0))
        g['inp'], g['buf'], g['pos'] = inp, buf, pos
    c.hook('init', init)
    # loop invariant: after n bytes the object stands at stream position P0 + n
    def hint(sm, loc, v0):
        if not g: return None
        P = T.add(P0, sm.nv)
        if loc[0] == 'cell':
            for nm, off in (('pos', 0),):
                if loc[1] == g[nm].obj and T.isc(g[nm].off) and loc[2] == g[nm].off.val and loc[3] == 8: return bpos(P)
            a = g['inp']
            if loc[1] == a.obj and T.isc(a.off):
                d = loc[2] - a.off.val - 32
                if 0 <= d and d + loc[3] <= 8: return T.extract(ctr(P), 8 * (d + loc[3]) - 1, 8 * d)
            a = g['buf']
            if loc[1] == a.obj and T.isc(a.off):
                d = loc[2] - a.off.val
                if 0 <= d < 64 and loc[3] == 1: return bufbyte(P, C64(d), T.uf('in_oldbuf', (C64(d),), 8))
        if loc[0] == 'seq' and isinstance(v0, S.Seq) and sm.st0.decide(T.eq(v0.len, src.len)):     # the output
            n = sm.nv
            body = T.xor(S.at(src, S._j), KS(T.add(P0, S._j)))
            return S.concat([S.map_(n, [body]), S.slice_(v0, n, T.sub(src.len, n), None)])
        if loc[0] == 'seq' and loc[1] == g['buf'].obj: raise Unsupported('obfuscator as bytes %r' % (loc,))
        return None
    c.eng.hints.append(hint)
    src = S.var('in_data', T.var('in_data_len', 64))
    def done(e, st, r, d, inp, buf, pos):
        get = models.str_get if h == 'h_obf_string' else models.vec_get
        out = get(e, st, r)
        c.goal(st, T.eq(out.len, src.len), 'the result has the length of the data')
        i = T.fresh('i', 64)
        s2 = st.copy(); s2.assume(T.ult(i, src.len))
        c.goal_at(s2, out, i, T.xor(S.at(src, i, s2), KS(T.add(P0, i))), 'byte i is XORed with byte P + i of the key stream')
        P = T.add(P0, src.len)
        s = e.read_seq(st, inp, 64)
        c.goal(st, T.eq(T.concat_lo([w4(s, 8, st), w4(s, 9, st)]), ctr(P)), 'stream position advances by the length: block counter')
        c.goal(st, T.eq(T.concat_lo([S.at(e.read_seq(st, pos, 8), C64(k), st) for k in range(8)]), bpos(P)), 'stream position advances by the length: position in the block')
        b = e.read_seq(st, buf, 64)
        for k in range(64):
            s2 = st.copy(); s2.assume(T.ule(bpos(P), C64(k)))
            c.goal(s2, T.eq(S.at(b, C64(k), s2), KS(T.addc(T.mulc(T.addc(ctr(P), -1), 64), k))), 'the rest of the block is kept for the next call')
    c.hook('done', done)
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'never throws')

def jobs(tier):
    return [Job('cipher state', lambda c: run_ctor(c, 'h_ctor'), UNITS, what='Salsa20Cipher constructor, any key and nonce'),
            Job('cipher block', run_block, UNITS, what='Salsa20Cipher::Process and WordToByte from any state'),
            Job('new stream', lambda c: run_ctor(c, 'h_obf_ctor'), UNITS, what='RandomObfuscator constructor'),
            Job('process string', lambda c: run_obf(c, 'h_obf_string'), UNITS, what='RandomObfuscator::Process(string) and FillBuffer from any stream position'),
            Job('process bytes', lambda c: run_obf(c, 'h_obf_vector'), UNITS, what='RandomObfuscator::Process(vector) and FillBuffer from any stream position')]
REPLAY = dict(src='c08.cc', units=['cipher', 'random'], rule='every length to 299, random splits into strings and byte vectors (block boundaries, empty pieces, long pieces), block counters at the 32-bit carry, single cipher blocks, against an independent Salsa20; distinct by key, nonce, split and data')
TRUSTED = []
ASSUMPTIONS = ['stream positions stay below 2^60 and pieces below 2^56 bytes', 'no loop runs 2^64 iterations',
               'the machine is little endian (words are accessed through pointer casts)']
