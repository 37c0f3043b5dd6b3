"""C06: CBC and ECB block encryption are standard, exact and inverse."""
from llvc import terms as T, seqs as S, models, loops
from llvc.check import *
from llvc.state import C64, Z64
LEVEL = 'proof'
UNITS = ['/verif/harness/cbc.cc']
KEY = T.var('BLK_KEY', 256)
E = lambda x: models.block_uf('BLK_E', KEY, x)
D = lambda x: models.block_uf('BLK_D', KEY, x)
IV = T.concat_lo([T.var('in_iv_%d' % k, 8) for k in range(16)])
POS = T.var('in_src_pos', 64)
Q0 = T.var('in_src_q', 60)
def setn(c, m):
    """the bytes left in the stream: 16 * Q0 + m"""
    global N
    N = T.concat_lo([T.bv(m, 4) if isinstance(m, int) else m, Q0])
    c.eng.lens = {'src': T.add(POS, N)}
    c.assume(T.ult(POS, C64(1 << 56))); c.assume(T.ult(N, C64(1 << 56)))
def P(i): return T.uf('in_src', (T.add(POS, i),), 8)
def blk(j, n=16): return T.concat_lo([P(T.addc(T.mulc(j, 16), k)) for k in range(n)])
def chain(j):      # C(j): the j-th ciphertext block, C(0) = initialization vector
    return loops.rec(IV, E(T.xor(blk(S._j), loops.rec_ph(128))), j)
def byte(t, k): return T.extract(t, 8 * k + 7, 8 * k)

def run_enc(c, m):
    setn(c, m)
    def done(e, st, p):
        r = models.str_get(e, st, p)
        q = T.lshr(N, C64(4))
        c.goal(st, T.eq(r.len, T.addc(T.mulc(q, 16), 16)), 'CBC encrypt: whole blocks, always padded')
        j = T.fresh('j', 64)
        s2 = st.copy(); s2.assume(T.ult(j, q))
        for k in range(16): c.goal_at(s2, r, T.addc(T.mulc(j, 16), k), byte(chain(T.addc(j, 1)), k), 'CBC encrypt: every full block is the standard chained block')
        last = T.concat_lo([P(T.addc(T.mulc(q, 16), k)) if k < m else T.bv(16 - m, 8) for k in range(16)])
        last = E(T.xor(last, chain(q)))
        for k in range(16): c.goal_at(st, r, T.addc(T.mulc(q, 16), k), byte(last, k), 'CBC encrypt: last block with PKCS#7 padding')
    c.hook('done', done)
    c.eng.merge = c.eng.loop_merge = False; c.eng.uniq = True; c.eng.periods = ((1, False, True),)
    for o in c.call('h_cbc_enc'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'CBC encrypt: never throws')

def plain(j):      # decrypted block j
    return T.xor(D(blk(j)), T.ite(T.eq(j, Z64), IV, blk(T.addc(j, -1))))
def run_dec(c, case):
    setn(c, T.var('in_src_m', 4) if case == 'ragged' else 0)
    q = T.lshr(N, C64(4)); m = T.extract(N, 3, 0)
    lastp = plain(T.addc(q, -1))
    pad = byte(lastp, 15)
    whole = T.eq(m, T.bv(0, 4)); some = T.ne(N, Z64)
    c.eng.merge = c.eng.loop_merge = False; c.eng.uniq = True
    c.eng.periods = ((1, False, False), (1, False, True))
    c.eng.throws_leave = case in ('ragged', 'bad')
    if case == 'ragged': c.assume(T.not_(whole))
    elif case == 'empty': c.assume(T.eq(N, Z64))
    else:
        c.assume(whole); c.assume(some)
        c.assume(T.bor(T.eq(pad, T.bv(0, 8)), T.ult(T.bv(16, 8), pad)) if case == 'bad' else T.eq(pad, T.bv(case, 8)))
    tail = [T.eq(byte(lastp, k), T.bv(case, 8)) for k in range(16 - case, 16)] if isinstance(case, int) else []
    def done(e, st, p):
        r = models.str_get(e, st, p)
        if case == 'ragged': c.goal(st, T.FALSE, 'CBC decrypt: input that is no whole number of blocks is never accepted'); return
        if case == 'bad': c.goal(st, T.FALSE, 'CBC decrypt: a padding length of 0 or above 16 is never accepted'); return
        if case == 'empty': c.goal(st, T.FALSE, 'CBC decrypt: no input, which has no padded block, is never accepted'); return
        for g in tail: c.goal(st, g, 'CBC decrypt: invalid padding bytes are never accepted')
        c.goal(st, T.eq(r.len, T.addc(T.mulc(q, 16), -case)), 'CBC decrypt: padding removed exactly')
        v = T.fresh('j', 64); last = T.addc(q, -1)
        for j, cond in ((v, T.ult(v, last)), (last, T.TRUE)):
            for k in range(16):
                i = T.addc(T.mulc(j, 16), k)
                if j is last and k >= 16 - case: continue
                s2 = st.copy(); s2.assume(cond)
                if s2.feasible(): c.goal_at(s2, r, i, byte(plain(j), k), 'CBC decrypt: every byte is the standard chained plaintext')
    c.hook('done', done, need=isinstance(case, int))
    for o in c.call('h_cbc_dec'):
        if o[0] != 'throw': continue
        c.reach('thrown')
        if isinstance(case, int): c.goal(o[1], T.not_(T.band(*tail)), 'CBC decrypt: only malformed input is rejected')
        c.goal(o[1], T.TRUE if is_exc(c.eng, o, 'IoError') else T.FALSE, 'CBC decrypt: rejected with an I/O error')

def run_ecb(c, h, F, lab):
    src = [T.var('in_src_%d' % k, 8) for k in range(32)]
    def done(e, st, p):
        r = e.read_seq(st, p, 32)
        for b in range(2):
            w = F(T.concat_lo(src[16 * b:16 * b + 16]))
            for k in range(16): c.goal(st, T.eq(S.at(r, C64(16 * b + k), st), byte(w, k)), lab + ': each block on its own')
    c.hook('done', done)
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, lab + ': never throws')

def jobs(tier):
    dec = (list(range(1, 17)) if tier == 'thorough' else [3]) + ['bad', 'ragged', 'empty']
    return [*[Job('cbc decrypt %s' % k, lambda c, k=k: run_dec(c, k), UNITS, what='decrypt_cbc, any cipher, length and position; case %s' % (k if isinstance(k, str) else 'padding byte %d' % k)) for k in dec],
            *[Job('cbc encrypt %d' % m, lambda c, m=m: run_enc(c, m), UNITS, what='encrypt_cbc, any cipher and position, any length = %d modulo 16' % m) for m in range(16)],
            Job('ecb encrypt', lambda c: run_ecb(c, 'h_ecb_enc', E, 'ECB encrypt'), UNITS, what='encrypt_ecb(array<32>)'),
            Job('ecb decrypt', lambda c: run_ecb(c, 'h_ecb_dec', D, 'ECB decrypt'), UNITS, what='decrypt_ecb(array<32>)')]
REPLAY = dict(src='c06.cc', units=['cipher'], rule='AES and a toy permutation against an independent CBC/PKCS#7 reference: every length 0..99, boundary and random lengths to 70000, non-zero start positions; every padding byte value, each single padding byte damaged, every ragged length to 49; ECB blocks; distinct by cipher, vector, start and data')
TRUSTED = []
ASSUMPTIONS = ['the block cipher is a function of key and block (uninterpreted), reading its source before writing its destination',
               'std::istream/std::ostream over a string or array buffer behave as their standard contracts; the source supports seeking',
               'inputs are shorter than 2^56 bytes; no loop runs 2^64 iterations',
               
               'quick tier: padding length 3 is proved, the other valid padding lengths are proved in the thorough tier and covered by bounded replays in the quick tier']
