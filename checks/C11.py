"""C11: the hashed block stream returns exactly what was written and detects damage."""
from llvc import terms as T, seqs as S, models, irparse
from llvc.check import *
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/hashed.cc']
IDX, BS, CH = T.var('in_index', 32), T.var('in_bs', 32), T.var('in_c', 32)
BLK = S.var('in_blk', T.var('in_blk_len', 64))
EOF = T.bv(-1, 32)
def word(v): return S.of_term(v)
def header(e, st, idx, blk, empty):
    h = S.fill(T.bv(0, 8), C64(32)) if empty else S.of_term(models.sha256(e, st, blk))
    return S.concat([word(idx), h, word(T.trunc(blk.len, 32))], st)
def pre(e, st, n, c, bs):
    st.assume(T.ult(n, C64((1 << 32) - 1)))
    if T.isc(bs) and bs.val == 0: return
    st.assume(T.bor(T.eq(bs, T.bv(0, 32)), T.ult(n, T.zext(bs, 64))))
    if c is CH: st.assume(T.bor(T.eq(c, EOF), T.ult(c, T.bv(256, 32))))
def same(c, st, got, want, what):
    c.goal(st, T.eq(got.len, want.len), what + ': length')
    i = T.var('in_i', 64)
    c.goal_at(st, got, i, want, what) if False else None
    g = S.eq_goal(got, want, st)
    c.goal(st, g, what)

def run_overflow(c, sink):
    c.eng.sink_fails = 'all' if sink else False
    c.hook('pre', pre)
    def done(e, st, r, bp, bn, idx, op, good, ch, bs):
        out = models.str_get(e, st, op)
        for st1, eof in models.split(st, T.eq(CH, EOF)):
            if eof:
                c.goal(st1, T.eq(r, EOF), 'overflow(eof) reports eof'); c.goal(st1, T.eq(out.len, Z64), 'overflow(eof) writes nothing')
                c.goal(st1, T.eq(bn, BLK.len), 'overflow(eof) keeps the block'); c.goal(st1, T.eq(idx, IDX), 'overflow(eof) keeps the index'); continue
            blk = S.concat([BLK, S.bytes_([T.trunc(CH, 8)])], st1)
            for st2, full in models.split(st1, T.eq(blk.len, T.zext(BS, 64))):
                if not full:
                    c.goal(st2, T.eq(r, CH), 'overflow returns the character'); c.goal(st2, T.eq(out.len, Z64), 'nothing is written before the block is full')
                    c.goal(st2, T.eq(idx, IDX), 'index unchanged before the block is full')
                    same(c, st2, e.read_seq(st2, bp, bn), blk, 'the character is appended to the block'); continue
                for st3, lost in models.split(st2, st2.g.get('lost', T.FALSE)):
                    if lost: c.goal(st3, T.eq(r, EOF), 'a failed write is reported by overflow'); continue
                    c.goal(st3, T.eq(r, CH), 'overflow returns the character'); c.goal(st3, T.eq(bn, Z64), 'a full block is emptied'); c.goal(st3, T.eq(idx, T.addc(IDX, 1)), 'a full block advances the index')
                    same(c, st3, out, S.concat([header(e, st3, IDX, blk, False), blk], st3), 'a full block is written with its index, hash and size')
    c.hook('overflowed', done)
    for o in c.call('h_overflow'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'overflow never throws')

def run_sync(c, sink):
    c.eng.sink_fails = 'all' if sink else False
    c.hook('pre', pre)
    def done(e, st, r, bn, idx, op, good):
        out = models.str_get(e, st, op)
        for st1, lost in models.split(st, st.g.get('lost', T.FALSE)):
            if lost: c.goal(st1, T.ne(r, T.bv(0, 32)), 'a failed write is reported by sync'); continue
            c.goal(st1, T.eq(r, T.bv(0, 32)), 'sync succeeds'); c.goal(st1, T.eq(bn, Z64), 'sync leaves no data behind')
            for st2, empty in models.split(st1, T.eq(BLK.len, Z64)):
                if empty: want = header(e, st2, IDX, S.EMPTY, True); n = 1
                else: want = S.concat([header(e, st2, IDX, BLK, False), BLK, header(e, st2, T.addc(IDX, 1), S.EMPTY, True)], st2); n = 2
                same(c, st2, out, want, 'sync writes the remaining block and the end block')
                c.goal(st2, T.eq(idx, T.addc(IDX, n)), 'sync advances the index')
    c.hook('synced', done)
    for o in c.call('h_sync'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'sync never throws')

def run_ctor(c):
    def made(e, st, bn, bi, bs, dn, di, ds, si, eos):
        for v, w, l in ((bn, Z64, 'a new writer holds no data'), (bi, T.bv(0, 32), 'a new writer starts at block 0'), (bs, BS, 'the block size is the one given'),
                        (dn, Z64, 'a new writer holds no data'), (di, T.bv(0, 32), 'a new writer starts at block 0'), (si, T.bv(0, 32), 'a new reader starts at block 0')): c.goal(st, T.eq(v, w), l)
        c.goal(st, T.ne(ds, T.bv(0, 32)), 'the default block size is not zero')
        c.goal(st, T.not_(T.ne(eos, T.bv(0, eos.w)) if eos.w else eos), 'a new reader is not at its end')
    c.hook('made', made)
    c.call('h_ctor')

SRC = S.var('in_src', T.var('in_src_len', 64)); POS = T.var('in_src_pos', 64)
def run_under(c, empty):
    GP = T.var('in_gpos', 64); EOS = T.var('in_eos', 0)
    b = lambda st, k: S.at(SRC, T.addc(POS, k), st)
    def parse(e, st):
        idx = T.concat_lo([b(st, k) for k in range(4)]); n = T.zext(T.concat_lo([b(st, 36 + k) for k in range(4)]), 64)
        hsh = T.concat_lo([b(st, 4 + k) for k in range(32)])
        return idx, hsh, n
    def cond(e, st):
        """-> (valid end block, valid data block, size, data)"""
        idx, hsh, n = parse(e, st)
        left = T.sub(SRC.len, POS)
        have = T.band(T.ule(C64(40), left), T.eq(idx, IDX))
        data = S.slice_(SRC, T.addc(POS, 40), n, st)
        enough = T.ule(n, T.sub(left, C64(40)))
        end = T.band(have, T.eq(n, Z64), T.eq(hsh, T.bv(0, 256)))
        ok = T.band(have, T.ne(n, Z64), enough, T.eq(hsh, models.sha256(e, st, data)))
        return end, ok, n, data
    def got(e, st, r, eb, g, eg, idx, eos, tell):
        eosb = T.ne(eos, T.bv(0, eos.w)) if eos.w else eos
        if not empty:
            c.goal(st, T.eq(r, T.zext(S.at(BLK, GP, st), 32)), 'the next character of the block is delivered')
            c.goal(st, T.eq(g.off, GP), 'underflow does not consume'); c.goal(st, T.eq(idx, IDX), 'underflow keeps the index'); c.goal(st, T.eq(tell, POS), 'nothing is read while the block has data'); return
        for st1, was in models.split(st, EOS):
            if was:
                c.goal(st1, T.eq(r, EOF), 'the end is reported again'); c.goal(st1, T.eq(tell, POS), 'nothing is read after the end block'); c.goal(st1, eosb, 'the end stays the end'); continue
            end, ok, n, data = cond(e, st1)
            for st2, f in models.split(st1, T.eq(r, EOF)):
                if f: c.goal(st2, end, 'the end is reported only at a valid end block'); c.goal(st2, eosb, 'the end is remembered'); continue
                c.goal(st2, ok, 'data is delivered only from a block whose index, size and hash match')
                c.goal(st2, T.eq(T.sub(eg.off, g.off), n), 'the whole block is delivered'); c.goal(st2, T.eq(g.off, eb.off), 'the block is delivered from its start')
                same(c, st2, e.read_seq(st2, g, T.sub(eg.off, g.off)), data, 'the delivered bytes are the bytes of the block')
                c.goal(st2, T.eq(r, T.zext(S.at(data, Z64, st2), 32)), 'the first character is returned')
                c.goal(st2, T.eq(idx, T.addc(IDX, 1)), 'the index advances'); c.goal(st2, T.eq(tell, T.add(POS, C64(40), n)), 'exactly one block is consumed')
                c.goal(st2, T.not_(eosb), 'a data block is not the end')
    c.hook('got', got)
    for o in c.call('h_underflow', [T.bv(1 if empty else 0, 8)]):
        if o[0] == 'throw':
            st = o[1]
            end, ok, n, data = cond(c.eng, st)
            c.goal(st, T.boolc(is_exc(c.eng, o, 'IoError')), 'damage is reported as IoError')
            c.goal(st, T.band(T.not_(EOS), T.boolc(empty)), 'errors only when a block is read')
            c.goal(st, T.not_(T.bor(end, ok)), 'a valid block is never rejected')

def run_block(c):
    c.hook('pre', lambda e, st, n, ch, bs: (pre(e, st, n, ch, bs), st.assume(T.ne(n, Z64)))[0])
    def back(e, st, ok, r, g, eg):
        c.goal(st, T.eq(ok, T.bv(0, 32)), 'written'); c.goal(st, T.eq(r, T.zext(S.at(BLK, Z64, st), 32)), 'read back: first character')
        same(c, st, e.read_seq(st, g, T.sub(eg.off, g.off)), BLK, 'a written block is read back unchanged')
    c.hook('back', back)
    def back2(e, st, r, r2):
        c.goal(st, T.eq(r, EOF), 'the end block ends the data'); c.goal(st, T.eq(r2, EOF), 'the end is reported again')
    c.hook('back2', back2)
    for o in c.call('h_block'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'reading back a written block never throws')

def jobs(tier):
    return [Job('overflow', lambda c: run_overflow(c, False), UNITS, what='hashed_ostreambuf::overflow and FlushBlock for any block, block size and character'),
            Job('overflow, failing destination', lambda c: run_overflow(c, True), UNITS, what='the same with a destination that may fail'),
            Job('sync', lambda c: run_sync(c, False), UNITS, what='hashed_ostreambuf::sync for any pending block'),
            Job('sync, failing destination', lambda c: run_sync(c, True), UNITS, what='the same with a destination that may fail'),
            Job('constructors', run_ctor, UNITS, what='initial states'),
            Job('underflow within a block', lambda c: run_under(c, False), UNITS, what='hashed_istreambuf::underflow with data left'),
            Job('underflow at a block end', lambda c: run_under(c, True), UNITS, what='hashed_istreambuf::underflow for any source, position and index'),
            Job('one block there and back', run_block, UNITS, what='writer then reader for any block and index')]
REPLAY = dict(src='c11.cc', units=['stream', 'util', 'io'], rule='every written stream, every damaged or cut stream, against an independent block writer and reader')
TRUSTED = []
ASSUMPTIONS = ['blocks are smaller than 4 GiB', 'SHA-256 (OpenSSL) is a function of its input (uninterpreted); a damaged block is detected unless it collides', 'no loop runs 2^64 iterations']
