"""The KDBX header: its fold over the field sequence as a loop invariant of KdbxFile::Import."""
import re
from llvc import terms as T, seqs as S, models, irparse, loops
from llvc.check import *
from llvc.state import C64, Z64, Ptr
from dbcommon import *
AES_ID = bytes([0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff])
Z = lambda n: S.const(bytes(n))
SIZES = dict(ts=32, iv=16, irs=32, csb=32)
def at(st, p, n): return T.concat_lo([S.at(FILE, T.addc(p, j), st) for j in range(n)])

class Header:
    """ghosts in st.g: h_pos (start of the next field), h_comp, h_ms, h_ts, h_rounds, h_iv, h_irs, h_csb"""
    def __init__(self, c, K):
        self.c = c; self.e = c.eng; self.K = K
        e = self.e
        def dbctor(e, st, a, ins):
            fn = ins.x['callee'][1]
            outs = e.exec(st, e.mod.funcs[e.mod.aliases.get(fn, fn)], a)
            for o in outs:
                if o[0] == 'ret':
                    K['db'] = a[0]
                    if 'off' not in K:
                        e.hooks['layout'] = lambda e, st, *ps: K.__setitem__('off', [p.off.val for p in ps])
                        e.call(o[1].copy(), 'h_db_layout', [a[0]])
            return outs
        on(e, r'^keepass::Database::Database\(\)', dbctor)
        on(e, r'std::generate_n<std::ostreambuf_iterator<char', self.gen)
        e.loop_contracts.append(loops.LoopContract(r'keepass::consume<keepass::KdbxHeaderField>', self.inv, self.shape))
    def gen(self, e, st, a, ins):
        """generate_n(it, a + b, f) is generate_n(generate_n(it, a, f), b, f): the real code runs in parts, cut where the file ends"""
        fn = ins.x['callee'][1]; f = e.mod.funcs[fn] if fn in e.mod.funcs else [v for k, v in e.mod.funcs.items() if k.endswith('::' + fn)][0]
        k = [i for i, x in enumerate(a) if isinstance(x, T.Term) and x.w == 16]
        if len(k) != 1 or 'src' not in self.K: return e.exec(st, f, a)
        k = k[0]; s = self.stream(st); n = a[k]
        have = T.sub(FILE.len, s['pos'])
        outs = []; src = self.K['src']; mark = ('s', src.off.val, 'noeof')
        def within(s1, b):
            s1 = s1.copy(); s1.wobj(src.obj).attrs[mark] = T.TRUE
            r = e.exec(s1, f, b)
            for o in r: o[1].wobj(src.obj).attrs.pop(mark, None)
            return r
        for s2, whole in models.split(st, T.ule(T.zext(n, 64), have)):
            if whole: outs += within(s2, a); continue
            h = T.extract(have, 15, 0)
            b = list(a); b[k] = h
            cur = within(s2, b)
            for m in (T.bv(1, 16), T.sub(T.sub(n, h), T.bv(1, 16))):
                nxt = []
                for o in cur:
                    if o[0] != 'ret': outs.append(o); continue
                    b = list(a); b[:2] = o[2] if isinstance(o[2], list) else o[2].v; b[k] = m
                    nxt += e.exec(o[1], f, b)
                cur = nxt
            outs += cur
        return outs
    def p(self, k): return Ptr(self.K['db'].obj, C64(self.K['off'][('ms', 'ts', 'rounds', 'iv', 'irs', 'comp', 'cipher').index(k)]))
    def stream(self, st): return models.Stream(self.e, st, self.K['src'])
    def csb(self, st):
        """the local that takes the start bytes: the zeroed 32-byte local the loop writes"""
        K = self.K
        if 'csb' not in K:
            cand = []
            for i, o in st.heap.items():
                if o.size is C64(32) and i != K['db'].obj and not o.freed and not o.const:
                    try: s = self.e.read_seq(st, Ptr(i, Z64), 32)
                    except Unsupported: continue
                    if s == Z(32): cand.append(i)
            if not cand: raise Unsupported('no place for the start bytes')
            K['csb'] = cand
        return K['csb']
    def init(self, st):
        st.g.update(h_pos=C64(12), h_comp=T.FALSE, h_ms=S.EMPTY, h_ts=Z(32), h_rounds=C64(8192), h_iv=Z(16), h_irs=Z(32), h_csb=Z(32))
    def fold(self, st):
        """the ghosts after the field at h_pos; only called when a field was taken"""
        g = st.g; p = g['h_pos']; c = self.c
        fid = at(st, p, 1); size = T.zext(at(st, T.addc(p, 1), 2), 64); d = T.addc(p, 3)
        end = T.add(d, size)
        c.goal(st, T.ule(end, FILE.len), 'a field that is cut off is not accepted')
        k = [x for x in range(256) if st.decide(T.eq(fid, T.bv(x, 8))) is not False]
        if len(k) != 1: raise Unsupported('field not identified')
        k = k[0]; up = {}
        ok = T.TRUE
        if k == 2:
            ok = T.band(T.uge(size, C64(16)), T.eq(at(st, d, 16), T.bv(int.from_bytes(AES_ID, 'little'), 128)))
        elif k == 3: ok = T.band(T.uge(size, C64(4)), T.ult(at(st, d, 4), T.bv(2, 32))); up['h_comp'] = T.eq(at(st, d, 4), T.bv(1, 32))
        elif k == 4: up['h_ms'] = S.slice_(FILE, d, size, st)
        elif k == 6: ok = T.uge(size, C64(8)); up['h_rounds'] = at(st, d, 8)
        elif k in (5, 7, 8, 9):
            n = 16 if k == 7 else 32
            ok = T.eq(size, C64(n)); up[{5: 'h_ts', 7: 'h_iv', 8: 'h_irs', 9: 'h_csb'}[k]] = S.slice_(FILE, d, C64(n), st)
        elif k == 10: ok = T.band(T.uge(size, C64(4)), T.eq(at(st, d, 4), T.bv(2, 32)))
        elif k != 0: ok = T.FALSE
        c.goal(st, ok, 'a field the format does not allow is not accepted')
        g.update(up); g['h_pos'] = end
        return k
    def acceptable(self, st):
        """the field at h_pos is complete and allowed by the format"""
        p = st.g['h_pos']
        fid = at(st, p, 1); size = T.zext(at(st, T.addc(p, 1), 2), 64); d = T.addc(p, 3)
        is_ = lambda *k: T.bor(*[T.eq(fid, T.bv(x, 8)) for x in k])
        n = lambda k: T.uge(size, C64(k))
        return T.band(T.ule(d, FILE.len), T.ule(T.add(d, size), FILE.len), T.bor(is_(0), is_(4),
            T.band(is_(2), n(16), T.eq(at(st, d, 16), T.bv(int.from_bytes(AES_ID, 'little'), 128))),
            T.band(is_(3), n(4), T.ult(at(st, d, 4), T.bv(2, 32))), T.band(is_(6), n(8)), T.band(is_(10), n(4), T.eq(at(st, d, 4), T.bv(2, 32))),
            T.band(is_(7), T.eq(size, C64(16))), T.band(is_(5, 8, 9), T.eq(size, C64(32)))))
    def same(self, st):
        """memory holds what the header fields say"""
        e = self.e; g = st.g
        ld = lambda k, n: T.concat_lo([S.at(e.read_seq(st, self.p(k), n), C64(j), st) for j in range(n)])
        r = [(T.eq(ld('cipher', 4), T.bv(0, 32)), 'the cipher is AES'),
             (T.iff(T.ne(ld('comp', 1), T.bv(0, 8)), g['h_comp']), 'the compression setting is the one of the header'),
             (T.eq(ld('rounds', 8), g['h_rounds']), 'the round count is the one of the header')]
        for k, n in (('ts', 32), ('iv', 16), ('irs', 32)):
            r.append((S.eq_goal(e.read_seq(st, self.p(k), n), g['h_' + k], st), {'ts': 'the transform seed', 'iv': 'the initialization vector', 'irs': 'the protected stream key'}[k] + ' is the one of the header'))
        r.append((S.eq_goal(models.vec_get(e, st, self.p('ms')), g['h_ms'], st), 'the master seed is the one of the header'))
        return r
    def inv(self, e, st):
        s = self.stream(st)
        first = 'h_pos' not in st.g
        if first: self.init(st); self.csb(st)
        elif '$hd' in st.g:
            self.fold(st)
        return [(T.band(s.good(), T.boolc(s['content'] == FILE), T.eq(s['pos'], st.g['h_pos'])), 'the whole field is consumed'), (T.ule(st.g['h_pos'], FILE.len), 'position in the file')] + self.same(st) + \
            [(S.eq_goal(e.read_seq(st, Ptr(i, Z64), 32), st.g['h_csb'], st), 'the start bytes are those of the header') for i in self.csb(st)[-1:]]
    def shape(self, e, st):
        K = self.K; g = st.g
        cand = self.csb(st)
        # those the loop changed
        ch = [i for i in cand if e.read_seq(st, Ptr(i, Z64), 32) != Z(32)]
        if ch: K['csb'] = ch
        s = self.stream(st)
        n = T.var('lv_pos', 64)
        st.assume(T.band(T.ule(C64(12), n), T.ule(n, FILE.len)))
        ms = S.var('lv_ms', T.var('lv_ms_len', 64)); st.assume(T.ult(ms.len, C64(65536)))
        g.update(h_pos=n, h_comp=T.var('lv_comp', 0), h_ms=ms, h_rounds=T.var('lv_rounds', 64), **{'$hd': T.TRUE})
        for k, m in SIZES.items(): g['h_' + k] = S.bytes_([T.var('lv_%s_%d' % (k, j), 8) for j in range(m)])
        s['pos'] = n; s['content'] = FILE
        for k in ('eof', 'fail', 'bad'): s[k] = T.FALSE
        for k, m in (('ts', 32), ('iv', 16), ('irs', 32)): e.write_seq(st, self.p(k), g['h_' + k])
        for k, v in (('cipher', T.bv(0, 32)), ('comp', T.ite(g['h_comp'], T.bv(1, 8), T.bv(0, 8))), ('rounds', g['h_rounds'])): e.rawstore(st, self.p(k), v.w // 8, v)
        models.vec_init(e, st, self.p('ms'), ms)
        if ch or len(cand) == 1: e.write_seq(st, Ptr((ch or cand)[-1], Z64), g['h_csb'])
