"""C12: the gzip layer is transparent and reports truncated or corrupt data."""
import re
from llvc import terms as T, seqs as S, models, irparse, loops
from llvc.check import *
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/gzip.cc']
SRC = S.var('in_src', T.var('in_src_len', 64)); POS = T.var('in_src_pos', 64)
EOF = T.bv(-1, 32)
def s32(v): return T.bv(v & 0xffffffff, 32)
OK, END, DATA, MEM, BUF = s32(0), s32(1), s32(-3), s32(-4), s32(-5)
NEXT_IN, AVAIL_IN, NEXT_OUT, AVAIL_OUT = 0, 8, 24, 32        # z_stream (zlib ABI)
def fld(e, st, z, off): return e.load(st, Ptr(z.obj, T.addc(z.off, off)), irparse.PTR if off in (NEXT_IN, NEXT_OUT) else irparse.inty(32))
def put(e, st, z, off, v): e.rawstore(st, Ptr(z.obj, T.addc(z.off, off)), 8 if isinstance(v, Ptr) else 4, v)
def code(c): return T.bor(*[c])

# ---- contracts of zlib
def c_init(e, st, a, ins): return [('ret', st, OK)]
def step(e, st, z, err_ok):
    """one call of inflate or deflate: consumes part of the input, fills part of the output"""
    ni, ai, no, ao = fld(e, st, z, NEXT_IN), fld(e, st, z, AVAIL_IN), fld(e, st, z, NEXT_OUT), fld(e, st, z, AVAIL_OUT)
    data = e.read_seq(st, ni, T.zext(ai, 64))
    used, made, res = T.fresh('used', 32), T.fresh('made', 32), T.fresh('res', 32)
    st.assume(T.ule(used, ai)); st.assume(T.ule(made, ao))
    out = S.var(T.fresh_name('out'), T.zext(made, 64))
    if no.obj: e.write_seq(st, no, out)
    elif st.decide(T.eq(ao, s32(0))) is not True: e.oblige(st, T.FALSE, 'no output buffer', 'memory')
    put(e, st, z, NEXT_IN, Ptr(ni.obj, T.add(ni.off, T.zext(used, 64)), ni.rng)); put(e, st, z, AVAIL_IN, T.sub(ai, used))
    put(e, st, z, NEXT_OUT, Ptr(no.obj, T.add(no.off, T.zext(made, 64)), no.rng)); put(e, st, z, AVAIL_OUT, T.sub(ao, made))
    return data, used, made, res, ai, ao, out
def c_inflate(c):
    def h(e, st, a, ins):
        g = st.g; z = a[0]
        if not e.quiet: c.reach('inflate')
        ai0 = fld(e, st, z, AVAIL_IN)
        c.goal(st, T.not_(g['ended']), 'the decompressor is not called after its end') if not e.quiet else None
        want = S.slice_(SRC, g['used'], T.zext(ai0, 64), st)
        data, used, made, res, ai, ao, out = step(e, st, z, True)
        if not e.quiet:
            c.goal(st, S.eq_goal(data, want, st), 'the decompressor gets the next bytes of the source')
            c.goal(st, T.ne(ao, s32(0)), 'the decompressor gets room for output')
            c.goal(st, T.bor(T.eq(a[1], s32(0)), T.eq(a[1], s32(2))), 'the decompressor is not told that everything fits one call')
            c.goal(st, T.ule(T.add(g['used'], T.zext(ai, 64)), SRC.len), 'the decompressor gets no more bytes than the source has')
        st.assume(T.bor(*[T.eq(res, x) for x in (OK, END, DATA, MEM, BUF)]))
        st.assume(T.implies(T.eq(res, OK), T.band(T.bor(T.ne(used, s32(0)), T.ne(made, s32(0))), T.bor(T.eq(used, ai), T.eq(made, ao)))))
        st.assume(T.implies(T.eq(res, BUF), T.band(T.eq(used, s32(0)), T.eq(made, s32(0)))))
        g['used'] = T.add(g['used'], T.zext(used, 64)); g['made'] = T.add(g['made'], T.zext(made, 64))
        g['last'] = out; g['res'] = res; g['ended'] = T.eq(res, END)
        g['bad'] = T.bor(g['bad'], T.eq(res, DATA), T.eq(res, MEM))
        return [('ret', st, res)]
    return h

def run_under(c, fresh):
    K = {}
    e = c.eng; e.merge = False
    e.overrides += [(re.compile(r'^inflateInit2_$'), c_init), (re.compile(r'^(inflate|deflate)End$'), c_init), (re.compile(r'^inflate$'), c_inflate(c))]
    N = 16384
    def pre(e, st, b, z, ib, ob, eos, src):
        K.update(b=b, z=z, ib=ib, ob=ob, eos=eos, src=src)
        if fresh:
            e.oblige(st, T.eq(fld(e, st, z, AVAIL_IN), s32(0)), 'a new reader holds no input'); e.oblige(st, T.eq(e.load(st, eos, irparse.I8), T.bv(0, 8)), 'a new reader is not at its end')
            e.oblige(st, T.eq(models.sbf(e, st, Ptr(b.obj, Z64), 1).off, models.sbf(e, st, Ptr(b.obj, Z64), 2).off), 'a new reader holds no output')
        s = models.Stream(e, st, src)
        flag = T.var('in_srceof', 0)
        s['eof'] = flag; s['fail'] = T.band(flag, T.var('in_srcfail', 0))
        st.assume(T.implies(flag, T.eq(POS, SRC.len)))
        ai = T.zext(fld(e, st, z, AVAIL_IN), 64)
        st.assume(T.ule(ai, POS))
        st.g.update(used=T.sub(POS, ai), made=Z64, last=S.EMPTY, res=OK, bad=T.FALSE, ended=T.ne(e.load(st, eos, irparse.I8), T.bv(0, 8)), drained=T.FALSE)
        fill(e, st)
    def fill(e, st):
        """the unread input is the part of the source before its position"""
        i = e.redir(st, K['ib']).obj
        z = K['z']; ai = T.zext(fld(e, st, z, AVAIL_IN), 64); off = T.sub(fld(e, st, z, NEXT_IN).off, K['ib'].off)
        x = st.obj(i).seq
        st.wobj(i).seq = S.concat([S.slice_(x, Z64, off, st), S.slice_(SRC, st.g['used'], ai, st), S.slice_(x, T.add(off, ai), T.sub(C64(N), T.add(off, ai)), st)], st)
    def where(e, st):
        s = models.Stream(e, st, K['src'])
        return s['pos'], s.good(), s
    def bounds(e, st):
        z = K['z']; ai = T.zext(fld(e, st, z, AVAIL_IN), 64); off = T.sub(fld(e, st, z, NEXT_IN).off, K['ib'].off)
        pos, good, s = where(e, st)
        return [(T.band(T.ule(ai, C64(N)), T.ule(off, T.sub(C64(N), ai))), 'the unread input lies in the input buffer'), (T.band(T.ule(ai, pos), T.ule(pos, SRC.len)), 'the source position is valid'),
                (T.bor(good, T.eq(pos, SRC.len)), 'the source stops only at its end')]
    def inv(e, st):
        g = st.g; z = K['z']; b = Ptr(K['b'].obj, Z64)
        gp, eg = models.sbf(e, st, b, 1), models.sbf(e, st, b, 2)
        eb = models.sbf(e, st, b, 0)
        if not (gp.obj == eg.obj == eb.obj and gp.obj): r = [(T.FALSE, 'the output is delivered from the output buffer')]
        else: r = [(T.eq(T.sub(eg.off, gp.off), g['last'].len), 'exactly the output of the last step is waiting'), (T.eq(g['made'], g['last'].len), 'no output was dropped'), (T.eq(gp.off, eb.off), 'output is delivered from its start'),
                   (S.eq_goal(e.read_seq(st, gp, T.sub(eg.off, gp.off)), g['last'], st), 'the waiting bytes are the output of the decompressor')]
        return r + rest(e, st)
    def rest(e, st):
        g = st.g; z = K['z']
        ai = T.zext(fld(e, st, z, AVAIL_IN), 64); pos, good, s = where(e, st)
        r = [(T.eq(T.add(g['used'], ai), pos), 'input read and not used is kept'),
             (T.eq(g['ended'], T.ne(e.load(st, K['eos'], irparse.I8), T.bv(0, 8))), 'the end of the compressed stream is remembered'), (T.not_(g['bad']), 'decompressor errors are not ignored')]
        r += bounds(e, st)
        r.append((S.eq_goal(e.read_seq(st, fld(e, st, z, NEXT_IN), ai), S.slice_(SRC, g['used'], ai, st), st), 'the unread input is the next part of the source'))
        return r
    def shape(e, st):
        g = st.g
        for t, l in bounds(e, st): st.assume(t)
        z = K['z']; ai = T.zext(fld(e, st, z, AVAIL_IN), 64); pos, good, s = where(e, st)
        m = T.var('lv_made', 64); st.assume(T.ule(m, C64(N)))
        g['used'] = T.sub(pos, ai); g['made'] = m; g['last'] = S.var('lv_last', m); g['bad'] = T.FALSE
        v = e.load(st, K['eos'], irparse.I8); st.assume(T.ule(v, T.bv(1, 8))); g['ended'] = T.ne(v, T.bv(0, 8))
        b = Ptr(K['b'].obj, Z64)
        eb = models.sbf(e, st, b, 0)
        models.sbset(e, st, b, 1, eb); models.sbset(e, st, b, 2, Ptr(eb.obj, T.add(eb.off, m)))
        p = e.redir(st, eb); x = st.obj(p.obj).seq; st.assume(T.eq(eb.off, K['ob'].off))
        st.wobj(p.obj).seq = S.concat([S.var('lv_last', m), S.slice_(x, m, T.sub(C64(N), m), st)], st)
        fill(e, st)
    def variant(e, st):
        """left to do; nothing once output is there"""
        return T.ite(T.ne(st.g['made'], Z64), Z64, T.add(T.mulc(T.sub(SRC.len, st.g['used']), 2), T.ite(st.g['ended'], C64(1), C64(2))))
    e.loop_contracts.append(loops.LoopContract(r'^inflate$', inv, shape, variant, peel=1))
    c.hook('pre', pre)
    def kept(e, st):
        z = K['z']; pos, good, s = where(e, st); ai = T.zext(fld(e, st, z, AVAIL_IN), 64)
        return rest(e, st)
    def got(e, st, r, eb, gp, eg):
        g = st.g
        for t, l in kept(e, st): c.goal(st, t, 'after underflow: ' + l)
        for st1, f in models.split(st, T.eq(r, EOF)):
            if f:
                c.goal(st1, st1.g['ended'], 'the end is reported only at the end of the compressed stream'); c.goal(st1, T.eq(st1.g['made'], Z64), 'no output is dropped at the end'); continue
            for st2, none in models.split(st1, T.eq(st1.g['made'], Z64)):
                if none:
                    if fresh: c.goal(st2, T.FALSE, 'a character is delivered only from output'); continue
                    on, og = T.var('in_on', 64), T.var('in_og', 64)
                    c.goal(st2, T.ult(og, on), 'a character is delivered only from output'); c.goal(st2, T.band(T.eq(T.sub(gp.off, eb.off), og), T.eq(T.sub(eg.off, eb.off), on)), 'waiting output stays')
                    c.goal(st2, T.eq(r, T.zext(S.at(S.var('in_obuf', C64(N)), og, st2), 32)), 'the next waiting character is returned'); continue
                out = st2.g['last']
                c.goal(st2, T.eq(st2.g['made'], out.len), 'all output of this call comes from the last step')
                c.goal(st2, T.eq(gp.off, eb.off), 'output is delivered from its start')
                c.goal(st2, T.eq(T.sub(eg.off, gp.off), out.len), 'the whole output is delivered')
                same = S.eq_goal(e.read_seq(st2, gp, T.sub(eg.off, gp.off)), out, st2)
                c.goal(st2, same, 'the delivered bytes are the output of the decompressor')
                c.goal(st2, T.eq(r, T.zext(S.at(out, Z64, st2), 32)), 'the first character is returned')
    c.hook('got', got)
    c.expected.add('inflate')
    for o in c.call('h_gunder', [T.bv(1 if fresh else 0, 8)]):
        if o[0] == 'throw':
            st = o[1]; g = st.g
            c.goal(st, T.boolc(is_exc(c.eng, o, 'IoError')), 'damage is reported as IoError')
            z = K['z']; ai = fld(e, st, z, AVAIL_IN); pos, good, s = where(e, st)
            err = T.bor(g['bad'], T.band(T.eq(g['res'], BUF), T.ne(ai, s32(0))))
            cut = T.band(T.eq(ai, s32(0)), T.eq(pos, SRC.len), T.eq(g['made'], Z64), T.not_(g['ended']))
            c.goal(st, T.bor(err, cut), 'an error is reported only for corrupt or truncated data')

# ---- writer
def run_write(c, mode, sink):
    K = {}
    e = c.eng; e.merge = False
    e.sink_fails = 'all' if sink else False
    N = 16384
    BUFV = S.var('in_buf', T.var('in_buf_len', 64)); CH = T.var('in_c', 32)
    def c_deflate(e, st, a, ins):
        g = st.g; z = a[0]
        if not e.quiet: c.reach('deflate')
        ai0 = fld(e, st, z, AVAIL_IN)
        data, used, made, res, ai, ao, out = step(e, st, z, True)
        want = S.slice_(g['all'], g['used'], T.sub(g['all'].len, g['used']), st)
        if not e.quiet:
            c.goal(st, T.eq(T.zext(ai, 64), want.len), 'the compressor gets all the data not yet taken'); c.goal(st, S.eq_goal(data, want, st), 'the compressor gets the data in order')
            c.goal(st, T.ne(ao, s32(0)), 'the compressor gets room for output')
            c.goal(st, T.eq(a[1], s32(4 if mode == 'sync' else 0)), 'the compressor is told to finish exactly when the stream is')
            c.goal(st, T.not_(g['bad']), 'the compressor is not called after an error')
        err = T.slt(res, s32(0))
        st.assume(T.bor(T.eq(res, MEM), T.eq(res, BUF), T.eq(res, OK), T.eq(res, END)))
        # zlib: input left only when the output is full; BUF_ERROR never after a full output or with input or when finishing
        st.assume(T.implies(T.not_(err), T.bor(T.eq(used, ai), T.eq(made, ao))))
        st.assume(T.implies(T.eq(res, END), T.eq(used, ai)))
        if mode == 'sync': st.assume(T.implies(T.band(T.not_(err), T.ne(made, ao)), T.eq(res, END)))
        # only data the compressor is left with can be sent: it makes finitely many full buffers
        if not e.quiet: pass
        g['used'] = T.add(g['used'], T.zext(used, 64)); g['out'] = S.concat([g['out'], out], st); g['bad'] = T.bor(g['bad'], err); g['more'] = T.eq(made, ao)
        g['res'] = res
        return [('ret', st, res)]
    e.overrides += [(re.compile(r'^deflateInit2_$'), c_init), (re.compile(r'^(inflate|deflate)End$'), c_init), (re.compile(r'^deflate$'), c_deflate)]
    def pre(e, st, z, buf, ch, dst):
        K.update(z=z, dst=dst, vec=buf)
        st.assume(T.ult(BUFV.len, C64(N)))
        allv = BUFV
        if mode == 'over':
            allv = S.concat([BUFV, S.bytes_([T.trunc(CH, 8)])], st)
            st.assume(T.bor(T.eq(CH, EOF), T.ult(CH, s32(256))))
        st.g.update(all=allv, used=Z64, out=S.EMPTY, bad=T.FALSE, more=T.TRUE, res=OK, lost=T.FALSE)
    def content(e, st): return models.Stream(e, st, K['dst'])['out']
    def inv(e, st):
        g = st.g; z = K['z']; s = models.Stream(e, st, K['dst'])
        ai = T.zext(fld(e, st, z, AVAIL_IN), 64)
        ni = fld(e, st, z, NEXT_IN); b = models.vec_cells(e, st, K['vec'])
        ok = T.eq(T.sub(ni.off, g['used']), b.off) if ni.obj == b.obj else T.eq(ai, Z64) if not b.obj else T.FALSE
        return [(T.eq(T.add(g['used'], ai), g['all'].len), 'data not yet taken is kept'), (ok, 'the compressor reads from the buffered data'), (S.eq_goal(content(e, st), g['out'], st), 'all output of the compressor is written in order'),
                (T.not_(g['bad']), 'compressor errors end the loop'), (s.good(), 'the destination is good'), (T.not_(g['lost']), 'no output was lost')]
    def shape(e, st):
        g = st.g; s = models.Stream(e, st, K['dst'])
        g['used'] = T.var('lv_used', 64); st.assume(T.ule(g['used'], g['all'].len))
        put(e, st, K['z'], AVAIL_IN, T.trunc(T.sub(g['all'].len, g['used']), 32))
        b = models.vec_cells(e, st, K['vec'])
        if b.obj: put(e, st, K['z'], NEXT_IN, Ptr(b.obj, T.add(b.off, g['used'])))
        o = S.var('lv_out', T.var('lv_out_len', 64)); st.assume(T.ult(o.len, C64(1 << 40)))
        g['out'] = o; s['out'] = o
        if s['kind'] == 'both': s['content'] = o
        for k in ('eof', 'fail', 'bad'): s[k] = T.FALSE
        g['bad'] = T.FALSE; g['lost'] = T.FALSE; g['more'] = T.var('lv_more', 0)
    e.loop_contracts.append(loops.LoopContract(r'^deflate$', inv, shape))
    c.hook('pre', pre)
    def complete(e, st):
        g = st.g
        c.goal(st, T.eq(g['used'], g['all'].len), 'all data was passed to the compressor')
        c.goal(st, S.eq_goal(content(e, st), g['out'], st), 'all output of the compressor was written, in order')
        c.goal(st, T.band(T.not_(g['bad']), T.not_(g['lost'])), 'success is reported only when nothing failed')
        if mode == 'sync': c.goal(st, T.not_(g['more']), 'the compressor has no more output waiting'); c.goal(st, T.eq(g['res'], END), 'the compressed stream is complete')
    def over(e, st, r, bp, bn):
        for st1, eof in models.split(st, T.eq(CH, EOF)):
            if eof:
                c.goal(st1, T.eq(r, EOF), 'overflow(eof) reports eof'); c.goal(st1, T.band(T.eq(bn, BUFV.len), T.eq(content(e, st1).len, Z64)), 'overflow(eof) changes nothing'); continue
            c.goal(st1, T.eq(r, T.ite(T.ult(CH, s32(128)), CH, r)), 'overflow returns the character')
            for st2, done in models.split(st1, T.eq(bn, Z64)):
                if done: complete(e, st2); continue
                c.goal(st2, T.band(T.eq(content(e, st2).len, Z64), T.eq(st2.g['used'], Z64)), 'nothing is written while the buffer fills')
                c.goal(st2, S.eq_goal(e.read_seq(st2, bp, bn), st2.g['all'], st2), 'the character is appended to the buffer')
    def synced(e, st, r, bn):
        for st1, ok in models.split(st, T.eq(r, s32(0))):
            if ok: complete(e, st1); c.goal(st1, T.eq(bn, Z64), 'sync leaves no data behind')
            else: c.goal(st1, T.bor(st1.g['bad'], st1.g['lost']), 'sync fails only when something failed')
    if mode == 'over': c.hook('overflowed', over)
    else: c.hook('synced', synced)
    c.expected.add('deflate')
    for o in c.call('h_gover' if mode == 'over' else 'h_gsync'):
        if o[0] == 'throw':
            st = o[1]
            c.goal(st, T.boolc(is_exc(c.eng, o, 'IoError')), 'a failed write is reported as IoError')
            c.goal(st, T.bor(st.g['bad'], st.g['lost']), 'writing fails only when something failed')
            if mode == 'sync': c.goal(st, T.FALSE, 'sync does not throw')

def jobs(tier):
    return [Job('underflow', lambda c: run_under(c, False), UNITS, what='gzip_istreambuf::underflow from any reader state, any source'),
            Job('underflow of a new reader', lambda c: run_under(c, True), UNITS, what='constructor and first underflow'),
            Job('overflow', lambda c: run_write(c, 'over', False), UNITS, what='gzip_ostreambuf::overflow, WriteOutput for any buffered data'),
            Job('overflow, failing destination', lambda c: run_write(c, 'over', True), UNITS, what='the same with a destination that may fail at any write'),
            Job('sync', lambda c: run_write(c, 'sync', False), UNITS, what='gzip_ostreambuf::sync'),
            Job('sync, failing destination', lambda c: run_write(c, 'sync', True), UNITS, what='the same with a destination that may fail at any write')]
REPLAY = dict(src='c12.cc', units=['stream', 'util', 'io'], rule='every written buffer, every damaged or cut compressed stream, against zlib on the whole buffer')
TRUSTED = ['inflate/deflate contracts: consume a prefix of the input, fill a prefix of the output, Z_OK only with progress and with input or output exhausted, Z_BUF_ERROR without effect; deflate returns Z_STREAM_END when finishing with output room left; a dictionary or stream error never occurs for gzip data and a valid z_stream']
ASSUMPTIONS = ['zlib itself is correct: what inflate delivers for what it was fed is the decompressed data, and damage makes it return an error', 'deflate fills finitely many full output buffers (termination of the writer loop)', 'no loop runs 2^64 iterations']
