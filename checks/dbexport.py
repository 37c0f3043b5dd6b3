"""Contracts of what the exporters of whole files use, and the specification of the bytes they write."""
import re
from llvc import terms as T, seqs as S, models, irparse
from llvc.check import *
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
import dbcommon
from dbcommon import OPEN, TK, PATH, on, NOP
ENC = S.var('in_enc', T.var('in_enc_len', 64))
HB = S.var('in_hashed', T.var('in_hashed_len', 64))      # what the hashed block writer makes of the contents
V = lambda n, k: [T.var('in_%s_%d' % (n, j), 8) for j in range(k)]
TS, IV, IRS, SB = V('ts', 32), V('iv', 16), V('irs', 32), V('random', 32)
MS = S.var('in_ms', T.var('in_ms_len', 64))
ROUNDS = T.var('in_rounds', 64); COMP = T.var('in_comp', 0); CI = T.var('in_cipher', 0)
AES_ID = [0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff]
def le(v, n): return [T.bv(v >> (8 * k) & 255, 8) for k in range(n)]
def tle(t, n): return [T.extract(t, 8 * k + 7, 8 * k) for k in range(n)]
def kdbx_header(st):
    """the documented header: signatures, version, fields {id, size, data}"""
    f = lambda i, d: le(i, 1) + le(len(d), 2) + d
    a = le(0x9aa2d903, 4) + le(0xb54bfb67, 4) + le(0x00030001, 4) + f(2, [T.bv(x, 8) for x in AES_ID]) + f(3, [T.ite(COMP, T.bv(1, 8), T.bv(0, 8))] + le(0, 3))
    a += le(4, 1) + tle(T.extract(MS.len, 15, 0), 2)
    b = f(5, TS) + f(6, tle(ROUNDS, 8)) + f(7, IV) + f(8, IRS) + f(9, SB) + f(10, le(2, 4)) + le(0, 3)
    return S.concat([S.bytes_(a), MS, S.bytes_(b)], st)

def ofile(c, K):
    e = c.eng; dbcommon.quiet_hooks(c)
    def fs_open(st, a, mode, d):
        c.goal(st, T.boolc(mode == 'out'), 'the destination is written from its start')
        c.goal(st, S.eq_goal(models.str_get(e, st, a[1]), PATH, st), 'the file named is written')
        c.goal(st, T.boolc('dst' not in K or K['dst'] == a[0]), 'one file is written')
        models.stream_init(e, st, a[0], kind='file')
        K['dst'] = a[0]
        st.wobj(a[0].obj).attrs[('s', a[0].off.val, 'open')] = OPEN
        return [('ret', st, None)]
    e.fs_open = fs_open

def encrypt(c, K, src_want, dst_want):
    """encrypt_cbc (C06, C17): every ciphertext byte goes to the destination, or the destination is left not good"""
    e = c.eng
    def h(e, st, a, ins):
        src, dst, ci = a
        c.reach('encrypt')
        s = models.Stream(e, st, src)
        c.goal(st, T.boolc(st.attr(ci.obj, 'cipher') is not None), 'the cipher set up for the header encrypts')
        want = src_want(st)
        c.goal(st, T.band(S.eq_goal(S.slice_(s['content'], s['pos'], T.sub(s['content'].len, s['pos']), st), want, st), s.good()), 'the whole contents are encrypted')
        c.goal(st, T.boolc(dst.obj == K['dst'].obj), 'the encrypted contents go to the file')
        dst_want(st)
        s['pos'] = s['content'].len; s['eof'] = T.TRUE; s['fail'] = T.TRUE
        st.assume(T.ult(ENC.len, C64(1 << 40)))
        return models.stream_write(e, st, dst, ENC)
    on(e, r'^keepass::encrypt_cbc\(', h)
    c.expected.add('encrypt')

def written(c, st, K):
    """what the file has received, and that nothing can get lost later"""
    s = models.Stream(c.eng, st, K['dst'])
    c.goal(st, T.not_(s['lost']), 'an export returns only if everything was written')
    c.goal(st, T.not_(s['pending']), 'an export returns only after what it wrote left the buffer')
    c.goal(st, s.good(), 'an export returns only with the file in order')
    return s['out']

def kdbx_export(c, fails, header_goals, at_write=None):
    e = c.eng; e.merge = False; K = {}
    ofile(c, K)
    e.sink_fails = fails
    def pre(e, st, key, hh):
        K['key'] = key; K['hh'] = hh
        st.assume(T.ult(MS.len, C64(65536)))
    c.hook('pre', pre)
    dbcommon.transform(c, K, 0, lambda st: S.bytes_(TS), lambda st: ROUNDS)
    dbcommon.ciphers(c, lambda st: MS, lambda st: S.bytes_(IV), lambda st, kind: T.boolc(kind == 'aes'))
    def rnd(e, st, a, ins):
        c.goal(st, T.boolc('rnd' not in st.g), 'start bytes are drawn once'); st.g['rnd'] = T.TRUE
        e.write_seq(st, a[0], S.bytes_(SB)); return [('ret', st, None)]
    on(e, r'keepass::random_array<32', rnd)
    on(e, r'^keepass::RandomObfuscator::~', NOP)
    def obf(e, st, a, ins):
        c.goal(st, T.eq(models.pack(e.read_seq(st, a[1], 32), 32, st), models.sha256(e, st, S.bytes_(IRS))), 'protected values are encoded with the protected stream key of the header')
        return [('ret', st, None)]
    on(e, r'^keepass::RandomObfuscator::RandomObfuscator', obf)
    def ctor(kind):
        def h(e, st, a, ins):
            if kind == 'gzip':
                b = models.Stream(e, st, a[1])['buf']
                c.goal(st, T.boolc(st.attr(b.obj, 'layer') is not None and st.attr(b.obj, 'layer')[0] == 'hashed'), 'compressed data goes to the hashed blocks')
                st.setattr(a[0].obj, 'layer', ('gzip', b.obj)); st.setattr(a[0].obj, 'synced', T.FALSE)
                return [('ret', st, None)]
            s = models.Stream(e, st, a[1])
            c.goal(st, T.boolc(s['kind'] == 'both'), 'the hashed blocks go to memory')
            c.goal(st, S.eq_goal(s['content'], S.bytes_(SB), st), 'the hashed blocks follow the start bytes')
            st.setattr(a[0].obj, 'layer', ('hashed', a[1]))
            return [('ret', st, None)]
        return h
    on(e, r'^keepass::hashed_ostreambuf::hashed_ostreambuf', ctor('hashed'))
    on(e, r'^keepass::gzip_ostreambuf::gzip_ostreambuf', ctor('gzip'))
    on(e, r'^keepass::(gzip|hashed)_ostreambuf::~', NOP)
    def sync(e, st, p):
        """the buffered contents reach the layer below"""
        kind, to = st.attr(p.obj, 'layer')
        if kind == 'gzip': st.setattr(p.obj, 'synced', T.TRUE); st.setattr(to, 'gz', T.TRUE); return [('ret', st, None)]
        if st.attr(p.obj, 'done') is not None: return [('ret', st, None)]
        st.setattr(p.obj, 'done', T.TRUE)
        return models.stream_write(e, st, to, HB)
    def flush(e, st, a, ins):
        s = models.Stream(e, st, a[0])
        if s['kind'] != 'buf': return models.m_flush(e, st, a, ins)
        outs = []
        for s2, bad in models.split(st, T.fresh('layerfail', 0)):
            if bad: models.Stream(e, s2, a[0])['bad'] = T.TRUE; s2.g['layerfail'] = T.TRUE; outs.append(('ret', s2, a[0])); continue
            outs += [('ret', o[1], a[0]) for o in sync(e, s2, s.on(s2)['buf'])]
        return outs
    on(e, r'^std::basic_ostream<.*>::flush\(', flush)
    def wxml(e, st, a, ins):
        c.reach('xml')
        if at_write: at_write(e, st, a, ins)
        b = models.Stream(e, st, a[1])['buf']; ly = st.attr(b.obj, 'layer')
        c.goal(st, T.boolc(ly is not None), 'the contents are written to the hashed blocks')
        c.goal(st, T.boolc(a[3].obj == K['db'].obj), 'the contents of the database given are written')
        if ly: c.goal(st, T.iff(T.boolc(ly[0] == 'gzip'), COMP), 'the contents are compressed when the header says so')
        c.goal(st, T.eq(models.pack(e.read_seq(st, K['hh'], 32), 32, st), models.sha256(e, st, kdbx_header(st))), 'the hash stored in the contents is that of the header')
        c.goal(st, T.boolc('xml' not in st.g), 'the contents are written once'); st.g['xml'] = ly[0] if ly else ''; st.g['xmlbuf'] = b.obj
        outs = []
        for s2, bad in models.split(st, T.fresh('xmlfail', 0)):
            if bad: outs.append(e.throw(s2, e_ti(e, 'IoError'))); s2.g['layerfail'] = T.TRUE
            else: outs.append(('ret', s2, None))
        return outs
    on(e, r'^keepass::KdbxFile::WriteXml\(', wxml)
    c.expected |= {'xml', 'exported'}
    c.hook('db', lambda e, st, p: K.__setitem__('db', p))
    def dst_want(st):
        out = models.Stream(e, st, K['dst'])['out']
        if not fails: c.goal(st, S.eq_goal(out, kdbx_header(st), st), 'the header written is the documented field sequence')
    def src_want(st):
        c.goal(st, T.boolc('xml' in st.g), 'the contents were written')
        if st.g.get('xml') == 'gzip': c.goal(st, st.attr(st.g['xmlbuf'], 'synced'), 'the compressed data was flushed before encryption')
        return S.concat([S.bytes_(SB), HB], st)
    encrypt(c, K, src_want, dst_want)
    def exported(e, st):
        c.goal(st, OPEN, 'an export returns only if the file opened')
        out = written(c, st, K)
        c.goal(st, S.eq_goal(out, S.concat([kdbx_header(st), ENC], st), st), 'the file is the documented header and the encrypted contents')
    c.hook('exported', exported)
    n = 0
    for o in c.call('h_kdbx_export'):
        if o[0] != 'throw': continue
        st = o[1]; n += 1
        c.goal(st, T.boolc(is_exc(e, o, 'IoError')), 'an export that fails reports an I/O error')
        if 'layerfail' in st.g: continue
        lost = models.Stream(e, st, K['dst'])['lost']
        c.goal(st, T.bor(T.not_(OPEN), lost), 'an export fails only if something could not be written')
    if n < 2: raise Unsupported('vacuous: no failures')

SEED = V('seed', 16); TWOFISH = T.var('in_twofish', 0)
GB = S.var('in_groups', T.var('in_groups_len', 64)); EB = S.var('in_entries', T.var('in_entries_len', 64))
def kdb_export(c, fails):
    """KdbFile::Export; the records are those of one group with one entry, written by WriteGroup and WriteEntry
    under contract as arbitrary bytes (so the contents are any bytes)"""
    e = c.eng; e.merge = False; K = {}
    ofile(c, K)
    e.sink_fails = fails
    R32 = T.extract(ROUNDS, 31, 0)
    def pre(e, st, key):
        K['key'] = key
        for x in (GB, EB): st.assume(T.ult(x.len, C64(1 << 32)))
    c.hook('pre', pre)
    on(e, r'keepass::generate_uuid', lambda e, st, a, ins: [('ret', st, models.Agg([T.fresh('uuid', 64), T.fresh('uuid', 64)]))])
    ms = lambda st: S.bytes_(SEED)
    dbcommon.transform(c, K, 1, lambda st: S.bytes_(TS), lambda st: ROUNDS)
    dbcommon.ciphers(c, ms, lambda st: S.bytes_(IV), lambda st, kind: T.iff(TWOFISH, T.boolc(kind == 'twofish')))
    def rec(what, bytes_):
        def h(e, st, a, ins):
            c.reach(what)
            c.goal(st, T.eq(T.zext(a[3], 64), Z64), 'the group has number zero')
            s = models.Stream(e, st, a[1])
            c.goal(st, T.boolc(s['kind'] == 'both'), 'records are collected in memory')
            return [('ret', o[1], None) for o in models.stream_write(e, st, a[1], bytes_)]
        on(e, r'^keepass::KdbFile::Write%s\(' % what, h); c.expected.add(what)
    rec('Group', GB); rec('Entry', EB)
    body = lambda st: S.concat([GB, EB], st)
    def header(st):
        h = models.sha256(e, st, body(st))
        fl = [T.ite(TWOFISH, T.bv(8, 8), T.bv(2, 8))] + le(0, 3)
        return S.bytes_(le(0x9aa2d903, 4) + le(0xb54bfb65, 4) + fl + le(0x00030000, 4) + SEED + IV + le(1, 4) + le(1, 4) + tle(h, 32) + TS + tle(R32, 4))
    def dst_want(st):
        if not fails: c.goal(st, S.eq_goal(models.Stream(e, st, K['dst'])['out'], header(st), st), 'the header written is the documented one')
    encrypt(c, K, body, dst_want)
    def exported(e, st):
        c.goal(st, OPEN, 'an export returns only if the file opened')
        out = written(c, st, K)
        c.goal(st, T.eq(T.extract(ROUNDS, 63, 32), T.bv(0, 32)), 'a round count KDB cannot store is refused')
        c.goal(st, S.eq_goal(out, S.concat([header(st), ENC], st), st), 'the file is the documented header and the encrypted contents')
    c.hook('exported', exported)
    c.expected.add('exported')
    n = 0
    for o in c.call('h_kdb_export'):
        if o[0] != 'throw': continue
        st = o[1]; n += 1
        if is_exc(e, o, 'InternalError'): c.goal(st, T.ne(T.extract(ROUNDS, 63, 32), T.bv(0, 32)), 'only a round count KDB cannot store is refused'); continue
        c.goal(st, T.boolc(is_exc(e, o, 'IoError')), 'an export that fails reports an I/O error')
        lost = models.Stream(e, st, K['dst'])['lost'] if 'dst' in K else T.FALSE
        c.goal(st, T.bor(T.not_(OPEN), lost), 'an export fails only if something could not be written')
    if n < 2: raise Unsupported('vacuous: no failures')
