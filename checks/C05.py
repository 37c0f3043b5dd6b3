"""C05: a KDBX file with a wrong key or altered contents never opens."""
import re
from llvc import terms as T, seqs as S, models, irparse, loops, xmlmodel
from llvc.check import *
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
from dbcommon import *
import kdbxhdr
from kdbxhdr import Header
LEVEL = 'proof'
UNITS = ['/verif/harness/kdbxfile.cc', 'io']
XH = [T.var('in_xmlhash_%d' % k, 8) for k in range(32)]     # what the protected contents store
XOK = T.var('in_xmlok', 0)
def base_ok(st): return T.band(T.uge(FILE.len, C64(12)), T.eq(W(st, 0, 8), T.bv(0xb54bfb679aa2d903, 64)), T.ule(T.extract(W(st, 8, 4), 31, 16), T.bv(3, 16)))
def start_ok(st): return T.band(T.uge(PLAIN.len, C64(32)), *[T.eq(S.at(PLAIN, C64(k), st), S.at(st.g['h_csb'], C64(k), st)) for k in range(32)])
def run(c):
    e = c.eng; e.merge = False
    K = {}
    ifile(c)
    def pre(e, st, key, hh):
        K['key'] = key; K['hh'] = hh
        st.assume(T.ult(FILE.len, C64(1 << 40)))
    c.hook('pre', pre)
    fo = e.fs_open
    def fs_open(st, a, mode, d):
        K['src'] = a[0]; return fo(st, a, mode, d)
    e.fs_open = fs_open
    H = Header(c, K)
    g = lambda k: (lambda st: st.g[k])
    transform(c, K, 0, g('h_ts'), g('h_rounds'))
    ciphers(c, g('h_ms'), g('h_iv'), lambda st, kind: T.boolc(kind == 'aes'))
    def endpos(st):
        """where the header ends: after the end field"""
        if 'h_end' not in st.g:
            k = H.fold(st); c.goal(st, T.boolc(k == 0), 'the header ends with the end field'); st.g['h_end'] = st.g['h_pos']
            for t, l in H.same(st): c.goal(st, t, l)
        return st.g['h_end']
    def hash_(st): return models.sha256(e, st, S.slice_(FILE, Z64, endpos(st), st))
    decrypt(c, endpos)
    def hashed(e, st, a, ins):
        s = models.Stream(e, st, a[1])
        c.goal(st, T.band(T.boolc(s['content'] == PLAIN), T.eq(s['pos'], C64(32))), 'the hashed blocks follow the start bytes')
        st.setattr(a[0].obj, 'layer', ('hashed', T.FALSE)); return [('ret', st, None)]
    on(e, r'^keepass::hashed_istreambuf::hashed_istreambuf', hashed)
    def gz(e, st, a, ins):
        b = models.Stream(e, st, a[1])['buf']
        c.goal(st, T.boolc(st.attr(b.obj, 'layer') is not None), 'the compressed data is in the hashed blocks')
        st.setattr(a[0].obj, 'layer', ('gzip', T.TRUE)); return [('ret', st, None)]
    on(e, r'^keepass::gzip_istreambuf::gzip_istreambuf', gz)
    on(e, r'^keepass::(gzip|hashed)_istreambuf::~', NOP)
    def obf(e, st, a, ins):
        want = models.sha256(e, st, st.g['h_irs'])
        c.goal(st, T.eq(models.pack(e.read_seq(st, a[1], 32), 32, st), want), 'protected values are decoded with the protected stream key of the header')
        return [('ret', st, None)]
    on(e, r'^keepass::RandomObfuscator::RandomObfuscator', obf)
    on(e, r'^keepass::RandomObfuscator::~', NOP)
    def parse(e, st, a, ins):
        if not e.quiet: c.reach('parse')
        b = models.Stream(e, st, a[1])['buf']; ly = st.attr(b.obj, 'layer')
        c.goal(st, T.not_(BAD), 'the contents are interpreted only if the padding was valid')
        c.goal(st, start_ok(st), 'the contents are interpreted only if they start with the start bytes')
        c.goal(st, T.boolc(ly is not None), 'the contents are read through the hashed blocks')
        if ly: c.goal(st, T.iff(ly[1], st.g['h_comp']), 'the contents are decompressed when the header says so')
        outs = []
        for s2, ok in models.split(st, XOK):
            if not ok: s2.g['xfail'] = T.TRUE; outs.append(e.throw(s2, e_ti(e, 'FormatError'))); continue
            for s3, has in models.split(s2, T.var('in_xmlhashed', 0)):
                # present in the contents: decoded into the member; absent: the member keeps its value
                if has: e.write_seq(s3, K['hh'], S.bytes_(XH))
                outs.append(('ret', s3, None))
        return outs
    on(e, r'^keepass::KdbxFile::ParseXml\(', parse)
    c.expected |= {'parse', 'imported'}
    def opened(st, l):
        c.goal(st, OPEN, l + ' only from a file that opens'); c.goal(st, base_ok(st), l + ' only with a KDBX signature and version')
        c.goal(st, T.not_(BAD), l + ' only if the padding was valid'); c.goal(st, start_ok(st), l + ' only if the contents start with the start bytes')
    def hdr_match(st): return T.eq(T.concat_lo(XH), hash_(st))
    def imported(e, st, db):
        opened(st, 'a database is returned')
        st.assume(T.ne(hash_(st), T.bv(0, 256)))
        c.goal(st, T.band(T.var('in_xmlhashed', 0), hdr_match(st)), 'a database is returned only if the stored hash is that of the header bytes')
        for t, l in H.same(st): c.goal(st, t, 'in the database returned ' + l)
    c.hook('imported', imported)
    n = 0
    for o in c.call('h_kdbx_import'):
        if o[0] != 'throw': continue
        st = o[1]; n += 1
        if is_exc(e, o, 'FileNotFoundError'): c.goal(st, T.not_(OPEN), 'only a file that does not open is reported missing'); continue
        c.goal(st, OPEN, 'a missing file is reported as such')
        after = 'h_end' in st.g
        if is_exc(e, o, 'PasswordError'):
            c.goal(st, T.boolc(after), 'a bad header is no password error')
            if after: c.goal(st, T.bor(BAD, T.not_(start_ok(st))), 'a password error only for bad padding or wrong start bytes')
        elif after and 'xfail' not in st.g:
            c.goal(st, T.boolc(is_exc(e, o, 'FormatError')), 'another header hash is a format error')
            c.goal(st, T.band(T.not_(BAD), start_ok(st)), 'wrong contents are a password error')
            st.assume(T.ne(hash_(st), T.bv(0, 256)))
            c.goal(st, T.not_(T.band(T.var('in_xmlhashed', 0), hdr_match(st))), 'a format error after parsing only if the header hash differs')
        else: c.goal(st, T.boolc(is_exc(e, o, 'FormatError') or is_exc(e, o, 'IoError')), 'a bad header is a format or I/O error')
    if n < 4: raise Unsupported('vacuous: no rejections')

def jobs(tier): return [Job('import', run, UNITS, what='KdbxFile::Import for every file, header field sequence of any length, decryption outcome, stored hash')]
REPLAY = dict(src='c05.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='exported databases: wrong keys, every header byte and content bytes changed, start bytes, stored hash, files cut and extended; distinct by file content and key')
TRUSTED = ['generate_n(it, a + b, f) is generate_n(generate_n(it, a, f), b, f)', 'Key::Transform, ciphers, decrypt_cbc, hashed and gzip layers by their contracts (proved by C09, C07, C06, C11, C12)', 'ParseXml stores the hash found in the contents or leaves it (its own contract: C01)', 'SHA-256 is an uninterpreted function of the byte string']
ASSUMPTIONS = ['no loop runs 2^64 iterations', 'files are shorter than 2^40 bytes', 'no SHA-256 is all zero', 'SHA-256 is collision free']
