"""C14: the KDBX header is written and read back exactly, and bad headers are rejected."""
from llvc.check import *
import dbexport, kdbxhdr
from llvc import terms as T, models, seqs as S
from llvc.engine import Dead
from llvc.state import C64
from dbcommon import *
LEVEL = 'proof'
UNITS = ['/verif/harness/kdbxfile.cc', 'io']
def base_ok(st): return T.band(T.uge(FILE.len, C64(12)), T.eq(W(st, 0, 8), T.bv(0xb54bfb679aa2d903, 64)), T.ule(T.extract(W(st, 8, 4), 31, 16), T.bv(3, 16)))
def run_import(c):
    e = c.eng; e.merge = False; K = {}
    ifile(c)
    def pre(e, st, key, hh):
        K['key'] = key
        st.assume(T.ult(FILE.len, C64(1 << 40)))
    c.hook('pre', pre)
    fo = e.fs_open
    def fs_open(st, a, mode, d):
        K['src'] = a[0]; return fo(st, a, mode, d)
    e.fs_open = fs_open
    H = kdbxhdr.Header(c, K)
    def transform(e, st, a, ins):
        c.reach('header accepted')
        c.goal(st, base_ok(st), 'a header is accepted only with the KDBX signature and major version')
        k = H.fold(st)
        c.goal(st, T.boolc(k == 0), 'the header ends with the end field')
        for t, l in H.same(st): c.goal(st, t, l)
        csb = K['csb'][-1]
        if len(K['csb']) == 1: c.goal(st, S.eq_goal(e.read_seq(st, models.Ptr(csb, models.Z64), 32), st.g['h_csb'], st), 'the start bytes are those of the header')
        raise Dead()
    on(e, r'^(std::array<.*> )?keepass::Key::Transform\(', transform)
    c.expected.add('header accepted')
    n = 0
    for o in c.call('h_kdbx_import'):
        if o[0] != 'throw': continue
        st = o[1]
        if is_exc(e, o, 'FileNotFoundError'): c.goal(st, T.not_(OPEN), 'only a file that does not open is reported missing'); continue
        n += 1
        c.goal(st, T.boolc(is_exc(e, o, 'FormatError') or is_exc(e, o, 'IoError')), 'a bad header is a format or I/O error')
        ok = T.band(OPEN, base_ok(st), *([H.acceptable(st)] if 'h_pos' in st.g else []))
        c.goal(st, T.not_(ok), 'a header is rejected only for something the format does not allow')
    if n < 4: raise Unsupported('vacuous: no rejections')
TRUSTED = ['SHA-256 is an uninterpreted function of the byte string', 'what follows the header is the subject of C05', 'encrypt_cbc, the hashed and gzip writers by their contracts (C06, C11, C12)', 'generate_n(it, a + b, f) is generate_n(generate_n(it, a, f), b, f)']
ASSUMPTIONS = ['no loop runs 2^64 iterations', 'files are shorter than 2^40 bytes', 'the exported database uses the AES cipher and a master seed of less than 65536 bytes']
def jobs(tier):
    return [Job('import', run_import, UNITS, what='KdbxFile::Import for every header field sequence of any length'),
            Job('export', lambda c: dbexport.kdbx_export(c, False, True), UNITS, what='KdbxFile::Export for every header value')]
REPLAY = dict(src='c14.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='header values exported and parsed by an independent reader, headers built by hand: field orders, sizes, unknown ids and values; distinct by header')
