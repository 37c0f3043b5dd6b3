"""C04: a KDB file with a wrong key or altered contents never opens."""
import re
from llvc import terms as T, seqs as S, models, irparse, loops
from llvc.check import *
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/kdbfile.cc']
FILE = S.var('in_file', T.var('in_file_len', 64))
OPEN = T.var('in_open', 0)
BAD = T.var('in_badpad', 0)
PLAIN = S.var('in_plain', T.var('in_plain_len', 64))
TK = S.var('in_tkey', C64(32))
SIG = T.bv(0xb54bfb659aa2d903, 64)

def W(st, k, n): return T.concat_lo([S.at(FILE, C64(k + j), st) for j in range(n)])
def FS(st, k, n): return S.slice_(FILE, C64(k), C64(n), st)

def opened(c, K):
    """the contracts of what Import uses: file, key transformation, ciphers, decrypt_cbc"""
    e = c.eng
    def fs_open(st, a, mode, d):
        c.goal(st, T.boolc(mode == 'in'), 'the database file is only read')
        c.goal(st, S.eq_goal(models.str_get(e, st, a[1]), S.var('in_path', T.var('in_path_len', 64)), st), 'the file named is opened')
        models.stream_init(e, st, a[0], content=FILE)
        st.wobj(a[0].obj).attrs[('s', a[0].off.val, 'open')] = OPEN
        return [('ret', st, None)]
    e.fs_open = fs_open
    def transform(e, st, a, ins):
        out, key, seed, rounds, mode = a
        if not e.quiet: c.reach('transform')
        c.goal(st, T.boolc(key.obj == K['key'].obj), "the caller's key is used")
        c.goal(st, S.eq_goal(e.read_seq(st, seed, 32), FS(st, 88, 32), st), 'the key is transformed with the transform seed of the header')
        c.goal(st, T.eq(rounds, T.zext(W(st, 120, 4), 64)), 'the key is transformed with the round count of the header')
        c.goal(st, T.eq(mode, K['mode']), 'the components are combined the KDB way')
        e.write_seq(st, out, TK)
        return [('ret', st, None)]
    e.overrides.append((re.compile(r'^(std::array<.*> )?keepass::Key::Transform\('), transform))
    def cipher(kind, bit):
        def h(e, st, a, ins):
            if not e.quiet: c.reach('cipher')
            want = models.sha256(e, st, S.concat([FS(st, 16, 16), TK], st))
            c.goal(st, T.eq(models.pack(e.read_seq(st, a[1], 32), 32, st), want), 'the content key is SHA-256 of master seed and transformed key')
            c.goal(st, S.eq_goal(e.read_seq(st, a[2], 16), FS(st, 32, 16), st), 'the initialization vector of the header is used')
            fl = W(st, 8, 4); b1 = T.ne(T.extract(fl, 1, 1), T.bv(0, 1)); b3 = T.ne(T.extract(fl, 3, 3), T.bv(0, 1))
            c.goal(st, b1 if kind == 'aes' else T.band(T.not_(b1), b3), 'the cipher of the header is used: ' + kind)
            st.setattr(a[0].obj, 'cipher', (kind, a[0].off))
            return [('ret', st, None)]
        return h
    e.overrides.append((re.compile(r'^keepass::AesCipher::AesCipher\(std::array<.*>, .*\)|^keepass::AesCipher::AesCipher\(.*, .*16.*\)'), cipher('aes', 1)))
    e.overrides.append((re.compile(r'^keepass::TwofishCipher::TwofishCipher\(.*, .*16.*\)'), cipher('twofish', 3)))
    e.overrides.append((re.compile(r'^std::default_delete<keepass::Cipher<16.*> >::operator\(\)|^keepass::(Aes|Twofish)?Cipher(<16.*>)?::~'), lambda e, st, a, ins: [('ret', st, None)]))
    def decrypt(e, st, a, ins):
        src, dst, ci = a
        if not e.quiet: c.reach('decrypt')
        s = models.Stream(e, st, src)
        c.goal(st, T.boolc(st.attr(ci.obj, 'cipher') is not None), 'the cipher set up from the header decrypts')
        c.goal(st, T.band(T.boolc(s['content'] == FILE), T.eq(s['pos'], C64(124)), s.good()), 'everything after the header is decrypted')
        outs = []
        for s2, bad in models.split(st, BAD):
            if bad: outs.append(e.throw(s2, e_ti(e, 'IoError')))
            else:
                s2.assume(T.ult(PLAIN.len, C64(1 << 40)))
                models.Stream(e, s2, src)['pos'] = FILE.len
                for k in ('eof', 'fail'): models.Stream(e, s2, src)[k] = T.var('dec_' + k, 0)
                outs += [('ret', o[1], None) for o in models.stream_write(e, s2, dst, PLAIN)]
        return outs
    e.overrides.append((re.compile(r'^keepass::decrypt_cbc\('), decrypt))

def hash_ok(c, st): return T.eq(models.sha256(c.eng, st, PLAIN), W(st, 56, 32))
def hdr_ok(st):
    return T.band(T.uge(FILE.len, C64(124)), T.eq(W(st, 0, 8), SIG), T.eq(T.extract(W(st, 12, 4), 31, 8), T.bv(0x300, 24)),
                  T.ne(T.and_(W(st, 8, 4), T.bv(10, 32)), T.bv(0, 32)))

def run(c):
    e = c.eng; e.merge = False
    K = dict(mode=T.bv(1, 32))
    opened(c, K)
    def pre(e, st, key):
        K['key'] = key
        st.assume(T.ult(FILE.len, C64(1 << 40)))
    c.hook('pre', pre)
    def verified(st, what):
        c.goal(st, OPEN, what + ': only from a file that opens')
        c.goal(st, hdr_ok(st), what + ': only with a KDB 3 header')
        c.goal(st, T.not_(BAD), what + ': only if the padding was valid')
        c.goal(st, hash_ok(c, st), what + ': only if the contents have the recorded SHA-256')
    def record(e, st, a, ins):
        if not e.quiet: c.reach('record')
        verified(st, 'the contents are interpreted')
        raise Dead()
    e.overrides.append((re.compile(r'keepass::KdbFile::Read(Group|Entry)\('), record))
    e.overrides.append((re.compile(r'^keepass::Group::~?Group\(\)'), lambda e, st, a, ins: [('ret', st, None)]))
    c.expected |= {'transform', 'cipher', 'decrypt', 'record'}
    def imported(e, st, db):
        verified(st, 'a database is returned')
    c.hook('imported', imported)
    n = 0
    for o in c.call('h_kdb_import'):
        if o[0] != 'throw': continue
        st = o[1]; n += 1
        if is_exc(e, o, 'FileNotFoundError'): c.goal(st, T.not_(OPEN), 'only a file that does not open is reported missing'); continue
        c.goal(st, OPEN, 'a missing file is reported as such')
        if is_exc(e, o, 'PasswordError'):
            c.goal(st, hdr_ok(st), 'a bad header is no password error')
            c.goal(st, T.bor(BAD, T.not_(hash_ok(c, st))), 'a password error only for bad padding or altered contents')
        else:
            c.goal(st, T.boolc(is_exc(e, o, 'FormatError')), 'a bad header is a format error')
            c.goal(st, T.not_(hdr_ok(st)), 'wrong contents are a password error')
    if n < 4: raise Unsupported('vacuous: no rejections')

def jobs(tier): return [Job('import', run, UNITS, what='KdbFile::Import up to the interpretation of the contents: every file, header, decryption outcome')]
REPLAY = dict(src='c04.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='exported databases: wrong keys, every header byte and content bytes changed, files cut and extended; distinct by file content and key')
TRUSTED = ['Key::Transform, ciphers and decrypt_cbc by their contracts (proved by C09, C07, C06): decrypt_cbc either throws or delivers the decrypted contents', 'SHA-256 is an uninterpreted function of the byte string']
ASSUMPTIONS = ['no loop runs 2^64 iterations', 'files are shorter than 2^40 bytes', 'SHA-256 is collision free: contents with the recorded hash are the exported contents']
