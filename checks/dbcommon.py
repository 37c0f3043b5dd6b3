"""Contracts of what the importers and exporters of whole files use: the file, Key::Transform, the
ciphers and the CBC layer.  `want` gives the values the specification demands, as functions of the state."""
import re
from llvc import terms as T, seqs as S, models
from llvc.check import *
from llvc.state import C64, Z64, Ptr
FILE = S.var('in_file', T.var('in_file_len', 64))
OPEN = T.var('in_open', 0)
BAD = T.var('in_badpad', 0)
PLAIN = S.var('in_plain', T.var('in_plain_len', 64))
TK = S.var('in_tkey', C64(32))
PATH = S.var('in_path', T.var('in_path_len', 64))
def W(st, k, n): return T.concat_lo([S.at(FILE, C64(k + j), st) for j in range(n)])
def FS(st, k, n): return S.slice_(FILE, C64(k), C64(n), st)
NOP = lambda e, st, a, ins: [('ret', st, None)]
def on(e, rx, f): e.overrides.append((re.compile(rx), f))

def quiet_hooks(c):
    for k in ('fresh', 'pools'): c.eng.hooks.setdefault(k, lambda e, st, *a: None)
def ifile(c):
    e = c.eng; quiet_hooks(c)
    def fs_open(st, a, mode, d):
        c.goal(st, T.boolc(mode == 'in'), 'the database file is only read')
        c.goal(st, S.eq_goal(models.str_get(e, st, a[1]), PATH, st), 'the file named is opened')
        models.stream_init(e, st, a[0], content=FILE)
        st.wobj(a[0].obj).attrs[('s', a[0].off.val, 'open')] = OPEN
        return [('ret', st, None)]
    e.fs_open = fs_open

def transform(c, K, mode, seed_want, rounds_want):
    e = c.eng
    def h(e, st, a, ins):
        out, key, seed, rounds, m = a
        if not e.quiet: c.reach('transform')
        c.goal(st, T.boolc(key.obj == K['key'].obj), "the caller's key is used")
        c.goal(st, S.eq_goal(e.read_seq(st, seed, 32), seed_want(st), st), 'the key is transformed with the transform seed')
        c.goal(st, T.eq(rounds, rounds_want(st)), 'the key is transformed with the round count')
        c.goal(st, T.eq(m, T.bv(mode, 32)), 'the components are combined the way the format prescribes')
        e.write_seq(st, out, TK)
        return [('ret', st, None)]
    on(e, r'^(std::array<.*> )?keepass::Key::Transform\(', h)
    c.expected.add('transform')

def ciphers(c, mseed_want, iv_want, kind_want):
    """kind_want(st, kind) -> condition under which that cipher is right"""
    e = c.eng
    def cipher(kind):
        def h(e, st, a, ins):
            if not e.quiet: c.reach('cipher')
            want = models.sha256(e, st, S.concat([mseed_want(st), TK], st))
            c.goal(st, T.eq(models.pack(e.read_seq(st, a[1], 32), 32, st), want), 'the content key is SHA-256 of master seed and transformed key')
            c.goal(st, S.eq_goal(e.read_seq(st, a[2], 16), iv_want(st), st), 'the initialization vector is the one of the header')
            c.goal(st, kind_want(st, kind), 'the cipher is the one of the header: ' + kind)
            st.setattr(a[0].obj, 'cipher', (kind, a[0].off))
            return [('ret', st, None)]
        return h
    on(e, r'^keepass::AesCipher::AesCipher\(.*, .*16.*\)', cipher('aes'))
    on(e, r'^keepass::TwofishCipher::TwofishCipher\(.*, .*16.*\)', cipher('twofish'))
    on(e, r'^std::default_delete<keepass::Cipher<16.*> >::operator\(\)|^keepass::(Aes|Twofish)?Cipher(<16.*>)?::~', NOP)
    c.expected.add('cipher')

def decrypt(c, pos_want):
    e = c.eng
    def h(e, st, a, ins):
        src, dst, ci = a
        if not e.quiet: c.reach('decrypt')
        s = models.Stream(e, st, src)
        c.goal(st, T.boolc(st.attr(ci.obj, 'cipher') is not None), 'the cipher set up from the header decrypts')
        c.goal(st, T.band(T.boolc(s['content'] == FILE), T.eq(s['pos'], pos_want(st)), s.good()), 'everything after the header is decrypted')
        outs = []
        for s2, bad in models.split(st, BAD):
            if bad: outs.append(e.throw(s2, e_ti(e, 'IoError')))
            else:
                s2.assume(T.ult(PLAIN.len, C64(1 << 40)))
                models.Stream(e, s2, src)['pos'] = FILE.len
                for k in ('eof', 'fail'): models.Stream(e, s2, src)[k] = T.var('dec_' + k, 0)
                outs += [('ret', o[1], None) for o in models.stream_write(e, s2, dst, PLAIN)]
        return outs
    on(e, r'^keepass::decrypt_cbc\(', h)
    c.expected.add('decrypt')
