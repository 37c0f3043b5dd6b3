"""C10: Base64 encoding is standard, decoding inverts it."""
from llvc import terms as T, seqs as S, loops, models
from llvc.check import *
from llvc.state import C64, Z64
LEVEL = 'proof'
A = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
UNITS = ['/verif/harness/base64.cc']
POS = tuple(A.find(bytes([c])) & 0xff for c in range(256))     # 0xff: not in the alphabet
def enc64(b6): return T.tbl(tuple(A), T.zext(b6, 64), 8)
def pos(b): return T.tbl(POS, T.zext(b, 64), 8)
def val(b): return T.extract(pos(b), 5, 0)
def isalpha(b): return T.ne(pos(b), T.bv(255, 8))

def run_encode(c, h, lab):
    src = S.var('in_src', T.var('in_src_len', 64))
    def encoded(e, st, p):
        dst = models.str_get(e, st, p)
        n = src.len
        c.goal(st, T.eq(dst.len, T.mulc(T.udiv(T.addc(n, 2), C64(3)), 4)), lab + ': length is 4*ceil(n/3)')
        q = T.fresh('q', 64)
        base = T.mulc(q, 3)
        s2 = st.copy(); s2.assume(T.ult(base, n)); s2.assume(T.ule(q, n))
        b = [S.at(src, T.addc(base, k), s2) for k in range(3)]
        h1 = T.ult(T.addc(base, 1), n); h2 = T.ult(T.addc(base, 2), n)
        b1 = T.ite(h1, b[1], T.bv(0, 8)); b2 = T.ite(h2, b[2], T.bv(0, 8))
        w = [T.extract(b[0], 7, 2), T.concat_lo([T.extract(b1, 7, 4), T.extract(b[0], 1, 0)]),
             T.concat_lo([T.extract(b2, 7, 6), T.extract(b1, 3, 0)]), T.extract(b2, 5, 0)]
        pad = [None, None, h1, h2]
        for k in range(4):
            want = enc64(w[k])
            if pad[k] is not None: want = T.ite(pad[k], want, T.bv(ord('='), 8))
            c.goal_at(s2, dst, T.addc(T.mulc(q, 4), k), want, lab + ': character 4q+%d of every group is standard' % k)
    c.hook('encoded', encoded)
    c.eng.merge = False
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, lab + ': never throws')

def run_decode(c, h, lab):
    n = T.var('in_src_len', 64)
    src = S.var('in_src', n)
    x = S.at(src, S._j)
    nsp = T.not_(T.bor(T.eq(x, T.bv(32, 8)), T.band(T.uge(x, T.bv(9, 8)), T.ule(x, T.bv(13, 8)))))
    D = loops.filt(nsp, [x], n)          # the text without white space
    m = D.len
    fs = T.var('firststop', 64)          # ghost: first position outside the alphabet (or the length)
    def facts(st):
        st.assume(T.ule(fs, m)); st.assume(T.ule(m, n))
        st.add_forall(fs, isalpha(S.at(D, S._j)))
        st.assume(T.bor(T.eq(fs, m), T.not_(isalpha(S.at(D, fs)))))
    bad = T.bor(T.ne(T.extract(m, 1, 0), T.bv(0, 2)), T.band(T.ult(fs, m), T.ne(S.at(D, fs), T.bv(ord('='), 8))))
    def decoded(e, st, p):
        facts(st)
        dst = models.str_get(e, st, p)
        c.goal(st, T.not_(bad), lab + ': malformed text is never accepted')
        st = st.copy()
        r = T.extract(fs, 1, 0); g = T.udiv(fs, C64(4))
        st.assume(T.bor(T.eq(fs, m), T.ne(T.extract(fs, 1, 1), T.bv(0, 1))))   # padding only after two or three digits
        ln = T.add(T.mulc(g, 3), T.ite(T.eq(r, T.bv(0, 2)), Z64, T.ite(T.eq(r, T.bv(3, 2)), C64(2), C64(1))))
        c.goal(st, T.eq(dst.len, ln), lab + ': decoded length')
        q = T.fresh('q', 64)
        st.assume(T.ule(q, g))
        d = [val(S.at(D, T.addc(T.mulc(q, 4), k), st)) for k in range(4)]
        w = T.concat_lo(d[::-1])
        for k in range(3):
            i = T.addc(T.mulc(q, 3), k)
            s2 = st.copy(); s2.assume(T.ult(i, ln))
            c.goal_at(s2, dst, i, T.extract(w, 23 - 8 * k, 16 - 8 * k), lab + ': byte 3q+%d of every group' % k)
    c.hook('decoded', decoded)
    nthrow = 0
    c.eng.merge = False
    for o in c.call(h):
        if o[0] != 'throw': continue
        nthrow += 1
        facts(o[1])
        c.goal(o[1], bad, lab + ': only malformed text is rejected')
        t = c.eng.ti_name(o[2]) if False else None
        c.goal(o[1], T.TRUE if is_exc(c.eng, o, 'FormatError') else T.FALSE, lab + ': rejected with a format error')

def jobs(tier):
    return [Job('encode string', lambda c: run_encode(c, 'h_encode_string', 'encode(string range)'), UNITS, what='base64_encode over string iterators'),
            Job('encode wrapper', lambda c: run_encode(c, 'h_encode_wrapper', 'encode(string)'), UNITS, what='base64_encode(const std::string&)'),
            Job('encode vector', lambda c: run_encode(c, 'h_encode_vector', 'encode(bytes)'), UNITS, what='base64_encode over byte iterators'),
            Job('decode string', lambda c: run_decode(c, 'h_decode_string', 'decode'), UNITS, what='base64_decode into a string')]
REPLAY = dict(src='c10.cc', units=[], rule='exhaustive 1-byte inputs and most 2-byte inputs, boundary and random lengths to 20000, random white space, single-character damage at random positions; distinct by input text')
TRUSTED = []
ASSUMPTIONS = ['std::string and std::vector behave as their standard contracts (modelled as byte sequences)',
               'std::isspace in the classic locale accepts exactly space and 0x09-0x0d',
               'inputs are shorter than 2^56 bytes',
               'text whose padding starts after zero or one digit of a group is left unspecified (the statement does not cover it)']
