"""C19: fixed-size values decoded from text never overrun their destination."""
from llvc import terms as T, seqs as S, models, loops
from llvc.check import *
from llvc.state import C64, Z64
LEVEL = 'proof'
UNITS = ['/verif/harness/iter.cc']
def run(c, h, N, lab):
    n = T.var('in_src_len', 64)
    src = S.var('in_src', n)
    old = [T.var('in_old_%d' % k, 8) for k in range(N)]
    def done(e, st, p, nn):
        c.goal(st, T.ule(n, C64(N)), lab + ': more bytes than fit are never accepted')
        d = e.read_seq(st, p, N)
        for k in range(N):
            c.goal(st, T.eq(S.at(d, C64(k), st), T.ite(T.ult(C64(k), n), S.at(src, C64(k)), old[k])), lab + ': every byte at its own position, the others untouched')
    def full(e, st, p, nn):
        c.goal(st, T.ult(C64(N), n), lab + ': only overlong data is refused')
        d = e.read_seq(st, p, N)
        for k in range(N):
            c.goal(st, T.eq(S.at(d, C64(k), st), S.at(src, C64(k))), lab + ': what was stored before the refusal is in place')
    c.hook('done', done); c.hook('full', full)
    c.eng.merge = False
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, lab + ': no exception other than out_of_range')
def decode(c, h, N, lab):
    c.hook('done', lambda e, st, p, nn: None); c.hook('full', lambda e, st, p, nn: None)
    c.eng.merge = False
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.TRUE if is_exc(c.eng, o, 'FormatError') else T.FALSE, lab + ': only format errors and out_of_range')
def jobs(tier):
    r = []
    for N in (16, 32):
        for nm, w in (('pre', 'assignment and prefix increment'), ('post', 'assignment through postfix increment'), ('move', 'assignment of temporaries'), ('copy', 'std::copy into the iterator')):
            r.append(Job('%s %d' % (nm, N), lambda c, nm=nm, N=N: run(c, 'h_%s%d' % (nm, N), N, '%s(%d)' % (nm, N)), UNITS, what='bounds_checked_iterator, %s, %d bytes' % (w, N)))
        if N == 16: r.append(Job('decode %d' % N, lambda c, N=N: decode(c, 'h_decode%d' % N, N, 'decode(%d)' % N), UNITS, what='base64_decode into bounds_checked(array<%d>): memory safety' % N))
    return r
REPLAY = dict(src='c19.cc', units=[u for u in ALLUNITS if u != 'kdbx'], rule='all lengths 0..N+40 of data for containers of 0..64 bytes, by assignment and prefix or postfix increment, copy and Base64 decoding; distinct by input')
TRUSTED = []
ASSUMPTIONS = ['base64_decode through the iterator: proved memory-safe for 16-byte destinations; for 32-byte ones only replayed (the iterator itself is proved for both)', 'the destination sizes used by the code (16 and 32 bytes)', 'inputs are shorter than 2^56 bytes']
