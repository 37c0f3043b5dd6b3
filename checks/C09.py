"""C09: the master key is derived exactly as specified."""
from llvc import terms as T, seqs as S, models, loops, irparse
from llvc.check import *
from llvc.state import C64, Z64
LEVEL = 'proof'
UNITS = ['/verif/harness/masterkey.cc', 'cipher']
def arr(n, k=32): return T.concat_lo([T.var('in_%s_%d' % (n, i), 8) for i in range(k)])
PW, KF, SEED = arr('pwkey'), arr('kfkey'), arr('seed')
def b(n): return T.var('in_' + n, 8)
def true(v): return T.ne(v, T.bv(0, v.w)) if v.w else v

def run_set(c, h, fresh):
    src = S.var('in_pw', T.var('in_pw_len', 64))
    def done(e, st, pk, kk, hp, hk):
        got = e.read_seq(st, pk, 32)
        want = S.of_term(models.sha256(e, st, src))
        for k in range(32): c.goal(st, T.eq(S.at(got, C64(k), st), S.at(want, C64(k), st)), 'password component is the SHA-256 of the whole password')
        c.goal(st, true(hp), 'password component is set')
        kf = models.pack(e.read_seq(st, kk, 32), 32, st)
        c.goal(st, T.eq(kf, T.bv(0, 256) if fresh else KF), 'key file component unchanged')
        c.goal(st, T.not_(true(hk)) if fresh else T.eq(true(hk), flag(c, 'haskf')), 'key file component stays as set or not set')
    c.hook('set', done)
    for o in c.call(h):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'setting a password never throws')
def flag(c, n):
    return T.var("in_" + n, 0)
def run_empty(c):
    def done(e, st, pk, kk, hp, hk):
        c.goal(st, T.not_(true(hp)), 'a new key has no password'); c.goal(st, T.not_(true(hk)), 'a new key has no key file')
        c.goal(st, T.eq(models.pack(e.read_seq(st, kk, 32), 32, st), T.bv(0, 256)), 'a new key is zero'); c.goal(st, T.eq(models.pack(e.read_seq(st, pk, 32), 32, st), T.bv(0, 256)), 'a new key is zero')
    c.hook('empty', done)
    c.call('h_empty')

def run_transform(c, mode, pw, kf):
    def contract(e, st, args, ins):
        n = [f for f in e.mod.funcs if 'contract_ecb' in f][0]
        return e.call(st, n, args)
    c.eng.overrides.append((__import__('re').compile(r'^keepass::encrypt_ecb\(std::array<unsigned char, 32'), contract))
    parts = [x for x, on in ((PW, pw), (KF, kf)) if on]
    cat = T.concat_lo(parts) if parts else None
    def done(e, st, p):
        if mode or len(parts) == 2: init = S.of_term(models.sha256(e, st, S.of_term(cat) if parts else S.EMPTY))
        elif parts: init = S.of_term(parts[0])
        else: init = S.of_term(KF)
        init = models.pack(init, 32, st)
        E = lambda t: models.block_uf('AES_E', SEED, t)
        n = T.var('in_rounds', 64)
        # block after i + 1 rounds = AES(block after i rounds), each half on its own
        half = lambda t: loops.rec(t, E(loops.rec_ph(128)), n)
        fin = T.concat_lo([half(T.extract(init, 127, 0)), half(T.extract(init, 255, 128))])
        want = models.sha256(e, st, S.of_term(fin))
        got = models.pack(e.read_seq(st, p, 32), 32, st)
        for k in range(0, 256, 64): c.goal(st, T.eq(T.extract(got, k + 63, k), T.extract(want, k + 63, k)), 'transformed key: SHA-256 of the composite key after all AES rounds')
    c.hook('transformed', done)
    for n, on in (('haspw', pw), ('haskf', kf)): c.assume(flag(c, n) if on else T.not_(flag(c, n)))
    for o in c.call('h_transform', [T.bv(mode, 8)]):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'transforming never throws')

def jobs(tier):
    return [Job('set password', lambda c: run_set(c, 'h_setpw', False), UNITS, what='Key::SetPassword from any key state, any password'),
            Job('key from password', lambda c: run_set(c, 'h_ctor', True), UNITS, what='Key::Key(password)'),
            Job('empty key', run_empty, UNITS, what='Key::Key()')] + [
            Job('transform %s%s%s' % ('hash all' if m else 'hash composite', ', password' * p, ', key file' * k), lambda c, m=m, p=p, k=k: run_transform(c, m, p, k), UNITS, what='Key::Transform and CompositeKey::Resolve, any seed and 64-bit round count')
            for m in (0, 1) for p in (0, 1) for k in (0, 1)]
REPLAY = dict(src='c09.cc', units=['cipher', 'key', 'pugixml'], rule='passwords and key files (XML and hexadecimal) of boundary sizes, set in different orders, round counts 0 to 600001, both resolution modes, against an OpenSSL reference; distinct by components, order, seed and rounds')
TRUSTED = ['contract of encrypt_ecb on 32-byte arrays: each 16-byte block through Cipher::Encrypt on its own (proved by check C06)']
ASSUMPTIONS = ['SHA-256 and AES-256 (OpenSSL) are functions of their inputs (uninterpreted)', 'no loop runs 2^64 iterations']
