"""C22: key files are read exactly, anything else is rejected."""
import re
from llvc import terms as T, seqs as S, models, irparse, xmlmodel
from llvc.check import *
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/keyfile.cc']
FILE = S.var('in_file', T.var('in_file_len', 64))
OPEN = T.var('in_open', 0); XML = T.var('in_xmlok', 0)
BAD = T.var('in_b64bad', 0)
DEC = S.var('in_decoded', T.var('in_decoded_len', 64))
def hexval(c): return T.ite(T.uge(c, T.bv(97, 8)), T.addc(c, -87), T.ite(T.uge(c, T.bv(65, 8)), T.addc(c, -55), T.addc(c, -48)))
def isx(c):
    rng = lambda a, b: T.band(T.uge(c, T.bv(ord(a), 8)), T.ule(c, T.bv(ord(b), 8)))
    return T.bor(rng('0', '9'), rng('a', 'f'), rng('A', 'F'))

def run(c):
    e = c.eng; e.merge = False
    K = {}
    xmlmodel.install(e)
    def fs_open(st, a, mode, d):
        c.goal(st, T.boolc(mode == 'in'), 'the key file is only read')
        c.goal(st, S.eq_goal(models.str_get(e, st, a[1]), S.var('in_path', T.var('in_path_len', 64)), st), 'the file named is opened')
        st.assume(T.ult(FILE.len, C64(1 << 40)))
        models.stream_init(e, st, a[0], content=FILE)
        st.wobj(a[0].obj).attrs[('s', a[0].off.val, 'open')] = OPEN
        return [('ret', st, None)]
    e.fs_open = fs_open
    def xml_load(st, sp, root, a):
        s = models.Stream(e, st, sp)
        c.goal(st, T.band(s['open'], T.eq(s['pos'], Z64)), 'the whole file is parsed as XML')
        s['pos'] = FILE.len           # reads everything; the stream stays usable
        s2 = st.copy()
        xmlmodel.W(st, root, 'unk', 'in_doc')
        return [(st, XML)]
    e.xml_load = xml_load
    def b64(e, st, a, ins):
        src = models.str_get(e, st, a[1])
        if not e.quiet: c.reach('decoded')
        want = S.var('in_doc/KeyFile/Key/Data', T.var('in_doc/KeyFile/Key/Data_len', 64))
        c.goal(st, T.boolc(src == want), 'the key is read from KeyFile/Key/Data')
        outs = []
        for s2, bad in models.split(st, BAD):
            if bad: outs.append(e.throw(s2, e_ti(e, 'FormatError')))
            else:
                s2.assume(T.ult(DEC.len, C64(1 << 40)))
                models.str_init(e, s2, a[0], DEC); outs += [('ret', s2, None)]
        return outs
    e.overrides.append((re.compile(r'^(std::string )?keepass::base64_decode\(std::string const&\)'), b64))
    c.expected.add('decoded')
    def pre(e, st, pw, kf, hp, hk): K.update(pw=pw, kf=kf, hp=hp, hk=hk)
    c.hook('pre', pre)
    IN = [T.var('in_kfkey_%d' % k, 8) for k in range(32)]; INP = [T.var('in_pwkey_%d' % k, 8) for k in range(32)]
    def key(st, p): return e.read_seq(st, K[p], 32)
    def flag(st, p): return T.ne(e.load(st, K[p], irparse.I8), T.bv(0, 8))
    def same(st, p, v, l):
        s = key(st, p)
        c.goal(st, T.band(*[T.eq(S.at(s, C64(k), st), v[k]) for k in range(32)]), l)
    HX = [S.at(FILE, C64(k)) for k in range(64)]
    hexok = T.band(T.eq(FILE.len, C64(64)), *[isx(x) for x in HX])
    def frame(st):
        same(st, 'pw', INP, 'the password part is untouched')
        c.goal(st, T.eq(flag(st, 'hp'), T.var('in_haspw', 0)), 'the password part stays present or absent')
    def done(e, st):
        c.goal(st, OPEN, 'a file that does not open is reported')
        frame(st)
        c.goal(st, flag(st, 'hk'), 'the key file is taken into account')
        for s2, x in models.split(st, XML):
            s = key(s2, 'kf')
            if x:
                c.goal(s2, T.band(T.not_(BAD), T.eq(DEC.len, C64(32))), 'only a key of 32 bytes is accepted')
                if T.isc(DEC.len) or s2.decide(T.eq(DEC.len, C64(32))):
                    for k in range(32): c.goal(s2, T.eq(S.at(s, C64(k), s2), S.at(DEC, C64(k), s2)), 'byte %d of the XML key' % k)
            else:
                c.goal(s2, hexok, 'only exactly 64 hexadecimal digits are accepted')
                for k in range(32):
                    w = T.concat_lo([T.trunc(hexval(HX[2 * k + 1]), 4), T.trunc(hexval(HX[2 * k]), 4)])
                    c.goal(s2, T.eq(S.at(s, C64(k), s2), w), 'byte %d of the hexadecimal key' % k)
    c.hook('done', done)
    n = 0
    for o in c.call('h_keyfile'):
        if o[0] != 'throw': continue
        n += 1
        st = o[1]
        if is_exc(e, o, 'FileNotFoundError'): c.goal(st, T.not_(OPEN), 'only a missing file is reported as not found')
        else:
            c.goal(st, T.boolc(is_exc(e, o, 'FormatError')), 'a bad key file is reported as a format error')
            ok = T.ite(XML, T.band(T.not_(BAD), T.eq(DEC.len, C64(32))), hexok)
            c.goal(st, T.band(OPEN, T.not_(ok)), 'only a bad key file is rejected')
        frame(st)
        same(st, 'kf', IN, 'a rejected file leaves the key unchanged')
        c.goal(st, T.eq(flag(st, 'hk'), T.var('in_haskf', 0)), 'a rejected file leaves the key unchanged (present or not)')
    if n < 3: raise Unsupported('vacuous: no rejections')

def jobs(tier): return [Job('key file', run, UNITS, what='Key::SetKeyFile for every file content, XML verdict and decoder result')]
REPLAY = dict(src='c22.cc', units=['key', 'cipher', 'pugixml', 'util', 'io'], rule='XML key files of every decoded length 0..80 with white space, missing elements and damage; plain files of lengths 0..130 with each byte value at each position; missing files; distinct by file content')
TRUSTED = ['pugixml (tree contract, llvc/xmlmodel.py)', 'base64_decode by its contract (proved by C10)']
ASSUMPTIONS = ['pugixml decides whether a file is XML; a failed attempt leaves the file stream usable at its end', 'no loop runs 2^64 iterations', 'files are shorter than 2^40 bytes']
