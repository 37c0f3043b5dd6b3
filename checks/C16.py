"""C16: a file object can be reused: no state leaks from one operation to the next."""
from llvc.check import *
from llvc import terms as T, seqs as S, models, loops, irparse
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
import dbexport, dbcommon
from dbcommon import *
LEVEL = 'proof'
XU = ['/verif/harness/kdbxfile.cc', 'io']
M = r'^std::unordered_map<.*>::'

def maps(c, K):
    """unordered_map as an abstract container that is either empty or holds whatever an earlier operation left.
    st.g[('map', object, offset)]: T.TRUE when empty"""
    e = c.eng
    key = lambda p: ('map', p.obj, p.off.val)
    def get(st, p): return st.g.get(key(p))
    def ctor(e, st, a, ins): st.g[key(a[0])] = T.TRUE; return [('ret', st, None)]
    def copy(e, st, a, ins):
        st.g[key(a[0])] = get(st, a[1])
        if '&&' in irparse.demangle(ins.x['callee'][1]): st.g[key(a[1])] = T.TRUE
        return [('ret', st, a[0])]
    def swap(e, st, a, ins):
        x, y = get(st, a[0]), get(st, a[1]); st.g[key(a[0])], st.g[key(a[1])] = y, x
        return [('ret', st, None)]
    def empty(e, st, a, ins):
        t = 'size' not in irparse.demangle(ins.x['callee'][1])[-14:]
        n = T.fresh('mapsize', 64)
        if get(st, a[0]) is T.TRUE: st.assume(T.eq(n, Z64))
        outs = []
        for s2, z in models.split(st, T.eq(n, Z64)):
            if z: s2.g[key(a[0])] = T.TRUE
            outs.append(('ret', s2, T.boolc(z) if t else n))
        return outs
    on(e, M + r'(empty|size)\(\) const', empty)
    def other(e, st, a, ins):
        f = [get(st, x) for x in a[:2] if isinstance(x, Ptr) and T.isc(x.off) and get(st, x) is not None]
        c.goal(st, T.boolc(bool(f) and f[0] is T.TRUE), 'nothing an earlier operation left in the file object is looked at')
        raise Unsupported('map operation ' + irparse.demangle(ins.x['callee'][1])[-60:])
    on(e, M + r'unordered_map\(\)', ctor); on(e, M + r'clear\(\)', ctor); on(e, M + r'~unordered_map', NOP)
    on(e, M + r'(unordered_map|operator=)\(std::unordered_map<.*(&&|const&)\)', copy); on(e, M + r'swap\(', swap)
    on(e, M, other)
    K['maps'] = lambda st: [k for k in K['pools']]
    def clean(st, what):
        for p, n in K['pools']: c.goal(st, T.boolc(get(st, p) is T.TRUE), what + 'no %s of an earlier operation' % n)
    def stale(st):
        for p, n in K['pools']: st.g[key(p)] = T.FALSE
    return clean, stale

def pools(c, K, stale):
    def h(e, st, b, i, g):
        K['pools'] = [(b, 'attachment'), (i, 'icon'), (g, 'group reference')]; stale(st)
    c.hook('pools', h)
    c.hook('fresh', lambda e, st, p: K.__setitem__('fresh', e.read_seq(st, p, 32)))

def run_import(c):
    e = c.eng; e.merge = False; K = {}
    clean, stale = maps(c, K); pools(c, K, stale)
    ifile(c)
    def pre(e, st, key, hh):
        K['hh'] = hh; st.assume(T.ult(FILE.len, C64(1 << 40)))
    c.hook('pre', pre)
    def dbctor(e, st, a, ins):
        fn = ins.x['callee'][1]
        outs = e.exec(st, e.mod.funcs[e.mod.aliases.get(fn, fn)], a)
        if 'ms' not in K and outs[0][0] == 'ret':
            e.hooks['layout'] = lambda e, st, *ps: K.__setitem__('ms', Ptr(a[0].obj, C64(ps[0].off.val)))
            e.call(outs[0][1].copy(), 'h_db_layout', [a[0]])
        return outs
    on(e, r'^keepass::Database::Database\(\)', dbctor)
    # the header: any fields with any contents (what they mean is the subject of C14)
    def field(e, st, a, ins):
        c.reach('header field')
        outs = []
        for s2, bad in models.split(st, T.fresh('cut', 0)):
            if bad: outs.append(e.throw(s2, e_ti(e, 'IoError')))
            else: outs.append(('ret', s2, T.fresh('field', 24)) if len(a) < 2 else (e.write_seq(s2, a[0], S.bytes_([T.fresh('field', 8) for _ in range(3)])), ('ret', s2, None))[1])
        return outs
    on(e, r'keepass::consume<keepass::KdbxHeaderField>', field)
    def gen(e, st, a, ins):
        n = T.fresh('len', 64); st.assume(T.ult(n, C64(65536)))
        outs = models.stream_write(e, st, a[0], S.var(T.fresh_name('fielddata'), n))
        return [('ret', o[1], models.Agg(list(a[:2]))) for o in outs]
    on(e, r'std::generate_n<std::ostreambuf_iterator<char', gen)
    fo = e.fs_open
    def fs_open(st, a, mode, d):
        K['src'] = a[0]; return fo(st, a, mode, d)
    e.fs_open = fs_open
    src = lambda st: models.Stream(e, st, K['src'])
    def shape(e, st):
        s = src(st); s['pos'] = T.var('lv_pos', 64); st.assume(T.ule(s['pos'], FILE.len))
        for k in ('eof', 'fail', 'bad'): s[k] = T.FALSE
        ms = S.var('lv_ms', T.var('lv_ms_len', 64)); st.assume(T.ult(ms.len, C64(65536)))
        models.vec_init(e, st, K['ms'], ms)
    inv = lambda e, st: [(T.band(T.ule(src(st)['pos'], FILE.len), src(st).good()), 'a position in the file')]
    e.loop_contracts.append(loops.LoopContract(r'keepass::consume<keepass::KdbxHeaderField>', inv, shape))
    e.asserts = False     # the length bookkeeping of the field buffer is C14's
    on(e, r'^(std::array<.*> )?keepass::Key::Transform\(', lambda e, st, a, ins: (e.write_seq(st, a[0], TK), [('ret', st, None)])[1])
    def cipher(e, st, a, ins): st.setattr(a[0].obj, 'cipher', (1, a[0].off)); return [('ret', st, None)]
    on(e, r'^keepass::(Aes|Twofish)Cipher::(Aes|Twofish)Cipher\(', cipher)
    on(e, r'^std::default_delete<keepass::Cipher<16.*> >::operator\(\)|^keepass::(Aes|Twofish)?Cipher(<16.*>)?::~', NOP)
    on(e, r'^keepass::(gzip|hashed)_istreambuf::|^keepass::RandomObfuscator::', NOP)
    def dec(e, st, a, ins):
        outs = []
        for s2, bad in models.split(st, BAD):
            if bad: outs.append(e.throw(s2, e_ti(e, 'IoError')))
            else: outs += [('ret', o[1], None) for o in models.stream_write(e, s2, a[1], PLAIN)]
        return outs
    on(e, r'^keepass::decrypt_cbc\(', dec)
    def parse(e, st, a, ins):
        c.reach('parse')
        clean(st, 'contents are parsed with ')
        c.goal(st, S.eq_goal(e.read_seq(st, K['hh'], 32), K['fresh'], st), 'contents are parsed with no header hash of an earlier operation')
        raise Dead()
    on(e, r'^keepass::KdbxFile::ParseXml\(', parse)
    c.expected |= {'parse', 'header field'}
    for o in c.call('h_kdbx_import'): pass

def run_export(c):
    K = {}
    clean, stale = maps(c, K); pools(c, K, stale)
    def wxml(e, st, a, ins): clean(st, 'contents are written with ')
    dbexport.kdbx_export(c, False, True, wxml)

def jobs(tier):
    return [Job('import', run_import, XU, what='KdbxFile::Import on an object in any state'), Job('export', run_export, XU, what='KdbxFile::Export on an object in any state')]
REPLAY = dict(src='c16.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='sequences of imports and exports on one object, failing ones included, against fresh objects; distinct by sequence')
TRUSTED = ['unordered_map clear, assignment and swap (libstdc++)', 'KdbFile has no members']
ASSUMPTIONS = ['no state is kept outside the file object (searched by the replay only)']
