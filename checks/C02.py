"""C02: saving and reopening a KDB database preserves its groups and entries."""
import re, itertools
from llvc.check import *
from llvc import terms as T, seqs as S, models, irparse, loops, state
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
import dbexport, dbcommon, absmap
from dbcommon import on, NOP
from kdbrec import fields, uuids
LEVEL = 'proof'
RU = ['/verif/harness/kdbrec.cc', 'group', 'entry', 'io', 'util']
X = S.var('in_text', T.var('in_text_len', 64)); Y = S.var('in_rest', T.var('in_rest_len', 64))
def run_string(c):
    e = c.eng; e.merge = False
    content = []
    def text(e, st, p):
        for v in (X, Y): st.assume(T.ult(v.len, C64(1 << 40)))
        models.stream_init(e, st, p, content=S.concat([X, S.const(b'\0'), Y], st))
    c.hook('text', text)
    def string(e, st, p):
        r = models.str_get(e, st, p)
        st.assume(T.implies(T.ult(r.len, X.len), T.ne(S.at(X, r.len, st), T.bv(0, 8))))   # the text holds no NUL: instance at the result's length
        c.goal(st, S.eq_goal(r, X, st), 'a string is read up to its terminator')
    c.hook('string', string); c.expected.add('string')
    for o in c.call('h_string'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'a terminated string is always read')

TIMES = ('ctime', 'mtime', 'atime', 'etime')
def kdbtime(c):
    """KdbTime by contract (C13): an unpacked packed time is the time"""
    e = c.eng
    uuids(c)
    PK = lambda t: [T.uf('PACK%d' % k, (t,), 8) for k in range(5)]
    UN = lambda b: T.uf('UNPACK', tuple(b), 64)
    def ctor(e, st, a, ins):
        st.assume(T.eq(UN(PK(a[1])), a[1]))
        e.write_seq(st, a[0], S.bytes_(PK(a[1]))); c.reach('packed')
        return [('ret', st, None)]
    on(e, r'KdbTime::KdbTime\(long\)', ctor)
    def totime(e, st, a, ins):
        b = e.read_seq(st, a[0], 5); c.reach('unpacked')
        return [('ret', st, UN([S.at(b, C64(k), st) for k in range(5)]))]
    on(e, r'KdbTime::ToTime\(\)', totime)
    c.expected |= {'packed', 'unpacked'}
def strings(c, names):
    """consume<std::string> by contract (job string): the text up to its terminator"""
    e = c.eng
    for n in names: e.nonul.add('in_' + n)
    def h(e, st, a, ins):
        s = models.Stream(e, st, a[1]); r = S.slice_(s['content'], s['pos'], T.sub(s['content'].len, s['pos']), st)
        parts = list(r.a) if r.k == 'cat' else [r]
        txt = []
        for q in parts:
            if q.k == 'v' and q.a in e.nonul: txt.append(q)
            elif q.k == 'sl' and q.a[0].k == 'v' and q.a[0].a in e.nonul: txt.append(q)
            elif q.k == 'b' and st.decide(T.eq(q.a[0], T.bv(0, 8))) is True: break
            else: raise Unsupported('text of unknown form %s' % (q,))
        else: raise Unsupported('text without terminator')
        s['pos'] = s['content'].len; s['eof'] = T.TRUE
        models.str_init(e, st, a[0], S.concat(txt, st)); c.reach('string read')
        return [('ret', st, None)]
    on(e, r'^std::.*string.* keepass::consume<std::.*string.*>|^keepass::consume<std::.*string', h)
def sv(n): return S.var('in_' + n, T.var('in_%s_len' % n, 64))
def small(c, names):
    def made(e, st):
        for n in names: st.assume(T.ult(sv(n).len, C64((1 << 32) - 2)))
    c.hook('made', made)

def run_group(c):
    e = c.eng; e.merge = False
    state.LITE = True; kdbtime(c); fields(c); strings(c, ['name']); small(c, ['name'])
    def group(e, st, name, icon, flags, ct, mt, at, et, id_, level, kids, src):
        if not e.quiet: c.reach('group')
        c.goal(st, S.eq_goal(models.str_get(e, st, name), sv('name'), st), 'the group name is kept')
        for v, n, w in ((icon, 'icon', 32), (flags, 'flags', 16), (id_, 'id', 32), (level, 'level', 16)):
            c.goal(st, T.eq(T.extract(v, w - 1, 0) if v.w > w else v, T.var('in_' + n, w)), 'the group %s is kept' % n)
        for v, n in zip((ct, mt, at, et), TIMES): c.goal(st, T.eq(v, T.var('in_' + n, 64)), 'the group %s is kept' % n)
        c.goal(st, T.eq(kids, Z64), 'a group record has no contents')
        s = models.Stream(e, st, src)
        c.goal(st, T.band(s.good(), T.eq(s['pos'], s['content'].len)), 'the whole group record is read and nothing more')
    c.hook('group', group); c.expected.add('group')
    c.hook('written', lambda e, st, p: None)
    for o in c.call('h_group'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'a group is always read back')
STR = ('title', 'url', 'username', 'password', 'notes')
def run_entry(c):
    e = c.eng; e.merge = False
    state.LITE = True; kdbtime(c); fields(c); strings(c, STR + ('aname',)); small(c, STR + ('aname', 'adata'))
    AT = T.var('in_attached', 0); N, D = sv('aname'), sv('adata')
    has = T.band(AT, T.bor(T.ne(N.len, Z64), T.ne(D.len, Z64)))
    def entry(e, st, uuid, icon, title, url, username, password, notes, ct, mt, at, et, id_, n, src):
        if not e.quiet: c.reach('entry')
        st.assume(T.implies(AT, has))
        c.goal(st, S.eq_goal(e.read_seq(st, uuid, 16), S.bytes_([T.var('in_uuid_%d' % k, 8) for k in range(16)]), st), 'the entry identifier is kept')
        for p, k in zip((title, url, username, password, notes), STR): c.goal(st, S.eq_goal(models.str_get(e, st, p), sv(k), st), 'the entry %s is kept' % k)
        for v, k in ((icon, 'icon'), (id_, 'id')): c.goal(st, T.eq(T.extract(v, 31, 0) if v.w > 32 else v, T.var('in_' + k, 32)), 'the entry %s is kept' % k)
        for v, k in zip((ct, mt, at, et), TIMES): c.goal(st, T.eq(v, T.var('in_' + k, 64)), 'the entry %s is kept' % k)
        c.goal(st, T.eq(n, T.ite(has, C64(1), Z64)), 'the entry has its attachment')
        s = models.Stream(e, st, src)
        c.goal(st, T.band(s.good(), T.eq(s['pos'], s['content'].len)), 'the whole entry record is read and nothing more')
    c.hook('entry', entry)
    def att(e, st, name, hasbin, data):
        if not e.quiet: c.reach('attachment')
        c.goal(st, S.eq_goal(models.str_get(e, st, name), N, st), 'the attachment name is kept')
        c.goal(st, S.eq_goal(models.str_get(e, st, data), D, st), 'the attachment data is kept')
    c.hook('attachment', att)
    c.hook('written', lambda e, st, p: None)
    c.expected |= {'entry', 'attachment'}
    for o in c.call('h_entry'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'an entry is always read back')

# ---- the whole file, for trees of bounded size: records by contract (one token each), cryptography by contract
TU = ['/verif/harness/kdbfile.cc', 'group', 'entry', 'io', 'util']
def token(kind, k, *nums): return [T.bv(x, 8) for x in (kind, k)] + [y for n, w in nums for y in dbexport.tle(n, w)]
def run_tree(c, shapes):
    e = c.eng; e.merge = False; K = {}
    dbcommon.quiet_hooks(c); uuids(c); absmap.Maps(c, r'std::unordered_map<unsigned int, .*>', 'u32', 8, 16, 16)
    def fs_open(st, a, mode, d):
        if mode == 'out': models.stream_init(e, st, a[0], kind='file'); K['dst'] = a[0]
        else: models.stream_init(e, st, a[0], content=st.g['file'])
        st.wobj(a[0].obj).attrs[('s', a[0].off.val, 'open')] = T.TRUE
        return [('ret', st, None)]
    e.fs_open = fs_open
    def pk(st, p, n): return models.pack(e.read_seq(st, p, n), n, st)
    def transform(e, st, a, ins):
        t = (pk(st, a[2], 32), a[3], a[4])
        e.write_seq(st, a[0], S.bytes_([T.uf('TK%d' % k, t, 8) for k in range(32)])); return [('ret', st, None)]
    on(e, r'^(std::array<.*> )?keepass::Key::Transform\(', transform)
    for kind in ('Aes', 'Twofish'):
        def ctor(e, st, a, ins, kind=kind): st.setattr(a[0].obj, 'cipher', (kind, pk(st, a[1], 32), pk(st, a[2], 16))); return [('ret', st, None)]
        on(e, r'^keepass::%sCipher::%sCipher\(.*, .*16.*\)' % (kind, kind), ctor)
    on(e, r'^std::default_delete<keepass::Cipher<16.*> >::operator\(\)|^keepass::(Aes|Twofish)?Cipher(<16.*>)?::~', NOP)
    def rest(st, p): s = models.Stream(e, st, p); return S.slice_(s['content'], s['pos'], T.sub(s['content'].len, s['pos']), st)
    def enc(e, st, a, ins):
        st.g['enc'] = (st.attr(a[2].obj, 'cipher'), rest(st, a[0])); st.assume(T.ult(dbexport.ENC.len, C64(1 << 40)))
        return models.stream_write(e, st, a[1], dbexport.ENC)
    def dec(e, st, a, ins):
        (k1, key1, iv1), (k2, key2, iv2) = st.g['enc'][0], st.attr(a[2].obj, 'cipher')
        c.goal(st, T.boolc(k1 == k2), 'the file is read with the cipher it was written with')
        c.goal(st, T.eq(key1, key2), 'the file is read with the content key it was written with'); c.goal(st, T.eq(iv1, iv2), 'the file is read with the initialization vector it was written with')
        c.goal(st, S.eq_goal(rest(st, a[0]), dbexport.ENC, st), 'all of the encrypted contents and nothing else is decrypted')
        return [('ret', o[1], None) for o in models.stream_write(e, st, a[1], st.g['enc'][1])]
    on(e, r'^keepass::encrypt_cbc\(', enc); on(e, r'^keepass::decrypt_cbc\(', dec)
    def icon(st, p, what):      # the number of a group or entry: the value of its icon field
        g = 'h_icon_' + what
        return e.call(st, g, [p])[0][2].val
    def wgroup(e, st, a, ins):
        p = e.load(st, a[2], irparse.PTR); return [('ret', o[1], None) for o in models.stream_write(e, st, a[1], S.bytes_(token(1, icon(st, p, 'group'), (a[3], 4), (a[4], 2))))]
    def wentry(e, st, a, ins):
        p = e.load(st, a[2], irparse.PTR); return [('ret', o[1], None) for o in models.stream_write(e, st, a[1], S.bytes_(token(2, icon(st, p, 'entry'), (a[3], 4))))]
    on(e, r'^keepass::KdbFile::WriteGroup\(', wgroup); on(e, r'^keepass::KdbFile::WriteEntry\(', wentry)
    def take(st, p, kind, n):
        s = models.Stream(e, st, p); b = [st.unique(S.at(s['content'], T.addc(s['pos'], k), st)) for k in range(n)]
        if not c.goal(st, T.boolc(T.isc(b[0]) and T.isc(b[1]) and b[0].val == kind), 'records are read in the order they were written'): raise Dead()
        s['pos'] = T.addc(s['pos'], n); return b
    def rgroup(e, st, a, ins):
        b = take(st, a[2], 1, 8); e.rawstore(st, a[3], 4, T.concat_lo(b[2:6])); e.rawstore(st, a[4], 2, T.concat_lo(b[6:8]))
        return [('ret', o[1], None) for o in e.call(st, 'h_new_group', [a[0], T.bv(b[1].val, 32)])]
    def rentry(e, st, a, ins):
        b = take(st, a[2], 2, 6); e.rawstore(st, a[3], 4, T.concat_lo(b[2:6]))
        return [('ret', o[1], None) for o in e.call(st, 'h_new_entry', [a[0], T.bv(b[1].val, 32)])]
    on(e, r'^(std::shared_ptr<.*> )?keepass::KdbFile::ReadGroup\(', rgroup); on(e, r'^(std::shared_ptr<.*> )?keepass::KdbFile::ReadEntry\(', rentry)
    c.hook('pre', lambda e, st, key: None)
    def exported(e, st): st.g['file'] = models.Stream(e, st, K['dst'])['out']
    c.hook('exported', exported)
    def imported(e, st, ms, n, iv, ts, rounds, cipher):
        D = dbexport
        c.goal(st, T.eq(n, C64(16)), 'the master seed is kept'); c.goal(st, S.eq_goal(e.read_seq(st, ms, 16), S.bytes_(D.SEED), st), 'the master seed is kept')
        c.goal(st, S.eq_goal(e.read_seq(st, iv, 16), S.bytes_(D.IV), st), 'the initialization vector is kept'); c.goal(st, S.eq_goal(e.read_seq(st, ts, 32), S.bytes_(D.TS), st), 'the transform seed is kept')
        c.goal(st, T.eq(rounds, D.ROUNDS), 'the round count is kept'); c.goal(st, T.eq(cipher, T.ite(D.TWOFISH, C64(1), C64(0))), 'the cipher is kept')
    c.hook('imported', imported)
    c.hook('compared', lambda e, st: c.reach('compared')); c.expected.add('compared')
    for sh in shapes:
        for o in c.call('h_kdb_rt', [C64(x) for x in sh]):
            if o[0] == 'throw': c.goal(o[1], T.band(T.boolc(is_exc(e, o, 'InternalError')), T.ne(T.extract(dbexport.ROUNDS, 63, 32), T.bv(0, 32))), 'a representable database is always read back')
def trees(n):
    """parent lists of all ordered trees with n groups below the root, created in file order"""
    def go(ps, path):
        if len(ps) == n: yield ps; return
        for d in range(len(path)): yield from go(ps + [path[d]], path[:d + 1] + [len(ps) + 1])
    yield from go([], [0])
def shapes(n, m):
    r = []
    for ps in trees(n):
        pv = sum(x << 4 * i for i, x in enumerate(ps))
        for k in range(m + 1):
            if k and not n: continue
            for ow in itertools.product(range(1, n + 1), repeat=k): r.append((pv, n, sum(x << 4 * i for i, x in enumerate(ow)), k))
    return r
def jobs(tier): 
    return [Job('string', run_string, RU, what='consume<std::string>'), Job('group', run_group, RU, what='KdbFile::WriteGroup and ReadGroup, all fields'), Job('entry', run_entry, RU, what='KdbFile::WriteEntry and ReadEntry, all fields, with and without an attachment')] + [Job('tree %d' % n, lambda c, n=n: run_tree(c, shapes(n, 2 if n < 4 else 1)), TU, what='KdbFile::Export then Import, all trees of %d groups' % n, bound='trees of %d groups with up to %d entries' % (n, 2 if n < 4 else 1)) for n in range(6 if tier == 'thorough' else 5)]
REPLAY = dict(src='c02.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='random KDB databases exported and imported, compared field by field, and decoded by an independent reader; distinct by content')
TRUSTED = ['KdbTime round trip by its contract (proved by C13)', 'Key::Transform, ciphers, encrypt_cbc and decrypt_cbc by their contracts (C06, C07, C09): decrypting with the same cipher, key and vector returns the contents', 'contract of std::unordered_map (checks/absmap.py)', 'SHA-256 is an uninterpreted function of the byte string',
           'in the tree jobs WriteGroup/ReadGroup and WriteEntry/ReadEntry are used by contract (proved by the group and entry jobs): reading takes exactly the record that was written']
ASSUMPTIONS = ['the database can be represented in KDB: strings without NUL and shorter than 2^32-2 bytes, times that C13 covers, at most one attachment per entry with a name or contents, entries only in groups below the root, 16-byte master seed, round count below 2^32', 'no loop runs 2^64 iterations', 'the tree jobs are bounded (number of groups and entries); the record jobs are not']
