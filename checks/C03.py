"""C03: the KDB group hierarchy is rebuilt exactly as the level list describes it."""
import itertools
from llvc.check import *
from llvc import terms as T, seqs as S, models, irparse
from llvc.state import C64, Z64, Ptr
import dbcommon, absmap
from dbcommon import *
from llvc.engine import Dead
from kdbrec import uuids
LEVEL = 'other'
EXPLANATION = 'KdbFile::Import executed symbolically over its compiled IR with ReadGroup and ReadEntry replaced by their contracts: for each listed number of groups and entries, every level 0 to 65535 and every group number; the obligations compare the tree built with the definition. Bounded in the number of groups and entries; everything else is unbounded.'
TU = ['/verif/harness/kdbfile.cc', 'group', 'entry', 'io', 'util']
def run(c, n, m, tree=True):
    """tree: the hierarchy is as described; otherwise (C18) records may leave out their number and level or be malformed, and only the kind of outcome matters"""
    e = c.eng; e.merge = False; e.max_paths = 4000
    dbcommon.quiet_hooks(c); uuids(c); absmap.Maps(c, r'std::unordered_map<unsigned int, .*>', 'u32', 8, 16, 16)
    def fs_open(st, a, mode, d):
        models.stream_init(e, st, a[0], content=FILE); st.wobj(a[0].obj).attrs[('s', a[0].off.val, 'open')] = T.TRUE
        return [('ret', st, None)]
    e.fs_open = fs_open
    IDS = [T.var('in_id%d' % i, 32) for i in range(n)]; GID = [T.var('in_gid%d' % i, 32) for i in range(m)]
    def pre(e, st, key):
        st.assume(T.ult(FILE.len, C64(1 << 40))); st.assume(T.ule(C64(124), FILE.len))
        st.assume(T.eq(W(st, 48, 4), T.bv(n, 32))); st.assume(T.eq(W(st, 52, 4), T.bv(m, 32)))
        st.assume(T.eq(W(st, 56, 32), models.sha256(e, st, PLAIN)))
        for i in range(n if tree else 0):
            for j in range(i): st.assume(T.ne(IDS[i], IDS[j]))
        st.g['lv'] = (); st.g['ne'] = 0
    c.hook('pre', pre)
    on(e, r'^(std::array<.*> )?keepass::Key::Transform\(', lambda e, st, a, ins: (e.write_seq(st, a[0], TK), [('ret', st, None)])[1])
    on(e, r'^keepass::(Aes|Twofish)Cipher::(Aes|Twofish)Cipher\(', NOP)
    on(e, r'^std::default_delete<keepass::Cipher<16.*> >::operator\(\)|^keepass::(Aes|Twofish)?Cipher(<16.*>)?::~', NOP)
    def dec(e, st, a, ins):
        st.g['dec'] = T.TRUE; st.assume(T.ult(PLAIN.len, C64(1 << 40))); return [('ret', o[1], None) for o in models.stream_write(e, st, a[1], PLAIN)]
    on(e, r'^keepass::decrypt_cbc\(', dec)
    def error(st): st.g['rec'] = T.TRUE; return e.throw(st, e_ti(e, 'FormatError'))
    def rgroup(e, st, a, ins):
        i = len(st.g['lv']); lv = T.var('in_level%d' % i, 16); outs = []
        c.goal(st, T.boolc(i < n), 'as many groups are read as the header says')
        if i >= n: raise Dead()
        if not tree:
            for s2, bad in models.split(st, T.fresh('badrec', 0)):
                if bad: outs.append(error(s2)); continue
                for s3, has in models.split(s2, T.fresh('hasid', 0)):
                    if has: e.rawstore(s3, a[3], 4, IDS[i])
                    for s4, v in itertools.chain.from_iterable(levels(s, lv, i) if h else [(s, False)] for s, h in models.split(s3, T.fresh('haslevel', 0))):
                        if v is not False: e.rawstore(s4, a[4], 2, lv if v is None else T.bv(v, 16))
                        s4.g['lv'] = s4.g['lv'] + (None,)
                        outs += [('ret', o[1], None) for o in e.call(s4, 'h_new_group', [a[0], T.bv(i + 1, 32)])]
            return outs
        for s2, v in levels(st, lv, i):
            s2.g['lv'] = s2.g['lv'] + (v,)
            e.rawstore(s2, a[3], 4, IDS[i]); e.rawstore(s2, a[4], 2, lv if v is None else T.bv(v, 16))
            outs += [('ret', o[1], None) for o in e.call(s2, 'h_new_group', [a[0], T.bv(i + 1, 32)])]
        return outs
    def levels(st, lv, i):
        """the levels a group may have after i others, and any higher level"""
        cur = st
        for k in range(i + 1):
            nxt = None
            for s2, hit in models.split(cur, T.eq(lv, T.bv(k, 16))):
                if hit: yield s2, k
                else: nxt = s2
            if nxt is None: return
            cur = nxt
        yield cur, None
    def rentry(e, st, a, ins):
        j = st.g['ne']; st.g['ne'] = j + 1
        c.goal(st, T.boolc(j < m and len(st.g['lv']) == n), 'entries are read after the groups, as many as the header says')
        if j >= m: raise Dead()
        if not tree:
            outs = []
            for s2, bad in models.split(st, T.fresh('badrec', 0)):
                if bad: outs.append(error(s2)); continue
                for s3, has in models.split(s2, T.fresh('hasid', 0)):
                    if has: e.rawstore(s3, a[3], 4, GID[j])
                    outs += [('ret', o[1], None) for o in e.call(s3, 'h_new_entry', [a[0], T.bv(j + 1, 32)])]
            return outs
        e.rawstore(st, a[3], 4, GID[j])
        return [('ret', o[1], None) for o in e.call(st, 'h_new_entry', [a[0], T.bv(j + 1, 32)])]
    on(e, r'^(std::shared_ptr<.*> )?keepass::KdbFile::ReadGroup\(', rgroup); on(e, r'^(std::shared_ptr<.*> )?keepass::KdbFile::ReadEntry\(', rentry)
    def parents(st):
        """the parent of each group by the definition, or None: the nearest preceding group one level shallower, where no level is skipped"""
        r = []; lv = st.g['lv']
        for i, v in enumerate(lv):
            if v is None or v > (lv[i - 1] + 1 if i else 0): return None
            r.append(0 if v == 0 else max(j for j in range(i) if lv[j] == v - 1) + 1)
        return r
    orphan = T.bor(*[T.band(*[T.ne(g, i) for i in IDS]) for g in GID])
    def imported(e, st, db):
        if not e.quiet: c.reach('imported')
        c.goal(st, T.boolc('rec' not in st.g), 'a malformed record is not ignored')
        if not tree: return
        ps = parents(st) if len(st.g['lv']) == n else None
        c.goal(st, T.boolc(ps is not None), 'a level list that skips a level is rejected')
        c.goal(st, T.not_(orphan), 'an entry whose group does not exist is rejected')
        if ps is None: raise Dead()
        cur = [(st, [])]
        for g in GID:
            nx = []
            for s, ow in cur:
                for k, i in enumerate(IDS):
                    s2 = s.copy(); s2.assume(T.eq(g, i))
                    if s2.feasible(): nx.append((s2, ow + [k + 1]))
            cur = nx
        enc = lambda l: C64(sum(x << 4 * i for i, x in enumerate(l)))
        for s, ow in cur: e.call(s, 'h_kdb_check', [db, enc(ps), C64(n), enc(ow), C64(m)]); c.reach('compared')
    c.hook('imported', imported, need=bool(n or not m))
    for o in c.call('h_kdb_import'):
        if o[0] != 'throw': continue
        st = o[1]
        if not tree: c.goal(st, T.boolc(is_exc(e, o, 'FormatError') or is_exc(e, o, 'IoError') or is_exc(e, o, 'PasswordError')), 'a malformed file is an error of the library'); c.reach('rejected'); continue
        if is_exc(e, o, 'FormatError'):
            if 'dec' not in st.g: continue      # the header is not that of a KDB file
            ps = parents(st) if len(st.g['lv']) == n else []
            c.goal(st, T.TRUE if ps is None else orphan, 'only a level list that skips a level or an entry without its group is rejected')
        else: c.goal(st, T.FALSE, 'a malformed hierarchy is a format error')
def jobs(tier):
    sz = [(0, 0), (0, 1), (1, 2), (2, 2), (3, 1), (4, 0)] + ([(3, 2), (4, 1), (5, 0)] if tier == 'thorough' else [])
    return [Job('%d groups, %d entries' % s, lambda c, s=s: run(c, *s), TU, what='KdbFile::Import: every level list and group numbering', bound='%d groups, %d entries' % s) for s in sz]
REPLAY = dict(flags=['-D_GLIBCXX_ASSERTIONS'], src='c03.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='all short level lists, random long ones, entries of every group and of none; distinct by content')
TRUSTED = ['ReadGroup and ReadEntry by their contracts (C02): the next group or entry of the file with its number and level', 'contract of std::unordered_map (checks/absmap.py)']
ASSUMPTIONS = ['group numbers are distinct (duplicates are rejected by the code; the property does not say)', 'bounded: up to 4 groups and 2 entries (5 and 2 in the thorough tier), all levels and numbers']
