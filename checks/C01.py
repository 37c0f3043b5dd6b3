"""C01: saving and reopening a KDBX database preserves everything in it."""
from llvc.check import *
from llvc import terms as T, seqs as S, models, irparse, xmlmodel, state
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
from dbcommon import on, NOP
from kdbrec import uuids, body
from xmlrec import Xml
LEVEL = 'proof'
XU = ['/verif/harness/xmlrec.cc', 'entry', 'group', 'metadata', 'io', 'util']
def sv(n): return S.var('in_' + n, T.var('in_%s_len' % n, 64))
def same(c):
    e = c.eng
    def string(e, st, a, b, l): c.goal(st, S.eq_goal(models.str_get(e, st, b), models.str_get(e, st, a), st), models.cstr_const(e, st, l))
    def vec(e, st, a, b, l): c.goal(st, S.eq_goal(models.vec_get(e, st, b), models.vec_get(e, st, a), st), models.cstr_const(e, st, l))
    def by(e, st, a, b, n, l): c.goal(st, S.eq_goal(e.read_seq(st, b, n.val), e.read_seq(st, a, n.val), st), models.cstr_const(e, st, l))
    c.hook('same string', string, need=False); c.hook('same vector', vec, need=False); c.hook('same bytes', by, need=False)
def texts(c, names, data=()):
    """texts hold no NUL (they are XML texts); data may"""
    e = c.eng
    for n in names: e.nonul.add('in_' + n)
    def made(e, st):
        for n in tuple(names) + tuple(data): st.assume(T.ult(sv(n).len, C64(1 << 32)))
        st.g['opos'] = T.var('in_opos', 64); st.g['depth'] = ()
        for n in ('field0', 'field1'):
            if n in names:
                for k in (b'Title', b'URL', b'UserName', b'Password', b'Notes'): st.assume(T.not_(S.eq_cond(sv(n), S.const(k), st)))
    c.hook('made', made)
    c.hook('written', lambda e, st: st.g.__setitem__('opos', T.var('in_opos', 64)))
    c.hook('read', lambda e, st: c.reach('read')); c.hook('compared', lambda e, st: c.reach('compared'))
    c.expected |= {'read', 'compared'}
def nested(c, kind, writer, reader, wnode, rnode, number, new):
    """the recursive calls of the writer and the reader by contract: the reader returns what was written at the node"""
    e = c.eng
    def w(e, st, a, ins):
        d = st.g['depth']
        if (kind, 'w') not in d:
            st.g['depth'] = d + ((kind, 'w'),); return e.exec(st, body(e, ins.x['callee'][1]), a)
        p = e.load(st, a[3], irparse.PTR); k = e.call(st, number, [p])[0][2]
        xmlmodel.W(st, xmlmodel.root(e, st, a[1]), 'text', (kind, st.unique(k))); return [('ret', st, None)]
    def r(e, st, a, ins):
        d = st.g['depth']
        if (kind, 'r') not in d:
            st.g['depth'] = d + ((kind, 'r'),); return e.exec(st, body(e, ins.x['callee'][1]), a)
        t = xmlmodel.A(st, xmlmodel.root(e, st, a[2]), 'text')
        if not c.goal(st, T.boolc(t is not None and t[0] == kind), 'what is read as %s was written as one' % kind): raise Dead()
        return [('ret', o[1], None) for o in e.call(st, new, [a[0], t[1]])]
    on(e, writer, w); on(e, reader, r)
STR = ('title', 'url', 'user', 'pass', 'notes')
def run_entry(c, what, prot):
    e = c.eng; e.merge = False; state.LITE = True; e.max_paths = 100
    uuids(c); Xml(c); same(c)
    pro = ['value0', 'value1'] + list(STR)
    texts(c, ['fg', 'bg', 'override', 'tags', 'seq', 'win0', 'win1', 'key0', 'key1', 'field0', 'field1', 'aname0', 'aname1'] + pro, ['data0', 'data1'])
    nested(c, 'entry', r'^keepass::KdbxFile::WriteEntry\(', r'^(std::shared_ptr<.*> )?keepass::KdbxFile::ParseEntry\(', 1, 2, 'h_icon_entry', 'h_new_entry')
    for i, n in enumerate(STR if prot is not None else ()): c.assume(T.var('in_%s_p' % n, 0) if prot >> i & 1 else T.not_(T.var('in_%s_p' % n, 0)))
    for o in c.call('h_entry', [C64(what)]):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'an entry is always read back')
def entries(c):
    """every entry of a group by contract: the reader returns what was written at the node, and reports its identifier"""
    e = c.eng
    c.hook('entry uuid', lambda e, st, p: st.g.__setitem__('euuid', e.read_seq(st, p, 16)), need=False)
    def w(e, st, a, ins):
        p = e.load(st, a[3], irparse.PTR); _, st, k = e.call(st, 'h_icon_entry', [p])[0]; _, st, _ = e.call(st, 'h_entry_uuid', [p])[0]
        xmlmodel.W(st, xmlmodel.root(e, st, a[1]), 'text', ('entry', st.unique(k), st.g['euuid'])); return [('ret', st, None)]
    def r(e, st, a, ins):
        t = xmlmodel.A(st, xmlmodel.root(e, st, a[2]), 'text')
        if not c.goal(st, T.boolc(t is not None and t[0] == 'entry'), 'what is read as entry was written as one'): raise Dead()
        e.write_seq(st, a[3], t[2])
        return [('ret', p[1], None) for o in e.call(st, 'h_new_entry', [a[0], t[1]]) for p in e.call(o[1], 'h_set_entry_uuid', [a[0], a[3]])]
    on(e, r'^keepass::KdbxFile::WriteEntry\(', w); on(e, r'^(std::shared_ptr<.*> )?keepass::KdbxFile::ParseEntry\(', r)
def ids(c, names, n=16):
    """pairwise distinct identifiers"""
    v = [[T.var('in_%s_%d' % (x, k), 8) for k in range(n)] for x in names]
    for i in range(len(v)):
        for j in range(i): c.assume(T.not_(T.band(*[T.eq(x, y) for x, y in zip(v[i], v[j])])))
def run_group(c, what):
    e = c.eng; e.merge = False; state.LITE = True; e.max_paths = 100
    uuids(c); Xml(c); same(c); texts(c, ['name', 'notes', 'seq']); entries(c); ids(c, ['euuid0', 'euuid1'])
    for n in ('euuid0', 'euuid1'): c.assume(T.bor(*[T.ne(T.var('in_%s_%d' % (n, k), 8), T.bv(0, 8)) for k in range(16)]))
    nested(c, 'group', r'^keepass::KdbxFile::WriteGroup\(', r'^(std::shared_ptr<.*> )?keepass::KdbxFile::ParseGroup\(', 1, 2, 'h_icon_group', 'h_new_group')
    for o in c.call('h_group', [C64(what)]):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'a group is always read back')
def run_meta(c, what):
    e = c.eng; e.merge = False; state.LITE = True; e.max_paths = 100
    uuids(c); x = Xml(c); same(c)
    if what & 64: x.gzip()
    texts(c, ['generator', 'dbname', 'desc', 'defuser', 'color', 'ckey0', 'ckey1', 'cval0', 'cval1'], ['data0', 'data1', 'icon0', 'icon1']); ids(c, ['icon_id0', 'icon_id1'])
    # an icon has an image and a custom field of the metadata has a name
    for n in ('icon0', 'icon1', 'ckey0', 'ckey1'): c.assume(T.ne(T.var('in_%s_len' % n, 64), Z64))
    if what & 64: [c.assume(T.not_(T.var('in_data%d_p' % k, 0))) for k in (0, 1)]
    for o in c.call('h_meta', [C64(what)]):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'the metadata is always read back')
def run_doc(c, what):
    e = c.eng; e.merge = False; state.LITE = True; e.max_paths = 100
    uuids(c); Xml(c); same(c); texts(c, []); ids(c, ['guuid1', 'guuid2', 'guuid3'])
    for n in ('guuid1', 'guuid2', 'guuid3'): c.assume(T.bor(*[T.ne(T.var('in_%s_%d' % (n, k), 8), T.bv(0, 8)) for k in range(16)]))
    def save(st, stream, r):
        c.reach('saved'); st.g['xml'] = r; return [('ret', st, None)]
    def load(st, stream, r, a):
        c.reach('loaded')
        if 'xml' in st.g: xmlmodel.W(st, r, 'kids', xmlmodel.A(st, st.g['xml'], 'kids'))
        return [(st, T.boolc('xml' in st.g))]
    e.xml_save, e.xml_load = save, load; c.expected |= {'saved', 'loaded'}
    for o in c.call('h_doc', [C64(what)]):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'a document is always read back')
def jobs(tier):
    return [Job('entry %d' % w, lambda c, w=w: run_entry(c, w, None if w == 0 else 10), XU, what='KdbxFile::WriteEntry then ParseEntry, all fields' + (', every combination of protection marks' if w == 0 else ''), bound='' if w in (0, 64) else 'at most two associations, custom fields, attachments and history entries') for w in (0, 3, 12, 132, 48, 64)] + [
        Job('group %d' % w, lambda c, w=w: run_group(c, w), XU, what='KdbxFile::WriteGroup then ParseGroup, all fields', bound='at most two entries and two subgroups') for w in (0, 3, 12, 16, 35, 67, 15)] + [
        Job('metadata %d' % w, lambda c, w=w: run_meta(c, w), XU, what='KdbxFile::WriteMeta then ParseMeta, all fields', bound='at most two icons, two binaries and two custom data items') for w in (0, 3, 12, 48, 76)] + [
        Job('document %d' % w, lambda c, w=w: run_doc(c, w), XU, what='KdbxFile::WriteXml then ParseXml: the references from the metadata to groups', bound='two groups') for w in (0, 1, 2, 3, 4, 8, 12, 16, 32, 64, 128, 1 + 8 + 16 + 128)]
REPLAY = dict(src='c01.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='random KDBX databases exported and imported and compared field by field; distinct by content')
TRUSTED = ['Base64 by its contract (C19): the text depends on the data only and decoding returns the data', 'RandomObfuscator::Process by its contract (C08): processing at the same position of the stream twice returns the text', 'WriteDateTime and ParseDateTime by their contract (C21)', 'the gzip layers by their contract (C12)', 'consume<std::vector<char>> by its contract (proved with the attachment data by C02)',
    'pugixml: a tree that is built is the tree that is read; saving and loading a document keeps it except for white space at the edges of text (F19) and characters that XML cannot hold', 'std::unordered_map as a finite map by key equality', 'the file around the document: C05, C06, C07, C09, C11, C12, C14']
ASSUMPTIONS = ['texts hold no NUL and fewer than 2^32 bytes', 'identifiers of entries, groups and icons are distinct and those of groups and entries not zero', 'custom icons have an image, custom data items have a name and custom fields are not named like a standard field: the format cannot hold others', 'the compression mark of protected binaries and of attachments outside the pool is not stored in the format', 'the recursion over subgroups and history entries by induction on the depth']
