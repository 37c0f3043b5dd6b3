"""C18: malformed file contents are rejected with exceptions, never by aborting."""
from llvc.check import *
from llvc import terms as T, seqs as S, models, loops, irparse, state, xmlmodel
from llvc.engine import Dead
from llvc.state import C64, Z64, Ptr
import dbcommon, absmap, C03
from xmlrec import Xml
from dbcommon import *
from kdbrec import fields, uuids, body
LEVEL = 'proof'
RU = ['/verif/harness/kdbrec.cc', 'group', 'entry', 'io', 'util']
TEXT = S.var('in_text', T.var('in_text_len', 64)); POS = T.var('in_text_pos', 64)
def totime(e, st, a, ins):
    """KdbTime::ToTime by contract (C13): some time, or FormatError"""
    outs = []
    for s2, bad in models.split(st, T.fresh('badtime', 0)):
        outs.append(e.throw(s2, e_ti(e, 'FormatError')) if bad else ('ret', s2, T.fresh('time', 64)))
    return outs
def anystring(st, what):
    s = S.var(T.fresh_name('lv_' + what), T.fresh('len', 64)); st.assume(T.ult(s.len, C64(1 << 40))); return s
def run_string(c):
    e = c.eng; e.merge = False
    def text(e, st, p):
        st.assume(T.ult(TEXT.len, C64(1 << 40))); models.stream_init(e, st, p, content=TEXT)
    c.hook('text', text)
    def string(e, st, p):
        c.reach('string'); c.goal(st, T.ule(models.str_get(e, st, p).len, TEXT.len), 'a string is no longer than the field it is read from')
    c.hook('string', string)
    for o in c.call('h_string'):
        if o[0] == 'throw': c.goal(o[1], T.boolc(is_exc(e, o, 'IoError') or is_exc(e, o, 'FormatError')), 'a field without a string is an error of the library')
def strings(c):
    """consume<std::string> by contract (job string): some string no longer than the rest of the source, or an error"""
    def h(e, st, a, ins):
        outs = []
        for s2, bad in models.split(st, T.fresh('nostring', 0)):
            if bad: outs.append(e.throw(s2, e_ti(e, 'IoError'))); continue
            s = models.Stream(e, s2, a[1]); r = anystring(s2, 'read'); s2.assume(T.ule(r.len, T.sub(s['content'].len, s['pos'])))
            s['pos'] = T.fresh('pos', 64); s2.assume(T.ule(s['pos'], s['content'].len)); s['eof'] = T.fresh('eof', 0)
            models.str_init(e, s2, a[0], r); outs.append(('ret', s2, None))
        return outs
    on(c.eng, r'^std::.*string.* keepass::consume<std::.*string.*>|^keepass::consume<std::.*string', h)
def run_record(c, kind, first):
    """one record with any contents; first: type of the first field (entry records: whether an attachment is being read)"""
    e = c.eng; e.merge = False; K = {}
    state.LITE = True; fields(c); strings(c); uuids(c); on(e, r'KdbTime::ToTime\(\)', totime)
    def text(e, st, p):
        K['src'] = p
        st.assume(T.ult(TEXT.len, C64(1 << 40))); st.assume(T.ule(POS, TEXT.len))
        models.stream_init(e, st, p, content=TEXT); models.Stream(e, st, p)['pos'] = POS
        if first:
            st.assume(T.ule(T.addc(POS, 2), TEXT.len)); st.assume(T.eq(T.concat_lo([S.at(TEXT, T.addc(POS, k), st) for k in range(2)]), T.bv(first, 16)))
    c.hook('text', text)
    def layout(cls, n):
        def h(e, st, a, ins):
            fn = ins.x['callee'][1]; outs = e.exec(st, body(e, fn), a)
            e.hooks[n + ' layout'] = lambda e, st, *ps: K.__setitem__(n, [Ptr(p.obj, C64(p.off.val)) for p in ps])
            for o in outs[:1]: e.call(o[1].copy(), 'h_%s_layout' % ('att' if n == 'attachment' else n), [a[0]])
            return outs
        on(e, cls, h)
    layout(r'^keepass::Group::Group\(\)', 'group'); layout(r'^keepass::Entry::Entry\(\)', 'entry'); layout(r'^keepass::Entry::Attachment::Attachment\(\)', 'attachment')
    src = lambda st: models.Stream(e, st, K['src'])
    def shape(e, st):
        s = src(st); s['pos'] = T.var('lv_pos', 64); st.assume(T.ule(s['pos'], TEXT.len))
        for k in ('eof', 'fail', 'bad'): s[k] = T.FALSE
        for p in {'group': K.get('group', [])[:1], 'entry': K.get('entry', []) + K.get('attachment', [])}[kind]:
            if p.obj in st.heap: models.str_init(e, st, p, anystring(st, 'field'))
    inv = lambda e, st: [(T.band(T.boolc(src(st)['content'] == TEXT), T.ule(src(st)['pos'], TEXT.len), src(st).good()), 'the source is at a position inside the contents')]
    e.loop_contracts.append(loops.LoopContract(r'keepass::consume<unsigned short>', inv, shape, lambda e, st: T.sub(TEXT.len, src(st)['pos']), peel=1 if first else 0, cases=kind == 'entry'))
    defined(c)
    def record(e, st, p, ok):
        if not e.quiet: c.reach('record')
        c.goal(st, T.ne(ok, T.bv(0, ok.w)), 'a record that is accepted is returned')
    c.hook('record', record)
    n = 0
    for o in c.call('h_read_' + kind):
        if o[0] == 'throw':
            n += 1; c.goal(o[1], T.boolc(is_exc(e, o, 'FormatError') or is_exc(e, o, 'IoError')), 'a malformed record is an error of the library')
    if n: c.reach('rejected')
    c.expected |= {'record', 'rejected'}
def defined(c):
    """nothing that is read is uninitialised memory"""
    def free(v): return [x for x in T.vars_of([v]) if str(x).startswith('undef')]
    def ok(v):
        us = free(v)
        return T.TRUE if not us else T.eq(v, T.subst(v, {x: T.fresh('undef', x.w) for x in us})) if v.w else T.iff(v, T.subst(v, {x: T.fresh('undef', x.w) for x in us}))
    c.eng.no_undef = True
    def val(e, st, v, l):
        if not e.quiet and isinstance(v, T.Term): c.goal(st, ok(v), models.cstr_const(e, st, l) + ' is never uninitialised memory')
    def by(e, st, p, n, l):
        if e.quiet: return
        s = e.read_seq(st, p, n.val); c.goal(st, T.band(*[ok(S.at(s, C64(k), st)) for k in range(n.val)]), models.cstr_const(e, st, l) + ' is never uninitialised memory')
    c.hook('defined', val, need=False); c.hook('defined bytes', by, need=False)
XU = ['/verif/harness/xmlrec.cc', 'entry', 'group', 'metadata', 'io', 'util']
LISTS = ('Icon', 'Item', 'Binary', 'Association', 'String', 'Entry', 'Group', 'History')
def run_xml(c, what, only, most):
    """a reader on any document with at most `most` children of each kind; of the optional parts only those in `only` may be there (None: all)"""
    e = c.eng; e.merge = False; state.LITE = True; e.max_paths = 2000; e.max_paths = 4000
    uuids(c); x = Xml(c); x.gzip(); defined(c)
    opt = ('Times', 'AutoType', 'CustomIcons', 'Binaries', 'CustomData', 'MemoryProtection', 'CustomIconUUID') + LISTS
    def exists(u, name, n):
        if n >= most or only is not None and name in opt and name not in only: return T.FALSE
        return T.var(u + '?', 0)
    e.xml_exists = exists
    def document(e, st, p):
        st.g['opos'] = T.var('in_opos', 64); st.g['depth'] = ()
        r = xmlmodel.root(e, st, p)
        if what < 3: k = xmlmodel.node(st, ('Meta', 'Entry', 'Group')[what], 'in_node', T.TRUE, r); xmlmodel.W(st, r, 'kids', (k,))
    c.hook('document', document)
    e.xml_load = lambda st, stream, r, a: load(st, r)
    def load(st, r):
        outs = []
        for s2, bad in models.split(st, T.var('in_malformed', 0)):
            if not bad: xmlmodel.W(s2, r, 'unk', 'in_doc')
            outs.append((s2, T.boolc(not bad)))
        return outs
    def by_contract(rx, new, uuid):
        def h(e, st, a, ins):
            top = 'called' not in st.g and (what == 1 and not uuid is None and 'Entry' in rx or what == 2 and 'Group' in rx)
            if top: st.g['called'] = True; return e.exec(st, body(e, ins.x['callee'][1]), a)
            outs = []
            for s2, bad in models.split(st, T.fresh('badchild', 0)):
                if bad: outs.append(e.throw(s2, e_ti(e, 'FormatError'))); continue
                if 'Entry' in rx: e.write_seq(s2, a[3], S.bytes_([T.fresh('euuid', 8) for _ in range(16)]))
                s2.g['opos'] = T.fresh('opos', 64)
                outs += [('ret', o[1], None) for o in e.call(s2, new, [a[0], T.fresh('nr', 32)])]
            return outs
        on(e, rx, h)
    by_contract(r'^(std::shared_ptr<.*> )?keepass::KdbxFile::ParseEntry\(', 'h_new_entry', True)
    by_contract(r'^(std::shared_ptr<.*> )?keepass::KdbxFile::ParseGroup\(', 'h_new_group', False)
    if what == 3:
        def meta(e, st, a, ins):
            outs = []
            for s2, bad in models.split(st, T.fresh('badmeta', 0)):
                outs += [e.throw(s2, e_ti(e, 'FormatError'))] if bad else [('ret', o[1], None) for o in e.call(s2, 'h_new_meta', [a[0], T.fresh('nr', 32)])]
            return outs
        on(e, r'^(std::shared_ptr<.*> )?keepass::KdbxFile::ParseMeta\(', meta)
    c.hook('accepted', lambda e, st: c.reach('accepted'), need=False)
    c.expected |= {'accepted', 'rejected'}
    for o in c.call('h_read', [C64(what)]):
        if o[0] == 'throw': c.reach('rejected')
def run_import(c, n, m):
    """KdbFile::Import on any records: the record readers by contract"""
    import C03
    c.eng.no_undef = True; C03.run(c, n, m, False); c.expected.add('rejected')
XML = [('metadata', 0, None, 2, 'ParseMeta'), ('entry parts', 1, ('Times', 'AutoType', 'Association', 'CustomIconUUID'), 2, 'ParseEntry'), ('entry strings', 1, ('String',), 2, 'ParseEntry'), ('entry attachments', 1, ('Binary',), 2, 'ParseEntry'), ('entry history', 1, ('History', 'Entry'), 2, 'ParseEntry'), ('entry', 1, None, 1, 'ParseEntry'),
       ('group', 2, None, 2, 'ParseGroup'), ('document', 3, None, 2, 'ParseXml')]
def jobs(tier):
    return [Job('string', run_string, RU, what='consume<std::string> on any contents'), Job('group record', lambda c: run_record(c, 'group', 0), RU, what='KdbFile::ReadGroup on any contents')] + \
           [Job('entry record' + n, lambda c, t=t: run_record(c, 'entry', t), RU, what='KdbFile::ReadEntry on any contents' + n) for t, n in ((0, ''), (13, ', an attachment name read'), (14, ', attachment data read'))] + \
           [Job('KDB import, %d groups, %d entries' % (n, m), lambda c, n=n, m=m: run_import(c, n, m), C03.TU, what='KdbFile::Import on any list of records', bound='%d groups, %d entries' % (n, m)) for n, m in ((0, 1), (1, 1), (2, 1), (2, 2), (3, 0))] + \
           [Job('XML ' + n, lambda c, w=w, o=o, m=m: run_xml(c, w, o, m), XU, what='KdbxFile::%s on any document' % f, bound='at most %d children of each kind' % m) for n, w, o, m, f in XML if tier == 'thorough' or n != 'entry']
REPLAY = dict(flags=['-D_GLIBCXX_ASSERTIONS'], src='c18.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='well encrypted files with damaged, cut, oversized, repeated, reordered and random records and XML, each imported twice over differently filled stacks; distinct by content')
TRUSTED = ['KdbTime::ToTime, ParseDateTime and Base64 by their contracts (C13, C21, C19): a value or FormatError', 'the gzip reader by its contract (C12): the data or an error', 'pugixml: an unknown document is an unknown tree that answers the same question the same way, or is reported as malformed', 'std::unordered_map as a finite map by key equality; generate_n with a field reader stores the bytes that are left of the field or throws', 'padding, content hash and block structure: C06, C07, C09, C11']
ASSUMPTIONS = ['contents of fewer than 2^40 bytes; memory is never exhausted', 'the depth of nested groups and history entries is small enough for the stack (F20); recursion by contract', 'a variable that is read before it is written is an arbitrary value: what the checks ask is that no decision and nothing that is read depends on it', 'KDB import and the XML readers are bounded in the number of records and of children of each kind; the record readers are not bounded']
