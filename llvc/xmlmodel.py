"""Contract of pugixml as the XML reader and writer of kdbx.cc and key.cc use it: an abstract tree.

A tree built with append_child/append_attribute/set is exactly what child/attribute/text/next_sibling
later return (the document order is kept); texts are strings, booleans or numbers, converted the
way pugixml's text form does.  A document read from an unknown source is an unknown tree: each
child may or may not exist and has unknown text, and asking twice gives the same answer."""
import re
from . import terms as T, seqs as S, irparse
from .state import *
from .state import C64, Z64
from .models import cstr, cstr_const, newbuf, ret, split, str_get
from .engine import b2i, i2b

def A(st, i, k, d=None): return st.obj(i).attrs.get('x_' + k, d)
def W(st, i, k, v): st.wobj(i).attrs['x_' + k] = v
def node(st, name, unk=None, exists=T.TRUE, parent=None):
    i = st.new(C64(64), 'xmlnode')
    for k, v in (('name', name), ('kids', ()), ('atts', ()), ('text', None), ('unk', unk), ('exists', exists), ('parent', parent)): W(st, i, k, v)
    return i
def root(e, st, p):
    """the node a handle refers to (0: the null node)"""
    v = e.load(st, p, irparse.PTR)
    return v.obj if isinstance(v, Ptr) else 0
def P(i): return Ptr(i, Z64)
def cname(e, st, p):
    s = cstr(e, st, p)
    b = []
    for k in range(s.len.val if T.isc(s.len) else -1):
        v = S.at(s, C64(k), st)
        if not T.isc(v): raise Unsupported('XML name is not a constant')
        b.append(v.val)
    if not T.isc(s.len): raise Unsupported('XML name is not a constant')
    return bytes(b).decode('latin1')
def symtext(e, st, nm):
    n = T.var(nm + '_len', 64); st.assume(T.ult(n, C64(1 << 32)))
    e.nonul.add(nm)
    return ('seq', S.var(nm, n))

def child(e, st, i, name):
    if i == 0: return 0
    for k in A(st, i, 'kids'):
        if A(st, k, 'name') == name: return k
    u = A(st, i, 'unk')
    if u is None: return 0
    return unknown(e, st, i, name, 0)
def unknown(e, st, i, name, n):
    u = '%s/%s%s' % (A(st, i, 'unk'), name, '' if n == 0 else '[%d]' % n)
    ex = T.band(A(st, i, 'exists'), T.var(u + '?', 0) if e.xml_exists is None else e.xml_exists(u, name, n))
    k = node(st, name, u, ex, i)
    W(st, k, 'nr', n); W(st, k, 'text', symtext(e, st, u))
    st.assume(T.bor(ex, T.eq(A(st, k, 'text')[1].len, Z64)))
    W(st, i, 'kids', A(st, i, 'kids') + (k,))
    return k
def attr(e, st, i, name):
    if i == 0: return 0
    for k in A(st, i, 'atts'):
        if A(st, k, 'name') == name: return k
    u = A(st, i, 'unk')
    if u is None: return 0
    u = '%s@%s' % (u, name)
    ex = T.band(A(st, i, 'exists'), T.var(u + '?', 0))
    k = node(st, name, u, ex, i); W(st, k, 'text', symtext(e, st, u)); st.assume(T.bor(ex, T.eq(A(st, k, 'text')[1].len, Z64)))
    W(st, i, 'atts', A(st, i, 'atts') + (k,))
    return k

def as_text(e, st, i):
    """-> Seq"""
    t = A(st, i, 'text') if i else None
    if t is None: return S.EMPTY
    if t[0] == 'seq': return t[1]
    if t[0] == 'bool':
        outs = [(x, S.bytes_([T.bv(c, 8) for c in (b'true' if d else b'false')])) for x, d in split(st, t[1])]
        if len(outs) == 1: return outs[0][1]
        raise Unsupported('text of a truth value')
    if T.isc(t[1]):
        v = t[1].val - (1 << t[1].w if t[0] != 'u32' and t[1].val >> (t[1].w - 1) else 0)
        return S.bytes_([T.bv(ord(c), 8) for c in str(v)])
    # decimal text of a number: some non-empty string that depends on the number only
    k = ('numtext', t[0], t[1])
    n = T.uf('NUMLEN_' + t[0], (t[1],), 64); st.assume(T.band(T.ule(C64(1), n), T.ule(n, C64(20))))
    nm = 'NUM_%s_%s' % (t[0], re.sub(r'[^A-Za-z0-9_!]', '_', str(t[1]))[:60] + '_%d' % (hash(t[1]) & 0xffffff))
    e.nonul.add(nm)
    return S.var(nm, n)
def cptr(e, st, seq):
    i = newbuf(st, seq, 'xml text'); st.heap[i].attrs['str'] = True
    st.heap[i].const = True
    return P(i)
def present(e, st, i):
    """condition: the node has text"""
    if not i: return T.FALSE
    t = A(st, i, 'text')
    if t is None: return T.FALSE
    ex = A(st, i, 'exists')
    if t[0] == 'seq': return T.band(ex, T.ne(t[1].len, Z64))
    return ex
def first_in(st, s, cs):
    c = S.at(s, Z64, st)
    return T.bor(*[T.eq(c, T.bv(ord(x), 8)) for x in cs])
def as_bool(e, st, i, d):
    p = present(e, st, i)
    if p is T.FALSE: return d
    t = A(st, i, 'text')
    if t[0] == 'bool': v = t[1]
    elif t[0] == 'seq': v = first_in(st, t[1], '1tTyY')
    else: v = T.var('numbool_%d' % (hash(t[1]) & 0xffffff), 0)
    return T.ite(p, v, d) if p is not T.TRUE else v
RNG = {'u32': (0, (1 << 32) - 1), 'i32': (-(1 << 31), (1 << 31) - 1), 'i64': (-(1 << 63), (1 << 63) - 1)}
def as_num(e, st, i, d, kind):
    p = present(e, st, i)
    w = 64 if kind == 'i64' else 32
    if p is T.FALSE: return d
    t = A(st, i, 'text')
    if t[0] in RNG:
        # pugixml clamps to the range of the type read
        x = T.zext(t[1], 72) if t[0] == 'u32' else T.sext(t[1], 72)
        lo, hi = RNG[kind]; l0, h0 = RNG[t[0]]
        if l0 < lo: x = T.ite(T.slt(x, T.bv(lo, 72)), T.bv(lo, 72), x)
        if h0 > hi: x = T.ite(T.slt(T.bv(hi, 72), x), T.bv(hi, 72), x)
        v = t[1] if t[0] == kind else T.trunc(x, w)
    elif t[0] == 'bool': v = T.bv(0, w)
    else:
        nm = None
        s = t[1]
        v = T.var('num_%s_%s' % (kind, s.a if s.k == 'v' else hash(s)), w)
    return T.ite(p, v, d) if p is not T.TRUE else v

from .engine import Engine
Engine.xml_exists = None      # (path, name, number) -> condition: bounds an unknown document
def install(e):
    def on(rx, f): e.overrides.append((re.compile(rx), f))
    def doc_ctor(e, st, a, ins):
        r = node(st, '#document')
        e.rawstore(st, a[0], 8, P(r)); W(st, r, 'doc', True)
        return ret(st)
    on(r'^pugi::xml_document::xml_document\(\)', doc_ctor)
    on(r'^pugi::xml_document::~xml_document\(\)', lambda e, st, a, ins: ret(st))
    def load(e, st, a, ins):
        # sret result, document, stream, options, encoding
        outs = []
        r = root(e, st, a[1])
        st.setattr(a[0].obj, ('xmlres', a[0].off.val), None)
        for s2, r2 in e.xml_load(st, a[2], r, a):
            s2.setattr(a[0].obj, ('xmlres', a[0].off.val), r2)
            outs += ret(s2) if r2 is not None else []
        return outs
    on(r'^pugi::xml_document::load\(std::basic_istream', load)
    on(r'^pugi::xml_parse_result::operator bool\(\) const', lambda e, st, a, ins: ret(st, b2i(st.attr(a[0].obj, ('xmlres', a[0].off.val)))))
    def save(e, st, a, ins): return e.xml_save(st, a[1], root(e, st, a[0]))
    on(r'^pugi::xml_document::save\(std::basic_ostream', save)
    # reading
    def handle(f):
        def h(e, st, a, ins): return ret(st, P(f(e, st, root(e, st, a[0]), *a[1:])))
        return h
    on(r'^pugi::xml_node::child\(char const\*\) const', handle(lambda e, st, i, n: child(e, st, i, cname(e, st, n))))
    on(r'^pugi::xml_node::attribute\(char const\*\) const', handle(lambda e, st, i, n: attr(e, st, i, cname(e, st, n))))
    def nextsib(e, st, i, n):
        nm = cname(e, st, n)
        if not i: return 0
        p = A(st, i, 'parent')
        if p is None: return 0
        ks = A(st, p, 'kids')
        for k in ks[ks.index(i) + 1:]:
            if A(st, k, 'name') == nm: return k
        if A(st, p, 'unk') is None: return 0
        return unknown(e, st, p, nm, 1 + sum(A(st, k, 'name') == nm for k in ks[:ks.index(i) + 1]) - 1)
    on(r'^pugi::xml_node::next_sibling\(char const\*\) const', handle(nextsib))
    on(r'^pugi::xml_node::text\(\) const', handle(lambda e, st, i: i))
    def isnull(neg):
        def h(e, st, a, ins):
            i = root(e, st, a[0])
            ex = A(st, i, 'exists') if i else T.FALSE
            outs = []
            if neg: return ret(st, b2i(T.not_(ex)))
            for s2, d in split(st, ex): outs += ret(s2, P(i) if d else NULL)
            return outs
        return h
    on(r'^pugi::xml_(node|attribute|text)::operator void \(\*\)', isnull(False))
    on(r'^pugi::xml_(node|attribute)::operator!\(\) const', isnull(True))
    on(r'^pugi::xml_(node|attribute)::empty\(\) const', isnull(True))
    on(r'^pugi::xml_node::child_value\(char const\*\) const', lambda e, st, a, ins: ret(st, cptr(e, st, as_text(e, st, child(e, st, root(e, st, a[0]), cname(e, st, a[1]))))))
    on(r'^pugi::xml_node::child_value\(\) const', lambda e, st, a, ins: ret(st, cptr(e, st, as_text(e, st, root(e, st, a[0])))))
    on(r'^pugi::xml_attribute::value\(\) const', lambda e, st, a, ins: ret(st, cptr(e, st, as_text(e, st, root(e, st, a[0])))))
    def as_string(e, st, a, ins):
        i = root(e, st, a[0])
        if cstr(e, st, a[1]).len is not Z64: raise Unsupported('as_string default')
        return ret(st, cptr(e, st, as_text(e, st, i)))
    on(r'^pugi::xml_(text|attribute)::(as_string|get)\(char const\*\) const', as_string)
    on(r'^pugi::xml_(text|attribute)::as_bool\(bool\) const', lambda e, st, a, ins: ret(st, b2i(as_bool(e, st, root(e, st, a[0]), i2b(a[1])))))
    for nm, k in (('as_uint', 'u32'), ('as_int', 'i32'), ('as_llong', 'i64')):
        on(r'^pugi::xml_(text|attribute)::%s\(' % nm, lambda e, st, a, ins, k=k: ret(st, as_num(e, st, root(e, st, a[0]), a[1], k)))
    # writing
    def add(key):
        def h(e, st, a, ins):
            i = root(e, st, a[0])
            if not i: return ret(st, NULL)
            k = node(st, cname(e, st, a[1]), None, T.TRUE, i)
            W(st, i, key, A(st, i, key) + (k,))
            return ret(st, P(k))
        return h
    on(r'^pugi::xml_node::append_child\(char const\*\)', add('kids'))
    on(r'^pugi::xml_node::append_attribute\(char const\*\)', add('atts'))
    def setter(f):
        def h(e, st, a, ins):
            i = root(e, st, a[0])
            if i: W(st, i, 'text', f(e, st, a[1]))
            return ret(st, T.bv(1, ins.ty.n))
        return h
    on(r'^pugi::xml_(text::set|attribute::set_value)\(char const\*\)', setter(lambda e, st, v: ('seq', cstr(e, st, v))))
    on(r'^pugi::xml_(text::set|attribute::set_value)\(bool\)', setter(lambda e, st, v: ('bool', i2b(v))))
    on(r'^pugi::xml_(text::set|attribute::set_value)\(int\)', setter(lambda e, st, v: ('i32', v)))
    on(r'^pugi::xml_(text::set|attribute::set_value)\(unsigned int\)', setter(lambda e, st, v: ('u32', v)))
    on(r'^pugi::xml_(text::set|attribute::set_value)\(long long\)', setter(lambda e, st, v: ('i64', v)))
    e.assumptions.add('pugixml: a saved tree loads as the same tree; texts keep their characters except leading and trailing white space (trimmed: see KNOWN_FINDINGS F19); numbers and truth values convert through their decimal and true/false text')
