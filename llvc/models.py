"""Contracts of the external functions (libstdc++, libc, OpenSSL) used by the code under
verification, plus byte-container models of std::string and std::vector<char|uint8_t>."""
import re
from . import terms as T, seqs as S, irparse
from .state import *
from .state import C64, Z64
from .engine import Dead, b2i, i2b, Engine

def grows_little(n):
    """a length plus a constant: the bound is kept for the length alone"""
    c, p = T.lin_parts(n)
    return 0 < T.sgn(c, 64) < 4096 and len(p) >= 1
BIG = 1 << 56     # no object is larger than this many bytes

MODELS = []
def model(rx, force=False):
    def d(f):
        MODELS.append((re.compile(rx), f, force))
        return f
    return d
def install(eng):
    eng.models = list(MODELS)

def ret(st, v=None): return [('ret', st, v)]
def C32(v): return T.bv(v, 32)
def i64(t): return t if t.w == 64 else T.zext(t, 64)

# ------------------------------------------------------------------ C++ runtime
@model(r'^operator new(\[\])?\(unsigned long')
def m_new(e, st, a, ins):
    n = a[0]
    return ret(st, Ptr(st.new(n, 'heap'), Z64))
@model(r'^operator delete(\[\])?\(void\*')
def m_delete(e, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj and p.obj in st.heap:
        o = st.obj(p.obj)
        if o.freed: e.oblige(st, T.FALSE, 'double free', 'memory')
        if not e.nofree: st.wobj(p.obj).freed = True
    return ret(st)
Engine.nofree = False
@model(r'^__cxa_allocate_exception$')
def m_allocexc(e, st, a, ins): return ret(st, Ptr(st.new(a[0], 'exception'), Z64))
@model(r'^__cxa_free_exception$')
def m_freeexc(e, st, a, ins): return ret(st)
@model(r'^__cxa_throw$')
def m_throw(e, st, a, ins):
    st.setattr(a[0].obj, 'ti', e.ti_name(a[1]))
    st.setattr(a[0].obj, 'at', e.srcwhere())
    return [('throw', st, a[0])]
@model(r'^__cxa_begin_catch$')
def m_bcatch(e, st, a, ins):
    st.g['caught'] = st.g.get('caught', ()) + (a[0],)
    return ret(st, a[0])
@model(r'^__cxa_end_catch$')
def m_ecatch(e, st, a, ins):
    st.g['caught'] = st.g.get('caught', ())[:-1]
    return ret(st)
@model(r'^__cxa_rethrow$')
def m_rethrow(e, st, a, ins):
    c = st.g.get('caught', ())
    if not c: return []
    return [('throw', st, c[-1])]
@model(r'^__cxa_get_exception_ptr$')
def m_getexc(e, st, a, ins): return ret(st, a[0])
@model(r'^__cxa_guard_acquire$')
def m_guard(e, st, a, ins):
    v = e.load(st, a[0], irparse.I8)
    return ret(st, T.ite(T.eq(v, T.bv(0, 8)), C32(1), C32(0)))
@model(r'^__cxa_guard_(release|abort)$')
def m_guardr(e, st, a, ins):
    e.rawstore(st, a[0], 1, T.bv(1, 8))
    return ret(st)
@model(r'^__cxa_(atexit|pure_virtual)$')
def m_atexit(e, st, a, ins): return ret(st, C32(0))
@model(r'^(std::terminate\(\)|abort|exit|__clang_call_terminate|std::__terminate\(\)|__cxa_call_unexpected|__cxa_bad_cast)$', True)
def m_abort(e, st, a, ins):
    e.oblige(st, T.FALSE, 'never terminates abnormally', 'abort')
    return []
@model(r'^__assert_fail$')
def m_assert(e, st, a, ins):
    msg = cstr_const(e, st, a[0])
    if e.asserts: e.oblige(st, T.FALSE, 'assert(%s)' % msg, 'abort')
    return []
Engine.asserts = True
def cstr_const(e, st, p):
    try:
        s = ''
        k = 0
        while True:
            v = e.load(st, Ptr(p.obj, T.addc(p.off, k)), irparse.I8)
            if not T.isc(v) or v.val == 0: return s
            s += chr(v.val); k += 1
    except Exception:
        return '?'
THROWS = {'bad_alloc': '_ZTISt9bad_alloc', 'bad_array_new_length': '_ZTISt9bad_alloc', 'bad_function_call': '_ZTISt17bad_function_call',
          'invalid_argument': '_ZTISt16invalid_argument', 'length_error': '_ZTISt12length_error', 'out_of_range': '_ZTISt12out_of_range',
          'out_of_range_fmt': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error', 'system_error': '_ZTISt12system_error'}
@model(r'^std::__throw_(\w+)\(')
def m_stdthrow(e, st, a, ins):
    nm = re.search(r'__throw_(\w+)', irparse.demangle(ins.x['callee'][1])).group(1)
    return [e.throw(st, THROWS.get(nm, '_ZTISt9exception'), at=e.srcwhere())]
@model(r'^std::(exception|runtime_error|logic_error|out_of_range|invalid_argument|bad_alloc)::~')
def m_excdtor(e, st, a, ins): return ret(st)
@model(r'^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error)::\w+\(')
def m_excctor(e, st, a, ins): return ret(st)
@model(r'^__errno_location$')
def m_errno(e, st, a, ins):
    if 'errno' not in st.g: st.g['errno'] = Ptr(st.new(4, 'errno', True), Z64)
    return ret(st, st.g['errno'])

# ------------------------------------------------------------------ libc
@model(r'^(memcmp|std::char_traits<char>::compare\(|CT::compare\()', True)
def m_memcmp(e, st, a, ins):
    n = a[2]
    x = e.read_seq(st, a[0], n); y = e.read_seq(st, a[1], n)
    c = S.eq_cond(x, y, st)
    if T.isc(n) and n.val == 1:
        d = T.sub(T.zext(S.at(x, Z64, st), 32), T.zext(S.at(y, Z64, st), 32))
        return ret(st, d)
    r = T.fresh('memcmp', 32)
    st.assume(T.ne(r, C32(0)))
    return ret(st, T.ite(c, C32(0), r))
def upto_nul(e, st, s):
    """the part of s before its first NUL"""
    def nonul(s): return s.k == 'v' and s.a in e.nonul or s.k == 'sl' and nonul(s.a[0]) or s.k == 'cat' and all(nonul(x) or x.k == 'b' and all(st.decide(T.eq(v, T.bv(0, 8))) is False for v in x.a) for x in s.a)
    if nonul(s): return s
    if s.k == 'b' and len(s.a) <= 64:
        out = []
        for v in s.a:
            d = st.decide(T.eq(v, T.bv(0, 8)))
            if d is True: return S.bytes_(out)
            if d is None: break
            out.append(v)
        else: return s
    k = ('strlen', s)
    n = st.g.get(k)
    if n is None:
        n = T.fresh('strlen', 64); st.g[k] = n
        st.assume(T.ule(n, s.len))
        st.assume(T.implies(T.ult(n, s.len), T.eq(S.at(s, n, None), T.bv(0, 8))))
        st.add_forall(n, T.ne(S.at(s, S._j, None), T.bv(0, 8)))
    return S.slice_(s, Z64, n, st)
def cstr(e, st, p):
    """bytes of the C string at p (without NUL)"""
    o = st.obj(p.obj)
    if o.attrs.get('str') or (o.seq is not None and o.attrs.get('nul') is None and o.size is None):
        return upto_nul(e, st, S.slice_(o.seq, p.off, T.sub(o.seq.len, p.off), st))
    if T.isc(p.off) and o.seq is None:
        out = []
        k = p.off.val
        while True:
            v = e.load(st, Ptr(p.obj, C64(k)), irparse.I8)
            if T.isc(v):
                if v.val == 0: return S.bytes_(out)
            elif st.decide(T.eq(v, T.bv(0, 8))) is not False: break
            out.append(v); k += 1
            if k > 4096: break
    if o.attrs.get('cstr') is not None: return o.attrs['cstr']
    raise Unsupported('C string of unknown length')
@model(r'^(strlen|std::char_traits<char>::length\(|CT::length\()', True)
def m_strlen(e, st, a, ins): return ret(st, cstr(e, st, a[0]).len)
@model(r'^strcmp$')
def m_strcmp(e, st, a, ins):
    x = cstr(e, st, a[0]); y = cstr(e, st, a[1])
    c = S.eq_cond(x, y, st)
    r = T.fresh('strcmp', 32); st.assume(T.ne(r, C32(0)))
    return ret(st, T.ite(c, C32(0), r))
@model(r'^strncmp$')
def m_strncmp(e, st, a, ins):
    n = a[2]
    if not T.isc(n) or n.val > 256: raise Unsupported('strncmp of symbolic length')
    x = e.read_seq(st, a[0], n); y = e.read_seq(st, a[1], n)       # arrays of at least n bytes
    c = T.TRUE
    for k in range(n.val - 1, -1, -1):
        u, v = S.at(x, C64(k), st), S.at(y, C64(k), st)
        c = T.band(T.eq(u, v), T.bor(T.eq(u, T.bv(0, 8)), c))
    r = T.fresh('strncmp', 32); st.assume(T.ne(r, C32(0)))
    return ret(st, T.ite(c, C32(0), r))
def in_range(c, lo, hi):
    return T.band(T.uge(c, T.bv(lo, c.w)), T.ule(c, T.bv(hi, c.w)))
def ctype_arg_ok(e, st, c):
    # glibc's tables cover every value of char and unsigned char, and EOF
    e.assumptions.add('the C character classification functions accept every char value (glibc)')
    e.oblige(st, T.ult(T.addc(c, 128), C32(384)), 'ctype argument in range', 'memory')
@model(r'^is(x?digit|space|alpha|alnum|upper|lower)$')
def m_isx(e, st, a, ins):
    nm = ins.x['callee'][1]
    c = a[0]
    ctype_arg_ok(e, st, c)
    D = in_range(c, 48, 57); U = in_range(c, 65, 90); L = in_range(c, 97, 122)
    t = {'isdigit': D, 'isxdigit': T.bor(D, in_range(c, 65, 70), in_range(c, 97, 102)),
         'isspace': T.bor(T.eq(c, C32(32)), in_range(c, 9, 13)), 'isalpha': T.bor(U, L),
         'isalnum': T.bor(D, U, L), 'isupper': U, 'islower': L}[nm]
    r = T.fresh('ctype', 32); st.assume(T.ne(r, C32(0)))
    return ret(st, T.ite(t, r, C32(0)))
@model(r'^to(lower|upper)$')
def m_tolower(e, st, a, ins):
    c = a[0]; ctype_arg_ok(e, st, c)
    if ins.x['callee'][1] == 'tolower': return ret(st, T.ite(in_range(c, 65, 90), T.addc(c, 32), c))
    return ret(st, T.ite(in_range(c, 97, 122), T.addc(c, -32), c))

# std::ctype through locale
@model(r'^std::locale::classic\(\)|^std::locale::locale\(|^std::ctype<char> const& std::use_facet|^std::locale::~locale')
def m_locale(e, st, a, ins):
    return ret(st, Ptr(st.new(1024, 'locale'), Z64))
@model(r'^std::ctype<char>::is\(|^std::__ctype_abstract_base<char>::is\(', True)
def m_ctypeis(e, st, a, ins):
    m = a[1]; c = T.zext(a[2], 32)
    if not T.isc(m): raise Unsupported('ctype mask')
    D = in_range(c, 48, 57); U = in_range(c, 65, 90); L = in_range(c, 97, 122)
    if m.val == 0x2000: t = T.bor(T.eq(c, C32(32)), in_range(c, 9, 13))
    elif m.val == 0x800: t = D
    elif m.val == 0x1000: t = T.bor(D, in_range(c, 65, 70), in_range(c, 97, 102))
    else: raise Unsupported('ctype mask %x' % m.val)
    return ret(st, b2i(t))

# ------------------------------------------------------------------ byte buffers
def newbuf(st, seq, name='buf'):
    i = st.new(None, name)
    st.heap[i].seq = seq
    return i

# -- std::string : first cell is a pointer to the buffer object
def str_buf(e, st, p):
    o = st.obj(p.obj)
    if T.isc(p.off) and o.seq is None:
        c = o.cells.get(p.off.val)
        if c is not None and isinstance(c[1], Ptr): return c[1].obj
    raise Unsupported('not a std::string at %r' % (p,))
def str_get(e, st, p): return st.obj(str_buf(e, st, p)).seq
def str_init(e, st, p, seq):
    if not T.isc(seq.len) and not grows_little(seq.len): st.assume(T.ult(seq.len, C64(BIG)))
    b = newbuf(st, seq, 'string')
    st.heap[b].attrs['str'] = True
    if p.obj == 0: raise Dead()
    o = st.obj(p.obj)
    if not e.inb(st, o, p, 32, 'string'): raise Dead()
    if not T.isc(p.off): raise Unsupported('string at symbolic offset')
    w = st.wobj(p.obj)
    e.cut(w, p.off.val, 8)
    w.cells[p.off.val] = (8, Ptr(b, Z64))
def str_set(e, st, p, seq):
    if not T.isc(seq.len) and not grows_little(seq.len): st.assume(T.ult(seq.len, C64(BIG)))
    b = str_buf(e, st, p)
    st.wobj(b).seq = seq

@model(r'^std::string::(basic_string|~basic_string)[(<]|^std::basic_string<.*>::~?basic_string', True)
def m_str_ctor(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    if '~' in d: return ret(st)
    sig = d[d.index('basic_string('):] if 'basic_string(' in d else d[d.index('basic_string<'):]
    args = sig[sig.index('('):]
    p = a[0]
    if args.startswith('()') or args.startswith('(std::allocator'): str_init(e, st, p, S.EMPTY)
    elif args.startswith('(char const*, unsigned long'): str_init(e, st, p, e.read_seq(st, a[1], a[2]))
    elif args.startswith('(char const*, std::allocator') or args.startswith('(char const*)'): str_init(e, st, p, cstr(e, st, a[1]))
    elif args.startswith('(std::string const&, unsigned long, unsigned long)') or args.startswith('(std::string const&, unsigned long)'):
        s = str_get(e, st, a[1]); pos = a[2]
        n = a[3] if 'long, unsigned long)' in args else T.bv(-1, 64)
        outs = []
        ok = T.ule(pos, s.len)
        d = st.decide(ok)
        if d is not True:
            s2 = st.copy(); s2.assume(T.not_(ok)); outs.append(e.throw(s2, '_ZTISt12out_of_range', at=e.srcwhere()))
        if d is not False:
            st.assume(ok)
            rest = T.sub(s.len, pos)
            dd = st.decide(T.ule(rest, n))
            m = rest if dd is True else n if dd is False else T.ite(T.ule(rest, n), rest, n)
            str_init(e, st, p, S.slice_(s, pos, m, st)); outs += ret(st)
        return outs
    elif args.startswith('(std::string const&'): str_init(e, st, p, str_get(e, st, a[1]))
    elif args.startswith('(std::string&&'):
        str_init(e, st, p, str_get(e, st, a[1])); str_set(e, st, a[1], S.EMPTY)
    elif args.startswith('(unsigned long, char'):
        str_init(e, st, p, S.fill(a[2], a[1]))
    elif args.startswith('(std::initializer_list'):
        str_init(e, st, p, e.read_seq(st, a[1], a[2]))
    elif 'istreambuf_iterator' in args:
        str_init(e, st, p, stream_rest(e, st, a[1]))
    elif '*' in args or '__normal_iterator' in args:
        str_init(e, st, p, e.read_seq(st, a[1], T.sub(a[2].off, a[1].off)))
    else: raise Unsupported('string constructor ' + args)
    return ret(st)

@model(r'^(?:[^(]* )?std::string::(?!basic_string|~)', True)
def m_str(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    m = re.search(r'std::string::([a-z_A-Z0-9]+|operator\[\]|operator=|operator\+=)', d[:])
    # template functions have a return type in front
    k = d.index('std::string::') if not re.match(r'std::string std::string::', d) else d.index('std::string::')
    nm = re.match(r'std::string::(operator\[\]|operator\+=|operator=|[A-Za-z_0-9]+)', d[k:]).group(1)
    args = d[d.index(nm, k) + len(nm):]
    if args.startswith('<'): args = args[args.index('>(') + 1:] if '>(' in args else args
    p = a[0]
    # sret methods
    if nm == 'substr':
        s = str_get(e, st, a[1]); pos, n = a[2], a[3]
        outs = []
        ok = T.ule(pos, s.len)
        dd = st.decide(ok)
        if dd is not True:
            s2 = st.copy(); s2.assume(T.not_(ok)); outs.append(e.throw(s2, '_ZTISt12out_of_range', at=e.srcwhere()))
        if dd is not False:
            st.assume(ok)
            rest = T.sub(s.len, pos)
            d3 = st.decide(T.ule(rest, n))
            mm = rest if d3 is True else n if d3 is False else T.ite(T.ule(rest, n), rest, n)
            str_init(e, st, p, S.slice_(s, pos, mm, st)); outs += ret(st)
        return outs
    s = str_get(e, st, p)
    b = str_buf(e, st, p)
    if nm in ('size', 'length'): return ret(st, s.len)
    if nm == 'empty': return ret(st, b2i(T.eq(s.len, Z64)))
    if nm in ('c_str', 'data', 'begin', 'cbegin', '_M_data'): return ret(st, Ptr(b, Z64))
    if nm in ('end', 'cend'): return ret(st, Ptr(b, s.len))
    if nm == 'operator[]': return ret(st, Ptr(b, a[1]))
    if nm == 'at':
        ok = T.ult(a[1], s.len); outs = []
        dd = st.decide(ok)
        if dd is not True:
            s2 = st.copy(); s2.assume(T.not_(ok)); outs.append(e.throw(s2, '_ZTISt12out_of_range', at=e.srcwhere()))
        if dd is not False: st.assume(ok); outs += ret(st, Ptr(b, a[1]))
        return outs
    if nm == 'back': return ret(st, Ptr(b, T.addc(s.len, -1)))
    if nm == 'front': return ret(st, Ptr(b, Z64))
    if nm == 'push_back':
        str_set(e, st, p, S.concat([s, S.bytes_([a[1]])], st)); return ret(st)
    if nm == 'pop_back':
        str_set(e, st, p, S.slice_(s, Z64, T.addc(s.len, -1), st)); return ret(st)
    if nm == 'clear': str_set(e, st, p, S.EMPTY); return ret(st)
    if nm in ('reserve', 'shrink_to_fit'): return ret(st)
    if nm == 'swap':
        t = str_get(e, st, a[1]); str_set(e, st, p, t); str_set(e, st, a[1], s); return ret(st)
    if nm == 'resize':
        n = a[1]; fillb = a[2] if len(a) > 2 else T.bv(0, 8)
        return resize(e, st, s, n, fillb, lambda x, q: str_set(e, x, p, q))
    if nm in ('operator=', 'assign', 'append', 'operator+='):
        if args.startswith('(std::string&&'):
            t = str_get(e, st, a[1])
            if a[1] != p: str_set(e, st, a[1], S.EMPTY)
        elif args.startswith('(std::string const&, unsigned long, unsigned long'): raise Unsupported('substring append')
        elif args.startswith('(std::string const&'): t = str_get(e, st, a[1])
        elif args.startswith('(char const*, unsigned long'): t = e.read_seq(st, a[1], a[2])
        elif args.startswith('(char const*)'): t = cstr(e, st, a[1])
        elif args.startswith('(char)'): t = S.bytes_([a[1]])
        elif args.startswith('(unsigned long, char'): t = S.fill(a[2], a[1])
        elif args.startswith('(std::initializer_list'): t = e.read_seq(st, a[1], a[2])
        elif 'istreambuf_iterator' in args: t = stream_rest(e, st, a[1])
        elif '*' in args or '__normal_iterator' in args: t = e.read_seq(st, a[1], T.sub(a[2].off, a[1].off))
        else: raise Unsupported('string ' + nm + args)
        if nm in ('append', 'operator+='): t = S.concat([s, t], st)
        str_set(e, st, p, t)
        return ret(st, p)
    if nm == 'compare':
        if args.startswith('(std::string const&)'): t = str_get(e, st, a[1])
        elif args.startswith('(char const*)'): t = cstr(e, st, a[1])
        else: raise Unsupported('compare' + args)
        c = S.eq_cond(s, t, st)
        r = T.fresh('strcmp', 32); st.assume(T.ne(r, C32(0)))
        return ret(st, T.ite(c, C32(0), r))
    if nm == 'erase':
        if args.startswith('(__gnu_cxx::__normal_iterator<char const*, std::string>, __gnu') :
            x, y = a[1].off, a[2].off
            str_set(e, st, p, S.concat([S.slice_(s, Z64, x, st), S.slice_(s, y, T.sub(s.len, y), st)], st))
            return ret(st, a[1])
        raise Unsupported('string erase' + args)
    if nm == 'find' and args.startswith('(char, unsigned long'):
        k = const_bytes(s)
        if k is not None and len(k) < 255 and T.isc(a[2]):
            tab = tuple(bytes(k).find(c, a[2].val) & 0xff for c in range(256))
            ix = T.tbl(tab, T.zext(a[1], 64), 8)
            hit = T.ne(ix, T.bv(255, 8))
            if T.isc(ix): return ret(st, C64(ix.val) if ix.val != 255 else T.bv(-1, 64))
            return ret(st, T.ite(hit, T.zext(ix, 64), T.bv(-1, 64)))
        # contract: npos when absent at or after pos, else the first position
        r = T.fresh('find', 64)
        st.assume(T.bor(T.eq(r, T.bv(-1, 64)), T.band(T.ult(r, s.len), T.uge(r, a[2]), T.eq(S.at(s, r, st), a[1]))))
        bound = T.ite(T.eq(r, T.bv(-1, 64)), s.len, r)
        st.add_forall(bound, T.implies(T.uge(S._j, a[2]), T.ne(S.at(s, S._j), a[1])))
        return ret(st, r)
    raise Unsupported('string method ' + nm + args)

def const_bytes(s):
    if s.k == 'b' and all(T.isc(t) for t in s.a): return [t.val for t in s.a]
    if T.isc(s.len) and s.len.val == 0: return []
    if s.k == 'cat' and all(p.k == 'b' for p in s.a):
        r = [const_bytes(p) for p in s.a]
        return None if any(x is None for x in r) else sum(r, [])
    return None

def resize(e, st, s, n, fillb, setter):
    """resize as two cases"""
    outs = []
    c = T.ule(n, s.len)
    d = st.decide(c)
    if d is not False:
        s1 = st if d is True else st.copy()
        s1.assume(c)
        setter(s1, S.slice_(s, Z64, n, s1)); outs += ret(s1)
    if d is not True:
        st.assume(T.not_(c))
        # absurd sizes make the library throw
        big = T.uge(n, C64(BIG))
        dd = st.decide(big)
        if dd is not False:
            s2 = st if dd is True else st.copy()
            s2.assume(big)
            outs.append(e.throw(s2, '_ZTISt12length_error', at=e.srcwhere()))
            if dd is True: return outs
        st.assume(T.not_(big))
        setter(st, S.concat([s, S.fill(fillb, T.sub(n, s.len))], st)); outs += ret(st)
    return outs

@model(r'^(?:bool )?std::operator(==|!=)<char, .*(std::basic_string<|std::string)', True)
def m_streq(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    def g(p):
        try: return str_get(e, st, p)
        except Unsupported: return cstr(e, st, p)
    c = S.eq_cond(g(a[0]), g(a[1]), st)
    return ret(st, b2i(T.not_(c) if 'operator!=' in d else c))
@model(r'^(?:std::string|std::basic_string<.*?>) std::operator\+', True)
def m_strplus(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    ps = d[d.rindex('>(') + 1:] if '>(' in d else d[d.index('('):]
    def g(p, ty):
        if isinstance(p, T.Term): return S.bytes_([p])
        if ty.startswith('char const*'): return cstr(e, st, p)
        return str_get(e, st, p)
    tys = [x.strip() for x in split_args(ps)]
    str_init(e, st, a[0], S.concat([g(a[1], tys[0]), g(a[2], tys[1])], st))
    return ret(st)
def split_args(s):
    s = s.strip()
    if s.startswith('('): s = s[1:]
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<(': d += 1
        elif ch in '>)':
            if ch == ')' and d == 0: break
            d -= 1
        elif ch == ',' and d == 0: out.append(cur); cur = ''; continue
        cur += ch
    out.append(cur)
    return out

# -- std::vector<char / unsigned char>
VECB = r'std::vector<(?:unsigned char|char|signed char), std::allocator<(?:unsigned char|char|signed char)> >'
def vec_cells(e, st, p):
    o = st.obj(p.obj)
    if not T.isc(p.off): raise Unsupported('vector at symbolic offset')
    c = o.cells.get(p.off.val)
    if c is None:
        if o.zero: return NULL
        raise Unsupported('not a vector')
    v = c[1]
    return v if isinstance(v, Ptr) else NULL
def vec_get(e, st, p):
    b = vec_cells(e, st, p)
    if b.obj == 0: return S.EMPTY
    return st.obj(b.obj).seq
def vec_put(e, st, p, buf, ln):
    w = st.wobj(p.obj)
    off = p.off.val
    for k, v in ((0, Ptr(buf, Z64)), (8, Ptr(buf, ln)), (16, Ptr(buf, ln))):
        e.cut(w, off + k, 8)
        w.cells[off + k] = (8, v)
def vec_init(e, st, p, seq):
    if not T.isc(seq.len) and not grows_little(seq.len): st.assume(T.ult(seq.len, C64(BIG)))
    if p.obj == 0: raise Dead()
    if not e.inb(st, st.obj(p.obj), p, 24, 'vector'): raise Dead()
    if not T.isc(p.off): raise Unsupported('vector at symbolic offset')
    vec_put(e, st, p, newbuf(st, seq, 'vector'), seq.len)
def vec_set(e, st, p, seq):
    if not T.isc(seq.len) and not grows_little(seq.len): st.assume(T.ult(seq.len, C64(BIG)))
    b = vec_cells(e, st, p)
    if b.obj == 0: vec_init(e, st, p, seq); return
    st.wobj(b.obj).seq = seq
    vec_put(e, st, p, b.obj, seq.len)

@model(r'^(?:[^(]* )?' + VECB + r'::(?:vector|~vector)[(<]', True)
def m_vec_ctor(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    if '::~vector' in d: return ret(st)
    k = re.search(VECB + '::vector', d).end()
    args = d[k:]
    tmpl = ''
    if args.startswith('<'):
        j = args.index('>(') if '>(' in args else 0
        # template argument list ends before the parameter list at depth 0
        dep = 0
        for j, ch in enumerate(args):
            if ch == '<': dep += 1
            elif ch == '>':
                dep -= 1
                if dep == 0: break
        tmpl = args[:j + 1]; args = args[j + 1:]
    p = a[0]
    if args.startswith('()') or args.startswith('(std::allocator'): vec_init(e, st, p, S.EMPTY)
    elif args.startswith('(unsigned long, std::alloc'): return sized(e, st, a[1], lambda x: vec_init(e, x, p, S.zeros(a[1])))
    elif args.startswith('(unsigned long, unsigned char') or args.startswith('(unsigned long, char'):
        v = e.load(st, a[2], irparse.I8)
        return sized(e, st, a[1], lambda x: vec_init(e, x, p, S.fill(v, a[1])))
    elif args.startswith('(std::vector') and '&&' in args:
        vec_init(e, st, p, vec_get(e, st, a[1])); vec_set(e, st, a[1], S.EMPTY)
    elif args.startswith('(std::vector'): vec_init(e, st, p, vec_get(e, st, a[1]))
    elif args.startswith('(std::initializer_list'): vec_init(e, st, p, e.read_seq(st, a[1], a[2]))
    elif 'istreambuf_iterator' in tmpl: vec_init(e, st, p, stream_rest(e, st, a[1]))
    elif tmpl and isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and bytes_iter(tmpl):
        vec_init(e, st, p, e.read_seq(st, a[1], T.sub(a[2].off, a[1].off)))
    else: raise Unsupported('vector constructor ' + d)
    return ret(st)
def bytes_iter(t):
    return re.match(r'<(?:__gnu_cxx::__normal_iterator<)?(?:unsigned |signed )?char', t) is not None
def sized(e, st, n, f):
    big = T.uge(n, C64(BIG))
    outs = []
    d = st.decide(big)
    if d is not False:
        s2 = st if d is True else st.copy()
        s2.assume(big)
        outs.append(e.throw(s2, '_ZTISt12length_error', at=e.srcwhere()))
        if d is True: return outs
    st.assume(T.not_(big))
    f(st)
    return outs + ret(st)

@model(r'^(?:[^(]* )?' + VECB + r'::(?:operator=|resize|reserve|push_back|emplace_back|clear|assign|insert|erase|swap|shrink_to_fit|pop_back|capacity)[(<]', True)
def m_vec(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    m = re.search(VECB + r'::(operator=|resize|reserve|push_back|emplace_back|clear|assign|insert|erase|swap|shrink_to_fit|pop_back|capacity)', d)
    nm = m.group(1); args = d[m.end():]
    tmpl = ''
    if args.startswith('<'):
        dep = 0
        for j, ch in enumerate(args):
            if ch == '<': dep += 1
            elif ch == '>':
                dep -= 1
                if dep == 0: break
        tmpl = args[:j + 1]; args = args[j + 1:]
    p = a[0]
    s = vec_get(e, st, p)
    if nm in ('reserve', 'shrink_to_fit'): 
        if nm == 'reserve': return sized(e, st, a[1], lambda x: None)
        return ret(st)
    if nm == 'capacity': return ret(st, s.len)
    if nm == 'clear': vec_set(e, st, p, S.EMPTY); return ret(st)
    if nm == 'pop_back':
        e.oblige(st, T.ne(s.len, Z64), 'pop_back on empty vector', 'memory')
        vec_set(e, st, p, S.slice_(s, Z64, T.addc(s.len, -1), st)); return ret(st)
    if nm in ('push_back', 'emplace_back'):
        v = e.load(st, a[1], irparse.I8)
        if nm == 'emplace_back' and 'int' in tmpl: raise Unsupported('emplace_back conversion')
        vec_set(e, st, p, S.concat([s, S.bytes_([v])], st)); return ret(st)
    if nm == 'operator=':
        if args.startswith('(std::initializer_list'): vec_set(e, st, p, e.read_seq(st, a[1], a[2]))
        else:
            t = vec_get(e, st, a[1])
            vec_set(e, st, p, t)
            if '&&' in args and a[1] != p: vec_set(e, st, a[1], S.EMPTY)
        return ret(st, p)
    if nm == 'resize':
        v = T.bv(0, 8) if args.startswith('(unsigned long)') else e.load(st, a[2], irparse.I8)
        return resize(e, st, s, a[1], v, lambda x, q: vec_set(e, x, p, q))
    if nm == 'swap':
        t = vec_get(e, st, a[1]); vec_set(e, st, p, t); vec_set(e, st, a[1], s); return ret(st)
    if nm == 'assign':
        if args.startswith('(unsigned long,'):
            v = e.load(st, a[2], irparse.I8)
            return sized(e, st, a[1], lambda x: vec_set(e, x, p, S.fill(v, a[1])))
        if args.startswith('(std::initializer_list'): vec_set(e, st, p, e.read_seq(st, a[1], a[2])); return ret(st)
        if 'istreambuf_iterator' in tmpl: vec_set(e, st, p, stream_rest(e, st, a[1])); return ret(st)
        if bytes_iter(tmpl): vec_set(e, st, p, e.read_seq(st, a[1], T.sub(a[2].off, a[1].off))); return ret(st)
    if nm == 'insert':
        pos = a[1].off
        if tmpl and bytes_iter(tmpl): x = e.read_seq(st, a[2], T.sub(a[3].off, a[2].off))
        elif 'unsigned long, ' in args: x = S.fill(e.load(st, a[3], irparse.I8), a[2])
        elif not tmpl and len(a) == 3: x = S.bytes_([e.load(st, a[2], irparse.I8)])
        else: raise Unsupported('vector insert ' + d)
        r = S.concat([S.slice_(s, Z64, pos, st), x, S.slice_(s, pos, T.sub(s.len, pos), st)], st)
        vec_set(e, st, p, r)
        return ret(st, Ptr(vec_cells(e, st, p).obj, pos))
    if nm == 'erase':
        if len(a) == 3: x, y = a[1].off, a[2].off
        else: x, y = a[1].off, T.addc(a[1].off, 1)
        vec_set(e, st, p, S.concat([S.slice_(s, Z64, x, st), S.slice_(s, y, T.sub(s.len, y), st)], st))
        return ret(st, Ptr(a[1].obj, x))
    raise Unsupported('vector method ' + d)

# ------------------------------------------------------------------ streams
def vt(e, st):
    """synthetic vtable with all virtual-base offsets zero"""
    if e.streamvt is None:
        i = e.newid()
        o = Obj(C64(64), 'stream vtable')
        for k in range(0, 64, 8): o.cells[k] = (8, Z64)
        o.const = True
        e.gobjs[i] = o; e.globs_ids[i] = '$streamvt'
        e.streamvt = i
    return Ptr(e.streamvt, C64(32))
Engine.streamvt = None

def stream_init(e, st, p, content=None, out=None, kind='mem'):
    i = p.obj
    w = st.wobj(i)
    if not T.isc(p.off): raise Unsupported('stream at symbolic offset')
    off = p.off.val
    w.cells[off] = (8, vt(e, st))
    w.attrs[('s', off, 'kind')] = kind
    w.attrs[('s', off, 'content')] = content if content is not None else S.EMPTY
    w.attrs[('s', off, 'pos')] = Z64
    w.attrs[('s', off, 'out')] = out if out is not None else S.EMPTY
    for k in ('eof', 'fail', 'bad'): w.attrs[('s', off, k)] = T.FALSE
    w.attrs[('s', off, 'gcount')] = Z64
    for k in ('lost', 'pending'): w.attrs[('s', off, k)] = T.FALSE
class Stream:
    def __init__(self, e, st, p):
        self.e = e; self.st = st; self.i = p.obj; self.p = p
        if not T.isc(p.off): raise Unsupported('stream at symbolic offset')
        o = st.obj(p.obj)
        off = p.off.val
        while ('s', off, 'kind') not in o.attrs:
            # members of a larger stream object (virtual base at offset 0 by construction)
            if off == 0: raise Unsupported('not a stream: %s' % o.name)
            off -= 8
        self.off = off
        self.id = (self.i, off)
    def __getitem__(self, k): return self.st.obj(self.i).attrs[('s', self.off, k)]
    def __setitem__(self, k, v): self.st.wobj(self.i).attrs[('s', self.off, k)] = v
    def good(self): return T.not_(T.bor(self['eof'], self['fail'], self['bad']))
    def on(self, st): return Stream(self.e, st, self.p)

def stream_rest(e, st, bufp):
    """all remaining characters, consumed through istreambuf_iterator"""
    s = Stream(e, st, bufp)
    r = S.slice_(s['content'], s['pos'], T.sub(s['content'].len, s['pos']), st)
    s['pos'] = s['content'].len
    return r

def split(st, c):
    """-> [(state, bool)] for a condition"""
    d = st.decide(c)
    if d is not None:
        st.assume(c if d else T.not_(c))
        return [(st, d)]
    s2 = st.copy()
    st.assume(c); s2.assume(T.not_(c))
    return [(st, True), (s2, False)]

@model(r'^std::(basic_)?(istream|ios|basic_ios|iostream)(<.*?>)?::(good|eof|fail|bad|operator bool|operator!|rdstate|gcount)\(|^std::basic_ios<.*>::(good|eof|fail|bad|operator bool|operator!|rdstate)|^std::basic_istream<.*>::gcount')
def m_flags(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    nm = re.search(r'::(good|eof|fail|bad|operator bool|operator!|rdstate|gcount)', d).group(1)
    s = Stream(e, st, a[0])
    if nm == 'good': return ret(st, b2i(s.good()))
    if nm == 'eof': return ret(st, b2i(s['eof']))
    if nm == 'bad': return ret(st, b2i(s['bad']))
    if nm == 'gcount': return ret(st, s['gcount'])
    f = T.bor(s['fail'], s['bad'])
    if nm == 'rdstate':
        return ret(st, T.concat_lo([b2i(s['bad']), b2i(s['eof']), b2i(s['fail']), T.bv(0, 29)]))
    if nm in ('fail', 'operator!'): return ret(st, b2i(f))
    return ret(st, b2i(T.not_(f)))
@model(r'^std::basic_ios<.*>::(clear|setstate)\(')
def m_clear(e, st, a, ins):
    s = Stream(e, st, a[0])
    v = a[1]
    bits = [i2b(T.extract(v, k, k)) for k in range(3)]
    add = 'setstate' in irparse.demangle(ins.x['callee'][1])
    for k, b in zip(('bad', 'eof', 'fail'), bits): s[k] = T.bor(s[k], b) if add else b
    return ret(st)
@model(r'^std::basic_ios<.*>::(exceptions)\(')
def m_exceptions(e, st, a, ins):
    raise Unsupported('stream exceptions')
@model(r'^std::(basic_ios|basic_istream|basic_ostream|basic_stringstream|basic_ifstream|basic_ofstream)<.*>::rdbuf\(')
def m_rdbuf(e, st, a, ins):
    s = Stream(e, st, a[0])
    try: return ret(st, s['buf'])
    except KeyError: return ret(st, Ptr(s.i, C64(s.off)))

def stream_read(e, st, s, n):
    """contract of reading n characters at once: -> [(state, data Seq, full?)]"""
    s = s.on(st)
    e.hook_read(st, s)
    c = s['content']; pos = s['pos']
    avail = T.sub(c.len, pos)
    res = []
    for st2, full in split(st, T.ule(n, avail)):
        s2 = s.on(st2)
        if full:
            data = S.slice_(c, pos, n, st2)
            s2['pos'] = T.add(pos, n)
        else:
            data = S.slice_(c, pos, st2.unique(avail) if e.uniq else avail, st2)
            s2['pos'] = c.len
        res.append((st2, data, full))
    return res
def _hook(self, st, s): pass
Engine.hook_read = _hook

def vcall(e, st, obj, slot, args):
    fn = e.load(st, Ptr(obj.obj, obj.off), PTRT)
    f = e.load(st, Ptr(fn.obj, T.addc(fn.off, 8 * slot)), PTRT)
    if not isinstance(f, Fn): raise Unsupported('virtual call')
    return e.call(st, f.name, [obj] + list(args))
PTRT = irparse.PTR if hasattr(irparse, 'PTR') else irparse.Ptr()
SEEKOFF, SEEKPOS, SYNC, UNDERFLOW, OVERFLOW = 4, 5, 6, 9, 13
def sbf(e, st, b, k): return e.load(st, Ptr(b.obj, T.addc(b.off, 8 + 8 * k)), PTRT)      # eback gptr egptr pbase pptr epptr
def sbset(e, st, b, k, v): e.rawstore(st, Ptr(b.obj, T.addc(b.off, 8 + 8 * k)), 8, v)
def thrown_in_stream(e, o, s): raise Unsupported('exception inside a stream buffer')
@model(r'^std::basic_istream<.*>::basic_istream\(std::basic_streambuf|^std::basic_ostream<.*>::basic_ostream\(std::basic_streambuf', True)
def m_bufstream(e, st, a, ins):
    p = a[0]
    off = p.off.val
    stream_init(e, st, p, kind='buf')
    st.wobj(p.obj).attrs[('s', off, 'buf')] = a[1] if len(a) == 2 else a[-1]
    return ret(st)
@model(r'^std::basic_streambuf<.*>::basic_streambuf\(\)', True)
def m_sbctor(e, st, a, ins):
    for k in range(6): e.rawstore(st, Ptr(a[0].obj, T.addc(a[0].off, 8 + 8 * k)), 8, Ptr(0, Z64))
    return ret(st)
@model(r'^std::basic_streambuf<.*>::~basic_streambuf\(\)')
def m_sbdtor(e, st, a, ins): return ret(st)
SBF = dict(eback=0, gptr=1, egptr=2, pbase=3, pptr=4, epptr=5)
@model(r'^std::basic_streambuf<.*>::(eback|gptr|egptr|pbase|pptr|epptr)\(\) const')
def m_sbget(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    return ret(st, sbf(e, st, a[0], SBF[re.search(r'::(\w+)\(\) const', d).group(1)]))
@model(r'^std::basic_streambuf<.*>::setg\(')
def m_setg(e, st, a, ins):
    for k in range(3): sbset(e, st, a[0], k, a[1 + k])
    return ret(st)
@model(r'^std::basic_streambuf<.*>::setp\(')
def m_setp(e, st, a, ins):
    sbset(e, st, a[0], 3, a[1]); sbset(e, st, a[0], 4, a[1]); sbset(e, st, a[0], 5, a[2])
    return ret(st)
@model(r'^std::basic_streambuf<.*>::(gbump|pbump)\(')
def m_bump(e, st, a, ins):
    k = 1 if '::gbump' in irparse.demangle(ins.x['callee'][1]) else 4
    p = sbf(e, st, a[0], k)
    sbset(e, st, a[0], k, Ptr(p.obj, T.add(p.off, T.sext(a[1], 64))))
    return ret(st)
@model(r'^std::basic_streambuf<.*>::(underflow|uflow|overflow|pbackfail)\(', True)
def m_sbdefault(e, st, a, ins): return ret(st, T.bv(-1, 32))
@model(r'^std::basic_streambuf<.*>::sync\(', True)
def m_sbsync(e, st, a, ins): return ret(st, T.bv(0, 32))
@model(r'^std::basic_streambuf<.*>::seek(off|pos)\(', True)
def m_sbseek(e, st, a, ins): return ret(st, Agg([T.bv(-1, 64), Z64]))
def buf_read(e, st, p, b, n):
    """xsgetn on a get area: -> [(state, data)]"""
    g = sbf(e, st, b, 1); h = sbf(e, st, b, 2)
    if not isinstance(g, Ptr) or not isinstance(h, Ptr) or g.obj != h.obj: raise Unsupported('get area')
    avail = T.sub(h.off, g.off)
    outs = []
    for st1, full in split(st, T.ule(n, avail)):
        m = n if full else avail
        data = e.read_seq(st1, g, m) if g.obj else S.EMPTY
        sbset(e, st1, b, 1, Ptr(g.obj, T.add(g.off, m)))
        if full: outs.append((st1, data, True)); continue
        for o in vcall(e, st1, b, UNDERFLOW, []):
            if o[0] != 'ret': raise Unsupported('exception inside a stream buffer')
            if o[1].decide(T.eq(o[2], T.bv(-1, 32))) is not True: raise Unsupported('refilled stream buffer')
            outs.append((o[1], data, False))
    return outs
def buf_write(e, st, p, data):
    b = Stream(e, st, p)['buf']
    g = sbf(e, st, b, 4); h = sbf(e, st, b, 5)
    outs = []
    if not isinstance(g, Ptr) or not isinstance(h, Ptr) or g.obj != h.obj: raise Unsupported('put area')
    for st1, fits in split(st, T.ule(data.len, T.sub(h.off, g.off))):
        if not fits: raise Unsupported('overflow of a stream buffer')
        if g.obj: e.write_seq(st1, g, data)
        sbset(e, st1, b, 4, Ptr(g.obj, T.add(g.off, data.len)))
        outs += ret(st1, p)
    return outs

@model(r'^std::basic_istream<.*>::read\(')
def m_read(e, st, a, ins):
    outs = []
    if Stream(e, st, a[0])['kind'] == 'buf':
        for st1, g in split(st, Stream(e, st, a[0]).good()):
            s = Stream(e, st1, a[0])
            if not g:
                s['fail'] = T.TRUE; s['gcount'] = Z64; outs += ret(st1, a[0]); continue
            for st2, data, full in buf_read(e, st1, a[0], s['buf'], a[2]):
                s2 = s.on(st2)
                if not full: s2['eof'] = T.TRUE; s2['fail'] = T.TRUE
                s2['gcount'] = data.len
                e.write_seq(st2, a[1], data)
                outs += ret(st2, a[0])
        return outs
    for st1, g in split(st, Stream(e, st, a[0]).good()):
        s = Stream(e, st1, a[0])
        if not g:
            s['fail'] = T.TRUE; s['gcount'] = Z64; outs += ret(st1, a[0]); continue
        for st2, data, full in stream_read(e, st1, s, a[2]):
            s2 = s.on(st2)
            if not full: s2['eof'] = T.TRUE; s2['fail'] = T.TRUE
            s2['gcount'] = data.len
            e.write_seq(st2, a[1], data)
            outs += ret(st2, a[0])
    return outs
@model(r'^std::basic_istream<.*>::readsome\(')
def m_readsome(e, st, a, ins): raise Unsupported('readsome')
@model(r'^std::basic_istream<.*>::(get|peek)\(\)')
def m_get(e, st, a, ins):
    peek = '::peek' in irparse.demangle(ins.x['callee'][1])
    outs = []
    for st1, g in split(st, Stream(e, st, a[0]).good()):
        s = Stream(e, st1, a[0])
        s['gcount'] = Z64
        if not g:
            s['fail'] = T.TRUE; outs += ret(st1, T.bv(-1, 32)); continue
        e.hook_read(st1, s)
        inside = T.ult(s['pos'], s['content'].len)
        if ('s', a[0].off.val, 'noeof') in st1.obj(a[0].obj).attrs:
            # the caller of the loop has split on whether the data suffices: proved here, not assumed
            e.oblige(st1, inside, 'the data suffices', 'assert'); cases = [(st1, True)]
        else: cases = split(st1, inside)
        for st2, ok in cases:
            s2 = s.on(st2)
            if ok:
                v = S.at(s2['content'], s2['pos'], st2)
                if not peek: s2['pos'] = T.addc(s2['pos'], 1); s2['gcount'] = C64(1)
                outs += ret(st2, T.zext(v, 32))
            else:
                s2['eof'] = T.TRUE
                if not peek: s2['fail'] = T.TRUE
                outs += ret(st2, T.bv(-1, 32))
    return outs
@model(r'^std::basic_istream<.*>::tellg\(\)')
def m_tellg(e, st, a, ins):
    s = Stream(e, st, a[0])
    if s['kind'] == 'buf':
        outs = []
        for st1, bad in split(st, T.bor(s['fail'], s['bad'])):
            if bad: outs += ret(st1, Agg([T.bv(-1, 64), Z64])); continue
            for o in vcall(e, st1, s['buf'], SEEKOFF, [Z64, C32(1), C32(8)]):
                if o[0] != 'ret': raise Unsupported('exception inside a stream buffer')
                outs.append(o)
        return outs
    # fpos is returned as {i64, state}
    f = T.bor(s['fail'], s['bad'])
    v = T.ite(f, T.bv(-1, 64), s['pos'])
    return ret(st, Agg([v, Z64]))
@model(r'^std::basic_istream<.*>::seekg\(')
def m_seekg(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    s = Stream(e, st, a[0])
    c = s['content']
    outs = []
    s['eof'] = T.FALSE
    if s['kind'] == 'buf':
        for st1, bad in split(st, T.bor(s['fail'], s['bad'])):
            if bad: outs += ret(st1, a[0]); continue
            if '_Ios_Seekdir' in d: rs = vcall(e, st1, s['buf'], SEEKOFF, [a[1], a[2], C32(8)])
            else: rs = vcall(e, st1, s['buf'], SEEKPOS, [a[1], a[2] if len(a) > 2 else Z64, C32(8)])
            for o in rs:
                if o[0] != 'ret': raise Unsupported('exception inside a stream buffer')
                v = o[2].v[0] if isinstance(o[2], Agg) else o[2]
                for st2, f in split(o[1], T.eq(v, T.bv(-1, 64))):
                    if f: s.on(st2)['fail'] = T.TRUE
                    outs += ret(st2, a[0])
        return outs
    for st1, bad in split(st, T.bor(s['fail'], s['bad'])):
        s1 = s.on(st1)
        if bad: outs += ret(st1, a[0]); continue
        if 'fpos' in d or len(a) < 3 or (len(a) == 3 and '_Ios_Seekdir' not in d):
            t = a[1]
        else:
            w = a[2]
            if not T.isc(w): raise Unsupported('seek direction')
            t = a[1] if w.val == 0 else T.add(s1['pos'], a[1]) if w.val == 1 else T.add(c.len, a[1])
        for st2, ok in split(st1, T.ule(t, c.len)):
            s2 = s.on(st2)
            if ok: s2['pos'] = t
            else: s2['fail'] = T.TRUE
            outs += ret(st2, a[0])
    return outs

def stream_write(e, st, p, data):
    """contract of an ostream inserting data: appended when good; the sink may fail when e.sink_fails"""
    outs = []
    for st1, g in split(st, Stream(e, st, p).good()):
        s = Stream(e, st1, p)
        if not g:
            s['bad'] = T.TRUE; s['lost'] = T.TRUE; outs += ret(st1, p); continue
        if s['kind'] == 'buf':
            outs += buf_write(e, st1, p, data); continue
        if e.sink_fails and (s['kind'] == 'file' or e.sink_fails == 'all'):
            f = T.fresh('sinkfail', 0)
            st2 = st1.copy(); st2.assume(f)
            s2 = s.on(st2); s2['bad'] = T.TRUE
            s2['lost'] = T.TRUE; s2.st.g['lost'] = T.TRUE
            outs += ret(st2, p)
            st1.assume(T.not_(f))
        s = s.on(st1)
        if s['kind'] == 'file': s['pending'] = T.TRUE      # may still be in the buffer
        s['out'] = S.concat([s['out'], data], st1)
        if s['kind'] == 'both': s['content'] = S.concat([s['content'], data], st1)
        outs += ret(st1, p)
    return outs
Engine.sink_fails = False
@model(r'^std::basic_ostream<.*>::write\(')
def m_write(e, st, a, ins):
    return stream_write(e, st, a[0], e.read_seq(st, a[1], a[2]))
@model(r'^std::basic_ostream<.*>::put\(')
def m_put(e, st, a, ins):
    return stream_write(e, st, a[0], S.bytes_([a[1]]))
@model(r'^std::basic_ostream<.*>::flush\(')
def m_flush(e, st, a, ins):
    s = Stream(e, st, a[0]); p = a[0]
    if s['kind'] == 'buf':
        outs = []
        for st1, g in split(st, s.good()):
            if not g: outs += ret(st1, p); continue
            for o in vcall(e, st1, Stream(e, st1, p)['buf'], SYNC, []):
                if o[0] == 'throw': Stream(e, o[1], p)['bad'] = T.TRUE; outs += ret(o[1], p); continue
                for st2, bad in split(o[1], T.eq(o[2], T.bv(-1, 32))):
                    if bad: Stream(e, st2, p)['bad'] = T.TRUE
                    outs += ret(st2, p)
        return outs
    if s['kind'] != 'file': return ret(st, p)
    outs = []
    for st1, g in split(st, s.good()):
        if not g: outs += ret(st1, p); continue
        f = T.fresh('flushfail', 0) if e.sink_fails else T.FALSE
        for st2, bad in split(st1, f):
            if bad: Stream(e, st2, p)['bad'] = T.TRUE; Stream(e, st2, p)['lost'] = T.TRUE
            else: Stream(e, st2, p)['pending'] = T.FALSE
            outs += ret(st2, p)
    return outs
@model(r'^std::basic_ostream<.*>& std::operator<< <(std::char_traits<char>|CT)\s*>\(.*, char const\*\)')
def m_inscstr(e, st, a, ins): return stream_write(e, st, a[0], cstr(e, st, a[1]))
@model(r'^std::basic_ostream<.*>& std::operator<< <char, .*(basic_string|std::string)')
def m_insstr(e, st, a, ins): return stream_write(e, st, a[0], str_get(e, st, a[1]))
@model(r'^std::basic_ostream<.*>& std::operator<< <(std::char_traits<char>|CT)\s*>\(.*, (unsigned )?char\)')
def m_inschar(e, st, a, ins): return stream_write(e, st, a[0], S.bytes_([a[1]]))
@model(r'^std::basic_ostream<.*>::operator<<\((unsigned )?(int|long|short|long long)\)')
def m_insint(e, st, a, ins):
    """some decimal digits (only used in messages)"""
    n = T.fresh('ndig', 64); st.assume(T.band(T.ule(C64(1), n), T.ule(n, C64(20))))
    return stream_write(e, st, a[0], S.var(T.fresh_name('digits'), n))
@model(r'^std::basic_(stringstream|istringstream|ostringstream|iostream)<.*>::basic_\w+\(', True)
def m_ss(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    p = a[0]
    if p.obj == 0: raise Dead()
    if '(std::string const&' in d or 'basic_string' in d.split('(', 1)[1]:
        c = str_get(e, st, a[1])
        stream_init(e, st, p, content=c, out=c if 'ostringstream' in d else S.EMPTY, kind='both')
    else: stream_init(e, st, p, kind='both')
    if 'basic_stringstream' in d and T.isc(p.off): st.wobj(p.obj).cells[p.off.val + 16] = (8, vt(e, st))      # the ostream part
    return ret(st)
@model(r'^std::basic_\w*(stringstream|istream|ostream|ifstream|ofstream|ios|streambuf|fstream|iostream)<.*>::~basic_')
def m_sdtor(e, st, a, ins): return ret(st)
@model(r'^std::basic_(stringstream|istringstream|ostringstream)<.*>::str\(\) const')
def m_ssstr(e, st, a, ins):
    s = Stream(e, st, a[1])
    str_init(e, st, a[0], s['content'] if s['kind'] == 'both' else s['out'])
    return ret(st)
@model(r'^std::basic_(stringstream|istringstream|ostringstream)<.*>::str\((std::string|std::basic_string)')
def m_ssset(e, st, a, ins):
    s = Stream(e, st, a[0])
    s['content'] = str_get(e, st, a[1]); s['pos'] = Z64
    return ret(st)
@model(r'^std::ios_base::ios_base|^std::basic_ios<.*>::(basic_ios|init)\(|^std::ios_base::~')
def m_ios(e, st, a, ins): return ret(st)
@model(r'^std::basic_[io]fstream<.*>::(is_open|close|open)\(')
def m_isopen(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    s = Stream(e, st, a[0])
    if 'is_open' in d: return ret(st, b2i(s['open']))
    if 'close' in d: return ret(st)
    raise Unsupported('fstream open')
@model(r'^std::basic_(i|o)fstream<.*>::basic_[io]fstream\(')
def m_fstream(e, st, a, ins):
    d = irparse.demangle(ins.x['callee'][1])
    return e.fs_open(st, a, 'in' if 'basic_ifstream' in d else 'out', d)
def _fs(self, st, a, mode, d):
    raise Unsupported('file access')
Engine.fs_open = _fs
@model(r'^std::ctype<char>|^std::locale')
def m_loc2(e, st, a, ins): raise Unsupported('locale')

# ------------------------------------------------------------------ crypto primitives
def sha256(e, st, s):
    """SHA-256 as an uninterpreted function of the byte string"""
    if T.isc(s.len) and s.len.val <= 512:
        if s.len.val == 0: return T.var('SHA256_empty', 256)
        return T.uf('SHA256_%d' % s.len.val, (T.concat_lo([S.at(s, C64(k), st) for k in range(s.len.val)]),), 256)
    for s2, t in _sha:
        if s2 == s: return t
    for s2, t in _sha:
        if st is not None and st.prove(S.eq_goal(s, s2, st)): return t
    t = T.fresh('SHA256', 256)
    _sha.append((s, t))
    return t
_sha = []
@model(r'^SHA256_Init$')
def m_shainit(e, st, a, ins):
    st.setattr(a[0].obj, ('sha', okey(a[0])), S.EMPTY)
    return ret(st, C32(1))
def okey(p):
    if not T.isc(p.off): raise Unsupported('context at symbolic offset')
    return p.off.val
@model(r'^SHA256_Update$')
def m_shaupd(e, st, a, ins):
    k = ('sha', okey(a[0]))
    s = st.attr(a[0].obj, k)
    if s is None:
        e.oblige(st, T.FALSE, 'SHA256_Update without SHA256_Init', 'protocol'); raise Dead()
    st.setattr(a[0].obj, k, S.concat([s, e.read_seq(st, a[1], a[2])], st))
    return ret(st, C32(1))
@model(r'^SHA256_Final$')
def m_shafin(e, st, a, ins):
    k = ('sha', okey(a[1]))
    s = st.attr(a[1].obj, k)
    if s is None:
        e.oblige(st, T.FALSE, 'SHA256_Final without SHA256_Init', 'protocol'); raise Dead()
    e.write_seq(st, a[0], S.of_term(sha256(e, st, s)))
    return ret(st, C32(1))
@model(r'^AES_set_(en|de)crypt_key$')
def m_aeskey(e, st, a, ins):
    kind = 'E' if 'encrypt' in ins.x['callee'][1] else 'D'
    e.oblige(st, T.eq(a[1], C32(256)), 'AES-256 key length', 'protocol')
    k = e.read_seq(st, a[0], 32)
    e.memset(st, a[2], T.bv(0, 8), C64(244))
    st.setattr(a[2].obj, ('aes', okey(a[2])), (kind, k))
    return ret(st, C32(0))
def pack(s, n, st): return T.concat_lo([S.at(s, C64(k), st) for k in range(n)])
def block_uf(kind, key, blk):
    inv = {'AES_E': 'AES_D', 'AES_D': 'AES_E', 'BLK_E': 'BLK_D', 'BLK_D': 'BLK_E'}.get(kind)
    if blk.op == 'uf' and blk.val == inv and blk.args[0] is key: return blk.args[1]
    return T.uf(kind, (key, blk), blk.w)
@model(r'^AES_(en|de)crypt$')
def m_aes(e, st, a, ins):
    kind = 'E' if 'encrypt' in ins.x['callee'][1] else 'D'
    v = st.attr(a[2].obj, ('aes', okey(a[2])))
    blk = pack(e.read_seq(st, a[0], 16), 16, st)
    if v is None or v[0] != kind:
        t = T.uf('AES_misused_' + kind, (blk,), 128)
    else: t = block_uf('AES_' + kind, pack(v[1], 32, st), blk)
    e.write_seq(st, a[1], S.of_term(t))
    return ret(st)

# ------------------------------------------------------------------ shared_ptr reference counts
@model(r'^__gthread_active_p|^std::__is_single_threaded|^__libc_single_threaded', True)
def m_single(e, st, a, ins): return ret(st, C32(0) if ins.ty.n == 32 else T.bv(1, ins.ty.n))
@model(r'^std::_Sp_counted_base<.*>::_M_(release|release_last_use|release_last_use_cold|weak_release|add_ref_copy|weak_add_ref|add_ref_lock)\(', True)
def m_spcount(e, st, a, ins): return ret(st)
@model(r'^std::_Sp_counted_base<.*>::_M_(add_ref_lock_nothrow)\(', True)
def m_splock(e, st, a, ins): return ret(st, T.bv(1, 1))
@model(r'^std::_Sp_counted_base<.*>::_M_get_use_count\(', True)
def m_spuse(e, st, a, ins): return ret(st, T.bv(1, 64))

# ------------------------------------------------------------------ verifier intrinsics for harnesses
@model(r'^vf_(u8|u16|u32|u64|i64|bool)$')
def m_vf_u(e, st, a, ins):
    nm = ins.x['callee'][1]
    w = {'vf_u8': 8, 'vf_u16': 16, 'vf_u32': 32, 'vf_u64': 64, 'vf_i64': 64, 'vf_bool': 1}[nm]
    lab = cstr_const(e, st, a[0])
    if w == 1: return ret(st, b2i(T.var('in_' + lab, 0)))
    return ret(st, T.var('in_' + lab, w))
@model(r'^vf_assume$')
def m_vf_assume(e, st, a, ins):
    c = i2b(a[0])
    if st.decide(c) is False: return []
    st.assume(c)
    return ret(st)
@model(r'^vf_assert$')
def m_vf_assert(e, st, a, ins):
    e.oblige(st, i2b(a[0]), cstr_const(e, st, a[1]))
    return ret(st)
@model(r'^vf_bytes$')
def m_vf_bytes(e, st, a, ins):
    """fill [p, p+n) with symbolic bytes"""
    lab = cstr_const(e, st, a[2])
    n = a[1]
    if T.isc(n) and n.val <= 4096: d = S.bytes_([T.var('in_%s_%d' % (lab, k), 8) for k in range(n.val)])
    else: d = S.var('in_' + lab, n)
    e.write_seq(st, a[0], d)
    return ret(st)
def symseq(st, lab):
    n = getattr(st.eng, 'lens', {}).get(lab)
    if n is None: n = T.var('in_%s_len' % lab, 64)
    st.assume(T.ult(n, C64(BIG)))
    return S.var('in_' + lab, n)
@model(r'^vf_string$')
def m_vf_string(e, st, a, ins):
    str_set(e, st, a[0], symseq(st, cstr_const(e, st, a[1]))); return ret(st)
@model(r'^vf_vector$')
def m_vf_vector(e, st, a, ins):
    vec_set(e, st, a[0], symseq(st, cstr_const(e, st, a[1]))); return ret(st)
@model(r'^vf_istream$')
def m_vf_istream(e, st, a, ins):
    """give an existing (modelled) stream symbolic contents"""
    s = Stream(e, st, a[0])
    lab = cstr_const(e, st, a[1])
    s['content'] = symseq(st, lab.rstrip('@')); s['pos'] = Z64
    if lab.endswith('@'):          # already read up to an arbitrary position
        s['pos'] = T.var('in_%s_pos' % lab[:-1], 64); st.assume(T.ule(s['pos'], s['content'].len))
    return ret(st)
@model(r'^vf_split$')
def m_vf_split(e, st, a, ins):
    """keep n bytes of a larger object as a byte array of their own, with symbolic contents"""
    p, n, lab = a[0], a[1].val, cstr_const(e, st, a[2])
    w = st.wobj(p.obj); lo = p.off.val
    e.cut(w, lo, n); w.cells.pop(lo, None)
    i = st.new(n, lab)
    st.wobj(i).seq = S.var('in_' + lab, C64(n))
    w.attrs['split'] = tuple(w.attrs.get('split', ())) + ((lo, lo + n, i),)
    return ret(st)
@model(r'^vf_blk_(e|d)$')
def m_vf_blk(e, st, a, ins):
    kind = 'BLK_E' if ins.x['callee'][1] == 'vf_blk_e' else 'BLK_D'
    t = block_uf(kind, T.var('BLK_KEY', 256), pack(e.read_seq(st, a[0], 16), 16, st))
    e.write_seq(st, a[1], S.of_term(t)); return ret(st)
@model(r'^vf_hook$')
def m_vf_hook(e, st, a, ins):
    lab = cstr_const(e, st, a[0])
    if not e.quiet: e.reached[lab] = e.reached.get(lab, 0) + 1
    r = e.hooks[lab](e, st, *a[1:])
    if r is None: return ret(st)
    return r
@model(r'^vf_end$')
def m_vf_end(e, st, a, ins):
    lab = cstr_const(e, st, a[0])
    if not e.quiet: e.reached[lab] = e.reached.get(lab, 0) + 1
    return ret(st)

# ------------------------------------------------------------------ calendar time
TMF = ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'wday', 'yday', 'isdst')
def tm_terms(kind, t): return {f: T.uf('%s_%s' % (kind, f), (t,), 32) for f in TMF}
def tm_ranges(st, d):
    """the standard guarantees of localtime/gmtime"""
    for f, lo, hi in (('sec', 0, 60), ('min', 0, 59), ('hour', 0, 23), ('mday', 1, 31), ('mon', 0, 11), ('wday', 0, 6), ('yday', 0, 365)):
        st.assume(T.sle(C32(lo), d[f])); st.assume(T.sle(d[f], C32(hi)))
def tm_write(e, st, p, d):
    for k, f in enumerate(TMF): e.rawstore(st, Ptr(p.obj, T.addc(p.off, 4 * k)), 4, d[f])
def tm_read(e, st, p):
    s = e.read_seq(st, p, 36)
    return {f: T.concat_lo([S.at(s, C64(4 * k + j), st) for j in range(4)]) for k, f in enumerate(TMF)}
@model(r'^(localtime|gmtime)(_r)?$')
def m_localtime(e, st, a, ins):
    nm = ins.x['callee'][1]
    kind = 'LT' if nm.startswith('local') else 'GT'
    e.assumptions.add('localtime/gmtime succeed and return fields in their standard ranges')
    t = pack(e.read_seq(st, a[0], 8), 8, st)
    d = tm_terms(kind, t)
    tm_ranges(st, d)
    if nm.endswith('_r'): p = a[1]
    else: p = Ptr(st.new(C64(56), 'tm'), Z64)
    tm_write(e, st, p, d)
    st.g['tm_calls'] = st.g.get('tm_calls', ()) + ((kind, t),)
    return ret(st, p)
@model(r'^(mktime|timegm|timelocal)$')
def m_mktime(e, st, a, ins):
    kind = 'GM' if ins.x['callee'][1] == 'timegm' else 'MK'
    d = tm_read(e, st, a[0])
    args = [d[f] for f in TMF[:6]]
    if kind == 'MK': args.append(d['isdst'])
    r = T.uf(kind, tuple(args), 64)
    # both functions normalise the structure they are given
    for k, f in enumerate(TMF): e.rawstore(st, Ptr(a[0].obj, T.addc(a[0].off, 4 * k)), 4, T.uf('%s_norm_%s' % (kind, f), tuple(args), 32))
    return ret(st, r)
FMT = {'Y': ('year', 4, 1900), 'm': ('mon', 2, 1), 'd': ('mday', 2, 0), 'H': ('hour', 2, 0), 'M': ('min', 2, 0), 'S': ('sec', 2, 0)}
RNG = {'Y': (0, 9999), 'm': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 60)}
def timefmt(f):
    f = f.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S').replace('%D', '%m/%d/%y').replace('%R', '%H:%M')
    out = []; k = 0
    while k < len(f):
        if f[k] == '%':
            c = f[k + 1]
            if c == '%': out.append(('lit', '%'))
            elif c in FMT or c in 'Iy': out.append(('fld', c))
            else: raise Unsupported('time format %' + c)
            k += 2
        else: out.append(('lit', f[k])); k += 1
    return out
def horner(ds):
    v = C32(0)
    for x in ds: v = T.add(T.mulc(v, 10), x)
    return v
@model(r'^strftime$')
def m_strftime(e, st, a, ins):
    fmt = timefmt(cstr_const(e, st, a[2]))
    d = tm_read(e, st, a[3])
    out = []
    for kind, x in fmt:
        if kind == 'lit': out.append(T.bv(ord(x), 8)); continue
        if x == 'I':
            f, n = 'hour', 2; v = T.urem(d['hour'], C32(12)); v = T.ite(T.eq(v, C32(0)), C32(12), v)
        elif x == 'y': n = 2; v = T.urem(d['year'], C32(100))
        else:
            f, n, off = FMT[x]; v = T.add(d[f], C32(off))
        if n == 4:
            e.assumptions.add('dates written as text have a year 1000..9999')
            st.assume(T.ule(C32(1000), v)); st.assume(T.ule(v, C32(9999)))
        ds = [T.uf('digit_%d_%d' % (n, k), (v,), 8) for k in range(n)]     # decimal digits of v, defined by:
        for q in ds: st.assume(T.ule(q, T.bv(9, 8)))
        if n == 4: st.assume(T.ule(T.bv(1, 8), ds[0]))
        st.assume(T.eq(horner([T.zext(q, 32) for q in ds]), v))
        out += [T.addc(q, 48) for q in ds]
    n = len(out)
    ok = T.ult(C64(n), a[1])
    if st.decide(ok) is not True: raise Unsupported('strftime buffer too small')
    e.write_seq(st, a[0], S.bytes_(out + [T.bv(0, 8)]))
    return ret(st, C64(n))
@model(r'^strptime$')
def m_strptime(e, st, a, ins):
    """exact digits of the format: parsed as documented; any other text: unspecified result"""
    f = timefmt(cstr_const(e, st, a[1]))
    s = cstr(e, st, a[0])
    k = 0; ok = []; vals = {}
    n = sum(1 if x[0] == 'lit' else FMT.get(x[1], (0, 2))[1] for x in f)
    for kind, x in f:
        if kind == 'lit':
            ok.append(T.eq(S.at(s, C64(k), st), T.bv(ord(x), 8))); k += 1
        else:
            if x not in FMT: raise Unsupported('strptime %' + x)
            w = FMT[x][1]
            ch = [S.at(s, C64(k + j), st) for j in range(w)]
            ok += [in_range(q, 48, 57) for q in ch]
            v = horner([T.zext(T.addc(q, -48), 32) for q in ch])
            ok += [T.ule(C32(RNG[x][0]), v), T.ule(v, C32(RNG[x][1]))]
            vals[x] = v; k += w
    good = T.band(T.ule(C64(n), s.len), *ok)
    outs = []
    d = st.decide(good)
    def setf(st, vals):
        for x, v in vals.items():
            nm, w, off = FMT[x]
            e.rawstore(st, Ptr(a[2].obj, T.addc(a[2].off, 4 * TMF.index(nm))), 4, T.sub(v, C32(off)))
        for nm in ('wday', 'yday'): e.rawstore(st, Ptr(a[2].obj, T.addc(a[2].off, 4 * TMF.index(nm))), 4, T.fresh('any!' + nm, 32))
    if d is not False:
        s1 = st if d is True else st.copy()
        s1.assume(good); setf(s1, vals)
        s1.g['strptime'] = C64(n)
        outs += ret(s1, Ptr(a[0].obj, T.addc(a[0].off, n)))
    if d is not True:
        s1 = st.copy(); s1.assume(T.not_(good)); s1.g['strptime'] = None
        for nm in TMF: 
            if nm != 'isdst': e.rawstore(s1, Ptr(a[2].obj, T.addc(a[2].off, 4 * TMF.index(nm))), 4, T.fresh('sp_' + nm, 32))
        outs += ret(s1, Ptr(0, Z64))
        s1 = st.copy(); s1.assume(T.not_(good))
        end = T.fresh('sp_end', 64); s1.assume(T.ule(end, s.len))
        setf(s1, {x: T.fresh('sp_' + x, 32) for x in vals})
        s1.g['strptime'] = end
        outs += ret(s1, Ptr(a[0].obj, T.add(a[0].off, end)))
    return outs

# ------------------------------------------------------------------ text to number
@model(r'^(__isoc23_)?(strtol|strtoul|strtoll|strtoull)$')
def m_strtol(e, st, a, ins):
    """digits only: the exact value; any other text: an unspecified value and end"""
    s = cstr(e, st, a[0])
    base = a[2]
    if not T.isc(base) or base.val not in (10, 16): raise Unsupported('strtol base')
    n = s.len.val if T.isc(s.len) else None
    outs = []
    def end(st, off):
        if a[1].obj: e.rawstore(st, a[1], 8, Ptr(a[0].obj, T.add(a[0].off, off)))
    def isd(c):
        r = in_range(c, 48, 57)
        return r if base.val == 10 else T.bor(r, in_range(c, 65, 70), in_range(c, 97, 102))
    if n is not None and 0 < n <= 8:
        ds = [S.at(s, C64(k), st) for k in range(n)]
        good = T.band(*[isd(c) for c in ds])
        for s2, d in split(st, good):
            if d:
                v = Z64
                for c in ds:
                    dv = T.addc(c, -48)
                    if base.val == 16: dv = T.ite(T.uge(c, T.bv(97, 8)), T.addc(c, -87), T.ite(T.uge(c, T.bv(65, 8)), T.addc(c, -55), dv))
                    v = T.add(T.mulc(v, base.val), T.zext(dv, 64))
                end(s2, C64(n)); outs += ret(s2, v)
            else:
                x = T.fresh('any!strtolend', 64); s2.assume(T.ule(x, s.len))
                end(s2, x); outs += ret(s2, T.fresh('any!strtol', 64))
        return outs
    x = T.fresh('any!strtolend', 64); st.assume(T.ule(x, s.len))
    end(st, x)
    return ret(st, T.fresh('any!strtol', 64))

# ------------------------------------------------------------------ characters straight from a stream buffer
@model(r'^std::basic_streambuf<char, .*>::(sgetc|sbumpc|snextc)\(\)$', True)
def m_sgetc(e, st, a, ins):
    nm = re.search(r'::(sgetc|sbumpc|snextc)', irparse.demangle(ins.x['callee'][1])).group(1)
    s = Stream(e, st, a[0])
    c = s['content']; p = s['pos']
    here = T.ult(p, c.len)
    if nm == 'snextc':
        s['pos'] = p = T.ite(here, T.addc(p, 1), p); here = T.ult(p, c.len)
    v = T.ite(here, T.zext(S.at(c, p, st), 32), T.bv(-1, 32))
    if nm == 'sbumpc':
        d = st.decide(here)
        s['pos'] = T.addc(p, 1) if d is True else p if d is False else T.ite(here, T.addc(p, 1), p)
    return ret(st, v)
@model(r'^std::basic_streambuf<char, .*>::(sputc\(char\)|sputn\(char const\*, long\))$', True)
def m_sputc(e, st, a, ins):
    """characters straight into a stream's own buffer (a memory stream: cannot fail)"""
    s = Stream(e, st, a[0])
    if s['kind'] != 'both': raise Unsupported('sputc on a file')
    one = 'sputc' in irparse.demangle(ins.x['callee'][1])
    data = S.bytes_([a[1]]) if one else e.read_seq(st, a[1], a[2])
    s['out'] = S.concat([s['out'], data], st); s['content'] = S.concat([s['content'], data], st)
    return ret(st, T.zext(a[1], 32) if one else a[2])
