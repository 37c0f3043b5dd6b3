"""Parser for the textual LLVM IR (clang 18, opaque pointers) that llvc executes."""
import re, subprocess

TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\.)*")|
 (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))|
 (?P<attr>\#\d+)|
 (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[KLMHR]?[0-9a-fA-F]+)|
 (?P<qs>"[^"]*")|
 (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|
 (?P<dots>\.\.\.)|
 (?P<sym>[\[\]{}()<>,=*:|])
)''', re.X)

def unq(s):
    return s[2:-1] if s[1] == '"' else s[1:]

class Toks:
    def __init__(self, s):
        self.t = []
        pos = 0
        n = len(s)
        while pos < n:
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == '': break
                raise SyntaxError('lex: %r' % s[pos:pos + 60])
            pos = m.end()
            k = m.lastgroup
            self.t.append((k, m.group(k)))
        self.i = 0
    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        r = self.t[self.i][1]; self.i += 1
        return r
    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        r = self.next()
        if r != s: raise SyntaxError('expected %s got %s in %r' % (s, r, self.t))

class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', 'name', 'mod', '_size', '_al', '_offs')
    def __init__(self, k, **kw):
        self.k = k; self.n = 0; self.el = None; self.els = None; self.packed = False; self.name = None
        self.mod = None; self._size = None; self._al = None; self._offs = None
        for a, v in kw.items(): setattr(self, a, v)
    def __repr__(self):
        return {'int': 'i%d' % self.n, 'ptr': 'ptr', 'void': 'void'}.get(self.k) or \
            (self.name if self.k == 'named' else '%s(%s)' % (self.k, self.els or self.el))
    def res(self):
        t = self
        while t.k == 'named': t = t.mod.types[t.name]
        return t
    def layout(self):
        t = self.res()
        if t._size is None:
            if t.k == 'int':
                b = (t.n + 7) // 8
                a = 1
                while a < b and a < 8: a *= 2
                if b > 8: a = 16
                t._size = (b + a - 1) // a * a; t._al = a
            elif t.k == 'ptr': t._size = t._al = 8
            elif t.k == 'float': t._size = t._al = t.n
            elif t.k == 'arr':
                s, a = t.el.layout(); t._size = s * t.n; t._al = a
            elif t.k == 'vec':
                s, a = t.el.layout(); t._size = s * t.n; t._al = t._size
            elif t.k == 'struct':
                off = 0; al = 1; offs = []
                for e in t.els:
                    s, a = e.layout()
                    if t.packed: a = 1
                    off = (off + a - 1) // a * a
                    offs.append(off)
                    off += s
                    al = max(al, a)
                t._offs = offs
                t._size = (off + al - 1) // al * al; t._al = al
            elif t.k in ('opaque', 'fn', 'void'):
                t._size = 0; t._al = 1
            else: raise SyntaxError('layout ' + t.k)
        return t._size, t._al
    def size(self): return self.layout()[0]
    def offsets(self):
        t = self.res(); t.layout(); return t._offs

I1 = Ty('int', n=1); I8 = Ty('int', n=8); I32 = Ty('int', n=32); I64 = Ty('int', n=64)
PTR = Ty('ptr'); VOID = Ty('void')
_ints = {}
def inty(n):
    if n not in _ints: _ints[n] = Ty('int', n=n)
    return _ints[n]

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
    'signext', 'zeroext', 'inreg', 'immarg', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'nofree', 'allocptr', 'allocalign', 'inrange', 'noinline'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
    'preallocated', 'inalloca', 'memory', 'captures', 'nofpclass', 'range'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
    'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
    'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'constant', 'global'}
FMF = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'inbounds', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'addrspacecast'}

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'idx', 'blk')
    def __init__(self, op, res, ty=None, a=(), x=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.dbg = None
    def __repr__(self):
        return '%s = %s %s %s %s' % (self.res, self.op, self.ty, self.a, self.x)

class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ', 'pred', 'loop', 'idx')
    def __init__(self, name):
        self.name = name; self.ins = []; self.phis = []; self.loop = None

class Func:
    def __init__(self, mod, name, ret, params, header):
        self.mod = mod; self.name = name; self.ret = ret; self.params = params; self.lines = None
        self._blocks = None; self.header = header; self.varargs = False
    @property
    def blocks(self):
        if self._blocks is None: self.mod.parse_body(self)
        return self._blocks
    def dem(self):
        return demangle(self.name)

class Loop:
    def __init__(self, head):
        self.head = head; self.blocks = set(); self.latches = []; self.parent = None; self.exits = []

class Mod:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.meta = {}; self.src = {}; self.aliases = {}

    # ------------------------------------------------------------ types
    def ty(self, t):
        k = t.kind(); s = t.next()
        if s[0] == 'i' and s[1:].isdigit(): r = inty(int(s[1:]))
        elif s == 'ptr': r = PTR
        elif s == 'void': r = VOID
        elif s == 'double': r = Ty('float', n=8)
        elif s == 'float': r = Ty('float', n=4)
        elif s == 'x86_fp80': r = Ty('float', n=16)
        elif s in ('metadata', 'label', 'token'): r = Ty('void')
        elif k == 'loc': r = Ty('named', name=unq(s), mod=self)
        elif s == '[':
            n = int(t.next()); t.expect('x'); e = self.ty(t); t.expect(']')
            r = Ty('arr', n=n, el=e)
        elif s == '{' or (s == '<' and t.peek() == '{'):
            packed = s == '<'
            if packed: t.expect('{')
            els = []
            while t.peek() != '}':
                els.append(self.ty(t)); t.accept(',')
            t.expect('}')
            if packed: t.expect('>')
            r = Ty('struct', els=els, packed=packed)
        elif s == '<':
            n = int(t.next()); t.expect('x'); e = self.ty(t); t.expect('>')
            r = Ty('vec', n=n, el=e)
        elif s == 'opaque': r = Ty('opaque')
        else: raise SyntaxError('type %r %r' % (s, t.t[max(0, t.i - 5):t.i + 5]))
        while t.peek() == '(':
            # function type
            t.next(); els = []
            while t.peek() != ')':
                if t.accept('...'): pass
                else: els.append(self.ty(t))
                t.accept(',')
            t.expect(')')
            r = Ty('fn', el=r, els=els)
        return r

    def attrs(self, t):
        out = {}
        while True:
            p = t.peek()
            if p in PARAM_ATTRS: t.next()
            elif p in PARAM_ATTRS_P:
                t.next()
                if t.peek() == '(':
                    d = 0; st = t.i
                    while True:
                        q = t.next()
                        if q == '(': d += 1
                        if q == ')':
                            d -= 1
                            if d == 0: break
                    if p in ('sret', 'byval'):
                        tt = Toks(''); tt.t = t.t[st + 1:t.i - 1]
                        out[p] = self.ty(tt)
                elif t.kind() == 'num': t.next()
            elif t.kind() in ('qs', 'attr'):
                t.next()
                if t.accept('='): t.next()
            else: return out

    def val(self, t, ty):
        k = t.kind(); s = t.next()
        if k == 'loc': return ('l', unq(s))
        if k == 'glob': return ('g', unq(s))
        if k == 'num':
            if ty is not None and ty.k == 'float': return ('f', s)
            return ('c', int(s, 0))
        if s == 'true': return ('c', 1)
        if s == 'false': return ('c', 0)
        if s == 'null': return ('n',)
        if s in ('undef', 'poison'): return ('u',)
        if s == 'zeroinitializer': return ('z',)
        if s == 'none': return ('z',)
        if k == 'str':
            b = bytearray(); x = s[2:-1]; i = 0
            while i < len(x):
                if x[i] == '\\':
                    if x[i + 1] == '\\': b.append(92); i += 2
                    else: b.append(int(x[i + 1:i + 3], 16)); i += 3
                else: b.append(ord(x[i])); i += 1
            return ('s', bytes(b))
        if s in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[s]
            if s == '<' and t.peek() == '{':
                t.next(); vs = []
                while t.peek() != '}':
                    e = self.ty(t); vs.append((e, self.val(t, e))); t.accept(',')
                t.expect('}'); t.expect('>')
                return ('a', vs)
            vs = []
            while t.peek() != close:
                e = self.ty(t); vs.append((e, self.val(t, e))); t.accept(',')
            t.expect(close)
            return ('a', vs)
        if s == 'getelementptr':
            while t.peek() in FMF:
                t.next()
            if t.peek() == 'inrange':
                t.next()
                if t.accept('('):
                    while t.next() != ')': pass
            t.expect('(')
            bt = self.ty(t); t.expect(',')
            self.ty(t); base = self.val(t, PTR)
            idx = []
            while t.accept(','):
                t.accept('inrange')
                it = self.ty(t); idx.append((it, self.val(t, it)))
            t.expect(')')
            return ('gep', bt, base, idx)
        if s in CAST:
            t.expect('('); st = self.ty(t); v = self.val(t, st); t.expect('to'); dt = self.ty(t); t.expect(')')
            return ('cast', s, st, v, dt)
        if s in BIN:
            while t.peek() in FMF: t.next()
            t.expect('('); st = self.ty(t); v = self.val(t, st); t.expect(','); self.ty(t); v2 = self.val(t, st); t.expect(')')
            return ('bin', s, st, v, v2)
        if s == 'asm':
            while t.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'): t.next()
            a = t.next(); t.expect(','); t.next()
            return ('asm', a)
        raise SyntaxError('value %r %r' % (s, t.t[max(0, t.i - 8):t.i + 5]))

    # ------------------------------------------------------------ module
    def load(self, text, unit):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ';}' or l.startswith(('source_filename', 'target', 'attributes', 'module asm')):
                i += 1; continue
            if l[0] == '%':
                nm, _, rest = l.partition(' = type ')
                nm = unq(nm)
                if nm not in self.types:
                    ty = self.ty(Toks(rest))
                    if ty.k != 'opaque': self.types[nm] = ty
                    else: self.types.setdefault('?' + nm, ty)
            elif l[0] == '@':
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', l)
                nm = unq('@' + m.group(1))
                internal = ' internal ' in l[m.end() - 1:m.end() + 60] or ' private ' in l[m.end() - 1:m.end() + 40]
                key = nm
                am = re.match(r'@\S+ = [a-z_ ]*\balias\b.*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', l)
                if am:
                    self.aliases[nm] = unq('@' + am.group(1))
                    i += 1; continue
                self.src.setdefault(unit, {})
                if internal:
                    key = unit + '::' + nm
                    self.src[unit][nm] = key
                if key not in self.globals or self.globals[key][1] is None:
                    self.globals[key] = [l[m.end():], None, unit]
            elif l.startswith('declare'):
                nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if nm: self.decls.setdefault(unq('@' + nm.group(1)), (l, unit))
            elif l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = unq('@' + m.group(1))
                j = i + 1
                while lines[j] != '}': j += 1
                internal = re.match(r'define (?:dso_local )?(internal|private)', l)
                key = nm
                if internal:
                    key = unit + '::' + nm
                    self.src.setdefault(unit, {})[nm] = key
                if key not in self.funcs:
                    f = Func(self, key, None, None, l)
                    f.unit = unit
                    f.lines = lines[i + 1:j]
                    self.funcs[key] = f
                i = j
            elif l[0] == '!':
                m = re.match(r'!(\d+) = (.*)', l)
                if m and ('DILocation' in l or 'DISubprogram' in l or 'DIFile' in l or 'DILexicalBlock' in l):
                    self.meta[(unit, int(m.group(1)))] = m.group(2)
            i += 1

    def resolve(self, unit, nm):
        return self.src.get(unit, {}).get(nm, nm)

    def finish_types(self):
        for k in list(self.types):
            if k[0] == '?' and k[1:] not in self.types: self.types[k[1:]] = self.types[k]

    def func_sig(self, f):
        if f.params is not None: return
        t = Toks(f.header[6:])
        while t.kind() == 'word' and (t.peek() in LINK or t.peek() in PARAM_ATTRS or t.peek() in ('comdat',)): t.next()
        self.attrs(t)
        while t.peek() in LINK: t.next()
        self.attrs(t)
        f.ret = self.ty(t)
        t.next(); t.expect('(')
        f.params = []
        while t.peek() != ')':
            if t.accept('...'):
                f.varargs = True; continue
            ty = self.ty(t); at = self.attrs(t)
            nm = unq(t.next()) if t.kind() == 'loc' else str(len(f.params))
            f.params.append((nm, ty, at)); t.accept(',')

    def parse_body(self, f):
        self.func_sig(f)
        self.unit = f.unit
        blocks = {}
        cur = None
        lines = f.lines
        i = 0; n = len(lines)
        order = []
        while i < n:
            l = lines[i]; i += 1
            s = l.strip()
            if not s or s[0] == ';': continue
            if l[0] != ' ':
                nm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l).group(1)
                nm = nm[1:-1] if nm[0] == '"' else nm
                cur = Block(nm); blocks[nm] = cur; order.append(cur); continue
            if cur is None:
                cur = Block('%entry'); blocks['%entry'] = cur; order.append(cur)
            # join continuation lines
            if ' switch ' in l and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            elif ('invoke ' in l):
                s += ' ' + lines[i].strip(); i += 1
            elif ' landingpad ' in l:
                while i < n and lines[i].startswith('         '):
                    s += ' ' + lines[i].strip(); i += 1
            if '@llvm.dbg.' in s: continue
            dbg = None
            m = re.search(r', !dbg !(\d+)', s)
            if m:
                dbg = int(m.group(1)); s = s[:m.start()]
            s = re.sub(r', !(?:srcloc|prof|heapallocsite|tbaa|nosanitize|range|llvm\.loop|noundef|nonnull|noalias|alias\.scope|dereferenceable|align|invariant\.load)(?: ![0-9]+)?', '', s)
            ins = self.ins(Toks(s), s)
            if ins is None: continue
            ins.dbg = dbg; ins.blk = cur
            if ins.op == 'phi': cur.phis.append(ins)
            else:
                ins.idx = len(cur.ins)
                cur.ins.append(ins)
        for b in order:
            t = b.ins[-1]
            if t.op == 'br': b.succ = [t.x] if not t.a else [t.x[0], t.x[1]]
            elif t.op == 'switch': b.succ = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == 'invoke': b.succ = [t.x['to'], t.x['un']]
            else: b.succ = []
            b.pred = []
        for k, b in enumerate(order):
            b.idx = k
            for s in dict.fromkeys(b.succ): blocks[s].pred.append(b.name)
        f._blocks = blocks; f.entry = order[0].name; f.order = order
        self.find_loops(f)
        f.lines = None

    def find_loops(self, f):
        # dominators (simple iterative)
        rpo = []; seen = set()
        st = [(f.entry, iter(f._blocks[f.entry].succ))]; seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f._blocks[s].succ))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse()
        num = {b: i for i, b in enumerate(rpo)}
        f.rpo = num
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in f._blocks[b].pred if p in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                    d = x
                if idom.get(b) != d: idom[b] = d; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in f._blocks[b].succ:
                if s in num and dom(s, b):
                    L = loops.setdefault(s, Loop(s)); L.latches.append(b)
                    L.blocks.add(s)
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in L.blocks: continue
                        L.blocks.add(x); w.extend(p for p in f._blocks[x].pred if p in num)
        f.loops = loops

    def ins(self, t, s):
        res = None
        if t.kind() == 'loc' and t.peek(1) == '=':
            res = unq(t.next()); t.next()
        op = t.next()
        if op in ('tail', 'musttail', 'notail'): op = t.next()
        if op in BIN:
            while t.peek() in FMF:
                t.next()
            fl = 'exact' if ' exact ' in s else None
            if ' nsw ' in s: fl = (fl or '') + 'nsw'
            ty = self.ty(t); a = self.val(t, ty); t.expect(','); b = self.val(t, ty)
            return Ins(op, res, ty, (a, b), fl)
        if op == 'fneg':
            while t.peek() in FMF: t.next()
            ty = self.ty(t); return Ins(op, res, ty, (self.val(t, ty),))
        if op in CAST:
            while t.peek() in FMF: t.next()
            ty = self.ty(t); a = self.val(t, ty); t.expect('to'); d = self.ty(t)
            return Ins(op, res, d, (a,), ty)
        if op in ('icmp', 'fcmp'):
            while t.peek() in FMF: t.next()
            p = t.next(); ty = self.ty(t); a = self.val(t, ty); t.expect(','); b = self.val(t, ty)
            return Ins(op, res, ty, (a, b), p)
        if op == 'load':
            t.accept('atomic'); t.accept('volatile')
            ty = self.ty(t); t.expect(','); self.ty(t); return Ins(op, res, ty, (self.val(t, PTR),))
        if op == 'store':
            t.accept('atomic'); t.accept('volatile')
            ty = self.ty(t); v = self.val(t, ty); t.expect(','); self.ty(t); p = self.val(t, PTR)
            return Ins(op, None, ty, (v, p))
        if op == 'alloca':
            t.accept('inalloca')
            ty = self.ty(t); cnt = None
            if t.accept(',') and t.peek() != 'align':
                ct = self.ty(t); cnt = self.val(t, ct)
            return Ins(op, res, ty, (), cnt)
        if op == 'getelementptr':
            while t.peek() in FMF: t.next()
            bt = self.ty(t); t.expect(','); self.ty(t); base = self.val(t, PTR); idx = []
            while t.accept(','):
                it = self.ty(t); idx.append((it, self.val(t, it)))
            return Ins(op, res, bt, (base,), idx)
        if op == 'br':
            if t.accept('label'): return Ins(op, None, None, (), unq(t.next()))
            ty = self.ty(t); c = self.val(t, ty); t.expect(','); t.expect('label'); a = unq(t.next())
            t.expect(','); t.expect('label'); b = unq(t.next())
            if a == b: return Ins(op, None, None, (), a)
            return Ins(op, None, None, (c,), (a, b))
        if op == 'switch':
            ty = self.ty(t); v = self.val(t, ty); t.expect(','); t.expect('label'); d = unq(t.next()); t.expect('[')
            cs = []
            while t.peek() != ']':
                ct = self.ty(t); c = self.val(t, ct); t.expect(','); t.expect('label'); cs.append((c[1], unq(t.next())))
            return Ins(op, None, ty, (v,), (d, cs))
        if op == 'ret':
            ty = self.ty(t)
            return Ins(op, None, ty, () if ty.k == 'void' else (self.val(t, ty),))
        if op == 'unreachable': return Ins(op, None)
        if op == 'resume':
            ty = self.ty(t); return Ins(op, None, ty, (self.val(t, ty),))
        if op == 'phi':
            while t.peek() in FMF: t.next()
            ty = self.ty(t); inc = {}
            while True:
                t.expect('['); v = self.val(t, ty); t.expect(','); inc[unq(t.next())] = v; t.expect(']')
                if not t.accept(','): break
            return Ins(op, res, ty, (), inc)
        if op == 'select':
            while t.peek() in FMF: t.next()
            ct = self.ty(t); c = self.val(t, ct); t.expect(','); ty = self.ty(t); a = self.val(t, ty); t.expect(',')
            self.ty(t); b = self.val(t, ty); return Ins(op, res, ty, (c, a, b))
        if op == 'freeze':
            ty = self.ty(t); return Ins(op, res, ty, (self.val(t, ty),))
        if op == 'extractvalue':
            ty = self.ty(t); a = self.val(t, ty); idx = []
            while t.accept(','): idx.append(int(t.next()))
            return Ins(op, res, ty, (a,), idx)
        if op == 'insertvalue':
            ty = self.ty(t); a = self.val(t, ty); t.expect(','); et = self.ty(t); v = self.val(t, et); idx = []
            while t.accept(','): idx.append(int(t.next()))
            return Ins(op, res, ty, (a, v), (et, idx))
        if op in ('call', 'invoke'):
            while t.peek() in FMF: t.next()
            while t.kind() == 'word' and t.peek() in ('fastcc', 'ccc', 'coldcc'): t.next()
            self.attrs(t)
            if t.accept('addrspace'):
                t.next(); t.next(); t.next()
            rt = self.ty(t)
            if rt.k == 'fn': rt = rt.el
            callee = self.val(t, PTR); t.expect('(')
            args = []
            while t.peek() != ')':
                ty = self.ty(t); at = self.attrs(t)
                if t.kind() == 'meta':
                    t.next(); v = ('u',)
                else: v = self.val(t, ty)
                args.append((ty, v, at)); t.accept(',')
            t.expect(')')
            x = {'callee': callee, 'args': args}
            if op == 'invoke':
                while t.peek() != 'to': t.next()
                t.next(); t.expect('label'); x['to'] = unq(t.next())
                t.expect('unwind'); t.expect('label'); x['un'] = unq(t.next())
            return Ins(op, res, rt, (), x)
        if op == 'landingpad':
            ty = self.ty(t); cl = []; cleanup = False
            while t.peek() is not None:
                w = t.next()
                if w == 'cleanup': cleanup = True
                elif w == 'catch':
                    ct = self.ty(t); cl.append(('catch', self.val(t, ct)))
                elif w == 'filter':
                    ct = self.ty(t); cl.append(('filter', self.val(t, ct)))
            return Ins(op, res, ty, (), (cleanup, cl))
        if op == 'fence': return None
        if op == 'cmpxchg':
            t.accept('weak'); t.accept('volatile')
            self.ty(t); p = self.val(t, PTR); t.expect(','); ty = self.ty(t); c = self.val(t, ty); t.expect(',')
            self.ty(t); n = self.val(t, ty); return Ins(op, res, ty, (p, c, n))
        if op == 'atomicrmw':
            t.accept('volatile')
            k = t.next(); self.ty(t); p = self.val(t, PTR); t.expect(','); ty = self.ty(t); v = self.val(t, ty)
            return Ins(op, res, ty, (p, v), k)
        raise SyntaxError('instruction ' + s)

    def global_init(self, key):
        """-> (type, value or None, is_const)"""
        g = self.globals[key]
        if g[1] is None:
            t = Toks(g[0])
            const = False; ext = False
            while t.kind() == 'word' and (t.peek() in LINK):
                w = t.next()
                if w == 'constant': const = True
                if w == 'external': ext = True
                if t.peek() == '(' and w == 'thread_local':
                    while t.next() != ')': pass
            self.unit = g[2]
            ty = self.ty(t)
            v = None
            if not ext and t.peek() is not None and t.peek() != ',' : v = self.val(t, ty)
            g[1] = (ty, v, const)
        return g[1]

    def loc(self, unit, d):
        """debug location id -> (file, line)"""
        m = self.meta.get((unit, d))
        if not m: return None
        x = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: !(\d+)', m)
        f = None
        k = int(sc.group(1)) if sc else None
        for _ in range(20):
            if k is None: break
            mm = self.meta.get((unit, k), '')
            ff = re.search(r'file: !(\d+)', mm)
            if ff:
                fm = self.meta.get((unit, int(ff.group(1))), '')
                q = re.search(r'filename: "([^"]*)"', fm)
                f = q.group(1) if q else None
                break
            s2 = re.search(r'scope: !(\d+)', mm)
            k = int(s2.group(1)) if s2 else None
        return (f, int(x.group(1)) if x else 0)

_dem = {}
def demangle(n):
    n = n.split('::', 1)[1] if '.ll::' in n else n
    r = _dem.get(n)
    if r is None:
        demangle_many([n])
        r = _dem[n]
    return r
def demangle_many(names):
    names = [n.split('::', 1)[1] if '.ll::' in n else n for n in names]
    names = [n for n in names if n not in _dem]
    if not names: return
    out = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True).stdout.split('\n')
    for a, b in zip(names, out):
        b = b.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
        b = b.replace('std::char_traits<char>', 'CT').replace('std::__cxx11::', 'std::')
        _dem[a] = b
