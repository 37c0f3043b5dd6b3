"""std::unordered_map as an abstract finite map, for keys compared by value: the contract of the library container.
st.g[('map', object, offset)] = ((key, node), ...); a node is laid out as libstdc++ lays it out (next pointer, key, value),
so that iterators and references into it are used by the real code."""
import re, itertools
from llvc import terms as T, seqs as S, models, irparse
from llvc.check import *
from llvc.state import C64, Z64, Ptr
from dbcommon import on, NOP

class Maps:
    def __init__(self, c, rx, key, koff, voff, vsize):
        """rx: the demangled class; key 'u32' or 'str'"""
        self.c = c; self.e = e = c.eng; self.key = key; self.koff = koff; self.voff = voff; self.vsize = vsize
        M = r'^(?:[^(]* )?' + rx + '::'
        for n, f in (('unordered_map|~unordered_map', self.ctor), ('clear', self.clear), ('count', self.count), ('find', self.find), ('at', self.at), (r'operator\[\]', self.index),
                     ('begin|cbegin', self.begin), ('end|cend', self.end), ('size', self.size), ('empty', self.empty), ('emplace|insert', self.insert), ('operator=', self.assign)):
            on(e, M + '(?:%s)[(<]' % n, f)
    def k(self, p):
        if not T.isc(p.off): raise Unsupported('map at symbolic offset')
        return ('map', p.obj, p.off.val)
    def get(self, st, p): return st.g.get(self.k(p), ())
    def keyof(self, st, p): return models.str_get(self.e, st, p) if self.key == 'str' else self.e.load(st, p, irparse.I32)
    def same(self, st, a, b): return S.eq_cond(a, b, st) if self.key == 'str' else T.eq(a, b)
    def ctor(self, e, st, a, ins):
        d = irparse.demangle(ins.x['callee'][1])
        if '~' in d: return [('ret', st, None)]
        if '&&' in d: st.g[self.k(a[0])] = self.get(st, a[1]); st.g[self.k(a[1])] = ()
        elif 'const&)' in d and 'unordered_map<' in d[d.rindex('('):]: raise Unsupported('map copy')
        elif '()' in d[-12:] : st.g[self.k(a[0])] = ()
        else: raise Unsupported('map constructor')
        return [('ret', st, None)]
    def assign(self, e, st, a, ins): raise Unsupported('map assignment')
    def clear(self, e, st, a, ins): st.g[self.k(a[0])] = (); return [('ret', st, None)]
    def locate(self, st, p, key):
        """-> [(state, node or None)]"""
        outs = []; cur = st
        for kk, node in self.get(st, p):
            nxt = None
            for s2, hit in models.split(cur, self.same(cur, kk, key)):
                if hit: outs.append((s2, node))
                else: nxt = s2
            if nxt is None: return outs
            cur = nxt
        return outs + [(cur, None)]
    def add(self, st, p, key):
        e = self.e; i = st.new(self.voff + self.vsize, 'map node'); n = Ptr(i, Z64)
        e.write_seq(st, n, S.const(bytes(self.voff + self.vsize)))
        if self.key == 'str': models.str_init(e, st, Ptr(i, C64(self.koff)), key)
        else: e.rawstore(st, Ptr(i, C64(self.koff)), 4, key)
        st.g[self.k(p)] = self.get(st, p) + ((key, n),)
        return n
    def val(self, n): return Ptr(n.obj, C64(self.voff))
    def index(self, e, st, a, ins):
        return [('ret', s2, self.val(n if n is not None else self.add(s2, a[0], self.keyof(s2, a[1])))) for s2, n in self.locate(st, a[0], self.keyof(st, a[1]))]
    def count(self, e, st, a, ins): return [('ret', s2, C64(int(n is not None))) for s2, n in self.locate(st, a[0], self.keyof(st, a[1]))]
    def find(self, e, st, a, ins): return [('ret', s2, n if n is not None else Ptr(0, Z64)) for s2, n in self.locate(st, a[0], self.keyof(st, a[1]))]
    def at(self, e, st, a, ins):
        return [('ret', s2, self.val(n)) if n is not None else e.throw(s2, '_ZTISt12out_of_range') for s2, n in self.locate(st, a[0], self.keyof(st, a[1]))]
    def end(self, e, st, a, ins): return [('ret', st, Ptr(0, Z64))]
    def begin(self, e, st, a, ins):
        m = self.get(st, a[0])
        # in any order
        if len(m) > 3: raise Unsupported('iteration order of a map')
        outs = []; orders = list(itertools.permutations([n for _, n in m]))
        for o in orders:
            s2 = st.copy() if len(orders) > 1 else st
            for n, nx in zip(o, o[1:] + (Ptr(0, Z64),)): e.rawstore(s2, Ptr(n.obj, Z64), 8, nx)
            outs.append(('ret', s2, o[0] if o else Ptr(0, Z64)))
        return outs
    def size(self, e, st, a, ins): return [('ret', st, C64(len(self.get(st, a[0]))))]
    def empty(self, e, st, a, ins): return [('ret', st, T.boolc(not self.get(st, a[0])))]
    def insert(self, e, st, a, ins):
        """insert(pair) and emplace(key, value): moved or copied, the key a string, a literal or a number"""
        d = irparse.demangle(ins.x['callee'][1]); par = d[d.rindex('('):]
        off = lambda p, k: Ptr(p.obj, T.addc(p.off, k))
        m = re.search(r'\((?:std::)?pair<[^()]*>(&&|&| const&)\)$', par)
        weakmap = bool(re.match(r'^[^()]*unordered_map<[^()]*, std::weak_ptr<', d))
        if m and '::emplace' not in d:
            move = m.group(1) == '&&'; lit = 'pair<char const*' in par; kp = a[1]
            v = off(a[1], 32 if self.key == 'str' and not lit else 8); srcweak = 'weak_ptr' in par
        elif '::emplace<' in d and len(a) == 3:
            g = re.search(r'\((.*), (.*)\)$', par)
            if not g or not ('shared_ptr' in g.group(2) or 'weak_ptr' in g.group(2)): raise Unsupported('map insertion ' + d[-80:])
            move = g.group(2).endswith('&&'); lit = 'char' in g.group(1) and 'basic_string' not in g.group(1) and 'std::string' not in g.group(1); kp = a[1]; v = a[2]; srcweak = 'weak_ptr' in g.group(2)
            if lit and '[' in g.group(1): raise Unsupported('map insertion ' + d[-80:])
        else: raise Unsupported('map insertion ' + d[-80:])
        if srcweak: raise Unsupported('map insertion ' + d[-80:])
        key = self.keyof(st, kp) if not lit else models.cstr(e, st, e.load(st, kp, irparse.PTR))
        outs = []
        for s2, n in self.locate(st, a[0], key):
            new = n is None
            if new:
                n = self.add(s2, a[0], key)
                p, ctl = (e.load(s2, off(v, k), irparse.PTR) for k in (0, 8))
                e.rawstore(s2, off(n, self.voff), 8, p); e.rawstore(s2, off(n, self.voff + 8), 8, ctl)
                null = isinstance(ctl, Ptr) and ctl.obj == 0
                if weakmap or not move:
                    if not null: k = 12 if weakmap else 8; w = e.load(s2, off(ctl, k), irparse.I32); e.rawstore(s2, off(ctl, k), 4, T.addc(w, 1))
                else:
                    for k in (0, 8): e.rawstore(s2, off(v, k), 8, Ptr(0, Z64))
            outs.append(('ret', s2, models.Agg([n, T.bv(int(new), 8)])))
        return outs
