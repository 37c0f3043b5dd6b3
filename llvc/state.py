"""Symbolic machine state: values, objects, path condition."""
import time
from . import terms as T, seqs as S, solver

C64 = S.C64

class Unsupported(Exception):
    """the verifier's reach ends here (never a verdict)"""

class Ptr:
    __slots__ = ('obj', 'off', 'rng')
    def __init__(self, obj, off, rng=None):
        self.obj = obj; self.off = off; self.rng = rng
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj == self.obj and o.off is self.off
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.obj, self.off))
    def __repr__(self): return '&%d+%r' % (self.obj, self.off)
Z64 = C64(0)
NULL = Ptr(0, Z64)

class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return '@' + self.name

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __eq__(self, o): return isinstance(o, Agg) and o.v == self.v
    def __hash__(self): return hash(self.v)
    def __repr__(self): return 'Agg%r' % (self.v,)

class Flt:
    """floating point constant"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Flt) and o.v == self.v
    def __hash__(self): return hash(self.v)

class Obj:
    __slots__ = ('size', 'cells', 'seq', 'attrs', 'name', 'zero', 'const', 'freed')
    def __init__(self, size=None, name='', zero=False):
        self.size = size; self.cells = {}; self.seq = None; self.attrs = {}
        self.name = name; self.zero = zero; self.const = False; self.freed = False
    def copy(self):
        o = Obj.__new__(Obj)
        o.size = self.size; o.cells = dict(self.cells); o.seq = self.seq; o.attrs = dict(self.attrs)
        o.name = self.name; o.zero = self.zero; o.const = self.const; o.freed = self.freed
        return o

def veq(a, b):
    if a is b: return True
    if isinstance(a, T.Term) or isinstance(b, T.Term): return False
    return type(a) is type(b) and a == b

def vsubst(v, m, memo=None):
    if isinstance(v, T.Term): return T.subst(v, m, memo)
    if isinstance(v, Ptr): return Ptr(v.obj, T.subst(v.off, m, memo), v.rng)
    if isinstance(v, S.Seq): return S.subst(v, m, memo)
    if isinstance(v, Agg): return Agg([vsubst(x, m, memo) for x in v.v])
    if isinstance(v, tuple): return tuple(vsubst(x, m, memo) for x in v)
    return v

def vite(c, a, b):
    """merged value or raises KeyError when not mergeable"""
    if veq(a, b): return a
    if isinstance(a, T.Term) and isinstance(b, T.Term) and a.w == b.w: return T.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, T.ite(c, a.off, b.off), a.rng if a.rng == b.rng else None)
    if isinstance(a, S.Seq) and isinstance(b, S.Seq): return S.ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([vite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    raise KeyError('merge')

_cache = {}
_vs = {}
def tvars(t):
    """variables and uninterpreted symbols of a term (frozenset of names)"""
    r = _vs.get(t)
    if r is None:
        if t.op == 'v': r = frozenset([t.val])
        else:
            r = frozenset().union(*[tvars(a) for a in t.args]) if t.args else frozenset()
            if t.op == 'uf': r = r | {('uf', t.val)}
        _vs[t] = r
    return r

BRANCH_MS = 4000

_huf = {}
def hasuf(t):
    r = _huf.get(t)
    if r is None: r = _huf[t] = t.op in ('uf', 'tbl') or any(hasuf(x) for x in t.args)
    return r

LITE = False
class State:
    __slots__ = ('heap', 'pc', 'foralls', 'exc', 'g', 'eng', 'tr')
    def __init__(self, eng):
        self.heap = {}; self.pc = (); self.foralls = (); self.exc = None; self.g = {}; self.eng = eng
        self.tr = None
    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.pc = self.pc; s.foralls = self.foralls; s.exc = self.exc
        s.g = dict(self.g); s.eng = self.eng; s.tr = self.tr
        return s
    # ---------------------------------------------------------------- objects
    def obj(self, i):
        o = self.heap.get(i)
        if o is None:
            o = self.eng.gobj(i)
        return o
    def wobj(self, i):
        """object i, private to this state, for modification"""
        o = self.obj(i).copy()
        self.heap[i] = o
        return o
    def new(self, size, name='', zero=False):
        i = self.eng.newid()
        if isinstance(size, int): size = C64(size)
        self.heap[i] = Obj(size, name, zero)
        return i
    def attr(self, i, k, d=None):
        return self.obj(i).attrs.get(k, d)
    def setattr(self, i, k, v):
        self.wobj(i).attrs[k] = v
    # ---------------------------------------------------------------- logic
    def assume(self, c):
        if c is T.TRUE: return True
        if c.op == 'band':
            for a in c.args:
                if a not in self.pc: self.pc = self.pc + (a,)
        elif c not in self.pc: self.pc = self.pc + (c,)
        return c is not T.FALSE
    def relevant(self, conds):
        """cone of influence of conds in the path condition"""
        vs = set()
        for c in conds: vs |= tvars(c)
        rest = list(self.pc); out = []
        ch = True
        while ch and rest:
            ch = False; nr = []
            for p in rest:
                pv = tvars(p)
                if not pv.isdisjoint(vs) or not pv:
                    out.append(p)
                    if not pv <= vs: vs |= pv; ch = True
                else: nr.append(p)
            rest = nr
        return out
    def sat(self, c, ms=BRANCH_MS):
        """'sat' / 'unsat' / 'unknown' for pc and c"""
        if c is T.FALSE: return 'unsat'
        if T.not_(c) in self.pc: return 'unsat'
        if c is T.TRUE: return 'sat'
        rel = self.relevant([c])
        k = (c, frozenset(rel))
        r = _cache.get(k)
        if r is None:
            r = solver.check(rel + [c] + self.inst([c] + rel), ms)[0]
            _cache[k] = r
        return r
    def linear(self, c):
        """a comparison of sums of lengths decided over the integers, when neither side can overflow"""
        if c.op == 'not':
            r = self.linear(c.args[0]); return None if r is None else not r
        if c.op != 'ult' or c.args[0].w != 64: return None
        ub = {p.args[0]: p.args[1].val - 1 for p in reversed(self.pc) if p.op == 'ult' and p.args[0].op == 'v' and T.isc(p.args[1])}
        for p in self.pc:
            if p.op == 'ult' and p.args[0].op == 'v' and T.isc(p.args[1]): ub[p.args[0]] = min(ub[p.args[0]], p.args[1].val - 1)
        def parts(t):
            k, ps = T.lin_parts(t); d = {}
            if T.sgn(k, 64) < 0: return None
            mx = k
            for x, n in (ps.items() if isinstance(ps, dict) else ps):
                if x not in ub or T.sgn(n, 64) < 0: return None
                d[x] = n; mx += n * ub[x]
            return None if mx >= 1 << 64 else (k, d)
        a, b = parts(c.args[0]), parts(c.args[1])
        if a is None or b is None: return None
        lo = hi = a[0] - b[0]
        for x in set(a[1]) | set(b[1]):
            n = a[1].get(x, 0) - b[1].get(x, 0)
            if n > 0: hi += n * ub[x]
            else: lo += n * ub[x]
        return True if hi < 0 else False if lo >= 0 else None
    def decide(self, c):
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        if c in self.pc: return True
        if T.not_(c) in self.pc: return False
        if LITE and len(self.pc) > 8 and not hasuf(c):
            # often follows from the bounds of the lengths alone
            r = self.linear(c)
            if r is not None: return r
            vs = tvars(c); ar = [p for p in self.pc if p.op == 'ult' and p.args[0].op == 'v' and T.isc(p.args[1]) and tvars(p) <= vs]
            for r, n in ((True, T.not_(c)), (False, c)):
                k = (n, frozenset(ar)); x = _cache.get(k)
                if x is None: x = _cache[k] = solver.check(ar + [n], 2000)[0]
                if x == 'unsat': return r
        if self.sat(T.not_(c)) == 'unsat': return True
        if self.sat(c) == 'unsat': return False
        return None
    def prove(self, c, ms=BRANCH_MS, arith=False):
        if c is T.TRUE or c in self.pc: return True
        if c is T.FALSE and not self.pc: return False
        if not hasuf(c):
            # pure arithmetic: usually follows from the arithmetic facts alone
            rel = self.relevant([c])
            ar = [p for p in rel if not hasuf(p)]
            if len(ar) < len(rel):
                n = T.not_(c)
                k = (n, frozenset(ar))
                r = _cache.get(k)
                if r is None: r = _cache[k] = solver.check(ar + [n], ms)[0]
                if r == 'unsat': return True
                if arith: return False
        return self.sat(T.not_(c), ms) == 'unsat'
    def unique(self, t):
        """the constant t must equal under the path condition, or t"""
        if T.isc(t): return t
        rel = self.relevant([T.eq(t, T.fresh('u', t.w))])
        r, m = solver.check(rel + self.inst([t] + rel), BRANCH_MS, True) if rel else ('sat', None)
        if r != 'sat' or m is None: return t
        try: v = T.bv(solver.Model(m).ev(t), t.w)
        except Exception: return t
        return v if self.prove(T.eq(t, v)) else t
    def feasible(self, ms=BRANCH_MS):
        if any(c is T.FALSE for c in self.pc): return False
        k = ('feas', frozenset(self.pc))
        r = _cache.get(k)
        if r is None:
            r = solver.check(list(self.pc) + self.inst(list(self.pc)), ms)[0]
            _cache[k] = r
        return r != 'unsat'
    # ---------------------------------------------------------------- quantified facts
    def add_forall(self, n, body):
        """for all j < n: body (a term in S._j)"""
        if body is not T.TRUE: self.foralls = self.foralls + ((n, body),)
    def inst(self, conds):
        """instances of the quantified facts for the uninterpreted applications in conds"""
        if not self.foralls: 
            return self.inst_seqeq(conds)
        out = []
        apps = {}
        for t in T.subterms(conds):
            if t.op == 'uf' and len(t.args) == 1: apps.setdefault(t.val, []).append(t.args[0])
        seen = set()
        for n, body in self.foralls:
            for t in T.subterms([body]):
                if t.op == 'uf' and len(t.args) == 1 and t.val in apps and t.args[0].w == 64:
                    c, p = T.lin_parts(t.args[0])
                    d = dict(p)
                    k = d.pop(S._j, None)
                    if k is None: continue
                    k = T.sgn(k, 64)
                    for a in apps[t.val]:
                        j = T.exact_div(T.sub(a, T.mklin(c, d.items(), 64)), k)
                        if j is None: 
                            j = T.udiv(T.sub(a, T.mklin(c, d.items(), 64)), C64(k)) if k > 0 else None
                        if j is None: continue
                        if (n, body, j) in seen: continue
                        seen.add((n, body, j))
                        out.append(T.implies(T.ult(j, n), T.subst(body, {S._j: j})))
        return out + self.inst_seqeq(conds)
    def inst_seqeq(self, conds):
        if not S.eqdefs: return []
        out = []
        subs = T.subterms(conds)
        defs = [t for t in subs if t.op == 'v' and t in S.eqdefs]
        for t in defs:
            a, b = S.eqdefs[t]
            na = set(S.svars(a)) | set(S.svars(b))
            for u in subs:
                if u.op == 'uf' and u.val in na and len(u.args) == 1:
                    for s in (a, b):
                        if s.k == 'v' and s.a == u.val:
                            out.append(T.implies(T.band(t, T.ult(u.args[0], a.len)),
                                T.eq(S.at(a, u.args[0], None), S.at(b, u.args[0], None))))
        return out

def merge_states(a, b):
    """one state covering both, or None.  Returns (state, cond) with cond true on a's side."""
    n = 0
    m = min(len(a.pc), len(b.pc))
    while n < m and a.pc[n] is b.pc[n]: n += 1
    A = T.band(*a.pc[n:]); B = T.band(*b.pc[n:])
    if a.foralls != b.foralls or not veq(a.exc, b.exc): return None
    try:
        heap = {}
        for k in a.heap.keys() | b.heap.keys():
            x = a.heap.get(k); y = b.heap.get(k)
            if x is None or y is None:
                z = x or y
                if k in a.eng.globs_ids:
                    x = x or a.obj(k); y = y or b.obj(k)
                else:
                    heap[k] = z; continue
            if x is y: heap[k] = x; continue
            heap[k] = merge_obj(A, x, y)
        g = {}
        for k in a.g.keys() | b.g.keys():
            if k in a.g and k in b.g: g[k] = vite(A, a.g[k], b.g[k])
            else: raise KeyError('g')
    except KeyError:
        return None
    s = a.copy()
    s.heap = heap; s.g = g
    s.pc = a.pc[:n]
    s.assume(T.bor(A, B))
    return s, A

def merge_obj(A, x, y):
    o = x.copy()
    o.size = vite(A, x.size, y.size) if x.size is not None and y.size is not None else x.size
    o.freed = x.freed or y.freed
    if (x.seq is None) != (y.seq is None):
        sx = x.seq or cells_seq(x); sy = y.seq or cells_seq(y)
        if sx is None or sy is None: raise KeyError('seq')
        o.seq = S.ite(A, sx, sy); o.cells = {}
    elif x.seq is not None: o.seq = vite(A, x.seq, y.seq)
    if o.seq is None:
        c = {}
        for k in x.cells.keys() | y.cells.keys():
            u = x.cells.get(k); v = y.cells.get(k)
            if u is None or v is None:
                w = u or v
                z = x if u is None else y
                if overlaps(z.cells, k, w[0]): raise KeyError('overlap')
                if z.zero:
                    if not isinstance(w[1], T.Term): raise KeyError('zero')
                    zv = T.bv(0, w[1].w)
                    c[k] = (w[0], vite(A, u[1] if u else zv, v[1] if v else zv))
                else:
                    c[k] = w      # uninitialised on the other side
                continue
            if u[0] != v[0]: raise KeyError('cell')
            c[k] = u if veq(u[1], v[1]) else (u[0], vite(A, u[1], v[1]))
        o.cells = c
    at = {}
    for k in x.attrs.keys() | y.attrs.keys():
        if k in x.attrs and k in y.attrs: at[k] = vite(A, x.attrs[k], y.attrs[k])
        else: raise KeyError('attr')
    o.attrs = at
    return o

def overlaps(cells, off, n):
    for k, (m, _) in cells.items():
        if k < off + n and off < k + m: return True
    return False

def cells_seq(o):
    """the whole object as a byte sequence, when its size is constant and it holds only terms"""
    if o.size is None or not T.isc(o.size): return None
    n = o.size.val
    if n > 70000: return None
    out = [None] * n
    for k, (m, v) in o.cells.items():
        if not isinstance(v, T.Term): return None
        if v.w < 8 * m: v = T.zext(v, 8 * m)
        for i in range(m):
            if k + i < n: out[k + i] = T.extract(v, 8 * i + 7, 8 * i)
    for i in range(n):
        if out[i] is None: out[i] = T.bv(0, 8) if o.zero else T.fresh('undef', 8)
    return S.bytes_(out)
