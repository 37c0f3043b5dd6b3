"""Symbolic executor / verification-condition generator over LLVM IR."""
import re, time, itertools
from . import terms as T, seqs as S, solver, irparse, gf2
from .state import *
from .state import C64, Z64

class Obl:
    __slots__ = ('label', 'kind', 'status', 'where', 'model', 'goal', 'st', 'ms', 'backend')
    def __init__(self, label, kind, status, where, model, goal, st, ms, backend):
        self.label = label; self.kind = kind; self.status = status; self.where = where; self.model = model
        self.goal = goal; self.st = st; self.ms = ms; self.backend = backend

class Budget(Unsupported):
    pass

LIFE = re.compile(r'^llvm\.(lifetime|dbg|assume|donothing|invariant|experimental|prefetch|var\.annotation)')

class Frame:
    __slots__ = ('f', 'allocas', 'depth')
    def __init__(self, f, depth): self.f = f; self.depth = depth

def affine_table(elems, idx):
    """one term f(idx) with f(k) = elems[k] for every k, when the elements differ in affine constants only"""
    if len(elems) < 4: return None
    memo = {}; ix = idx; idx = T.var('tbl_index', 64)
    def au(a, b):
        if a is b: return a
        if a.w != b.w: return None
        k = (a, b)
        if k in memo: return memo[k]
        r = None
        if a.w and a.w <= 64:
            d = T.sub(b, a)
            if T.isc(d) and d.val < 1 << 16:
                r = T.add(a, T.mulc(T.trunc(idx, a.w) if a.w < 64 else idx, d.val))
        if r is None and a.op == b.op and a.val == b.val and len(a.args) == len(b.args) and a.args and a.op != 'lin':
            na = [au(x, y) for x, y in zip(a.args, b.args)]
            if all(x is not None for x in na): r = T.rebuild(a, tuple(na))
        memo[k] = r
        return r
    t = au(elems[0], elems[1])
    if t is None: return None
    for k, e in enumerate(elems):
        if T.subst(t, {idx: C64(k)}) is not e: return None
    return T.subst(t, {idx: ix if ix.w == 64 else T.zext(ix, 64)})

class Engine:
    def __init__(self, mod, deadline=None):
        self.mod = mod
        self.ids = 1 << 20
        self.globs = {}          # (unit,name) key -> id
        self.globs_ids = {}      # id -> key
        self.gobjs = {}          # id -> Obj
        self.overrides = []      # (regex, handler)
        self._ov = {}
        self.models = []         # (regex, handler)
        self.obls = []
        self.quiet = 0
        self.deadline = deadline
        self.cur = None          # (func, ins) for locations
        self.stack = []
        self.tids = {}
        self.addr = {}
        self.called = {}         # demangled name -> count (functions executed)
        self.contracts_used = {}
        self.modeled = {}
        self.assumptions = set()
        self.loop_contracts = []
        self.hints = []; self.nonul = set(); self.guide = None; self.uniq = False; self.throws_leave = False
        self.max_unroll = 300
        self.notes = []
        self.loopinfo = []
        self.obl_ms = 6000; self.port_s = 60
        self.steps = 0
        self.maxdepth = 80
        self.merge = True; self.loop_merge = True
        self.max_paths = 24
        self.periods = ((1, True, False), (1, False, False), (2, True, False), (4, True, False), (4, False, False), (1, True, True), (1, False, True), (2, True, True), (4, True, True), (16, True, False))
        self.hooks = {}; self.reached = {}
        self.unroll_sym = 40

    # ------------------------------------------------------------------ basics
    def newid(self):
        self.ids += 1
        return self.ids
    def check_budget(self):
        if self.deadline is not None and time.time() > self.deadline: raise Budget('time budget exhausted')
    def where(self):
        if self.cur is None: return '?'
        f, ins = self.cur
        unit = f.unit
        d = getattr(ins, 'dbg', None)
        l = self.mod.loc(unit, d) if d is not None else None
        if l: return '%s:%d (%s)' % (l[0].replace('/repo/', '') if l[0] else '?', l[1], f.dem()[:80])
        return f.dem()[:100]
    def srcwhere(self):
        """innermost location inside the project's own sources"""
        for f, ins in reversed(self.stack + ([self.cur] if self.cur else [])):
            d = getattr(ins, 'dbg', None)
            l = self.mod.loc(f.unit, d) if d is not None else None
            if l and l[0] and '/usr/' not in l[0]:
                return '%s:%d' % (l[0].split('/src/')[-1] if '/src/' in l[0] else l[0], l[1])
        return self.where()

    def oblige(self, st, goal, label, kind='assert', assume=True):
        """prove goal from st's path condition; record the obligation"""
        if self.quiet:
            if assume: st.assume(goal)
            return True
        t0 = time.time()
        status = 'failed'; model = None; be = 'structural'
        if goal is T.TRUE or goal in st.pc: status = 'proved'
        elif gf2.worth(goal) and gf2.proves(goal): status = 'proved'; be = 'gf2'
        else:
            ng = T.not_(goal)
            rel = st.relevant([ng])
            conds = rel + [ng] + st.inst([ng] + rel)
            r, m = solver.check(conds, self.obl_ms, True)
            be = 'z3'
            if r == 'unknown':
                r, be = solver.portfolio(conds, self.port_s)
                if r == 'sat': r, m = 'sat', None
            if r == 'unsat': status = 'proved'
            elif r == 'sat':
                # the full path condition must be satisfiable together
                full = list(st.pc) + [ng] + st.inst([ng] + list(st.pc))
                r2, m2 = solver.check(full, self.obl_ms, True)
                if r2 == 'unknown': r2 = solver.portfolio(full, self.port_s)[0]
                if r2 == 'unsat': status = 'proved'
                elif r2 == 'sat':
                    status = 'failed'; m = m2 if m2 is not None else m
                    model = solver.Model(m) if m is not None else None
                else: status = 'unknown'
            else: status = 'unknown'
        o = Obl(label, kind, status, self.srcwhere(), model, goal, st.copy() if status != 'proved' else None, time.time() - t0, be)
        self.obls.append(o)
        if assume: st.assume(goal)
        return status == 'proved'

    # ------------------------------------------------------------------ globals
    def gid(self, unit, name):
        key = self.mod.resolve(unit, name)
        i = self.globs.get(key)
        if i is None:
            i = len(self.globs) + 1
            self.globs[key] = i; self.globs_ids[i] = key
        return i
    def gobj(self, i):
        o = self.gobjs.get(i)
        if o is not None: return o
        key = self.globs_ids.get(i)
        if key is None: raise KeyError('object %d' % i)
        if key not in self.mod.globals:
            # unknown external object
            o = Obj(None, key)
            self.gobjs[i] = o
            return o
        ty, v, const = self.mod.global_init(key)
        unit = self.mod.globals[key][2]
        o = Obj(C64(ty.size()) if v is not None else None, key)
        o.const = const
        self.gobjs[i] = o
        if v is not None: self.ginit(o, 0, ty, v, unit)
        return o
    def ginit(self, o, off, ty, v, unit):
        r = ty.res()
        if v[0] == 's':
            o.cells.update({off + k: (1, T.bv(b, 8)) for k, b in enumerate(v[1])})
        elif v[0] in ('z', 'u'):
            n = r.size()
            if r.k == 'ptr': o.cells[off] = (8, NULL)
            elif n <= 4096 and r.k in ('struct', 'arr') and self.hasptr(r):
                els = zip(r.offsets(), r.els) if r.k == 'struct' else [(k * r.el.size(), r.el) for k in range(r.n)]
                for o2, e in els: self.ginit(o, off + o2, e, v, unit)
            else:
                if off == 0 and o.size is not None and o.size.val == n: o.zero = True
                else: o.cells.update({off + k: (1, T.bv(0, 8)) for k in range(n)})
        elif v[0] == 'a':
            if r.k == 'struct':
                for o2, e, (_, x) in zip(r.offsets(), r.els, v[1]): self.ginit(o, off + o2, e, x, unit)
            else:
                es = r.el.size()
                for k, (e, x) in enumerate(v[1]): self.ginit(o, off + k * es, e, x, unit)
        else:
            x = self.constv(v, ty, unit)
            o.cells[off] = (r.size(), x if not isinstance(x, T.Term) or x.w == 8 * r.size() else T.zext(x, 8 * r.size()))
    def hasptr(self, r):
        r = r.res()
        if r.k == 'ptr': return True
        if r.k == 'arr': return self.hasptr(r.el)
        if r.k == 'struct': return any(self.hasptr(e) for e in r.els)
        return False

    def constv(self, v, ty, unit):
        k = v[0]
        if k == 'c':
            return T.bv(v[1], ty.n)
        if k == 'n': return NULL
        if k == 'g':
            nm = v[1]
            key = self.mod.resolve(unit, nm)
            if key in self.mod.globals and key not in self.mod.aliases: return Ptr(self.gid(unit, nm), Z64)
            return Fn(self.fkey(unit, nm))
        if k == 'z':
            r = ty.res()
            if r.k == 'int': return T.bv(0, r.n)
            if r.k == 'ptr': return NULL
            if r.k == 'struct': return Agg([self.constv(v, e, unit) for e in r.els])
            if r.k == 'arr': return Agg([self.constv(v, r.el, unit) for _ in range(r.n)])
            if r.k == 'float': return Flt(0.0)
            raise Unsupported('zero of ' + r.k)
        if k == 'u':
            r = ty.res()
            if r.k == 'int': return T.fresh('undef', r.n)
            if r.k == 'ptr': return Ptr(0, T.fresh('undefp', 64))
            if r.k == 'struct': return Agg([self.constv(v, e, unit) for e in r.els])
            if r.k == 'arr': return Agg([self.constv(v, r.el, unit) for _ in range(r.n)])
            return Flt(0.0)
        if k == 'gep':
            base = self.constv(v[2], irparse.PTR, unit)
            idx = [(it, self.constv(x, it, unit)) for it, x in v[3]]
            return self.gep(v[1], base, idx)
        if k == 'cast':
            x = self.constv(v[3], v[2], unit)
            return self.cast(v[1], v[2], x, v[4])
        if k == 'f': return Flt(v[1])
        if k == 'a': return Agg([self.constv(x, e, unit) for e, x in v[1]])
        if k == 'bin':
            return self.binop(v[1], self.constv(v[3], v[2], unit), self.constv(v[4], v[2], unit))
        raise Unsupported('constant %r' % (v,))

    def fkey(self, unit, nm):
        nm = self.mod.aliases.get(nm, nm)
        return self.mod.resolve(unit, nm)

    def addr_of(self, p):
        if isinstance(p, Fn): return T.var('fnaddr_' + p.name, 64)
        if p.obj == 0: return p.off
        v = self.addr.get(p.obj)
        if v is None:
            v = T.var('addr!%d' % p.obj, 64)
            self.addr[p.obj] = v
            self.addr[v] = p.obj
        return T.add(v, p.off)
    def ptr_of(self, t):
        c, ps = T.lin_parts(t)
        for a, k in ps:
            if k == 1 and a in self.addr: return Ptr(self.addr[a], T.sub(t, a))
        return Ptr(0, t)

    # ------------------------------------------------------------------ memory
    def inb(self, st, o, p, n, what):
        """in-bounds obligation for an access of n bytes at p"""
        if p.obj == 0:
            self.oblige(st, T.FALSE, 'null or invalid pointer %s' % what, 'memory')
            return False
        if o.freed:
            self.oblige(st, T.FALSE, 'use after free on %s' % what, 'memory')
            return False
        n = C64(n) if isinstance(n, int) else n
        conds = []
        osz = o.size if o.size is not None else o.seq.len if o.seq is not None else None
        if osz is not None:
            if T.isc(p.off) and T.isc(osz) and T.isc(n):
                if not (p.off.val + n.val <= osz.val): conds.append(T.FALSE)
            elif T.isc(p.off) and p.off.val == 0 and osz is n: pass
            else:
                conds.append(T.band(T.ule(n, osz), T.ule(p.off, T.sub(osz, n))))
        if p.rng is not None and not T.isc(p.off):
            lo, hi = p.rng
            conds.append(T.band(T.uge(p.off, C64(lo)), T.ule(T.add(p.off, n), C64(hi))))
        elif p.rng is not None and T.isc(p.off) and T.isc(n):
            if not (p.rng[0] <= p.off.val and p.off.val + n.val <= p.rng[1]): conds.append(T.FALSE)
        c = T.band(*conds)
        if c is T.TRUE: return True
        if not self.quiet and st.prove(c):
            self.obls.append(Obl('%s in bounds' % what, 'memory', 'proved', self.srcwhere(), None, None, None, 0, 'z3'))
            st.assume(c)
            return True
        self.oblige(st, c, '%s in bounds of %s' % (what, o.name or 'object'), 'memory')
        return c is not T.FALSE

    def tovalue(self, v, ty):
        r = ty.res()
        if r.k == 'int':
            if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
            if isinstance(v, T.Term):
                return v if v.w == r.n else T.trunc(v, r.n)
            return v
        if r.k == 'ptr':
            if isinstance(v, T.Term):
                return self.ptr_of(v)
            return v
        return v

    def redir(self, st, p):
        """a part of an object that is kept as an object of its own (vf_split)"""
        if p.obj == 0: return p
        sp = st.obj(p.obj).attrs.get('split')
        if not sp: return p
        for lo, hi, i in sp:
            if T.isc(p.off): inside = lo <= p.off.val < hi
            elif p.rng is not None and p.rng[0] >= lo and p.rng[1] <= hi: inside = True
            else: inside = st.decide(T.band(T.uge(p.off, C64(lo)), T.ult(p.off, C64(hi))))
            if inside: return Ptr(i, T.addc(p.off, -lo))
            if inside is None:
                if st.decide(T.eq(p.off, C64(hi))) is True: return Ptr(i, C64(hi - lo))
                # may be one past the part: accesses there are out of bounds of the part
                if st.decide(T.band(T.uge(p.off, C64(lo)), T.ule(p.off, C64(hi)))): return Ptr(i, T.addc(p.off, -lo))
                raise Unsupported('access that may fall into a part')
        return p

    def load(self, st, p, ty):
        r = ty.res()
        if isinstance(p, Fn): raise Unsupported('load from function')
        if not isinstance(p, Fn): p = self.redir(st, p)
        if r.k == 'struct':
            return Agg([self.load(st, Ptr(p.obj, T.addc(p.off, o)), e) for o, e in zip(r.offsets(), r.els)])
        if r.k == 'arr':
            es = r.el.size()
            return Agg([self.load(st, Ptr(p.obj, T.addc(p.off, o * es)), r.el) for o in range(r.n)])
        n = r.size()
        if p.obj == 0:
            self.inb(st, None, p, n, 'load'); raise Dead()
        o = st.obj(p.obj)
        if n == 1 and o.seq is not None and o.attrs.get('str') and not o.freed:
            # a std::string is followed by a NUL that may be read
            d = st.decide(T.eq(p.off, o.seq.len))
            if d is True: return self.tovalue(T.bv(0, 8), r)
            if d is None and st.decide(T.ult(p.off, o.seq.len)) is not True:
                self.oblige(st, T.ule(p.off, o.seq.len), 'load in bounds of string', 'memory')
                st.assume(T.ule(p.off, o.seq.len))
                return self.tovalue(T.ite(T.ult(p.off, o.seq.len), S.at(o.seq, p.off, st), T.bv(0, 8)), r)
        if not self.inb(st, o, p, n, 'load'): raise Dead()
        return self.rawload(st, o, p, n, r)

    def rawload(self, st, o, p, n, r):
        if 'parr' in o.attrs and r.k == 'ptr':
            # a list of pointers of symbolic length
            return self.parr[o.attrs['parr']](p.off)
        if o.seq is not None:
            bs = [S.at(o.seq, T.addc(p.off, k), st) for k in range(n)]
            return self.tovalue(T.concat_lo(bs), r)
        if T.isc(p.off):
            off = p.off.val
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if isinstance(v, T.Term) or isinstance(v, (Ptr, Fn)): return self.tovalue(v, r)
                return v
            return self.gather(st, p.obj, off, n, r)
        # symbolic offset
        lo, hi = p.rng or (0, None)
        if hi is None:
            if o.size is None or not T.isc(o.size): raise Unsupported('symbolic offset in object of unknown size')
            hi = o.size.val
        if hi - lo > 70000: raise Unsupported('symbolic offset in large object')
        # element table
        ro = T.sub(p.off, C64(lo))
        idx = T.exact_div(ro, n)
        if idx is not None and (hi - lo) % n == 0:
            elems = [self.rawload(st, st.obj(p.obj), Ptr(p.obj, C64(lo + k * n)), n, r) for k in range((hi - lo) // n)]
            if all(isinstance(e, T.Term) for e in elems):
                if all(T.isc(e) for e in elems): return T.tbl(tuple(e.val for e in elems), idx, elems[0].w)
                t = affine_table(elems, idx)
                if t is not None: return t
                t = elems[-1]
                for k in range(len(elems) - 2, -1, -1): t = T.ite(T.eq(idx, C64(k)), elems[k], t)
                return t
            if all(e == elems[0] for e in elems): return elems[0]
            raise Unsupported('symbolic index into pointers')
        bs = [self.rawload(st, st.obj(p.obj), Ptr(p.obj, C64(k)), 1, irparse.I8) for k in range(lo, hi)]
        sq = S.bytes_(bs)
        return self.tovalue(T.concat_lo([S.at(sq, T.addc(ro, k), st) for k in range(n)]), r)

    def gather(self, st, oi, off, n, r):
        o = st.obj(oi)
        bs = [None] * n
        hit = False
        for k, (m, v) in o.cells.items():
            if k < off + n and off < k + m:
                hit = True
                if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
                if not isinstance(v, T.Term): raise Unsupported('partial load of a non-term')
                if v.w < 8 * m: v = T.zext(v, 8 * m)
                for i in range(m):
                    if 0 <= k + i - off < n: bs[k + i - off] = T.extract(v, 8 * i + 7, 8 * i)
        if not hit and not o.zero:
            w = st.wobj(oi)
            if r.k == 'ptr': v = Ptr(0, T.fresh('undefp', 64))
            elif r.k == 'int': v = T.fresh('undef', 8 * n)
            else: v = Flt(0.0)
            w.cells[off] = (n, v)
            return self.tovalue(v, r)
        for i in range(n):
            if bs[i] is None: 
                if o.zero: bs[i] = T.bv(0, 8)
                else:
                    bs[i] = T.fresh('undef', 8)
                    st.wobj(oi).cells[off + i] = (1, bs[i])
        return self.tovalue(T.concat_lo(bs), r)

    def store(self, st, p, ty, v):
        r = ty.res()
        if isinstance(p, Fn): raise Unsupported('store to function')
        p = self.redir(st, p)
        if isinstance(v, Agg):
            if r.k == 'struct':
                for o, e, x in zip(r.offsets(), r.els, v.v): self.store(st, Ptr(p.obj, T.addc(p.off, o)), e, x)
            else:
                for k, x in enumerate(v.v): self.store(st, Ptr(p.obj, T.addc(p.off, k * r.el.size())), r.el, x)
            return
        n = r.size()
        if p.obj == 0:
            self.inb(st, None, p, n, 'store'); raise Dead()
        o = st.obj(p.obj)
        if not self.inb(st, o, p, n, 'store'): raise Dead()
        if isinstance(v, T.Term) and v.w != 8 * n: v = T.zext(v, 8 * n)
        self.rawstore(st, p, n, v)

    def cut(self, w, off, n):
        """remove / trim cells overlapping [off, off+n)"""
        c = w.cells.get(off)
        if c is not None and c[0] == n: return
        for k, (m, v) in list(w.cells.items()):
            if k < off + n and off < k + m:
                del w.cells[k]
                if k >= off and k + m <= off + n: continue
                if not isinstance(v, T.Term):
                    if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
                    else: continue
                if v.w < 8 * m: v = T.zext(v, 8 * m)
                for i in range(m):
                    if not (off <= k + i < off + n): w.cells[k + i] = (1, T.extract(v, 8 * i + 7, 8 * i))

    def rawstore(self, st, p, n, v):
        w = st.wobj(p.obj)
        if w.const: raise Unsupported('store to constant ' + w.name)
        if w.seq is not None:
            if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
            if not isinstance(v, T.Term): raise Unsupported('store of non-term into bytes')
            w.seq = S.write(w.seq, p.off, S.of_term(v), st)
            return
        if T.isc(p.off):
            off = p.off.val
            self.cut(w, off, n)
            w.cells[off] = (n, v)
            return
        lo, hi = p.rng or (0, None)
        if hi is None:
            if w.size is None or not T.isc(w.size): raise Unsupported('symbolic store into object of unknown size')
            hi = w.size.val
        if not isinstance(v, T.Term): raise Unsupported('symbolic store of pointer')
        ro = T.sub(p.off, C64(lo))
        idx = T.exact_div(ro, n)
        if idx is not None and (hi - lo) % n == 0 and (hi - lo) // n <= 512:
            ty = irparse.inty(8 * n)
            for k in range((hi - lo) // n):
                old = self.rawload(st, st.obj(p.obj), Ptr(p.obj, C64(lo + k * n)), n, ty)
                x = st.wobj(p.obj)
                self.cut(x, lo + k * n, n)
                x.cells[lo + k * n] = (n, T.ite(T.eq(idx, C64(k)), v, old))
            return
        if p.rng is None or (lo == 0 and T.isc(w.size) and hi == w.size.val):
            s = cells_seq(w)
            if s is not None:
                w.seq = S.write(s, p.off, S.of_term(v), st); w.cells = {}
                return
        raise Unsupported('symbolic store')

    def read_seq(self, st, p, n):
        """n bytes (term) at p as a Seq"""
        if isinstance(n, int): n = C64(n)
        if T.isc(n) and n.val == 0: return S.EMPTY
        p = self.redir(st, p)
        if p.obj == 0:
            d = st.decide(T.eq(n, Z64))
            if d is True: return S.EMPTY
            if d is None:
                self.oblige(st, T.eq(n, Z64), 'null pointer read', 'memory'); return S.EMPTY
            self.inb(st, None, p, n, 'read'); raise Dead()
        o = st.obj(p.obj)
        if o.seq is not None and 'str' in o.attrs and not o.freed and not (T.isc(n) and T.isc(o.seq.len)) and st.decide(T.eq(T.add(p.off, n), T.addc(o.seq.len, 1))) is True and st.decide(T.ule(p.off, o.seq.len)) is True:
            return S.concat([S.slice_(o.seq, p.off, T.sub(o.seq.len, p.off), st), S.const(b'\0')], st)   # with the terminator
        if not self.inb(st, o, p, n, 'read'): raise Dead()
        if o.seq is not None: return S.slice_(o.seq, p.off, n, st)
        if T.isc(p.off) and T.isc(n):
            bs = []
            off = p.off.val
            k = off
            while k < off + n.val:
                c = o.cells.get(k)
                if c is not None and k + c[0] <= off + n.val:
                    v = c[1]
                    if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
                    if not isinstance(v, T.Term): raise Unsupported('bytes of a model value')
                    if v.w < 8 * c[0]: v = T.zext(v, 8 * c[0])
                    bs.extend(T.extract(v, 8 * i + 7, 8 * i) for i in range(c[0]))
                    k += c[0]
                else:
                    bs.append(self.rawload(st, st.obj(p.obj), Ptr(p.obj, C64(k)), 1, irparse.I8)); k += 1
                    o = st.obj(p.obj)
            return S.bytes_(bs)
        s = cells_seq(o)
        if s is None: raise Unsupported('byte view of object')
        return S.slice_(s, p.off, n, st)

    def write_seq(self, st, p, data):
        n = data.len
        if T.isc(n) and n.val == 0: return
        p = self.redir(st, p)
        if p.obj == 0:
            d = st.decide(T.eq(n, Z64))
            if d is True: return
            self.inb(st, None, p, n, 'write'); raise Dead()
        o = st.obj(p.obj)
        if not self.inb(st, o, p, n, 'write'): raise Dead()
        w = st.wobj(p.obj)
        if w.const: raise Unsupported('write to constant')
        if w.seq is not None:
            w.seq = S.write(w.seq, p.off, data, st); return
        if T.isc(p.off) and T.isc(n) and n.val <= 4096:
            off = p.off.val
            if off == 0 and n.val >= 512 and w.size is n and data.k != 'b':
                w.cells = {}; w.seq = data; return
            for k in range(n.val):
                v = S.at(data, C64(k), st)
                self.cut(w, off + k, 1)
                w.cells[off + k] = (1, v)
            return
        s = cells_seq(w)
        if s is None: raise Unsupported('symbolic write into structured object')
        w.cells = {}
        w.seq = S.write(s, p.off, data, st)

    def memcpy(self, st, d, s, n):
        """copy, preserving pointer cells when the size is constant"""
        if T.isc(n) and n.val == 0: return
        if d == s: return
        d = self.redir(st, d); s = self.redir(st, s)
        if T.isc(n) and s.obj and d.obj and T.isc(s.off) and T.isc(d.off):
            so = st.obj(s.obj); do = st.obj(d.obj)
            if so.seq is None and do.seq is None:
                if not self.inb(st, so, s, n, 'copy source'): raise Dead()
                if not self.inb(st, do, d, n, 'copy target'): raise Dead()
                a = s.off.val; b = a + n.val; dd = d.off.val
                items = []
                for k, (m, v) in so.cells.items():
                    if k >= b or k + m <= a: continue
                    if k < a or k + m > b:
                        if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
                        if v.w < 8 * m: v = T.zext(v, 8 * m)
                        for i in range(m):
                            if a <= k + i < b: items.append((k + i, 1, T.extract(v, 8 * i + 7, 8 * i)))
                    else: items.append((k, m, v))
                w = st.wobj(d.obj)
                if w.const: raise Unsupported('write to constant')
                # clear target range
                for k, (m, v) in list(w.cells.items()):
                    if k < dd + n.val and dd < k + m:
                        if k >= dd and k + m <= dd + n.val: del w.cells[k]
                        else:
                            del w.cells[k]
                            if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
                            if v.w < 8 * m: v = T.zext(v, 8 * m)
                            for i in range(m):
                                if not (dd <= k + i < dd + n.val): w.cells[k + i] = (1, T.extract(v, 8 * i + 7, 8 * i))
                for k, m, v in items: w.cells[dd + k - a] = (m, v)
                if so.zero or w.zero:
                    cov = set()
                    for k, m, v in items: cov.update(range(k, k + m))
                    for k in range(a, b):
                        if k not in cov:
                            if so.zero: w.cells[dd + k - a] = (1, T.bv(0, 8))
                            else: w.cells[dd + k - a] = (1, T.fresh('undef', 8))
                return
        data = self.read_seq(st, s, n)
        self.write_seq(st, d, data)

    def memset(self, st, d, b, n):
        d = self.redir(st, d)
        if T.isc(n) and d.obj and T.isc(d.off):
            o = st.obj(d.obj)
            if o.seq is None:
                if n.val == 0: return
                if not self.inb(st, o, d, n, 'memset'): raise Dead()
                w = st.wobj(d.obj)
                a = d.off.val; e = a + n.val
                for k, (m, v) in list(w.cells.items()):
                    if k < e and a < k + m:
                        del w.cells[k]
                        if not (k >= a and k + m <= e):
                            if isinstance(v, (Ptr, Fn)): v = self.addr_of(v)
                            if v.w < 8 * m: v = T.zext(v, 8 * m)
                            for i in range(m):
                                if not (a <= k + i < e): w.cells[k + i] = (1, T.extract(v, 8 * i + 7, 8 * i))
                if T.isc(b) and b.val == 0 and w.size is not None and T.isc(w.size) and (a, e) == (0, w.size.val):
                    w.zero = True
                    return
                if n.val > 65536: raise Unsupported('huge memset')
                k = a
                if T.isc(b) and a % 8 == 0:
                    w8 = T.bv(int.from_bytes(bytes([b.val]) * 8, 'little'), 64)
                    while k + 8 <= e: w.cells[k] = (8, w8); k += 8
                while k < e: w.cells[k] = (1, b); k += 1
                return
        self.write_seq(st, d, S.fill(b, n))

    # ------------------------------------------------------------------ values
    def gep(self, bt, p, idx, st=None):
        if isinstance(p, Fn): raise Unsupported('gep on function')
        off = p.off; rng = p.rng
        first = True
        t = bt
        for it, x in idx:
            if isinstance(x, (Ptr, Fn)): x = self.addr_of(x)
            x64 = T.sext(x, 64) if x.w < 64 else x
            if first:
                off = T.add(off, T.mulc(x64, t.size())); first = False
                continue
            r = t.res()
            if r.k == 'struct':
                off = T.addc(off, r.offsets()[x.val]); t = r.els[x.val]; rng = None
            elif r.k in ('arr', 'vec'):
                if r.n and T.isc(off) and (not T.isc(x64) or x64.val != 0) and r.n * r.el.size() > 0:
                    rng = (off.val, off.val + r.n * r.el.size())
                t = r.el
                off = T.add(off, T.mulc(x64, t.size()))
                if T.isc(x64) and rng is not None and not (rng[0] <= (off.val if T.isc(off) else 0) < rng[1]): rng = None
            else: raise Unsupported('gep into ' + r.k)
        if self.uniq and not T.isc(off) and p.obj and rng is not None:
            off = st.unique(off) if st is not None else off
        if T.isc(off): rng = None
        return Ptr(p.obj, off, rng)

    def cast(self, op, sty, v, dty):
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            t = self.addr_of(v)
            return t if dty.n == 64 else T.trunc(t, dty.n)
        if op == 'inttoptr': return self.ptr_of(v if v.w == 64 else T.zext(v, 64))
        if op == 'trunc': return T.trunc(v, dty.n)
        if op == 'zext':
            if v.w == 0: v = T.ite(v, T.bv(1, 1), T.bv(0, 1))
            return T.zext(v, dty.n)
        if op == 'sext':
            return T.sext(v, dty.n)
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            raise Unsupported('floating point')
        raise Unsupported('cast ' + op)

    def b2(self, c):
        """Bool term -> i1"""
        return b2i(c)
    def binop(self, op, a, b):
        if isinstance(a, (Ptr, Fn)): a = self.addr_of(a)
        if isinstance(b, (Ptr, Fn)): b = self.addr_of(b)
        if not isinstance(a, T.Term) or not isinstance(b, T.Term): raise Unsupported('binop on ' + type(a).__name__)
        if a.w == 1 and op in ('and', 'or', 'xor', 'add', 'sub', 'mul'):
            x, y = i2b(a), i2b(b)
            r = {'and': T.band, 'or': T.bor, 'xor': T.xor, 'add': T.xor, 'sub': T.xor, 'mul': T.band}[op](x, y)
            return b2i(r)
        return BINF[op](a, b)

    def icmp(self, pred, a, b):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                if pred == 'eq': return T.boolc(a == b)
                if pred == 'ne': return T.boolc(a != b)
                raise Unsupported('function pointer order')
            if isinstance(a, T.Term): a = self.ptr_of(a)
            if isinstance(b, T.Term): b = self.ptr_of(b)
            if a.obj != b.obj:
                if pred == 'eq': return T.FALSE
                if pred == 'ne': return T.TRUE
                if pred in ('ugt', 'uge', 'ult', 'ule'):
                    # order against null
                    if a.obj == 0 and T.isc(a.off) and a.off.val == 0: return T.boolc(pred in ('ult', 'ule'))
                    if b.obj == 0 and T.isc(b.off) and b.off.val == 0: return T.boolc(pred in ('ugt', 'uge'))
                    A = self.addr_of(a); B = self.addr_of(b)
                    return CMPF[pred](A, B)
                raise Unsupported('pointer order')
            a, b = a.off, b.off
        if isinstance(a, T.Term) and a.w == 1:
            if pred in ('eq', 'ne'):
                c = T.eq(i2b(a), i2b(b))
                return c if pred == 'eq' else T.not_(c)
            x, y = i2b(a), i2b(b)
            if pred == 'ult': return T.band(T.not_(x), y)
            if pred == 'ugt': return T.band(x, T.not_(y))
            if pred == 'ule': return T.bor(T.not_(x), y)
            if pred == 'uge': return T.bor(x, T.not_(y))
        return CMPF[pred](a, b)

    # ------------------------------------------------------------------ calls
    def find_override(self, name):
        r = self._ov.get(name, 0)
        if r == 0:
            d = irparse.demangle(name)
            r = None
            local = name.rsplit('::', 1)[-1].startswith(('_ZZ', '_ZNZ', '_ZNKZ'))    # a lambda or a local class of the function is not the function
            for rx, h in self.overrides:
                if not local and rx.search(d): r = h; break
            if r is None:
                key = name
                f = self.mod.funcs.get(key)
                for rx, h, force in self.models:
                    if (force or f is None) and rx.search(d): r = h; break
            self._ov[name] = r
        return r

    def call(self, st, name, args, ins=None):
        """-> list of ('ret', st, val) / ('throw', st, exc)"""
        name = self.mod.aliases.get(name, name)
        h = self.find_override(name)
        if h is not None:
            self.modeled[irparse.demangle(name)] = self.modeled.get(irparse.demangle(name), 0) + 1
            try:
                r = h(self, st, args, ins)
            except Dead:
                return []
            if r is None or isinstance(r, (T.Term, Ptr, Fn, Agg)): return [('ret', st, r)]
            return r
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('external function ' + irparse.demangle(name))
        return self.exec(st, f, args)

    def exec(self, st, f, args):
        self.check_budget()
        d = f.dem()
        self.called[d] = self.called.get(d, 0) + 1
        f.blocks
        if len(self.stack) > self.maxdepth: raise Unsupported('call depth (recursion) at ' + d)
        save = self.cur
        if save: self.stack.append(save)
        try:
            fr = Frame(f, len(self.stack))
            env = {}
            st = st.copy()
            for (pn, pt, at), v in zip(f.params, args):
                if 'byval' in at:
                    ty = at['byval']
                    i = st.new(ty.size(), 'byval')
                    self.memcpy(st, Ptr(i, Z64), v, C64(ty.size()))
                    v = Ptr(i, Z64)
                env[pn] = v
            evs = self.region(fr, None, [(f.entry, None, env, st)])
        except Dead:
            evs = []
        finally:
            if save: self.stack.pop()
            self.cur = save
        outs = []
        for e in evs:
            if e[0] in ('ret', 'throw'): outs.append(e)
            else: raise Unsupported('event ' + e[0])
        return self.merge_outs(outs)

    def merge_outs(self, outs):
        if not self.merge or len(outs) < 2: return outs
        res = []
        for o in outs:
            done = False
            for k, r in enumerate(res):
                if r[0] != o[0]: continue
                if o[0] == 'throw':
                    continue
                m = merge_states(r[1], o[1])
                if m is None: continue
                try:
                    v = vite(m[1], r[2], o[2]) if not (r[2] is None and o[2] is None) else None
                except KeyError:
                    continue
                res[k] = ('ret', m[0], v); done = True
                break
            if not done: res.append(o)
        return res

    # ------------------------------------------------------------------ control flow
    def region(self, fr, L, items):
        """run blocks (inside loop L if given) until all paths left.  items: (block, pred, env, st)"""
        f = fr.f
        evs = []
        pend = {}        # (rpo, idx) -> list of (block, idx, env, st)
        def push(blk, idx, env, st):
            key = (f.rpo[blk], idx)
            l = pend.setdefault(key, [])
            if idx == 0 and self.merge:
                for k, (b2, i2, e2, s2) in enumerate(l):
                    m = self.merge_item(e2, s2, env, st, f.blocks[blk])
                    if m is not None:
                        l[k] = (blk, 0, m[0], m[1]); return
            l.append((blk, idx, env, st))
        def goto(blk, pred, env, st):
            if L is not None and blk == L.head:
                evs.append(('back', env, st, pred)); return
            if L is not None and blk not in L.blocks:
                evs.append(('exit', blk, pred, env, st)); return
            if blk in f.loops:
                for e in self.loop(fr, f.loops[blk], pred, env, st):
                    if e[0] == 'exit': goto(e[1], e[2], e[3], e[4])
                    else: evs.append(e)
                return
            env = self.phis(fr, blk, pred, env, st)
            push(blk, 0, env, st)
        for it in items:
            if it[0] == '@in':          # start inside a block whose phis are done (loop head)
                push(it[1], 0, it[2], it[3])
            else: goto(*it)
        while pend:
            key = min(pend)
            l = pend[key]
            blk, idx, env, st = l.pop()
            if not l: del pend[key]
            try:
                self.block(fr, L, f.blocks[blk], idx, env, st, push, goto, evs)
            except Dead:
                pass
        return evs

    def merge_item(self, e1, s1, e2, s2, blk):
        phis = set(p.res for p in blk.phis)
        for p in phis:
            a, b = e1.get(p), e2.get(p)
            if veq(a, b): continue
            try: vite(T.var('$m', 0), a, b)
            except KeyError: return None
        m = merge_states(s1, s2)
        if m is None: return None
        st, A = m
        env = {}
        for k, v in e1.items():
            if k in e2:
                w = e2[k]
                if veq(v, w): env[k] = v
                elif k in phis: env[k] = vite(A, v, w)
                else:
                    try: env[k] = vite(A, v, w)
                    except KeyError: pass
        return env, st

    def phis(self, fr, blk, pred, env, st):
        b = fr.f.blocks[blk]
        if not b.phis: return env
        new = dict(env)
        for p in b.phis:
            v = p.x[pred]
            new[p.res] = self.ev(fr, env, v, p.ty)
        return new

    def ev(self, fr, env, v, ty):
        k = v[0]
        if k == 'l':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined local %s in %s' % (v[1], fr.f.dem()))
        return self.constv(v, ty, fr.f.unit)

    def block(self, fr, L, b, idx, env, st, push, goto, evs):
        f = fr.f
        ins_list = b.ins
        n = len(ins_list)
        env = dict(env)
        ev = self.ev
        while idx < n:
            i = ins_list[idx]; idx += 1
            self.cur = (f, i)
            self.steps += 1
            if self.steps & 1023 == 0: self.check_budget()
            op = i.op
            if op == 'load':
                env[i.res] = self.load(st, self.asptr(ev(fr, env, i.a[0], irparse.PTR)), i.ty)
            elif op == 'store':
                self.store(st, self.asptr(ev(fr, env, i.a[1], irparse.PTR)), i.ty, ev(fr, env, i.a[0], i.ty))
            elif op == 'getelementptr':
                base = self.asptr(ev(fr, env, i.a[0], irparse.PTR))
                env[i.res] = self.gep(i.ty, base, [(t, ev(fr, env, v, t)) for t, v in i.x], st)
            elif op == 'alloca':
                cnt = 1
                if i.x is not None:
                    c = ev(fr, env, i.x, irparse.I64)
                    if not T.isc(c): raise Unsupported('variable alloca')
                    cnt = c.val
                env[i.res] = Ptr(st.new(i.ty.size() * cnt, i.res), Z64)
            elif op in ('call', 'invoke'):
                outs = self.docall(fr, env, st, i)
                rets = [o for o in outs if o[0] == 'ret']
                for o in outs:
                    if o[0] == 'throw':
                        if op == 'invoke' and self.catches(fr, i.x['un'], o[1], o[2]):
                            s2 = o[1]; s2.exc = o[2]
                            goto(i.x['un'], b.name, env if len(outs) == 1 else dict(env), s2)
                        else: evs.append(o)
                if not rets: return
                if op == 'invoke':
                    for o in rets:
                        e2 = dict(env)
                        if i.res is not None: e2[i.res] = self.retv(o[2], i.ty)
                        goto(i.x['to'], b.name, e2, o[1])
                    return
                for o in rets[1:]:
                    e2 = dict(env)
                    if i.res is not None: e2[i.res] = self.retv(o[2], i.ty)
                    push(b.name, idx, e2, o[1])
                st = rets[0][1]
                if i.res is not None: env[i.res] = self.retv(rets[0][2], i.ty)
            elif op in irparse.BIN:
                a = ev(fr, env, i.a[0], i.ty); c = ev(fr, env, i.a[1], i.ty)
                if i.x and 'exact' in i.x and isinstance(a, T.Term) and isinstance(c, T.Term) and T.isc(c) and op in ('sdiv', 'udiv', 'ashr', 'lshr'):
                    k = c.val if op in ('sdiv', 'udiv') else 1 << c.val
                    r = T.exact_div(a, k)
                    if r is None:
                        r = self.binop(op, a, c)
                    env[i.res] = r
                else:
                    if op in ('udiv', 'sdiv', 'urem', 'srem') and isinstance(c, T.Term) and not T.isc(c):
                        self.oblige(st, T.ne(c, T.bv(0, c.w)), 'division by zero', 'arith')
                    env[i.res] = self.binop(op, a, c)
            elif op == 'icmp':
                env[i.res] = b2i(self.icmp(i.x, ev(fr, env, i.a[0], i.ty), ev(fr, env, i.a[1], i.ty)))
            elif op in irparse.CAST:
                env[i.res] = self.cast(op, i.x, ev(fr, env, i.a[0], i.x), i.ty)
            elif op == 'br':
                if not i.a:
                    goto(i.x, b.name, env, st); return
                c = i2b(ev(fr, env, i.a[0], irparse.I1))
                if self.no_undef and not self.quiet: self.defined(st, c)
                self.branch(fr, L, b, i, c, env, st, goto)
                return
            elif op == 'switch':
                v = ev(fr, env, i.a[0], i.ty)
                dflt, cs = i.x
                byt = {}
                for k, tgt in cs: byt.setdefault(tgt, []).append(T.eq(v, T.bv(k, v.w)))
                rest = T.TRUE
                work = [(T.bor(*l), tgt) for tgt, l in byt.items() if tgt != dflt]
                rest = T.band(*[T.not_(c) for c, _ in work])
                # several edges to the same block share one phi entry
                for c, tgt in work + [(rest, dflt)]:
                    if c is T.FALSE: continue
                    s2 = st.copy()
                    if c is not T.TRUE:
                        d = s2.decide(c)
                        if d is False: continue
                        s2.assume(c)
                    goto(tgt, b.name, env, s2)
                return
            elif op == 'ret':
                evs.append(('ret', st, ev(fr, env, i.a[0], i.ty) if i.a else None)); return
            elif op == 'unreachable':
                return
            elif op == 'resume':
                v = ev(fr, env, i.a[0], i.ty)
                evs.append(('throw', st, v.v[0])); return
            elif op == 'select':
                c = i2b(ev(fr, env, i.a[0], irparse.I1))
                x = ev(fr, env, i.a[1], i.ty); y = ev(fr, env, i.a[2], i.ty)
                try: env[i.res] = vite(c, x, y) if c is not T.TRUE and c is not T.FALSE else (x if c is T.TRUE else y)
                except KeyError:
                    d = st.decide(c)
                    if d is None:
                        s2 = st.copy(); s2.assume(T.not_(c))
                        e2 = dict(env); e2[i.res] = y
                        push(b.name, idx, e2, s2)
                        st.assume(c); env[i.res] = x
                    else: env[i.res] = x if d else y
            elif op == 'freeze':
                env[i.res] = ev(fr, env, i.a[0], i.ty)
            elif op == 'extractvalue':
                v = ev(fr, env, i.a[0], i.ty)
                for k in i.x: v = v.v[k]
                env[i.res] = v
            elif op == 'insertvalue':
                v = ev(fr, env, i.a[0], i.ty)
                et, path = i.x
                env[i.res] = insv(v, path, ev(fr, env, i.a[1], et))
            elif op == 'landingpad':
                env[i.res] = self.landing(fr, i, st)
            elif op == 'atomicrmw':
                p = self.asptr(ev(fr, env, i.a[0], irparse.PTR)); v = ev(fr, env, i.a[1], i.ty)
                old = self.load(st, p, i.ty)
                self.store(st, p, i.ty, {'add': T.add, 'sub': T.sub, 'xchg': lambda x, y: y, 'or': T.or_, 'and': T.and_}[i.x](old, v))
                env[i.res] = old
            elif op == 'fneg' or op == 'fcmp':
                raise Unsupported('floating point')
            else:
                raise Unsupported('instruction ' + op)

    def asptr(self, v):
        if isinstance(v, T.Term): return self.ptr_of(v)
        return v

    def retv(self, v, ty):
        if v is None: raise Unsupported('missing result')
        return v

    no_undef = False
    def defined(self, st, c):
        """a decision is the same whatever uninitialised memory holds"""
        us = [v for v in T.vars_of([c]) if str(v).startswith('undef')]
        if us: self.oblige(st, T.iff(c, T.subst(c, {v: T.fresh('undef', v.w) for v in us})), 'no decision on uninitialised data', 'undef')
    def branch(self, fr, L, b, i, c, env, st, goto):
        t, e = i.x
        if c is T.TRUE or c is T.FALSE:
            if L is not None: self.logexit(fr, L, b, i, True)
            goto(t if c is T.TRUE else e, b.name, env, st); return
        if L is not None: self.logexit(fr, L, b, i, False)
        d = st.decide(c)
        if d is True:
            st.assume(c); goto(t, b.name, env, st)
        elif d is False:
            st.assume(T.not_(c)); goto(e, b.name, env, st)
        else:
            ka, kb = (fr.f.name, b.name, 0), (fr.f.name, b.name, 1)
            if self.guide is not None and (ka in self.guide) != (kb in self.guide):
                # form finding only: stay on the paths the first iterations took
                if ka in self.guide: st.assume(c); goto(t, b.name, env, st)
                else: st.assume(T.not_(c)); goto(e, b.name, env, st)
                return
            s2 = st.copy()
            st.assume(c); s2.assume(T.not_(c))
            st.tr = (st.tr, ka); s2.tr = (s2.tr, kb)
            goto(t, b.name, env, st)
            goto(e, b.name, dict(env), s2)

    def logexit(self, fr, L, b, i, const):
        if any(s not in L.blocks for s in i.x):
            k = (L, b.name)
            cur = self.exitlog.get(k)
            self.exitlog[k] = const if cur is None else (cur and const)
    exitlog = {}

    # ------------------------------------------------------------------ exceptions
    def tid(self, name):
        if name not in self.tids: self.tids[name] = len(self.tids) + 1
        return self.tids[name]
    def ti_name(self, v):
        """typeinfo value -> symbol name"""
        if isinstance(v, Ptr): return self.globs_ids[v.obj]
        if isinstance(v, Fn): return v.name
        return str(v)
    def ti_bases(self, name):
        """all typeinfo names that catch an exception of this type"""
        out = [name]
        std = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
               '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
               '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception'],
               '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
               '_ZTINSt8ios_base7failureB5cxx11E': ['_ZTISt13runtime_error'], '_ZTISt12system_error': ['_ZTISt13runtime_error'],
               '_ZTISt17bad_function_call': ['_ZTISt9exception']}
        if name in std:
            for x in std[name]: out += self.ti_bases(x)
            return out
        if name in self.mod.globals:
            ty, v, c = self.mod.global_init(name)
            if v and v[0] == 'a':
                for e, x in v[1][2:]:
                    if x[0] == 'g': out += self.ti_bases(x[1])
        return out
    def exc_type(self, st, exc):
        return st.attr(exc.obj, 'ti')
    def clause(self, fr, st, exc, c):
        kind, v = c
        if kind == 'filter': return True
        if v[0] == 'n': return True
        nm = v[1]
        return nm in self.ti_bases(self.exc_type(st, exc))
    def catches(self, fr, blk, st, exc):
        b = fr.f.blocks[blk]
        for i in b.ins:
            if i.op == 'landingpad':
                cleanup, cl = i.x
                return cleanup or any(self.clause(fr, st, exc, c) for c in cl)
        return True
    def landing(self, fr, i, st):
        cleanup, cl = i.x
        exc = st.exc
        for c in cl:
            if self.clause(fr, st, exc, c):
                v = c[1]
                sel = self.tid('*' if v[0] == 'n' else v[1] if v[0] == 'g' else 'filter')
                if c[0] == 'filter': sel = -1
                return Agg([exc, T.bv(sel, 32)])
        return Agg([exc, T.bv(0, 32)])

    def throw(self, st, ti, **attrs):
        i = st.new(64, 'exception')
        st.setattr(i, 'ti', ti)
        for k, v in attrs.items(): st.setattr(i, k, v)
        return ('throw', st, Ptr(i, Z64))

    # ------------------------------------------------------------------ calls from instructions
    def docall(self, fr, env, st, i):
        x = i.x
        cal = x['callee']
        if cal[0] == 'g':
            nm = cal[1]
            if nm.startswith('llvm.'): return self.intrinsic(fr, env, st, i, nm)
            fn = Fn(self.fkey(fr.f.unit, nm))
        elif cal[0] == 'asm':
            raise Unsupported('inline asm')
        else:
            fn = ev = self.ev(fr, env, cal, irparse.PTR)
            if isinstance(fn, Ptr):
                if fn.obj in self.globs_ids and self.globs_ids[fn.obj] in self.mod.funcs: fn = Fn(self.globs_ids[fn.obj])
                else: raise Unsupported('call through %r' % (fn,))
            if not isinstance(fn, Fn): raise Unsupported('call through %r' % (fn,))
        args = [self.ev(fr, env, v, t) for t, v, a in x['args']]
        save = self.cur
        outs = self.call(st, fn.name, args, i)
        self.cur = save
        return outs

    def intrinsic(self, fr, env, st, i, nm):
        if LIFE.match(nm): return [('ret', st, NULL)]
        a = [self.ev(fr, env, v, t) for t, v, _ in i.x['args'] if t.k != 'void']
        if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, self.asptr(a[0]), self.asptr(a[1]), T.zext(a[2], 64) if a[2].w < 64 else a[2])
            return [('ret', st, None)]
        if nm.startswith('llvm.memset'):
            self.memset(st, self.asptr(a[0]), a[1], T.zext(a[2], 64) if a[2].w < 64 else a[2])
            return [('ret', st, None)]
        if nm.startswith('llvm.eh.typeid.for'):
            v = i.x['args'][0][1]
            return [('ret', st, T.bv(self.tid(v[1]), 32))]
        if nm.startswith('llvm.trap') : return []
        m = re.match(r'llvm\.(u|s)(max|min)\.', nm)
        if m:
            lt = T.ult if m.group(1) == 'u' else T.slt
            c = lt(a[0], a[1])
            return [('ret', st, T.ite(c, a[1], a[0]) if m.group(2) == 'max' else T.ite(c, a[0], a[1]))]
        if nm.startswith('llvm.abs'):
            return [('ret', st, T.ite(T.slt(a[0], T.bv(0, a[0].w)), T.neg(a[0]), a[0]))]
        if nm.startswith('llvm.bswap'):
            n = a[0].w // 8
            return [('ret', st, T.concat_lo([T.extract(a[0], 8 * (n - 1 - k) + 7, 8 * (n - 1 - k)) for k in range(n)]))]
        if nm.startswith(('llvm.fshl', 'llvm.fshr')):
            w = a[0].w
            if T.isc(a[2]):
                s = a[2].val % w
                if nm.startswith('llvm.fshr'): s = (w - s) % w if s else 0
                if nm.startswith('llvm.fshr') and a[2].val % w == 0: return [('ret', st, a[1])]
                if s == 0: return [('ret', st, a[0])]
                return [('ret', st, T.or_(T.shl(a[0], T.bv(s, w)), T.lshr(a[1], T.bv(w - s, w))))]
        m = re.match(r'llvm\.umul\.with\.overflow\.i(\d+)', nm)
        if m:
            w = int(m.group(1))
            p = T.mul(T.zext(a[0], 2 * w), T.zext(a[1], 2 * w))
            return [('ret', st, Agg([T.mul(a[0], a[1]), b2i(T.ne(T.extract(p, 2 * w - 1, w), T.bv(0, w)))]))]
        m = re.match(r'llvm\.uadd\.with\.overflow\.i(\d+)', nm)
        if m:
            s = T.add(a[0], a[1])
            return [('ret', st, Agg([s, b2i(T.ult(s, a[0]))]))]
        if nm.startswith('llvm.is.constant'): return [('ret', st, T.bv(0, 1))]
        if nm.startswith('llvm.expect'): return [('ret', st, a[0])]
        if nm.startswith(('llvm.stacksave',)): return [('ret', st, NULL)]
        if nm.startswith(('llvm.stackrestore',)): return [('ret', st, None)]
        if nm.startswith('llvm.threadlocal.address'): return [('ret', st, a[0])]
        raise Unsupported('intrinsic ' + nm)

class Dead(Exception):
    """the current path ends (after a failed memory obligation)"""

_I1 = {}
def b2i(c):
    if c is T.TRUE: return T.bv(1, 1)
    if c is T.FALSE: return T.bv(0, 1)
    return T.ite(c, T.bv(1, 1), T.bv(0, 1))
def i2b(t):
    if t.w == 0: return t
    if t.w > 1: return T.ne(t, T.bv(0, t.w))
    return T.eq(t, T.bv(1, 1))

def insv(v, path, x):
    l = list(v.v)
    l[path[0]] = x if len(path) == 1 else insv(l[path[0]], path[1:], x)
    return Agg(l)

BINF = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'sdiv': T.sdiv, 'urem': T.urem, 'srem': T.srem,
        'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr, 'and': T.and_, 'or': T.or_, 'xor': T.xor}
CMPF = {'eq': T.eq, 'ne': T.ne, 'ult': T.ult, 'ule': T.ule, 'ugt': T.ugt, 'uge': T.uge,
        'slt': T.slt, 'sle': T.sle, 'sgt': lambda a, b: T.slt(b, a), 'sge': lambda a, b: T.not_(T.slt(a, b))}

from . import loops   # noqa: adds Engine.loop
Engine.loop = loops.loop
from . import models
