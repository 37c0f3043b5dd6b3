"""Symbolic byte sequences (possibly of symbolic length)."""
from . import terms as T

C64 = lambda v: T.bv(v, 64)
_j = T.var('$j', 64)          # bound variable of map / lambda sequences

class Seq:
    __slots__ = ('k', 'a', 'len', 'key')
    def __init__(self, k, a, ln):
        self.k = k; self.a = a; self.len = ln; self.key = (k, a, ln)
    def __eq__(self, o):
        return isinstance(o, Seq) and self.key == o.key
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.key)
    def __repr__(self):
        if self.k == 'b':
            if all(T.isc(t) for t in self.a): return 'b%r' % bytes(t.val for t in self.a)
            if len(self.a) > 6: return 'b[%d]' % len(self.a)
            return 'b%r' % (list(self.a),)
        if self.k == 'v': return '%s<%r>' % (self.a, self.len)
        if self.k == 'sl': return '%r[%r:+%r]' % (self.a[0], self.a[1], self.len)
        if self.k == 'cat': return ' ++ '.join(map(repr, self.a))
        return '%s%r<%r>' % (self.k, self.a, self.len)

def _b(ts): return Seq('b', tuple(ts), C64(len(ts)))
EMPTY = _b(())
def bytes_(ts): return _b(ts)
def const(bs): return _b(tuple(T.bv(x, 8) for x in bs))
def var(name, ln): return Seq('v', name, ln)
def zeros(n): return fill(T.bv(0, 8), n)
def fill(b, n):
    if T.isc(n) and n.val <= 4096: return _b((b,) * n.val)
    return Seq('lam', b, n)
def lam(body, n):
    """body is a term in seqs._j"""
    if T.isc(n) and n.val <= 256:
        return _b(tuple(T.subst(body, {_j: C64(i)}) for i in range(n.val)))
    return Seq('lam', body, n)
def map_(n, pieces):
    """n copies of the byte tuple `pieces` (terms in _j)"""
    c = len(pieces)
    if T.isc(n) and n.val * c <= 256:
        return _b(tuple(T.subst(p, {_j: C64(i)}) for i in range(n.val) for p in pieces))
    return Seq('map', (n, tuple(pieces)), T.mulc(n, c))
def of_term(t):
    """little-endian bytes of a term"""
    return _b(tuple(T.extract(t, 8 * i + 7, 8 * i) for i in range(t.w // 8)))
def is_empty(s): return T.isc(s.len) and s.len.val == 0

def concat(parts, ctx=None):
    out = []
    for p in parts:
        for q in (p.a if p.k == 'cat' else (p,)):
            if T.isc(q.len) and q.len.val == 0: continue
            while out:
                l = out[-1]
                if l.k == 'b' and q.k == 'b':
                    q = _b(l.a + q.a); out.pop(); continue
                lb, lo = (l.a if l.k == 'sl' else (l, C64(0)))
                qb, qo = (q.a if q.k == 'sl' else (q, C64(0)))
                if lb.k not in ('b',) and lb == qb and T.add(lo, l.len) is qo and q.k == 'sl':
                    q = _sl(lb, lo, T.add(l.len, q.len)); out.pop(); continue
                if l.k == 'map' and q.k == 'b':
                    n, ps = l.a
                    c = len(ps)
                    if len(q.a) >= c:
                        m = {_j: n}
                        if all(T.subst(x, m) is y for x, y in zip(ps, q.a)):
                            out.pop()
                            out.append(map_(T.addc(n, 1), ps))
                            q = _b(q.a[c:])
                            if not q.a: q = None
                            if q is None: break
                            continue
                break
            if q is not None: out.append(q)
    if not out: return EMPTY
    if len(out) == 1: return out[0]
    return Seq('cat', tuple(out), T.add(*[p.len for p in out]))

def _sl(base, off, ln):
    if T.isc(ln) and ln.val == 0: return EMPTY
    if T.isc(off) and off.val == 0 and ln is base.len: return base
    return Seq('sl', (base, off), ln)

def slice_(s, a, n, ctx=None):
    """s[a : a+n]; caller guarantees it is in range"""
    if T.isc(n) and n.val == 0: return EMPTY
    if T.isc(a) and a.val == 0 and n is s.len: return s
    if s.k == 'b':
        if T.isc(a) and T.isc(n): return _b(s.a[a.val:a.val + n.val])
    elif s.k == 'sl':
        return slice_(s.a[0], T.add(s.a[1], a), n, ctx)
    elif s.k == 'cat':
        # skip whole parts before a
        parts = list(s.a)
        off = a
        i = 0
        ok = True
        while i < len(parts) - 0:
            p = parts[i]
            if T.isc(off) and off.val == 0: break
            d = decide(ctx, T.ule(p.len, off))
            if d is True:
                off = T.sub(off, p.len); i += 1
                if i == len(parts): break
            elif d is False: break
            else: ok = False; break
        if ok and i < len(parts):
            out = []; rem = n
            while True:
                if T.isc(rem) and rem.val == 0: break
                if i == len(parts): ok = bool(decide(ctx, T.eq(rem, C64(0)))); break
                p = parts[i]
                avail = T.sub(p.len, off)
                if rem is avail:
                    out.append(slice_(p, off, avail, ctx)); break
                d = decide(ctx, T.ule(rem, avail))
                if d is True:
                    out.append(slice_(p, off, rem, ctx)); break
                if d is False or decide(ctx, T.ule(avail, rem)) is True:
                    out.append(slice_(p, off, avail, ctx))
                    rem = T.sub(rem, avail); off = C64(0); i += 1
                else: ok = False; break
            if ok: return concat(out, ctx)
    elif s.k == 'lam':
        return lam(T.subst(s.a, {_j: T.add(_j, a)}), n)
    elif s.k == 'map':
        cnt, ps = s.a
        c = len(ps)
        q = T.exact_div(a, c); m = T.exact_div(n, c)
        if q is not None and m is not None:
            return map_(m, tuple(T.subst(p, {_j: T.add(_j, q)}) for p in ps))
    elif s.k == 'upd':
        base, i, v = s.a
        if decide(ctx, T.bor(T.ult(i, a), T.uge(i, T.add(a, n)))) is True:
            return slice_(base, a, n, ctx)
        if T.isc(n):
            return _b(tuple(at(s, T.addc(a, k), ctx) for k in range(n.val))) if n.val <= 256 else _sl(s, a, n)
        if decide(ctx, T.band(T.uge(i, a), T.ult(i, T.add(a, n)))) is True:
            return Seq('upd', (slice_(base, a, n, ctx), T.sub(i, a), v), n)
    elif s.k == 'ite':
        return ite(s.a[0], slice_(s.a[1], a, n, ctx), slice_(s.a[2], a, n, ctx))
    if T.isc(n) and n.val <= 64 and s.k in ('b',):
        return _b(tuple(at(s, T.addc(a, k), ctx) for k in range(n.val)))
    return _sl(s, a, n)

def decide(ctx, c):
    if c is T.TRUE: return True
    if c is T.FALSE: return False
    return ctx.decide(c) if ctx is not None else None

def ite(c, a, b):
    if c is T.TRUE: return a
    if c is T.FALSE: return b
    if a == b: return a
    if a.k == 'b' and b.k == 'b' and len(a.a) == len(b.a):
        return _b(tuple(T.ite(c, x, y) for x, y in zip(a.a, b.a)))
    return Seq('ite', (c, a, b), T.ite(c, a.len, b.len))

def upd(s, i, v, ctx=None):
    if s.k == 'b' and T.isc(i):
        l = list(s.a); l[i.val] = v
        return _b(tuple(l))
    if s.k == 'b' and len(s.a) <= 64:
        return _b(tuple(T.ite(T.eq(i, C64(k)), v, x) for k, x in enumerate(s.a)))
    if s.k == 'cat':
        off = i; done = []
        for k, p in enumerate(s.a):
            d = decide(ctx, T.ult(off, p.len))
            if d is True:
                return concat(list(s.a[:k]) + [upd(p, off, v, ctx)] + list(s.a[k + 1:]), ctx)
            if d is None: break
            off = T.sub(off, p.len)
    if s.k == 'upd' and s.a[1] is i:
        return Seq('upd', (s.a[0], i, v), s.len)
    return Seq('upd', (s, i, v), s.len)

def write(s, off, data, ctx=None):
    """overwrite s[off:off+len(data)] (in range)"""
    n = data.len
    if s.k == 'b' and T.isc(off) and data.k == 'b':
        return _b(s.a[:off.val] + data.a + s.a[off.val + len(data.a):])
    if T.isc(n) and n.val == 1: return upd(s, off, at(data, C64(0)), ctx)
    if T.isc(n) and n.val <= 16 and s.k == 'b' and not T.isc(off):
        for k in range(n.val): s = upd(s, T.addc(off, k), at(data, C64(k)), ctx)
        return s
    e = T.add(off, n)
    return concat([slice_(s, C64(0), off, ctx), data, slice_(s, e, T.sub(s.len, e), ctx)], ctx)

def at(s, i, ctx=None):
    k = s.k
    if k == 'b':
        if T.isc(i): return s.a[i.val] if i.val < len(s.a) else T.bv(0, 8)
        if all(T.isc(x) for x in s.a) and len(s.a) > 1:
            return T.tbl(tuple(x.val for x in s.a), i, 8)
        if not s.a: return T.bv(0, 8)
        # binary tree would help z3 little; chain
        r = s.a[-1]
        for q in range(len(s.a) - 2, -1, -1):
            r = T.ite(T.eq(i, C64(q)), s.a[q], r)
        return r
    if k == 'v': return T.uf(s.a, (i,), 8)
    if k == 'sl': return at(s.a[0], T.add(s.a[1], i), ctx)
    if k == 'lam': return T.subst(s.a, {_j: i})
    if k == 'upd':
        base, u, v = s.a
        return T.ite(T.eq(i, u), v, at(base, i, ctx))
    if k == 'ite': return T.ite(s.a[0], at(s.a[1], i, ctx), at(s.a[2], i, ctx))
    if k == 'map':
        n, ps = s.a
        c = len(ps)
        q, r = divc(i, c)
        if r is not None:
            return T.subst(ps[r], {_j: q})
        q = T.udiv(i, C64(c)); rr = T.urem(i, C64(c))
        m = {_j: q}
        t = T.subst(ps[-1], m)
        for x in range(c - 2, -1, -1):
            t = T.ite(T.eq(rr, C64(x)), T.subst(ps[x], m), t)
        return t
    if k == 'cat':
        res = []
        off = i
        for p in s.a[:-1]:
            c = T.ult(off, p.len)
            d = decide(ctx, c)
            if d is True:
                res.append((T.TRUE, at(p, off, ctx))); break
            if d is None: res.append((c, at(p, off, ctx)))
            off = T.sub(off, p.len)
        else:
            res.append((T.TRUE, at(s.a[-1], off, ctx)))
        t = res[-1][1]
        for c, v in reversed(res[:-1]): t = T.ite(c, v, t)
        return t
    raise ValueError(k)

def divc(i, c):
    """i = c*q + r with constant r when visible from the linear form"""
    k, p = T.lin_parts(i)
    k = T.sgn(k, i.w)
    if all(T.sgn(x, i.w) % c == 0 for _, x in p):
        q = T.mklin(k // c, [(t, T.sgn(x, i.w) // c) for t, x in p], i.w)
        return q, k % c
    return None, None

def subst(s, m, memo=None):
    if not m: return s
    if memo is None: memo = {}
    f = lambda t: T.subst(t, m, memo)
    return mapterms(s, f)

def mapterms(s, f):
    k = s.k
    if k == 'b': return _b(tuple(f(t) for t in s.a))
    if k == 'v': return Seq('v', s.a, f(s.len))
    if k == 'sl': return slice_(mapterms(s.a[0], f), f(s.a[1]), f(s.len))
    if k == 'cat': return concat([mapterms(p, f) for p in s.a])
    if k == 'map': return map_(f(s.a[0]), tuple(f(p) for p in s.a[1]))
    if k == 'lam': return lam(f(s.a), f(s.len))
    if k == 'upd': return upd(mapterms(s.a[0], f), f(s.a[1]), f(s.a[2]))
    if k == 'ite': return ite(f(s.a[0]), mapterms(s.a[1], f), mapterms(s.a[2], f))
    raise ValueError(k)

def terms(s):
    """all terms occurring in s"""
    k = s.k
    yield s.len
    if k == 'b': yield from s.a
    elif k == 'sl':
        yield s.a[1]; yield from terms(s.a[0])
    elif k == 'cat':
        for p in s.a: yield from terms(p)
    elif k == 'map':
        yield s.a[0]; yield from s.a[1]
    elif k == 'lam': yield s.a
    elif k == 'upd':
        yield s.a[1]; yield s.a[2]; yield from terms(s.a[0])
    elif k == 'ite':
        yield s.a[0]; yield from terms(s.a[1]); yield from terms(s.a[2])
def svars(s):
    k = s.k
    if k == 'v': yield s.a
    elif k == 'sl': yield from svars(s.a[0])
    elif k == 'cat':
        for p in s.a: yield from svars(p)
    elif k == 'upd': yield from svars(s.a[0])
    elif k == 'ite':
        yield from svars(s.a[1]); yield from svars(s.a[2])

def replace_var(s, name, new, ctx=None):
    """replace sequence variable `name` by sequence `new` structurally (not inside terms)"""
    k = s.k
    if k == 'v': return new if s.a == name else s
    if k == 'sl': return slice_(replace_var(s.a[0], name, new, ctx), s.a[1], s.len, ctx)
    if k == 'cat': return concat([replace_var(p, name, new, ctx) for p in s.a], ctx)
    if k == 'upd': return upd(replace_var(s.a[0], name, new, ctx), s.a[1], s.a[2], ctx)
    if k == 'ite': return ite(s.a[0], replace_var(s.a[1], name, new, ctx), replace_var(s.a[2], name, new, ctx))
    return s

def eq_goal(a, b, ctx=None):
    """a term whose validity (for the fresh index) means a == b"""
    if a == b: return T.TRUE
    le = T.eq(a.len, b.len)
    if le is T.FALSE: return T.FALSE
    if T.isc(a.len) and a.len.val <= 512 or T.isc(b.len) and b.len.val <= 512:
        n = a.len.val if T.isc(a.len) else b.len.val
        return T.band(le, *[T.eq(at(a, C64(i), ctx), at(b, C64(i), ctx)) for i in range(n)])
    # strip common prefix parts
    pa = list(a.a) if a.k == 'cat' else [a]
    pb = list(b.a) if b.k == 'cat' else [b]
    while pa and pb and pa[0] == pb[0]: pa.pop(0); pb.pop(0)
    while pa and pb and pa[-1] == pb[-1]: pa.pop(); pb.pop()
    if not pa and not pb: return T.TRUE
    if not pa or not pb: return le
    a = concat(pa); b = concat(pb)
    i = T.fresh('ix', 64)
    return T.band(le, T.implies(T.ult(i, a.len), T.eq(at(a, i, ctx), at(b, i, ctx))))

def eq_cond(a, b, ctx=None):
    """exact equality as a term when one side has small constant length, else an opaque predicate"""
    if a == b: return T.TRUE
    le = T.eq(a.len, b.len)
    if le is T.FALSE: return T.FALSE
    n = a.len.val if T.isc(a.len) else b.len.val if T.isc(b.len) else None
    if n is not None and n <= 512:
        return T.band(le, *[T.eq(at(a, C64(i), ctx), at(b, C64(i), ctx)) for i in range(n)])
    return T.band(le, seqeq(a, b))

_seqeq = {}
def seqeq(a, b):
    k = (a, b)
    if k not in _seqeq:
        _seqeq[k] = _seqeq[(b, a)] = T.fresh('seqeq', 0)
        eqdefs[_seqeq[k]] = (a, b)
    return _seqeq[k]
eqdefs = {}
