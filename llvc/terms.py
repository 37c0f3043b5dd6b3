"""Hash-consed bit-vector / boolean terms with local simplification.

Width 0 denotes Bool.  Every other term is a bit-vector of `w` bits.
"""
import sys
sys.setrecursionlimit(200000)

class Term:
    __slots__ = ('op', 'args', 'w', 'val', 'id', 'z', '_h', '_seg')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self._h
    def __eq__(self, o):
        return self is o
    def __bool__(self):
        raise TypeError('truth value of symbolic term')

_tab = {}
_cnt = [0]

def mk(op, args, w, val=None):
    k = (op, args, w, val)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op; t.args = args; t.w = w; t.val = val; t.z = None; t._seg = 0
        _cnt[0] += 1
        t.id = _cnt[0]
        t._h = t.id * 2654435761 & 0xffffffff
        _tab[k] = t
    return t

def bv(v, w):
    return mk('c', (), w, v & ((1 << w) - 1))
TRUE = mk('t', (), 0)
FALSE = mk('f', (), 0)
def boolc(b):
    return TRUE if b else FALSE
def var(name, w):
    return mk('v', (), w, name)
_fresh = [0]
def fresh(pfx, w):
    _fresh[0] += 1
    return var('%s!%d' % (pfx, _fresh[0]), w)
def fresh_name(pfx):
    _fresh[0] += 1
    return '%s!%d' % (pfx, _fresh[0])

def isc(t):
    return t.op == 'c'
def mask(w):
    return (1 << w) - 1
def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    """-> (const, ((term, coef), ...))"""
    if t.op == 'c':
        return t.val, ()
    if t.op == 'lin':
        return t.val[0], tuple(zip(t.args, t.val[1]))
    if t.op == 'concat' and t.args[0].op == 'c' and t.args[0].val == 0:      # X * 2^z
        z = t.args[0].w
        x = concat_lo([*t.args[1:], bv(0, z)])
        y = t.args[1]
        if len(t.args) == 2 and y.op == 'ext' and y.val[1] == 0 and y.args[0].w == t.w: x = y.args[0]
        if x.op != 'lin': return 0, ((x, 1 << z),)
    return 0, ((t, 1),)

def mklin(c, parts, w):
    m = mask(w)
    d = {}
    for t, k in parts:
        d[t] = (d.get(t, 0) + k) & m
    items = sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id)
    c &= m
    if not items:
        return bv(c, w)
    if c == 0 and len(items) == 1:
        t, k = items[0]
        if k == 1: return t
        if k & (k - 1) == 0 and t.op == 'concat':      # X * 2^z stays a concatenation
            z = k.bit_length() - 1; top = t.args[-1]
            if top.op == 'c' and top.val == 0 and top.w >= z:
                return concat_lo([bv(0, z), *t.args[:-1], *([bv(0, top.w - z)] if top.w > z else [])])
    return mk('lin', tuple(t for t, _ in items), w, (c, tuple(k for _, k in items)))

def add(*ts):
    w = ts[0].w
    c = 0
    parts = []
    for t in ts:
        assert t.w == w, (t, ts)
        a, p = lin_parts(t)
        c += a
        parts.extend(p)
    return mklin(c, parts, w)
def mulc(t, k):
    c, p = lin_parts(t)
    return mklin(c * k, [(a, b * k) for a, b in p], t.w)
def neg(t):
    return mulc(t, -1)
def sub(a, b):
    assert a.w == b.w
    c, p = lin_parts(a)
    c2, p2 = lin_parts(b)
    return mklin(c - c2, list(p) + [(x, -k) for x, k in p2], a.w)
def addc(t, k):
    return add(t, bv(k, t.w)) if k else t

def mul(a, b):
    if isc(a):
        return mulc(b, a.val)
    if isc(b):
        return mulc(a, b.val)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), a.w)

def _divop(op, f):
    def g(a, b):
        if isc(a) and isc(b) and b.val != 0:
            return bv(f(a.val, b.val, a.w), a.w)
        if isc(b):
            if b.val == 1:
                return a if op in ('udiv', 'sdiv') else bv(0, a.w)
            k = b.val
            if op in ('udiv', 'urem') and k & (k - 1) == 0 and k:
                s = k.bit_length() - 1
                return lshr(a, bv(s, a.w)) if op == 'udiv' else zext(extract(a, s - 1, 0), a.w)
        return mk(op, (a, b), a.w)
    return g
def _sdiv(x, y, w):
    x = sgn(x, w); y = sgn(y, w)
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q
def _srem(x, y, w):
    x = sgn(x, w); y = sgn(y, w)
    r = abs(x) % abs(y)
    return -r if x < 0 else r
udiv = _divop('udiv', lambda x, y, w: x // y)
urem = _divop('urem', lambda x, y, w: x % y)
sdiv = _divop('sdiv', _sdiv)
srem = _divop('srem', _srem)

def exact_div(a, k):
    """a / k where the division is known to be exact (pointer differences)."""
    c, p = lin_parts(a)
    w = a.w
    cs = sgn(c, w)
    if cs % k == 0 and all(sgn(q, w) % k == 0 for _, q in p):
        return mklin(cs // k, [(t, sgn(q, w) // k) for t, q in p], w)
    return None

# ---------------------------------------------------------------- bit segments
def segs(t):
    """Decompose into bit segments low..high: list of (term) whose widths sum to
    t.w, where constant segments are const terms.  None when t is atomic."""
    s = t._seg
    if s == 0:
        s = _segs(t)
        t._seg = s
    return s

def _segs(t):
    op = t.op
    if op == 'c':
        return (t,)
    if op == 'concat':
        return t.args
    if op == 'lin':
        # disjoint shifted zero-extensions
        c = t.val[0]
        pieces = []
        for a, k in zip(t.args, t.val[1]):
            if k & (k - 1):
                return None
            sh = k.bit_length() - 1
            sg = segs(a)
            lo = 0
            if sg is None:
                pieces.append((sh, a))
                continue
            for x in sg:
                if not isc(x):
                    pieces.append((sh + lo, x))
                elif x.val:
                    return None
                lo += x.w
        if len(pieces) > 16:
            return None
        pieces.sort(key=lambda x: x[0])
        out = []
        pos = 0
        for sh, x in pieces:
            if sh >= t.w:
                continue
            if sh < pos:
                return None
            if sh > pos:
                out.append(bv(c >> pos, sh - pos))
            if sh + x.w > t.w:
                x = extract(x, t.w - sh - 1, 0)
            if c >> sh & mask(x.w):
                return None
            out.append(x)
            pos = sh + x.w
        if pos < t.w:
            out.append(bv(c >> pos, t.w - pos))
        return tuple(out)
    return None

def concat_lo(parts):
    """parts low..high"""
    out = []
    for p in parts:
        if p.w == 0:
            continue
        if p.op == 'concat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if out:
                l = out[-1]
                if isc(l) and isc(q):
                    out[-1] = bv(l.val | q.val << l.w, l.w + q.w)
                    continue
                if l.op == 'ext' and q.op == 'ext' and l.args[0] is q.args[0] \
                        and l.val[0] + 1 == q.val[1]:
                    out[-1] = extract(l.args[0], q.val[0], l.val[1])
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return mk('concat', tuple(out), sum(p.w for p in out))

def extract(t, hi, lo):
    w = hi - lo + 1
    if w == t.w:
        return t
    assert 0 <= lo <= hi < t.w, (hi, lo, t.w)
    op = t.op
    if op == 'c':
        return bv(t.val >> lo, w)
    if op == 'ext':
        return extract(t.args[0], hi + t.val[1], lo + t.val[1])
    if op == 'tbl' and (lo == 0 or all(x >> lo & mask(w) == t.val[0] >> lo & mask(w) for x in t.val)):
        return tbl(tuple(x >> lo & mask(w) for x in t.val), t.args[0], w)
    sg = segs(t)
    if sg is not None:
        out = []
        pos = 0
        for s in sg:
            a = max(lo, pos); b = min(hi, pos + s.w - 1)
            if a <= b:
                out.append(extract(s, b - pos, a - pos))
            pos += s.w
        return concat_lo(out)
    if op == 'lin' and lo == 0:
        return mklin(t.val[0], [(extract(a, hi, 0), k) for a, k in zip(t.args, t.val[1])], w)
    if op == 'lin' and all(k & mask(lo) == 0 for k in t.val[1]):      # multiples of 2^lo plus a constant
        w2 = t.w - lo
        r = mklin(t.val[0] >> lo, [(extract(a, w2 - 1, 0), k >> lo) for a, k in zip(t.args, t.val[1])], w2)
        return r if hi == t.w - 1 else extract(r, hi - lo, 0)
    if op in ('and', 'or', 'xor') or op == 'bnot':
        f = {'and': and_, 'or': or_, 'xor': xor}.get(op)
        if f:
            r = extract(t.args[0], hi, lo)
            for a in t.args[1:]:
                r = f(r, extract(a, hi, lo))
            return r
    if op == 'ite':
        return ite(t.args[0], extract(t.args[1], hi, lo), extract(t.args[2], hi, lo))
    if op == 'sext' and hi < t.args[0].w:
        return extract(t.args[0], hi, lo)
    return mk('ext', (t,), w, (hi, lo))

def zext(t, w):
    if t.w == w:
        return t
    assert w > t.w
    if isc(t):
        return bv(t.val, w)
    if t.op == 'tbl':
        return tbl(t.val, t.args[0], w)
    return concat_lo([t, bv(0, w - t.w)])
def sext(t, w):
    if t.w == w:
        return t
    if isc(t):
        return bv(sgn(t.val, t.w), w)
    sg = segs(t)
    if sg is not None and isc(sg[-1]) and not (sg[-1].val >> (sg[-1].w - 1)) & 1:
        return zext(t, w)
    if t.op == 'tbl' and all(not v >> (t.w - 1) & 1 for v in t.val):
        return zext(t, w)
    if t.op == 'tbl':
        return tbl(tuple(sgn(v, t.w) & mask(w) for v in t.val), t.args[0], w)
    if t.op == 'sext':
        return sext(t.args[0], w)
    return mk('sext', (t,), w)
def trunc(t, w):
    return extract(t, w - 1, 0)

def _align(a, b):
    """split the segments of a and b at common boundaries; None if both atomic"""
    sa = segs(a); sb = segs(b)
    if sa is None and sb is None:
        return None
    sa = list(sa or (a,)); sb = list(sb or (b,))
    if len(sa) == 1 and len(sb) == 1:
        return None
    if len(sa) == 1 and sa[0].op == 'c' and sb == [b]:
        return None
    out = []
    sa.reverse(); sb.reverse()
    while sa:
        x = sa.pop(); y = sb.pop()
        n = min(x.w, y.w)
        if x.w > n:
            sa.append(extract(x, x.w - 1, n)); x = extract(x, n - 1, 0)
        if y.w > n:
            sb.append(extract(y, y.w - 1, n)); y = extract(y, n - 1, 0)
        out.append((x, y))
    return out

def _maskrun(v, w):
    """const mask -> list of (bit, width) runs if few runs"""
    runs = []
    i = 0
    while i < w:
        b = v >> i & 1
        j = i
        while j < w and (v >> j & 1) == b:
            j += 1
        runs.append((b, j - i))
        i = j
    return runs

def and_(a, b):
    w = a.w
    if w == 0:
        return band(a, b)
    if isc(a):
        a, b = b, a
    if a is b:
        return a
    if isc(b):
        if isc(a):
            return bv(a.val & b.val, w)
        if b.val == 0:
            return b
        if b.val == mask(w):
            return a
        runs = _maskrun(b.val, w)
        if len(runs) <= 3:
            out = []; pos = 0
            for bit, n in runs:
                out.append(extract(a, pos + n - 1, pos) if bit else bv(0, n))
                pos += n
            return concat_lo(out)
    al = _align(a, b)
    if al is not None:
        return concat_lo([and_(x, y) for x, y in al])
    return _ac('and', a, b)
def or_(a, b):
    w = a.w
    if w == 0:
        return bor(a, b)
    if isc(a):
        a, b = b, a
    if a is b:
        return a
    if isc(b):
        if isc(a):
            return bv(a.val | b.val, w)
        if b.val == 0:
            return a
        if b.val == mask(w):
            return b
    al = _align(a, b)
    if al is not None:
        return concat_lo([or_(x, y) for x, y in al])
    return _ac('or', a, b)
def _ac(op, a, b):
    s = set(); 
    for t in (a, b):
        if t.op == op:
            s.update(t.args)
        else:
            s.add(t)
    s = tuple(sorted(s, key=lambda x: x.id))
    if len(s) == 1:
        return s[0]
    return mk(op, s, a.w)
def xor(a, b):
    w = a.w
    if w == 0:
        return ite(a, not_(b), b)
    if isc(a) and isc(b):
        return bv(a.val ^ b.val, w)
    if a is b:
        return bv(0, w)
    if isc(a):
        a, b = b, a
    if isc(b) and b.val == 0:
        return a
    al = _align(a, b)
    if al is not None:
        return concat_lo([xor(x, y) for x, y in al])
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], xor(a.args[1], b.args[1]), xor(a.args[2], b.args[2]))
    d = {}
    c = 0
    for t in (a, b):
        for u in (t.args if t.op == 'xor' else (t,)):
            if isc(u):
                c ^= u.val
            elif u in d:
                del d[u]
            else:
                d[u] = 1
    s = sorted(d, key=lambda x: x.id)
    if c:
        s.append(bv(c, w))
    if not s:
        return bv(0, w)
    if len(s) == 1:
        return s[0]
    return mk('xor', tuple(s), w)
def bnot(a):
    return xor(a, bv(mask(a.w), a.w))

def shl(a, b):
    w = a.w
    if isc(b):
        s = b.val
        if s >= w:
            return bv(0, w)
        if s == 0:
            return a
        return mulc(a, 1 << s)
    if isc(a) and a.val == 0:
        return a
    return mk('shl', (a, b), w)
def lshr(a, b):
    w = a.w
    if isc(b):
        s = b.val
        if s >= w:
            return bv(0, w)
        if s == 0:
            return a
        return concat_lo([extract(a, w - 1, s), bv(0, s)])
    if isc(a) and a.val == 0:
        return a
    return mk('lshr', (a, b), w)
def ashr(a, b):
    w = a.w
    if isc(b):
        s = min(b.val, w - 1)
        if s == 0:
            return a
        return sext(extract(a, w - 1, s), w)
    return mk('ashr', (a, b), w)

# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 0)
def band(*ts):
    s = {}
    for t in ts:
        if t is TRUE: continue
        if t is FALSE: return FALSE
        if t.op == 'band':
            for u in t.args: s[u] = 1
        else:
            s[t] = 1
    for t in s:
        if not_(t) in s: return FALSE
    l = sorted(s, key=lambda x: x.id)
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return mk('band', tuple(l), 0)
def bor(*ts):
    s = {}
    for t in ts:
        if t is FALSE: continue
        if t is TRUE: return TRUE
        if t.op == 'bor':
            for u in t.args: s[u] = 1
        else:
            s[t] = 1
    for t in s:
        if not_(t) in s: return TRUE
    l = sorted(s, key=lambda x: x.id)
    if not l: return FALSE
    if len(l) == 1: return l[0]
    return mk('bor', tuple(l), 0)
def implies(a, b):
    return bor(not_(a), b)
def iff(a, b):
    return eq(a, b)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.w == 0:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return bor(c, b)
        if a is FALSE: return band(not_(c), b)
        if b is TRUE: return bor(not_(c), a)
        if b is FALSE: return band(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.w)

def eq(a, b):
    if a is b: return TRUE
    w = a.w
    assert w == b.w, (a, b)
    if w == 0:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
    else:
        if isc(a) and isc(b): return boolc(a.val == b.val)
        if isc(a): a, b = b, a
        if isc(b) and a.op == 'tbl':
            n = [i for i, v in enumerate(a.val) if v == b.val]
            if not n: return FALSE
            if len(n) == 1: return eq(a.args[0], bv(n[0], a.args[0].w))
        if isc(b) and a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if isc(x) or isc(y):
                return ite(a.args[0], eq(x, b), eq(y, b))
        sa = segs(a); sb = segs(b)
        if (sa is not None and len(sa) > 1 and (isc(b) or sb is not None)) or \
           (sb is not None and len(sb) > 1 and sa is not None):
            al = _align(a, b)
            if al is not None:
                return band(*[eq(x, y) for x, y in al])
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            if isc(d): return boolc(d.val == 0)
            c, p = lin_parts(d)
            if p[0][1] > mask(w) >> 1:
                d = neg(d)
                c, p = lin_parts(d)
            l = mklin(0, p, w)
            r = bv(-c, w)
            if l.op != 'lin':
                return eq(l, r)
            # odd single coefficient on one atom: keep
            return mk('eq', (l, r), 0)
        if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0])
        if a.op == 'sext' and isc(b):
            iw = a.args[0].w
            s = sgn(b.val, w)
            if -(1 << iw - 1) <= s < 1 << iw - 1:
                return eq(a.args[0], bv(s, iw))
            return FALSE
    if not isc(b) and a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), 0)
def ne(a, b):
    return not_(eq(a, b))

_ur = {}
def urange(t):
    """cheap unsigned range"""
    r = _ur.get(t)
    if r is None:
        r = _ur[t] = _urange(t)
    return r
def _urange(t):
    w = t.w
    if isc(t): return t.val, t.val
    if t.op == 'concat':
        lo = hi = 0; pos = 0
        for s in t.args:
            a, b = urange(s) if s.op in ('c', 'tbl') else (0, mask(s.w))
            lo |= a << pos; hi |= b << pos
            pos += s.w
        return lo, hi
    if t.op == 'tbl':
        return min(t.val), max(t.val)
    if t.op == 'ite':
        a = urange(t.args[1]); b = urange(t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == 'lin':
        lo = hi = sgn(t.val[0], w)
        for a, k in zip(t.args, t.val[1]):
            k = sgn(k, w)
            x, y = urange(a)
            if k > 0:
                lo += k * x; hi += k * y
            else:
                lo += k * y; hi += k * x
        if 0 <= lo and hi <= mask(w):
            return lo, hi
    if t.op == 'urem' and isc(t.args[1]) and t.args[1].val:
        return 0, t.args[1].val - 1
    if t.op == 'udiv' and isc(t.args[1]) and t.args[1].val:
        lo, hi = urange(t.args[0])
        return lo // t.args[1].val, hi // t.args[1].val
    return 0, mask(w)

def ult(a, b):
    if a is b: return FALSE
    if isc(a) and isc(b): return boolc(a.val < b.val)
    if isc(b) and b.val == 0: return FALSE
    if isc(a) and a.val == mask(a.w): return FALSE
    if isc(b) and b.val == 1: return eq(a, bv(0, a.w))
    la, ha = urange(a); lb, hb = urange(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    return mk('ult', (a, b), 0)
def ule(a, b):
    return not_(ult(b, a))
def ugt(a, b): return ult(b, a)
def uge(a, b): return not_(ult(a, b))
def slt(a, b):
    if a is b: return FALSE
    w = a.w
    if isc(a) and isc(b): return boolc(sgn(a.val, w) < sgn(b.val, w))
    la, ha = urange(a); lb, hb = urange(b)
    h = 1 << w - 1
    if ha < h and hb < h:
        return ult(a, b)
    return mk('slt', (a, b), 0)
def sle(a, b):
    return not_(slt(b, a))

def uf(name, args, w):
    return mk('uf', tuple(args), w, name)

def tbl(table, idx, w):
    """constant table lookup; index must be in range"""
    if isc(idx):
        return bv(table[idx.val], w) if idx.val < len(table) else bv(0, w)
    # drop constant high zero bits of the index
    sg = segs(idx)
    if sg is not None and len(sg) == 2 and isc(sg[1]) and sg[1].val == 0:
        idx = sg[0]
    sg = segs(idx)
    if sg is not None and any(isc(x) for x in sg):
        nv = sum(x.w for x in sg if not isc(x))
        if nv <= 12:
            new = []
            for i in range(1 << nv):
                v = 0; lo = 0; j = i
                for x in sg:
                    if isc(x): v |= x.val << lo
                    else: v |= (j & mask(x.w)) << lo; j >>= x.w
                    lo += x.w
                new.append(table[v] if v < len(table) else 0)
            return tbl(tuple(new), concat_lo([x for x in sg if not isc(x)]), w)
    if idx.op == 'tbl':
        n = len(table)
        return tbl(tuple(table[v] if v < n else 0 for v in idx.val), idx.args[0], w)
    n = 1 << idx.w if idx.w <= 16 else None
    if n is not None:
        table = tuple(table[:n]) + (0,) * (n - len(table))
        if all(v == i & mask(w) for i, v in enumerate(table)):
            return zext(idx, w) if idx.w <= w else trunc(idx, w)
    if all(v == table[0] for v in table):
        return bv(table[0], w)
    return mk('tbl', (idx,), w, tuple(table))

# ---------------------------------------------------------------- rebuild
_REB = None
def rebuild(t, args):
    op = t.op
    if op == 'lin':
        return mklin_terms(t.val[0], zip(args, t.val[1]), t.w)
    if op == 'concat': return concat_lo(args)
    if op == 'ext': return extract(args[0], t.val[0], t.val[1])
    if op == 'sext': return sext(args[0], t.w)
    if op == 'uf': return uf(t.val, args, t.w)
    if op == 'tbl': return tbl(t.val, args[0], t.w)
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[op]
        r = args[0]
        for a in args[1:]: r = f(r, a)
        return r
    return {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem,
            'shl': shl, 'lshr': lshr, 'ashr': ashr, 'not': not_, 'band': band,
            'bor': bor, 'ite': ite, 'eq': eq, 'ult': ult, 'slt': slt}[op](*args)
def mklin_terms(c, parts, w):
    ps = []
    for t, k in parts:
        c2, p = lin_parts(t)
        c += c2 * k
        ps.extend((a, b * k) for a, b in p)
    return mklin(c, ps, w)

def subst(t, m, memo=None):
    """replace terms (usually variables) by terms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if not t.args: return t
        r = memo.get(t)
        if r is None:
            na = tuple(go(a) for a in t.args)
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            memo[t] = r
        return r
    return go(t)

def vars_of(ts):
    seen = set(); out = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == 'v': out.add(t)
        st.extend(t.args)
    return out
def subterms(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        st.extend(t.args)
    return seen
def mentions(t, vs):
    return not vs.isdisjoint(vars_of([t]))

def show(t, d=8):
    if t.op == 'c':
        return '%d' % t.val if t.val < 10 else '0x%x' % t.val
    if t.op == 't': return 'true'
    if t.op == 'f': return 'false'
    if t.op == 'v': return str(t.val)
    if d == 0: return '...'
    if t.op == 'lin':
        s = []
        for a, k in zip(t.args, t.val[1]):
            k = sgn(k, t.w)
            s.append(show(a, d - 1) if k == 1 else '%d*%s' % (k, show(a, d - 1)))
        if t.val[0]: s.append(str(sgn(t.val[0], t.w)))
        return '(' + ' + '.join(s) + ')'
    if t.op == 'ext': return '%s[%d:%d]' % (show(t.args[0], d - 1), t.val[0], t.val[1])
    if t.op == 'uf': return '%s(%s)' % (t.val, ', '.join(show(a, d - 1) for a in t.args))
    if t.op == 'tbl': return 'tbl%d[%s]' % (len(t.val), show(t.args[0], d - 1))
    if t.op == 'concat': return '{' + ','.join('%s:%d' % (show(a, d - 1), a.w) for a in reversed(t.args)) + '}'
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) for a in t.args))

# ---------------------------------------------------------------- evaluation
def evaluate(t, env, ufs=None, memo=None):
    """env: var name -> int ; ufs: callable(name, argvals, w) -> int"""
    memo = {} if memo is None else memo
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op == 'c': r = t.val
        elif op == 't': r = 1
        elif op == 'f': r = 0
        elif op == 'v': r = env.get(t.val, 0)
        elif op == 'ite': r = go(t.args[1]) if go(t.args[0]) else go(t.args[2])
        else:
            a = [go(x) for x in t.args]
            w = t.w; aw = t.args[0].w if t.args else 0
            if op == 'lin': r = (t.val[0] + sum(x * k for x, k in zip(a, t.val[1]))) & mask(w)
            elif op == 'concat':
                r = 0; pos = 0
                for x, y in zip(a, t.args):
                    r |= x << pos; pos += y.w
            elif op == 'ext': r = a[0] >> t.val[1] & mask(w)
            elif op == 'sext': r = sgn(a[0], aw) & mask(w)
            elif op == 'uf': r = ufs(t.val, a, w) if ufs else 0
            elif op == 'tbl': r = t.val[a[0]] if a[0] < len(t.val) else 0
            elif op == 'and':
                r = mask(w)
                for x in a: r &= x
            elif op == 'or':
                r = 0
                for x in a: r |= x
            elif op == 'xor':
                r = 0
                for x in a: r ^= x
            elif op == 'mul': r = a[0] * a[1] & mask(w)
            elif op == 'udiv': r = a[0] // a[1] if a[1] else mask(w)
            elif op == 'urem': r = a[0] % a[1] if a[1] else a[0]
            elif op == 'sdiv': r = _sdiv(a[0], a[1], w) & mask(w) if a[1] else 0
            elif op == 'srem': r = _srem(a[0], a[1], w) & mask(w) if a[1] else a[0]
            elif op == 'shl': r = a[0] << a[1] & mask(w) if a[1] < w else 0
            elif op == 'lshr': r = a[0] >> a[1] if a[1] < w else 0
            elif op == 'ashr': r = sgn(a[0], w) >> min(a[1], w - 1) & mask(w)
            elif op == 'not': r = 1 - a[0]
            elif op == 'band': r = int(all(a))
            elif op == 'bor': r = int(any(a))
            elif op == 'eq': r = int(a[0] == a[1])
            elif op == 'ult': r = int(a[0] < a[1])
            elif op == 'slt': r = int(sgn(a[0], aw) < sgn(a[1], aw))
            else: raise ValueError(op)
        memo[t] = r
        return r
    return go(t)
