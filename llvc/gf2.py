"""GF(2) normal forms: a bit-precise canonical form for terms built from XOR,
rotations, constant masks, conditional XOR of constants, and sums and functions
of such words (which become atoms over their canonical arguments).  Equal forms
mean equal terms; unequal forms mean nothing."""
from . import terms as T
ONE = 1          # the constant-one atom
_ids = {}
def _atom(k):
    i = _ids.get(k)
    if i is None: i = _ids[k] = len(_ids) + 2
    return frozenset((i,))
Z = frozenset()
O = frozenset((ONE,))
_memo = {}
class Big(Exception): pass
def _const(v, w): return tuple(O if v >> i & 1 else Z for i in range(w))
def _and(a, b):
    if a == Z or b == Z: return Z
    if a == O: return b
    if b == O: return a
    if a == b: return a
    if a == b ^ O: return Z
    return _atom(('and', frozenset((a, b))))
def _or(a, b): return _and(a, b) ^ a ^ b
def bits(t):
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = _bits(t)
    return r
def _trail(w):
    """the word as (bits, shift) with trailing zeros removed"""
    n = 0
    while n < len(w) and w[n] == Z: n += 1
    return n
def _sum(c, parts, w):
    """bits of c + sum(k * word) mod 2^w"""
    acc = {}
    for b, k in parts:
        b = tuple(b)
        n = _trail(b)
        if n == len(b): continue
        b = b[n:]; k = k << n & T.mask(w)
        # constant word
        if all(x in (Z, O) for x in b):
            c += k * sum(1 << i for i, x in enumerate(b) if x == O); continue
        while b[-1] == Z: b = b[:-1]
        acc[b] = acc.get(b, 0) + k & T.mask(w)
    c &= T.mask(w)
    out = []
    for i in range(w):
        m = T.mask(i + 1)
        key = {}
        for b, k in acc.items():
            k &= m
            if not k: continue
            v = (k & -k).bit_length() - 1
            b = b[:i + 1 - v]
            if all(x == Z for x in b): continue
            while b[-1] == Z: b = b[:-1]
            key[b] = key.get(b, 0) + k & m
        key = {b: k for b, k in key.items() if k}
        cc = c & m
        # disjoint single contribution, no carries: plain bits
        lo = min([(k & -k).bit_length() - 1 for k in key.values()], default=i + 1)
        if cc and not key: out.append(O if cc >> i & 1 else Z); continue
        if not key: out.append(Z); continue
        if lo == i and not cc & T.mask(i):        # top bit only: XOR of the low bits
            x = O if cc >> i & 1 else Z
            for b, k in key.items(): x = x ^ b[0]
            out.append(x); continue
        if len(key) == 1:
            (b, k), = key.items()
            if k & (k - 1) == 0 and cc & T.mask(i + 1) == 0:
                out.append(b[i - lo] if i - lo < len(b) else Z); continue
        out.append(_atom(('sum', i, cc, frozenset(key.items()))))
    return tuple(out)
def _bits(t):
    op = t.op; w = t.w
    if op == 'c': return _const(t.val, w)
    if op == 'v': return tuple(_atom((t, i)) for i in range(w))
    if op == 'xor':
        r = list(bits(t.args[0]))
        for a in t.args[1:]:
            b = bits(a)
            for i in range(w): r[i] = r[i] ^ b[i]
        return tuple(r)
    if op == 'concat': return tuple(x for a in t.args for x in bits(a))
    if op == 'ext': return bits(t.args[0])[t.val[1]:t.val[0] + 1]
    if op == 'sext':
        b = bits(t.args[0]); return b + (b[-1],) * (w - len(b))
    if op == 'lin': return _sum(t.val[0], [(bits(a), k) for a, k in zip(t.args, t.val[1])], w)
    if op in ('and', 'or'):
        f = _and if op == 'and' else _or
        r = list(bits(t.args[0]))
        for a in t.args[1:]:
            b = bits(a)
            for i in range(w): r[i] = f(r[i], b[i])
        return tuple(r)
    if op == 'ite':
        c = boolbit(t.args[0])
        if w == 0: raise Big
        a, b = bits(t.args[1]), bits(t.args[2])
        return tuple(y ^ _and(c, x ^ y) for x, y in zip(a, b))
    if op == 'uf': return tuple(_atom(('uf', t.val, w, tuple(bits(a) for a in t.args), i)) for i in range(w))
    if op == 'tbl':
        ix = bits(t.args[0]); r = []
        for i in range(w):
            col = tuple(v >> i & 1 for v in t.val)
            r.append(Z if not any(col) else O if all(col) else _atom(('tbl', col, ix)))
        return tuple(r)
    if op in ('shl', 'lshr') and t.args[1].op == 'c':
        b = bits(t.args[0]); n = min(t.args[1].val, w)
        return (Z,) * n + b[:w - n] if op == 'shl' else b[n:] + (Z,) * n
    if w == 0: return (boolbit(t),)
    return tuple(_atom((t, i)) for i in range(w))
def boolbit(c):
    op = c.op
    if op == 't': return O
    if op == 'f': return Z
    if op == 'not': return boolbit(c.args[0]) ^ O
    if op == 'v': return _atom((c, 0))
    if op in ('band', 'bor'):
        r = O if op == 'band' else Z
        for a in c.args: r = (_and if op == 'band' else _or)(r, boolbit(a))
        return r
    if op == 'eq':
        if c.args[0].w == 0: return boolbit(c.args[0]) ^ boolbit(c.args[1]) ^ O
        r = O
        for x, y in zip(bits(c.args[0]), bits(c.args[1])): r = _and(r, x ^ y ^ O)
        return r
    return _atom((c, 0))
def proves(goal):
    """goal holds because both sides of every equation have the same form"""
    if goal is T.TRUE: return True
    if goal.op == 'band': return all(proves(a) for a in goal.args)
    if goal.op == 'eq' and goal.args[0].w:
        try: return bits(goal.args[0]) == bits(goal.args[1])
        except (Big, RecursionError): return False
    return False
def worth(goal):
    if goal.op == 'band': return any(worth(a) for a in goal.args)
    return goal.op == 'eq' and goal.args[0].w > 0 and any(t.op == 'xor' for t in T.subterms([goal]))
