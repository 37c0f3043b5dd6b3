"""z3 (primary) and cvc5 (fallback) back ends for llvc terms."""
import time, z3
from . import terms as T

stats = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0, 'structural': 0, 'unknown': 0}
_decls = {}
_tables = {}

def z3of(t):
    st = [t]
    while st:
        x = st[-1]
        if x.z is not None:
            st.pop(); continue
        pend = [a for a in x.args if a.z is None]
        if pend:
            st.extend(pend); continue
        x.z = _conv(x, [a.z for a in x.args])
        st.pop()
    return t.z

def _nm(s):
    return str(s)

def _conv(t, a):
    op = t.op; w = t.w
    if op == 'c': return z3.BitVecVal(t.val, w)
    if op == 't': return z3.BoolVal(True)
    if op == 'f': return z3.BoolVal(False)
    if op == 'v': return z3.BitVec(_nm(t.val), w) if w else z3.Bool(_nm(t.val))
    if op == 'lin':
        r = None
        for x, k in zip(a, t.val[1]):
            ks = T.sgn(k, w)
            y = x if ks == 1 else (-x if ks == -1 else x * z3.BitVecVal(k, w))
            r = y if r is None else r + y
        if t.val[0]: r = r + z3.BitVecVal(t.val[0], w)
        return r
    if op == 'concat': return z3.Concat(*reversed(a))
    if op == 'ext': return z3.Extract(t.val[0], t.val[1], a[0])
    if op == 'sext': return z3.SignExt(w - t.args[0].w, a[0])
    if op == 'uf':
        k = (t.val, tuple(x.w for x in t.args), w)
        f = _decls.get(k)
        if f is None:
            f = z3.Function(_nm(t.val) + '#' + '_'.join(str(x.w) for x in t.args) + '_' + str(w),
                *[z3.BitVecSort(x.w) if x.w else z3.BoolSort() for x in t.args],
                z3.BitVecSort(w) if w else z3.BoolSort())
            _decls[k] = f
        return f(*a)
    if op == 'tbl':
        if len(t.val) <= 8: return _ztable(t.val, a[0], t.args[0].w, w)
        # an opaque function; its definition is added when needed (see tables())
        k = (t.val, t.args[0].w, w)
        f = _tables.get(k)
        if f is None: f = _tables[k] = z3.Function('table%d' % len(_tables), z3.BitVecSort(t.args[0].w), z3.BitVecSort(w))
        return f(a[0])
    if op in ('and', 'or', 'xor'):
        r = a[0]
        for x in a[1:]:
            r = r & x if op == 'and' else r | x if op == 'or' else r ^ x
        return r
    if op == 'mul': return a[0] * a[1]
    if op == 'udiv': return z3.UDiv(a[0], a[1])
    if op == 'urem': return z3.URem(a[0], a[1])
    if op == 'sdiv': return a[0] / a[1]
    if op == 'srem': return z3.SRem(a[0], a[1])
    if op == 'shl': return a[0] << a[1]
    if op == 'lshr': return z3.LShR(a[0], a[1])
    if op == 'ashr': return a[0] >> a[1]
    if op == 'not': return z3.Not(a[0])
    if op == 'band': return z3.And(*a)
    if op == 'bor': return z3.Or(*a)
    if op == 'ite': return z3.If(a[0], a[1], a[2])
    if op == 'eq': return a[0] == a[1]
    if op == 'ult': return z3.ULT(a[0], a[1])
    if op == 'slt': return a[0] < a[1]
    raise ValueError(op)

def _ztable(tab, idx, iw, w):
    # binary decision tree over the index bits
    def go(lo, n, bit):
        vals = tab[lo:lo + n]
        if not vals or all(v == vals[0] for v in vals):
            return z3.BitVecVal(vals[0] if vals else 0, w)
        h = n >> 1
        return z3.If(z3.Extract(bit, bit, idx) == 1, go(lo + h, h, bit - 1), go(lo, h, bit - 1))
    n = 1
    while n < len(tab): n <<= 1
    b = n.bit_length() - 2
    return go(0, n, b)

def tables(cs):
    """definitions of the table look-ups occurring in cs"""
    out = []
    for t in T.subterms(cs):
        if t.op == 'tbl' and len(t.val) > 8:
            out.append(z3of(t) == _ztable(t.val, z3of(t.args[0]), t.args[0].w, t.w))
    return out

def _prep(conds):
    cs = []
    for c in conds:
        if c is T.TRUE: continue
        if c is T.FALSE: return None
        cs.append(c)
    s = list(dict.fromkeys(cs))
    for c in cs:
        if T.not_(c) in s: return None
    return s

def check(conds, timeout_ms=20000, want_model=False, backend='z3'):
    """-> ('sat'|'unsat'|'unknown', model)"""
    s = _prep(conds)
    if s is None:
        stats['structural'] += 1
        return 'unsat', None
    t0 = time.time()
    try:
        tb = tables(s)
        sol = z3.Solver()
        sol.set('timeout', timeout_ms)
        for c in s: sol.add(z3of(c))
        stats['z3'] += 1
        r = sol.check()
        if r == z3.unsat: return 'unsat', None
        if tb:
            for d in tb: sol.add(d)
            stats['z3'] += 1
            r = sol.check()
            if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', (sol.model() if want_model else None)
        stats['unknown'] += 1
        return 'unknown', None
    finally:
        stats['z3_time'] += time.time() - t0

PORT = [('z3-new', ['z3-new', 'smt.random_seed=7', 'sat.random_seed=7']), ('z3-4.8', ['z3', 'smt.random_seed=3']),
        ('z3-new', ['z3-new', 'smt.random_seed=23', 'smt.phase_selection=5']), ('cvc5', ['cvc5'])]
def portfolio(conds, timeout_s=60, width=4):
    """several solver processes on the same query -> (answer, back end)"""
    import subprocess, tempfile, os
    s = _prep(conds)
    if s is None: return 'unsat', 'structural'
    t0 = time.time()
    tb = tables(s)
    ps = []
    files = []
    try:
        for full in ((False, True) if tb else (True,)):
            sol = z3.Solver()
            for c in s: sol.add(z3of(c))
            if full:
                for d in tb: sol.add(d)
            fd, fn = tempfile.mkstemp(suffix='.smt2'); os.close(fd); files.append(fn)
            with open(fn, 'w') as f: f.write('(set-logic ALL)\n' + sol.to_smt2())
            for nm, cmd in PORT[:width]:
                lim = int(timeout_s) + 1
                ps.append((full, nm, subprocess.Popen(cmd + ['-T:%d' % lim if 'z3' in nm else '--tlimit=%d' % (1000 * lim), fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        while ps and time.time() - t0 < timeout_s:
            for x in list(ps):
                full, nm, p = x
                if p.poll() is None: continue
                ps.remove(x)
                out = p.stdout.read().strip().split('\n')[0]
                if out == 'unsat' or (out == 'sat' and full):
                    return out, nm
            time.sleep(0.01)
        return 'unknown', 'portfolio'
    finally:
        for _, _, p in ps: p.kill(); p.wait()
        for f in files: os.unlink(f)
        stats['portfolio'] = stats.get('portfolio', 0) + 1
        stats['z3_time'] += time.time() - t0

def check_cvc5(conds, timeout_ms=20000):
    import cvc5
    t0 = time.time()
    sol = z3.Solver()
    for c in conds: sol.add(z3of(c))
    smt = '(set-logic QF_UFBV)\n' + sol.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout_ms))
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
    sm = p.getSymbolManager()
    res = 'unknown'
    while True:
        cmd = p.nextCommand()
        if cmd.isNull(): break
        out = cmd.invoke(slv, sm)
        out = str(out).strip()
        if out in ('sat', 'unsat', 'unknown'): res = out
    stats['cvc5'] += 1
    stats['cvc5_time'] += time.time() - t0
    return res

class Model:
    """evaluates llvc terms in a z3 model"""
    def __init__(self, m):
        self.m = m
    def ev(self, t):
        v = self.m.eval(z3of(t), model_completion=True)
        if t.w == 0: return 1 if z3.is_true(v) else 0
        return v.as_long()
