"""The contract of the field reader of KDB records, proved once for each instance and then used at its calls."""
import re, random
from llvc import terms as T, seqs as S, models, loops
from llvc.check import *
from llvc.state import C64, Z64, Ptr
from dbcommon import *
def body(e, fn):
    fn = e.mod.aliases.get(fn, fn)
    return e.mod.funcs[fn] if fn in e.mod.funcs else [v for k, v in e.mod.funcs.items() if k.endswith('::' + fn)][0]
def fields(c):
    """generate_n(out, n, [&src] { get or throw }): out receives the next n bytes of src, or IoError is thrown when there are fewer"""
    e = c.eng; known = {}
    CN, P, L = S.var('gn_content', T.var('gn_len', 64)), T.var('gn_pos', 64), 'a field is read: '
    def check(st, fn, f, a, k):
        """the body of this instance against the contract, from a state with any source, position and count"""
        st = st.copy(); b = list(a); n = b[k] = T.var('gn_n', a[k].w)
        s = models.Stream(e, st, a[-1]); s['content'] = CN; s['pos'] = P
        for t in (T.ult(CN.len, C64(1 << 40)), T.ule(P, CN.len)): st.assume(t)
        n64 = T.zext(n, 64); have = T.ule(T.add(P, n64), CN.len); n = 0
        for o in e.exec(st, f, b):
            s2 = o[1]; n += 1
            if o[0] == 'throw':
                c.goal(s2, T.not_(have), L + 'an error only when the source ends'); c.goal(s2, T.boolc(is_exc(e, o, 'IoError')), L + 'an I/O error when the source ends'); continue
            c.goal(s2, have, L + 'only when the source holds it')
            s, d = models.Stream(e, s2, a[-1]), models.Stream(e, s2, a[0])
            c.goal(s2, S.eq_goal(d['content'], S.slice_(CN, P, n64, s2), s2), L + 'its bytes'); c.goal(s2, T.eq(s['pos'], T.add(P, n64)), L + 'nothing more')
            c.goal(s2, T.band(s.good(), T.boolc(s['content'] == CN), d.good()), L + 'the source is left in order')
        return n > 1
    def gen(e, st, a, ins):
        fn = ins.x['callee'][1]; f = body(e, fn)
        k = [i for i, x in enumerate(a) if isinstance(x, T.Term) and x.w in (16, 32, 64)]
        try:
            s = models.Stream(e, st, a[-1]); d = models.Stream(e, st, a[0])
            ok = len(k) == 1 and d['content'] == S.EMPTY and s.good() is T.TRUE and d.good() is T.TRUE
        except (Unsupported, KeyError, AttributeError): ok = False
        if not ok: return e.exec(st, f, a)
        k = k[0]
        if fn not in known:
            q, e.quiet = e.quiet, 0
            try: known[fn] = check(st, fn, f, a, k)
            finally: e.quiet = q
            c.reach('field reader')
        if not known[fn]: return e.exec(st, f, a)
        src, pos = s['content'], s['pos']; outs = []
        end = T.add(pos, T.zext(a[k], 64))
        if not T.isc(end) and src.k == 'cat':      # the end of a piece or its terminator, when it is one
            b = Z64; cand = []
            for q in src.a: b = T.add(b, q.len); cand += [b, T.addc(b, 1)]
            r = random.Random(1); env = {v.val: r.randrange(1, 60000) for v in T.vars_of([end] + cand)}; x = T.evaluate(end, env)
            cand = [b for b in cand if T.evaluate(b, env) == x]
            for b in cand:
                if st.decide(T.eq(T.zext(a[k], 64), T.sub(b, pos))): end = b; break
        for s2, ok in models.split(st, T.ule(end, src.len)):
            if ok:
                models.Stream(e, s2, a[-1])['pos'] = end
                for o in models.stream_write(e, s2, a[0], S.slice_(src, pos, T.sub(end, pos), s2)): outs.append(('ret', o[1], models.Agg(list(a[:2]))))
            else:
                s = models.Stream(e, s2, a[-1]); s['pos'] = src.len; s['eof'] = s['fail'] = T.TRUE
                outs.append(e.throw(s2, e_ti(e, 'IoError')))
        return outs
    on(e, r'std::generate_n<std::ostreambuf_iterator<char', gen)
    c.expected.add('field reader')
def uuids(c): on(c.eng, r'keepass::generate_uuid', lambda e, st, a, ins: [('ret', st, models.Agg([T.fresh('uuid', 64), T.fresh('uuid', 64)]))])
