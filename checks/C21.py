"""C21: XML timestamps denote UTC seconds and survive a round trip."""
from llvc import terms as T, seqs as S, models
from llvc.check import *
from llvc.state import C64, Z64
LEVEL = 'proof'
UNITS = ['/verif/harness/kdbxtime.cc']
NEVER = b'2999-12-28T22:59:59Z'
C32 = lambda v: T.bv(v, 32)
LAY = [('Y', 0, 4), ('m', 5, 2), ('d', 8, 2), ('H', 11, 2), ('M', 14, 2), ('S', 17, 2)]
SEP = {4: '-', 7: '-', 10: 'T', 13: ':', 16: ':'}
def fields(s, st):
    """(well formed date and time in the first 19 bytes, {field: value})"""
    ok = [T.ule(C64(19), s.len)] + [T.eq(S.at(s, C64(k), st), T.bv(ord(c), 8)) for k, c in SEP.items()]
    v = {}
    for f, o, n in LAY:
        ch = [S.at(s, C64(o + j), st) for j in range(n)]
        ok += [models.in_range(q, 48, 57) for q in ch]
        v[f] = models.horner([T.zext(T.addc(q, -48), 32) for q in ch])
        ok += [T.ule(C32(models.RNG[f][0]), v[f]), T.ule(v[f], C32(models.RNG[f][1]))]
    return T.band(*ok), v
def gm(v): return T.uf('GM', (v['S'], v['M'], v['H'], v['d'], T.sub(v['m'], C32(1)), T.sub(v['Y'], C32(1900))), 64)

def run_parse(c):
    c.eng.nonul.add('in_text')      # the text is a C string
    s = S.var('in_text', T.var('in_text_len', 64))
    wf, v = fields(s, None)
    isnever = S.eq_cond(s, S.const(NEVER))
    empty = T.eq(s.len, Z64)
    canon = T.band(wf, T.eq(s.len, C64(20)), T.eq(S.at(s, C64(19)), T.bv(ord('Z'), 8)), T.not_(isnever))
    def parsed(e, st, r):
        st.add_forall(s.len, T.ne(S.at(s, S._j), T.bv(0, 8)))
        for cond, want, lab in ((empty, Z64, 'parse: an empty text is unset'), (isnever, Z64, 'parse: the never text is 0'), (canon, gm(v), 'parse: the UTC second of the text')):
            s2 = st.copy()
            if s2.decide(cond) is False: continue
            s2.assume(cond); c.goal(s2, T.eq(r, want), lab)
        s2 = st.copy()
        special = T.bor(empty, isnever)
        if s2.decide(special) is not True:
            s2.assume(T.not_(special))
            end = s2.g.get('strptime')
            if end is None: c.goal(s2, T.FALSE, 'parse: text that is no timestamp is never accepted')
            else: c.goal(s2, T.bor(T.eq(end, s.len), T.eq(S.at(s, end, s2), T.bv(ord('Z'), 8))), 'parse: text with another time zone or trailing data is never accepted')
    c.hook('parsed', parsed)
    c.eng.merge = False
    for o in c.call('h_parse'):
        if o[0] != 'throw': continue
        c.goal(o[1], T.not_(T.bor(canon, empty, isnever)), 'parse: well formed timestamps are never rejected')
        c.goal(o[1], T.TRUE if is_exc(c.eng, o, 'FormatError') else T.FALSE, 'parse: rejected with a format error')

t = T.var('in_t', 64)
GT = models.tm_terms('GT', t)
def yearok(st):
    y = T.add(GT['year'], C32(1900))
    st.assume(T.ule(C32(1000), y)); st.assume(T.ule(y, C32(9999)))
def run_write(c):
    def written(e, st, p):
        s = models.str_get(e, st, p)
        s2 = st.copy(); s2.assume(T.eq(t, Z64))
        c.goal(s2, S.eq_cond(s, S.const(NEVER), s2), 'write: 0 is written as the never text')
        s2 = st.copy(); s2.assume(T.ne(t, Z64)); yearok(s2)
        if s2.decide(T.FALSE) is True or not s2.feasible(): return
        c.goal(s2, T.eq(s.len, C64(20)), 'write: twenty characters')
        wf, v = fields(s, s2)
        c.goal(s2, T.band(wf, T.eq(S.at(s, C64(19), s2), T.bv(ord('Z'), 8))), 'write: YYYY-MM-DDTHH:MM:SSZ')
        for f in v:
            nm, w, off = models.FMT[f]
            c.goal(s2, T.eq(v[f], T.add(GT[nm], C32(off))), 'write: the UTC %s' % nm)
    c.hook('written', written)
    c.eng.merge = False
    for o in c.call('h_write'):
        if o[0] == 'throw': c.goal(o[1], T.FALSE, 'write: never throws')
def run_round(c):
    def assume(st):
        yearok(st)
        st.assume(T.eq(T.uf('GM', tuple(GT[f] for f in models.TMF[:6]), 64), t))
        # the one second whose text means never
        want = dict(year=1099, mon=11, mday=28, hour=22, min=59, sec=59)
        st.assume(T.not_(T.band(*[T.eq(GT[f], C32(x)) for f, x in want.items()])))
    def rnd(e, st, r):
        st = st.copy(); 
        s2 = st.copy(); s2.assume(T.eq(t, Z64))
        c.goal(s2, T.eq(r, Z64), 'round trip: never stays never')
        s2 = st.copy(); s2.assume(T.ne(t, Z64)); assume(s2)
        c.goal(s2, T.eq(r, t), 'round trip: the same second')
    c.hook('round', rnd)
    c.eng.merge = False
    for o in c.call('h_round'):
        if o[0] == 'throw':
            assume(o[1]); c.goal(o[1], T.FALSE, 'round trip: never rejected')

def jobs(tier):
    return [Job('parse', run_parse, UNITS, what='KdbxFile::ParseDateTime'), Job('write', run_write, UNITS, what='KdbxFile::WriteDateTime'), Job('round trip', run_round, UNITS, what='ParseDateTime(WriteDateTime(t))')]
REPLAY = dict(src='c21.cc', units=[u for u in ALLUNITS if u != 'kdbx'], rule='times at month, year and day boundaries and random times 1000..9999, valid texts, all single-character damages, in four time zones; distinct by input')
TRUSTED = ['contract of strftime/strptime for the conversions %Y %m %d %H %M %S on exact-width digits; strptime results on other texts are unconstrained',
           'contract of gmtime/timegm: fields in standard ranges; timegm(gmtime(t)) = t; otherwise uninterpreted']
ASSUMPTIONS = ['the year is 1000..9999', 'the single second 2999-12-28T22:59:59Z cannot be represented (its text means never)', 'texts contain no NUL (they are C strings)',
               'a text that strptime accepts although its digits are not exactly two or four wide is left to the C library; what follows an accepted time and its Z is ignored by the code and left unspecified']
