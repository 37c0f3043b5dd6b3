"""C13: packed KDB timestamps convert exactly in both directions."""
from llvc import terms as T, seqs as S, models
from llvc.check import *
from llvc.state import C64, Z64
LEVEL = 'proof'
UNITS = ['/verif/harness/kdbtime.cc']
NEVER = (0x2e, 0xdf, 0x39, 0x7e, 0xfb)
C32 = lambda v: T.bv(v, 32)
t = T.var('in_t', 64)
never_t = T.bor(T.eq(t, Z64), T.eq(t, T.bv(-1, 64)))
LT = models.tm_terms('LT', t)
x = lambda f, n: T.extract(LT[f], n - 1, 0)
year = T.add(LT['year'], C32(1900)); mon = T.add(LT['mon'], C32(1))
# 00YYYYYY YYYYYYMM MMDDDDDH HHHHMMMM MMSSSSSS, most significant bit first
PACKED = T.concat_lo([x('sec', 6), x('min', 6), x('hour', 5), x('mday', 5), T.extract(mon, 3, 0), T.extract(year, 11, 0), T.bv(0, 2)])
NEVERB = T.concat_lo([T.bv(b, 8) for b in NEVER[::-1]])
def representable(st):
    st.assume(T.sle(C32(1900), year)); st.assume(T.sle(year, C32(4095)))
    for f, lo, hi in (('sec', 0, 60), ('min', 0, 59), ('hour', 0, 23), ('mday', 1, 31), ('mon', 0, 11)):
        st.assume(T.sle(C32(lo), LT[f])); st.assume(T.sle(LT[f], C32(hi)))
def be(s, st): return T.concat_lo([S.at(s, C64(4 - k), st) for k in range(5)])

def run_pack(c):
    def packed(e, st, p):
        st = st.copy(); representable(st)
        got = be(e.read_seq(st, p, 5), st)
        s2 = st.copy(); s2.assume(never_t)
        c.goal(s2, T.eq(got, NEVERB), 'pack: 0 and -1 give the never constant')
        s2 = st.copy(); s2.assume(T.not_(never_t))
        for nm, hi, lo in (('unused bits', 39, 38), ('year', 37, 26), ('month', 25, 22), ('day', 21, 17), ('hour', 16, 12), ('minute', 11, 6), ('second', 5, 0)):
            c.goal(s2, T.eq(T.extract(got, hi, lo), T.extract(PACKED, hi, lo)), 'pack: %s at its documented bits' % nm)
    c.hook('packed', packed)
    c.eng.merge = False
    for o in c.call('h_pack'):
        if o[0] == 'throw':
            representable(o[1]); c.goal(o[1], T.FALSE, 'pack: never throws')

def run_unpack(c):
    b = T.concat_lo([T.var('in_p_%d' % (4 - k), 8) for k in range(5)])
    f = dict(sec=(5, 0), min=(11, 6), hour=(16, 12), mday=(21, 17), mon=(25, 22), year=(39, 26))
    v = {k: T.zext(T.extract(b, *r), 32) for k, r in f.items()}
    isnever = T.eq(b, NEVERB)
    ok = T.band(T.ule(v['sec'], C32(60)), T.ule(v['min'], C32(59)), T.ule(v['hour'], C32(23)), T.ule(C32(1), v['mday']), T.ule(v['mday'], C32(31)),
                T.ule(C32(1), v['mon']), T.ule(v['mon'], C32(12)), T.ule(C32(1900), v['year']))
    strict = T.band(ok, T.ule(v['sec'], C32(59)))
    want = T.uf('MK', (v['sec'], v['min'], v['hour'], v['mday'], T.sub(v['mon'], C32(1)), T.sub(v['year'], C32(1900)), T.bv(-1, 32)), 64)
    def unpacked(e, st, r):
        s2 = st.copy(); s2.assume(isnever)
        c.goal(s2, T.eq(r, Z64), 'unpack: the never constant gives 0')
        st = st.copy(); st.assume(T.not_(isnever))
        c.goal(st, ok, 'unpack: a value with a field out of range is never accepted')
        st.assume(ok)
        s2 = st.copy(); s2.assume(T.ne(want, T.bv(-1, 64)))
        c.goal(s2, T.eq(r, want), 'unpack: the local time of the packed fields')
        s2 = st.copy(); s2.assume(T.eq(want, T.bv(-1, 64)))
        c.goal(s2, T.eq(r, Z64), 'unpack: a time that cannot be represented is read as unset')
    c.hook('unpacked', unpacked)
    c.eng.merge = False
    for o in c.call('h_unpack'):
        if o[0] != 'throw': continue
        c.goal(o[1], T.not_(strict), 'unpack: only values with a field out of range are rejected')
        c.goal(o[1], T.TRUE if is_exc(c.eng, o, 'FormatError') else T.FALSE, 'unpack: rejected with a format error')
    
def run_round(c):
    def assume(st):
        representable(st)
        # contract of the C library: mktime inverts localtime (unambiguous local times)
        st.assume(T.eq(T.uf('MK', tuple(LT[f] for f in models.TMF[:6]) + (T.bv(-1, 32),), 64), t))
        st.assume(T.not_(T.band(T.not_(never_t), T.eq(PACKED, NEVERB))))
    def rnd(e, st, r):
        st = st.copy(); assume(st)
        s2 = st.copy(); s2.assume(never_t)
        c.goal(s2, T.eq(r, Z64), 'round trip: never stays never')
        s2 = st.copy(); s2.assume(T.not_(never_t))
        c.goal(s2, T.eq(r, t), 'round trip: unpacking the packed time returns it')
    c.hook('round', rnd)
    c.eng.merge = False
    for o in c.call('h_round'):
        if o[0] == 'throw':
            assume(o[1]); c.goal(o[1], T.FALSE, 'round trip: never rejected')

def jobs(tier):
    return [Job('pack', run_pack, UNITS, what='KdbTime(std::time_t)'), Job('unpack', run_unpack, UNITS, what='KdbTime::ToTime'), Job('round trip', run_round, UNITS, what='KdbTime(t).ToTime()')]
REPLAY = dict(src='c13.cc', units=[u for u in ALLUNITS if u != 'kdb'], rule='times at every field boundary and random, in four time zones; all single-field and random packed values; distinct by input')
TRUSTED = ['contract of localtime/mktime: fields in standard ranges; mktime(localtime(t)) = t for unambiguous local times (uninterpreted otherwise)']
ASSUMPTIONS = ['the time is representable: local year 1900..4095, and not the single second whose packed form is the never constant (2999-12-28 23:59:59)',
               'local times that occur twice (end of daylight saving time) are excluded from the round trip',
               'second 60 (leap second) may be accepted or rejected']
