"""C15: comparing groups, entries and attachments is exact and safe."""
import re
from llvc import terms as T, seqs as S, models, irparse
from llvc.check import *
from llvc.engine import b2i
from llvc.state import C64, Z64, Ptr
LEVEL = 'proof'
UNITS = ['/verif/harness/compare.cc']
BIGN = C64(1 << 40)
P_ = ('title', 'url', 'username', 'password', 'notes')
FIELDS = {  # class: fields compared by value, by identity, lists of values, lists of objects
    'entry': dict(b16=['uuid'], n32=['icon', 'usage_count', 'at_obfuscation'], pro=list(P_), s=['override_url', 'tags', 'bg_color', 'fg_color', 'at_sequence'], n64=['creation_time', 'modification_time', 'access_time', 'expiry_time', 'move_time'],
                  flag=['expires', 'at_enabled'], weak=['custom_icon'], lst={'associations': 'Association', 'custom_fields': 'Field'}, pl={'attachments': 'Attachment', 'history': 'Entry'}),
    'group': dict(b16=['uuid'], n32=['icon', 'usage_count'], n16=['flags'], s=['name', 'notes', 'default_autotype_sequence'], n64=['creation_time', 'modification_time', 'access_time', 'expiry_time', 'move_time'],
                  flag=['expires', 'expanded', 'autotype', 'search'], weak=['custom_icon', 'last_visible_entry'], pl={'groups': 'Group', 'entries': 'Entry'}),
    'attachment': dict(s=['name'], ptr=['binary']),
    'association': dict(s=['window', 'sequence']),
    'field': dict(s=['key'], pro=['value']),
    'binary': dict(pro=['data']),
}
def var(n, w): return T.var('in_' + n, w)
def sq(n): return S.var('in_' + n, var(n + '_len', 64))
def eluf(k, x, y):
    x, y = sorted((x, y), key=str)        # equality is symmetric
    if x == y: return T.ne(T.uf('EQ_' + k, (x,), 8), T.bv(0, 8))      # elements at the same position
    return T.ne(T.uf('EQ_' + k, (x, y), 8), T.bv(0, 8))
def elptr(nm, i): return T.uf('PTR_' + nm, (i,), 64)
def ctrl(nm): return var(nm + '_ctrl', 64)
def alive(nm): return T.band(T.ne(ctrl(nm), Z64), T.ne(T.uf('ALIVE', (ctrl(nm),), 8), T.bv(0, 8)))
def lock(nm): return T.ite(alive(nm), var(nm, 64), Z64)

def run(h, cls, top):
    F = FIELDS[cls]
    def go(c):
        e = c.eng; e.merge = False
        K = {}
        def hook_list(e, st, p, nm, size=None):
            """a list of symbolic length"""
            nm = models.cstr_const(e, st, nm); sz = size.val if size is not None else 16
            n = var(nm + '_n', 64); st.assume(T.ult(n, BIGN))
            i = st.new(T.mulc(n, sz), nm)
            w = st.wobj(i); w.attrs['parr' if size is None else 'larr'] = nm; w.attrs['elsize'] = sz
            if size is None: e.parr[nm] = lambda off: rd(nm, off)
            else: w.attrs['nm'] = nm; K[i] = (nm, sz)
            v = st.wobj(p.obj)
            for k, o in ((0, Z64), (8, T.mulc(n, sz)), (16, T.mulc(n, sz))):
                e.cut(v, p.off.val + k, 8); v.cells[p.off.val + k] = (8, Ptr(i, o))
        def rd(nm, off):
            k = T.exact_div(off, 16)
            if k is not None: return Ptr(0, elptr(nm, k))
            if T.exact_div(T.addc(off, -8), 16) is not None: return Ptr(0, Z64)      # no control block
            return Ptr(0, T.uf('ANYPTR_' + nm, (off,), 64))      # unknown alignment: any pointer
        e.parr = {}
        c.hook('list', hook_list, need=False); c.hook('plist', hook_list, need=False)
        def weak(e, st, p, nm):
            nm = models.cstr_const(e, st, nm)
            st.assume(T.ne(var(nm, 64), Z64))
            v = st.wobj(p.obj)
            for k, t in ((0, var(nm, 64)), (8, ctrl(nm))):
                e.cut(v, p.off.val + k, 8); v.cells[p.off.val + k] = (8, Ptr(0, t))
        c.hook('weak', weak, need=False)
        def ptr(e, st, p, nm):
            nm = models.cstr_const(e, st, nm)
            v = st.wobj(p.obj)
            for k, t in ((0, var(nm, 64)), (8, Z64)):
                e.cut(v, p.off.val + k, 8); v.cells[p.off.val + k] = (8, Ptr(0, t))
        c.hook('ptr', ptr, need=False)
        def lock_(e, st, a, ins):
            # the object while it is alive, else nothing
            x = e.load(st, a[1], irparse.PTR); y = e.load(st, Ptr(a[1].obj, T.addc(a[1].off, 8)), irparse.PTR)
            al = T.band(T.ne(y.off, Z64), T.ne(T.uf('ALIVE', (y.off,), 8), T.bv(0, 8)))
            if x.obj or y.obj: raise Unsupported('weak pointer to a known object')
            e.rawstore(st, a[0], 8, Ptr(0, T.ite(al, x.off, Z64))); e.rawstore(st, Ptr(a[0].obj, T.addc(a[0].off, 8)), 8, Ptr(0, Z64))
            return [('ret', st, None)]
        e.overrides.append((re.compile(r'std::weak_ptr<.*>::lock\(\) const'), lock_))
        def expired(e, st, a, ins):
            y = e.load(st, Ptr(a[0].obj, T.addc(a[0].off, 8)), irparse.PTR)
            return [('ret', st, b2i(T.bor(T.eq(y.off, Z64), T.eq(T.uf('ALIVE', (y.off,), 8), T.bv(0, 8)))))]
        e.overrides.append((re.compile(r'std::__weak_ptr<.*>::expired\(\) const'), expired))
        e.overrides.append((re.compile(r'generate_uuid'), lambda e, st, a, ins: [('ret', st, S_uuid(e, st, a, ins))]))
        def S_uuid(e, st, a, ins):
            from llvc.state import Agg
            if len(a): e.write_seq(st, a[0], S.var(T.fresh_name('uuid'), C64(16))); return None
            return Agg([T.fresh('uuid', 64), T.fresh('uuid', 64)])
        tops = {}
        c.hook('top', lambda e, st, a, b: tops.update(a=a, b=b))
        def contract(kind):
            def f(e, st, a, ins):
                nm = ins.x['callee'][1]; ne = 'operator!=' in irparse.demangle(nm)
                if a[0] == tops['a'] and a[1] == tops['b'] or kind == 'own': return e.exec(st, e.mod.funcs[e.mod.aliases.get(nm, nm)], a)
                if a[0] == tops['b'] and a[1] == tops['a']: return e.exec(st, e.mod.funcs[e.mod.aliases.get(nm, nm)], a)
                ids = []
                for x in a[:2]:
                    if x.obj == 0:
                        e.oblige(st, T.ne(x.off, Z64), 'only existing elements are compared', 'memory'); ids.append(x.off)
                    elif x.obj in K:
                        k = T.exact_div(x.off, K[x.obj][1]); ids.append(k if k is not None else T.uf('ODD', (x.off,), 64)); e.inb(st, st.obj(x.obj), x, K[x.obj][1], 'comparison')
                    else: raise Unsupported('comparison of a temporary')
                r = eluf(kind, *ids)
                return [('ret', st, b2i(T.not_(r) if ne else r))]
            return f
        for rx, k in ((r'^keepass::Entry::AutoType::Association::operator[=!]=\(', 'Association'), (r'^keepass::Entry::Field::operator[=!]=\(', 'Field'), (r'^keepass::Entry::Attachment::operator[=!]=\(', 'Attachment'), (r'^keepass::Entry::operator[=!]=\(', 'Entry'), (r'^keepass::Group::operator[=!]=\(', 'Group'), (r'^keepass::Binary::operator[=!]=\(', 'Binary')):
            e.overrides.append((re.compile(rx), contract(k)))
        def simple(st):
            """the fields compared by value or identity: [(condition, label)]"""
            r = []
            for n in F.get('b16', ()): r.append((T.band(*[T.eq(var('a_%s_%d' % (n, k), 8), var('b_%s_%d' % (n, k), 8)) for k in range(16)]), n))
            for w, key in ((64, 'n64'), (32, 'n32'), (16, 'n16'), (0, 'flag')):
                for n in F.get(key, ()): r.append((T.eq(var('a_' + n, w), var('b_' + n, w)), n))
            for n in F.get('s', []) + F.get('pro', []): r.append((S.eq_cond(sq('a_' + n), sq('b_' + n), st), n))
            for n in F.get('pro', ()): r.append((T.eq(var('a_%s_prot' % n, 0), var('b_%s_prot' % n, 0)), n + ' protection'))
            for n in F.get('weak', ()): r.append((T.eq(lock('a_' + n), lock('b_' + n)), n))
            for n in F.get('ptr', ()):
                x, y = var('a_' + n, 64), var('b_' + n, 64)
                r.append((nulls(x, y, 'Binary'), n))
            for n in list(F.get('lst', ())) + list(F.get('pl', ())): r.append((T.eq(var('a_%s_n' % n, 64), var('b_%s_n' % n, 64)), 'number of ' + n))
            return r
        def nulls(x, y, k):
            zx, zy = T.eq(x, Z64), T.eq(y, Z64)
            return T.ite(T.bor(zx, zy), T.band(zx, zy), eluf(k, x, y))
        def elem(n, k):
            """elements k of lists n are equal"""
            if n in F.get('lst', {}):
                return eluf(F['lst'][n], k, k)
            return nulls(elptr('a_' + n, k), elptr('b_' + n, k), F['pl'][n])
        def done(e, st, r):
            for s2, eq in models.split(st, T.ne(r, T.bv(0, r.w))):
                if eq:
                    for t, l in simple(s2): c.goal(s2, t, 'objects that compare equal have the same ' + l)
                    for n in list(F.get('lst', ())) + list(F.get('pl', ())):
                        s3 = s2.copy(); k = T.fresh('k', 64); s3.assume(T.ult(k, var('a_%s_n' % n, 64)))
                        c.goal(s3, elem(n, k), 'objects that compare equal have equal %s at every position' % n)
                else:
                    alleq = []
                    for n in list(F.get('lst', ())) + list(F.get('pl', ())):
                        for k in indices(s2, n): alleq.append(T.implies(T.ult(k, var('a_%s_n' % n, 64)), elem(n, k)))
                    c.goal(s2, T.not_(T.band(*([t for t, l in simple(s2)] + alleq))), 'objects that compare unequal differ')
        def indices(st, n):
            """positions the path speaks about"""
            r = set()
            for t in T.subterms(list(st.pc)):
                if t.op == 'uf' and t.val in ('PTR_a_' + n, 'PTR_b_' + n): r.add(t.args[0])
                if n in F.get('lst', {}) and t.op == 'uf' and t.val == 'EQ_' + F['lst'][n]: r.add(t.args[0])
            return r
        c.hook('done', done)
        for o in c.call(h):
            if o[0] == 'throw': c.goal(o[1], T.FALSE, 'comparison does not throw')
    return go

def jobs(tier):
    r = []
    for cls in FIELDS:
        for op in ('eq', 'ne'): r.append(Job('%s %s' % (cls, '==' if op == 'eq' else '!='), run('h_%s_%s' % (cls, op), cls, op), UNITS, what='every field of two %s objects symbolic, lists of any length' % cls))
    return r
REPLAY = dict(src='c15.cc', units='kdb,kdbx,key,cipher,pugixml,util,io,entry,group,metadata,random,stream'.split(','), rule='pairs of random objects equal in all fields or differing in exactly one, every field, with lists of different lengths and absent parts; distinct by object contents')
TRUSTED = ['shared_ptr and weak_ptr reference counts (lock() gives the object while it is alive)', 'std::string and std::array comparison']
ASSUMPTIONS = ['elements of lists compare by their own operator== (the same contract; recursion over the finite tree)', 'lists are shorter than 2^40', 'no loop runs 2^64 iterations']
