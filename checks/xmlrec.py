"""Contracts of what the XML reader and writer of kdbx.cc use: Base64 (C10, C19), the time texts (C21), the protected-value stream (C08), the pools."""
import re
from llvc import terms as T, seqs as S, models, irparse, xmlmodel
from llvc.check import *
from llvc.state import C64, Z64, Ptr
from llvc.engine import Dead
import absmap
from dbcommon import on, NOP
BIG = C64(1 << 40)
class Xml:
    def __init__(self, c):
        self.c = c; self.e = e = c.eng; self.enc = {}; self.obf = {}; self.names = {}
        xmlmodel.install(e)
        for v in ('std::shared_ptr<keepass::Binary>', 'std::weak_ptr<keepass::Icon>', 'std::shared_ptr<keepass::Group>'):
            absmap.Maps(c, r'std::unordered_map<std::string, %s, .*>' % v, 'str', 8, 40, 16)
        on(e, r'^std::string keepass::base64_encode<', self.encode); on(e, r'^(std::string )?keepass::base64_encode\(std::string const&\)', self.encode)
        on(e, r'^void keepass::base64_decode<', self.decode); on(e, r'^(std::string )?keepass::base64_decode\(std::string const&\)', self.decode)
        on(e, r'^(std::string )?keepass::RandomObfuscator::Process\(std::string const&\)', self.process)
        on(e, r'^(std::string )?keepass::KdbxFile::WriteDateTime(\[abi:cxx11\])?\(', self.wtime); on(e, r'^keepass::KdbxFile::ParseDateTime\(', self.ptime)
    def name(self, kind, key):
        d = self.names.setdefault(kind, {})
        return '%s_%d' % (kind, d.setdefault(key, len(d)))
    # Base64: the text depends on the data only, decoding returns the data
    def source(self, st, a):
        e = self.e
        if len(a) == 1: return models.str_get(e, st, a[0])
        if len(a) != 2:
            # istreambuf_iterator range up to the end of the stream
            if isinstance(a[0], Ptr) and len(a) == 4 and isinstance(a[2], Ptr) and a[2].obj == 0: return models.stream_rest(e, st, a[0])
            raise Unsupported('range of unknown form')
        p, q = a
        n = T.sub(q.off, p.off)
        if p.obj != q.obj: raise Unsupported('range of unknown form')
        return e.read_seq(st, p, n)
    def encode(self, e, st, a, ins):
        x = self.source(st, a[1:])
        if not e.quiet: self.c.reach('encoded')
        if T.isc(x.len) and x.len.val in (16, 32):
            n = x.len.val; v = models.pack(x, n, st); t = [T.uf('B64_%d_%d' % (n, k), (v,), 8) for k in range((n + 2) // 3 * 4)]
            st.assume(T.eq(T.uf('UNB64_%d' % n, tuple(t), 8 * n), v)); st.assume(T.band(*[T.ne(b, T.bv(0, 8)) for b in t]))
            r = S.bytes_(t)
        else:
            nm = self.name('b64', x); ln = T.var(nm + '_len', 64); r = S.var(nm, ln); e.nonul.add(nm)
            st.assume(T.band(T.ult(ln, BIG), T.eqc(T.eq(ln, Z64), T.eq(x.len, Z64)) if hasattr(T, 'eqc') else T.band(T.implies(T.eq(ln, Z64), T.eq(x.len, Z64)), T.implies(T.eq(x.len, Z64), T.eq(ln, Z64)))))
        self.enc[r] = x
        models.str_init(e, st, a[0], r); return [('ret', st, None)]
    def decoded(self, st, t):
        """-> [(state, data or None when the text is no Base64)]"""
        if t in self.enc: return [(st, self.enc[t])]
        if T.isc(t.len) and t.len.val == 0: return [(st, S.EMPTY)]
        nm = self.name('decoded', t); x = S.var(nm, T.var(nm + '_len', 64))
        bad = T.var(nm + '_bad', 0)
        outs = []
        for s2, b in models.split(st, bad):
            if b: outs.append((s2, None)); continue
            s2.assume(T.ule(x.len, t.len)); s2.assume(T.implies(T.eq(t.len, Z64), T.eq(x.len, Z64))); outs.append((s2, x))
        return outs
    def decode(self, e, st, a, ins):
        d = irparse.demangle(ins.x['callee'][1]); tpl = 'base64_decode<' in d; src = a[0] if tpl else a[1]
        outs = []
        for s2, x in self.decoded(st, models.str_get(e, st, src)):
            if x is None: outs.append(e.throw(s2, e_ti(e, 'FormatError'))); continue
            if not tpl: models.str_init(e, s2, a[0], x); outs.append(('ret', s2, None))
            elif 'back_insert_iterator' in d:
                v = a[1] if isinstance(a[1], Ptr) else a[1].vals[0]
                if models.vec_get(e, s2, v).len is not Z64 and not (T.isc(models.vec_get(e, s2, v).len) and models.vec_get(e, s2, v).len.val == 0): raise Unsupported('append to a vector')
                models.vec_init(e, s2, v, x); outs.append(('ret', s2, None))
            else:
                f, l = a[1], a[2]; room = T.sub(l.off, f.off)
                if not T.isc(room): raise Unsupported('destination of unknown size')
                for s3, fits in models.split(s2, T.ule(x.len, room)):
                    if not fits: outs.append(e.throw(s3, '_ZTISt12out_of_range')); continue
                    n = room.val; old = e.read_seq(s3, f, n)
                    e.write_seq(s3, f, S.bytes_([T.ite(T.ult(C64(k), x.len), S.at(x, C64(k), s3), S.at(old, C64(k), s3)) for k in range(n)]) if not (T.isc(x.len) and x.len.val == n) else x)
                    outs.append(('ret', s3, None))
        return outs
    # the protected-value stream: position counts the bytes processed; decoding at the same position returns the data
    def process(self, e, st, a, ins):
        x = models.str_get(e, st, a[2]); p = st.g.get('opos', Z64)
        if not e.quiet: self.c.reach('obfuscated')
        st.g['opos'] = T.add(p, x.len)
        if x in self.obf:
            y, q = self.obf[x]
            self.c.goal(st, T.eq(p, q), 'protected values are read at the position of the stream they were written at')
        elif T.isc(x.len) and x.len.val == 0: y = x
        else:
            nm = self.name('obf', (x, p)); y = S.var(nm, x.len); self.obf[y] = (x, p)
        models.str_init(e, st, a[0], y); return [('ret', st, None)]
    # times: C21
    def wtime(self, e, st, a, ins):
        t = a[2]; b = [T.uf('DT%d' % k, (t,), 8) for k in range(20)]
        st.assume(T.eq(T.uf('UNDT', tuple(b), 64), t)); st.assume(T.band(*[T.ne(x, T.bv(0, 8)) for x in b]))
        models.str_init(e, st, a[0], S.bytes_(b)); return [('ret', st, None)]
    def ptime(self, e, st, a, ins):
        s = models.cstr(e, st, a[1])
        if T.isc(s.len):
            if s.len.val == 0: return [('ret', st, Z64)]
            if s.len.val == 20: return [('ret', st, T.uf('UNDT', tuple(S.at(s, C64(k), st) for k in range(20)), 64))]
        outs = []; nm = self.name('time', s)
        for s2, bad in models.split(st, T.var(nm + '_bad', 0)):
            outs.append(e.throw(s2, e_ti(e, 'FormatError')) if bad else ('ret', s2, T.var(nm, 64)))
        return outs

    # the gzip layers (C12): what is flushed is GZ of what was written; reading GZ of something gives it back
    def gzip(self):
        e = self.e; self.gz = {}
        def octor(e, st, a, ins): st.setattr(a[0].obj, ('gz', a[0].off.val), ('out', a[1])); st.setattr(a[0].obj, ('gzf', a[0].off.val), None); return [('ret', st, None)]
        def ictor(e, st, a, ins):
            x = models.stream_rest(e, st, a[1])
            if x in self.gz: v = self.gz[x]; st.setattr(a[0].obj, ('gzbad', a[0].off.val), T.FALSE)
            else: nm = self.name('unzipped', x); v = S.var(nm, T.var(nm + '_len', 64)); st.assume(T.ult(v.len, BIG)); st.setattr(a[0].obj, ('gzbad', a[0].off.val), T.var(nm + '_bad', 0))
            st.setattr(a[0].obj, ('gz', a[0].off.val), ('in', v)); return [('ret', st, None)]
        on(e, r'^keepass::gzip_ostreambuf::gzip_ostreambuf', octor); on(e, r'^keepass::gzip_istreambuf::gzip_istreambuf', ictor); on(e, r'^keepass::gzip_[io]streambuf::~', NOP)
        def layer(st, b): return st.attr(b.obj, ('gz', b.off.val)) if isinstance(b, Ptr) and b.obj and T.isc(b.off) else None
        def bctor(e, st, a, ins):
            b = a[1] if len(a) == 2 else a[-1]; l = layer(st, b)
            if l is None: return models.m_bufstream(e, st, a, ins)
            models.stream_init(e, st, a[0], content=l[1] if l[0] == 'in' else S.EMPTY, kind='both'); off = a[0].off.val
            st.wobj(a[0].obj).attrs[('s', off, 'buf')] = b; st.setattr(b.obj, ('gzs', b.off.val), a[0]); return [('ret', st, None)]
        on(e, r'^std::basic_istream<.*>::basic_istream\(std::basic_streambuf|^std::basic_ostream<.*>::basic_ostream\(std::basic_streambuf', bctor)
        def flush(e, st, a, ins):
            s = models.Stream(e, st, a[0])
            try: b = s['buf']
            except KeyError: return models.m_flush(e, st, a, ins)
            l = layer(st, b)
            if l is None: return models.m_flush(e, st, a, ins)
            if l[0] != 'out' or st.attr(b.obj, ('gzf', b.off.val)) is not None: raise Unsupported('compressed twice')
            x = s['content']; nm = self.name('gz', x); y = S.var(nm, T.var(nm + '_len', 64)); st.assume(T.band(T.ult(y.len, BIG), T.ult(Z64, y.len))); self.gz[y] = x
            st.setattr(b.obj, ('gzf', b.off.val), True); self.c.reach('compressed')
            return [('ret', o[1], a[0]) for o in models.stream_write(e, st, l[1], y)]
        on(e, r'^std::basic_ostream<.*>::flush\(', flush)
        def sputn(e, st, a, ins):
            if layer(st, a[0]) is None: raise Unsupported('sputn')
            return [('ret', o[1], a[2]) for o in models.stream_write(e, st, st.attr(a[0].obj, ('gzs', a[0].off.val)), e.read_seq(st, a[1], a[2]))]
        on(e, r'^std::basic_streambuf<.*>::sputn\(', sputn)
        # consume<std::vector<char>>: all that is left of the stream (the real code is proved with the attachment data by C02)
        def rest(e, st, a, ins):
            try: b = models.Stream(e, st, a[1])['buf']; bad = st.attr(b.obj, ('gzbad', b.off.val))
            except KeyError: bad = T.FALSE
            outs = []
            for s2, f in models.split(st, bad if bad is not None else T.FALSE):
                if f: outs.append(e.throw(s2, e_ti(e, 'IoError'))); continue
                models.vec_init(e, s2, a[0], models.stream_rest(e, s2, a[1])); outs.append(('ret', s2, None))
            return outs
        on(e, r'^std::vector<char, .*keepass::consume<std::vector<char', rest)
        def sputc(e, st, a, ins):
            if layer(st, a[0]) is None: raise Unsupported('sputc')
            return [('ret', o[1], T.zext(a[1], 32)) for o in models.stream_write(e, st, st.attr(a[0].obj, ('gzs', a[0].off.val)), S.bytes_([a[1]]))]
        on(e, r'^std::basic_streambuf<.*>::sputc\(', sputc)
