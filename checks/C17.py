"""C17: an export that could not be written completely is reported."""
from llvc.check import *
import dbexport
from llvc import terms as T, models, loops
from llvc.state import C64
LEVEL = 'proof'
KU = ['/verif/harness/kdbfile.cc', 'io', 'group', 'entry', 'util']
XU = ['/verif/harness/kdbxfile.cc', 'io']
def run_cbc(c):
    """encrypt_cbc: what the destination did not take leaves it not good"""
    e = c.eng; e.merge = e.loop_merge = False; e.sink_fails = 'all'; K = {}
    c.assume(T.ult(T.var('in_src_pos', 64), C64(1 << 56))); c.assume(T.ult(T.var('in_src_n', 64), C64(1 << 56)))
    e.lens = {'src': T.add(T.var('in_src_pos', 64), T.var('in_src_n', 64))}
    def dst(e, st, p): K['dst'] = p; st.g['lost'] = T.FALSE
    c.hook('dst', dst)
    D = lambda st: models.Stream(e, st, K['dst'])
    rel = lambda st: T.implies(D(st)['lost'], T.not_(D(st).good()))
    def shape(e, st):
        d = D(st)
        d['bad'] = T.var('lv_bad', 0); d['lost'] = st.g['lost'] = T.var('lv_lost', 0)
        st.assume(rel(st))
    e.loop_contracts.append(loops.LoopContract(r'basic_istream<.*>::read\(', lambda e, st: [(rel(st), 'lost output leaves the destination not good')], shape))
    def done(e, st): c.goal(st, rel(st), 'encryption returns with the destination good only if everything was written')
    c.hook('sinkdone', done)
    c.expected.add('sinkdone')
    for o in c.call('h_cbc_sink'):
        if o[0] == 'throw': c.goal(o[1], T.boolc(is_exc(e, o, 'IoError')), 'only an I/O error is thrown')
def jobs(tier):
    return [Job('kdbx', lambda c: dbexport.kdbx_export(c, True, False), XU, what='KdbxFile::Export, every write and the final flush may fail'),
            Job('kdb', lambda c: dbexport.kdb_export(c, True), KU, what='KdbFile::Export, every write and the final flush may fail'),
            Job('cbc', run_cbc, ['/verif/harness/cbc.cc'], what='encrypt_cbc into a destination that fails at any point')]
REPLAY = dict(src='c17.cc', units=['kdb', 'kdbx', 'key', 'cipher', 'pugixml', 'util', 'io', 'entry', 'group', 'metadata', 'random', 'stream'], rule='exports with the output file limited to every size class up to the full file, full and missing devices; distinct by limit and format')
TRUSTED = ['Key::Transform, the ciphers, the hashed and gzip writers and the record and XML writers by contract: they write to memory', 'an ofstream loses data only by setting badbit in write or flush; after a successful flush closing it loses nothing']
ASSUMPTIONS = ['no loop runs 2^64 iterations', 'the operating system reports write errors no later than the flush of the stream', 'KDBX contents compress or fail with an exception']
