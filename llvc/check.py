"""Runner: proves a property's obligations over the IR of /repo's current sources, replays
failures against the compiled code, decides the verdict and writes the evidence file."""
import os, sys, json, time, re, subprocess, tempfile, shutil, multiprocessing as mp, traceback, signal, importlib
from . import build, engine, models, solver, terms as T, seqs as S, irparse
from .state import *
from .state import C64, Z64
from .engine import Engine, Dead
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = build.REPO
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')

class Job:
    """One verification job: a harness executed symbolically, with its contract checks."""
    def __init__(self, name, fn, units=None, flags=(), what='', optional=False, bound=''):
        self.name = name; self.fn = fn; self.units = units; self.flags = tuple(flags); self.what = what
        self.optional = optional; self.bound = bound      # bound: what the job is bounded by; never counted as proved

class Ctx:
    """what a job function gets"""
    def __init__(self, mod, job, tier, deadline):
        self.mod = mod; self.tier = tier
        self.eng = Engine(mod, deadline)
        models.install(self.eng)
        self.expected = set()
        self.pre = []
        self.labels = {}
    def hook(self, name, fn, need=True):
        self.eng.hooks[name] = fn
        if need: self.expected.add(name)
    def call(self, h, args=()):
        st = State(self.eng)
        for x in self.pre: st.assume(x)
        return self.eng.call(st, h, list(args))
    def assume(self, t):
        """a case of a case split (the cases together are everything), or a stated assumption"""
        self.pre.append(t)
    def goal(self, st, g, label):
        """a property obligation (discharged by the solver)"""
        self.labels[label] = self.labels.get(label, 0) + 1
        return self.eng.oblige(st, g, label, 'property', assume=False)
    def goal_at(self, st, s, i, want, label):
        for s2, t in at_cases(st, s, i): self.goal(s2, T.eq(t, want), label)
    def reach(self, label):
        self.labels.setdefault(label, 0)
        self.eng.reached[label] = self.eng.reached.get(label, 0) + 1

def at_cases(st, s, i):
    """byte i of s, one case per part of a concatenation: [(state, term)]"""
    if s.k == 'ite':
        r = []
        for c, x in ((s.a[0], s.a[1]), (T.not_(s.a[0]), s.a[2])):
            s2 = st.copy()
            if s2.decide(c) is False: continue
            s2.assume(c); r += at_cases(s2, x, i)
        return r
    if s.k != 'cat': return [(st, S.at(s, i, st))]
    r = []; off = i
    for k, p in enumerate(s.a):
        c = T.ult(off, p.len) if k < len(s.a) - 1 else T.TRUE
        d = st.decide(c)
        if d is not False:
            s2 = st.copy(); s2.assume(c)
            if p.k == 'b' and len(p.a) <= 8 and not T.isc(off):
                for x in range(len(p.a)):
                    e = T.eq(off, C64(x))
                    if s2.decide(e) is False: continue
                    s3 = s2.copy(); s3.assume(e); r.append((s3, p.a[x]))
            else: r += at_cases(s2, p, off)
        if d is True: break
        st = st.copy(); st.assume(T.not_(c))
        off = T.sub(off, p.len)
    return r

def e_ti(eng, name):
    """the type_info symbol of a keepass exception"""
    return "_ZTIN7keepass%d%sE" % (len(name), name)

def is_exc(eng, o, name):
    return any(name in t for t in eng.ti_bases(eng.exc_type(o[1], o[2])))

def recnames(t): return {x.val for x in T.subterms([t]) if x.op == 'uf' and isinstance(x.val, str) and re.match(r'rec\d+$', x.val)}
def has_any(o):
    if o.st is None: return False
    # recurrences of different shape on the two sides may still be equal: not decided here
    g = o.goal
    if g.op == 'eq':
        if recnames(g.args[0]) != recnames(g.args[1]): return True
    elif recnames(g): return True
    for t in T.subterms([o.goal] + list(o.st.pc)):
        pass
    return any(isinstance(x, str) and (x.startswith('any!') or x.startswith('anylen!')) for x in tvars(o.goal))

def inputs_of(o):
    """concrete values of the harness inputs in the counterexample model"""
    r = {}
    if o.model is None: return r
    try:
        names = {}
        for c in [o.goal] + list(o.st.pc):
            for t in T.subterms([c]):
                if t.op == 'v' and str(t.val).startswith('in_'): names[t.val] = t
        ufs = set()
        for c in [o.goal] + list(o.st.pc):
            for t in T.subterms([c]):
                if t.op == 'uf' and isinstance(t.val, str) and t.val.startswith('in_') and len(t.args) == 1: ufs.add(t.val)
        for n, t in sorted(names.items()): r[n[3:]] = o.model.ev(t)
        for n in sorted(ufs):
            ln = r.get(n[3:] + '_len')
            if ln is None or ln > 1 << 16: 
                if ln is not None: r[n[3:] + '_toolong'] = 1
                ln = min(ln or 0, 4096) if (ln or 0) <= 1 << 16 else 64
            r[n[3:]] = bytes(o.model.ev(T.uf(n, (C64(i),), 8)) for i in range(ln)).hex()
    except Exception as ex:
        r['error'] = str(ex)
    return r

def run_job(arg):
    job, mod, tier, limit = arg
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    except Exception: pass
    sys.setrecursionlimit(100000)
    for k in solver.stats: solver.stats[k] = 0
    c = Ctx(mod, job, tier, time.time() + limit)
    err = None
    try:
        job.fn(c)
        for h in sorted(c.expected):
            if not c.eng.reached.get(h): raise Unsupported('vacuous: hook %s never reached' % h)
    except Unsupported as ex:
        err = '%s' % ex
    except MemoryError:
        err = 'out of memory'
    except RecursionError:
        err = 'recursion limit'
    except Exception as ex:
        err = 'internal: %s: %s' % (type(ex).__name__, traceback.format_exc()[-1500:])
    obls = []
    for o in c.eng.obls:
        d = dict(label=o.label, kind=o.kind, status=o.status, where=o.where, ms=round(o.ms, 3), backend=o.backend)
        if o.status != 'proved':
            d['goal'] = str(o.goal)[:3000]
            d['any'] = has_any(o)
            if o.status == 'failed':
                d['inputs'] = inputs_of(o)
                d['pc'] = [str(x)[:300] for x in o.st.pc[-40:]] if o.st else []
        obls.append(d)
    ours = [k for k in c.eng.called if 'keepass::' in k or k.startswith('h_')]
    return dict(job=job.name, what=job.what, error=err, obls=obls, wall=round(time.time() - t0, 2), stats=dict(solver.stats),
                functions=sorted(x for x in ours if not x.startswith('h_')), other_functions=len(c.eng.called) - len(ours),
                models=sorted(c.eng.modeled), contracts=sorted(getattr(c.eng, 'contracts_used', {}) or {}),
                assumptions=sorted(c.eng.assumptions), loops=[list(map(str, x)) for x in c.eng.loopinfo if 'summary' in x[2] or 'period' in x[2]],
                labels=c.labels)

def prove(jobs, tier, limit, procs=8):
    """compile, then run the jobs in forked workers"""
    mods = {}
    res = []
    todo = []
    for j in jobs:
        k = (tuple(j.units), j.flags)
        if k not in mods:
            try: mods[k] = build.load(list(j.units), ['-I', os.path.join(VERIF, 'harness'), '-fno-access-control', *j.flags])
            except Exception as ex:
                mods[k] = str(ex)[:3000]
        if isinstance(mods[k], str): res.append(dict(job=j.name, what=j.what, error='build: ' + mods[k], obls=[], wall=0, stats={}, functions=[], other_functions=0, models=[], contracts=[], assumptions=[], loops=[], labels={}))
        else: todo.append((j, mods[k]))
    ctx = mp.get_context('fork')
    running = []
    todo = todo[::-1]
    while todo or running:
        while todo and len(running) < procs:
            j, m = todo.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, (j, m, tier, limit)))
            p.start(); w.close()
            running.append((j, p, r, time.time()))
        time.sleep(0.02)
        for x in list(running):
            j, p, r, t0 = x
            got = None
            if r.poll():
                try: got = r.recv()
                except EOFError: got = None
                p.join()
            elif not p.is_alive(): pass
            elif time.time() - t0 > limit + 60:
                p.kill(); p.join()
            else: continue
            if got is None: got = dict(job=j.name, what=j.what, error='worker died or timed out', obls=[], wall=round(time.time() - t0, 2), stats={}, functions=[], other_functions=0, models=[], contracts=[], assumptions=[], loops=[], labels={})
            res.append(got)
            running.remove(x)
    order = {j.name: i for i, j in enumerate(jobs)}
    res.sort(key=lambda r: order[r['job']])
    return res

def _child(w, arg):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try: r = run_job(arg)
    except BaseException as ex:
        r = dict(job=arg[0].name, what=arg[0].what, error='internal ' + repr(ex), obls=[], wall=0, stats={}, functions=[], other_functions=0, models=[], contracts=[], assumptions=[], loops=[], labels={})
    w.send(r); w.close()
    os._exit(0)

# ------------------------------------------------------------------ replay on the compiled code
ALLUNITS = ['cipher', 'entry', 'group', 'io', 'kdb', 'kdbx', 'key', 'metadata', 'pugixml', 'random', 'stream', 'util']
def build_replay(src, units, tmp, extra=(), san=True):
    fl = ['-std=c++17', '-include', 'limits', '-DDEBUG', '-O1', '-g1', '-w', '-fno-access-control', '-I', os.path.join(REPO, 'src'), '-I', os.path.join(VERIF, 'replay')]
    if san: fl += ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    fl += list(extra)
    objs = []
    procs = []
    for u in [os.path.join(VERIF, 'replay', src)] + [os.path.join(REPO, 'src', x + '.cc') for x in units]:
        o = os.path.join(tmp, os.path.basename(u)[:-3] + ('_r' if 'replay' in u else '') + '.o')
        f = list(fl)
        if 'replay' not in os.path.dirname(u):
            f[0] = '-std=c++11'
        if os.path.basename(u) == 'pugixml.cc': f = [x for x in f if not x.startswith('-fsanitize') and x != '-O1'] + ['-O0']
        procs.append((u, subprocess.Popen(['g++', *f, '-c', '-o', o, u], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for u, p in procs:
        out, _ = p.communicate()
        if p.returncode: return None, '%s: %s' % (u, out[-3000:])
    exe = os.path.join(tmp, 'replay')
    r = subprocess.run(['g++', *(['-fsanitize=address,undefined'] if san else []), '-o', exe, *objs, *extra, '-Wl,--no-as-needed', '-lcrypto', '-lz'], capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-3000:]
    return exe, ''

def run_replay(exe, args, tmp, limit):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1', TMPDIR=tmp)
    try:
        r = subprocess.run([exe, *args], capture_output=True, cwd=tmp, timeout=limit, env=env, errors='replace')
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as ex:
        dec = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return 'timeout', dec(ex.stdout), dec(ex.stderr)

def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3).strip()))
    return r

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    mod = importlib.import_module(prop)
    limit = getattr(mod, 'LIMIT', 500)
    if tier == 'thorough': limit = getattr(mod, 'LIMIT_T', 3 * limit)
    tmp = tempfile.mkdtemp(prefix='vf' + prop)
    os.chmod(tmp, 0o755)
    evdir = os.path.join(VERIF, 'evidence'); rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    try:
        jobs = mod.jobs(tier)
        res = prove(jobs, tier, limit) if jobs else []
        proved = failed = unknown = 0
        fails = []; unk = []; errs = []
        for r in res:
            if r['error']: errs.append('%s: %s' % (r['job'], r['error']))
            for o in r['obls']:
                if o['status'] == 'proved': proved += 1
                elif o['status'] == 'failed' and not o.get('any') and not r['error']: fails.append((r, o)); failed += 1
                else: unk.append((r, o)); unknown += 1
        if '-v' in argv:
            for r in res:
                print('JOB', r['job'], r['wall'], 's', 'obls', len(r['obls']), 'err', r['error'], 'stats', r['stats'])
                for o in r['obls']:
                    if o['status'] != 'proved' or '-vv' in argv: print('   ', o['status'], o['label'], o['where'], o['ms'], 'any' if o.get('any') else '', str(o.get('goal', ''))[:600], o.get('inputs', ''))
                    if o['status'] == 'failed' and '-vv' in argv: print('      PC', '\n         '.join(o['pc']))
        # concrete replays
        cases = distinct = 0
        samples = []
        viol = []
        knownhit = []
        rp = getattr(mod, 'REPLAY', None)
        rnote = ''
        kn = known(prop)
        if rp:
            exe, msg = build_replay(rp['src'], rp['units'], tmp, rp.get('flags', ()), rp.get('san', True))
            if exe is None:
                rnote = 'replay program does not build: ' + msg
            else:
                cef = os.path.join(tmp, 'ce.json')
                with open(cef, 'w') as f:
                    for r, o in fails + unk:
                        inp = o.get('inputs') or {}
                        if inp:
                            f.write('job %s\n' % r['job'])
                            for k, v in inp.items(): f.write('%s %s\n' % (k, v if v != '' else '-'))
                            f.write('end\n')
                n = rp.get('n_thorough', 20) if tier == 'thorough' else 1
                rc, out, er = run_replay(exe, ['--seed', str(seed), '--scale', str(n), '--ce', cef, '--tmp', tmp, '--known', ','.join(k for k, _ in kn)], tmp, rp.get('limit', 300) * (n if n < 8 else 8))
                for l in out.splitlines():
                    if l.startswith('FAIL '): viol.append(l[5:])
                    elif l.startswith('KNOWN '): knownhit.append(l[6:])
                    elif l.startswith('SAMPLE '): samples.append(l[7:307])
                    elif l.startswith('CASES '):
                        a = l.split(); cases += int(a[1]); distinct += int(a[2])
                if rc not in (0, 1) or not any(l.startswith('CASES ') for l in out.splitlines()):
                    if rc == 'timeout': rnote = 'replay program ran out of time'
                    elif not viol: viol.append('the code crashed (exit %s) during the replay: %s' % (rc, (er.strip().splitlines() or [''])[-1][:300]))
                if viol:
                    path = os.path.join(rdir, prop + '.txt')
                    with open(path, 'w') as f:
                        f.write('property %s: failing input on the compiled code\nreplay program: replay/%s with repo units %s; seed %d\n\n' % (prop, rp['src'], rp['units'], seed))
                        for v in viol: f.write('FAIL ' + v + '\n')
                        f.write('\nobligations not discharged:\n')
                        for r, o in fails + unk: f.write('  %s / %s at %s: %s %s\n' % (r['job'], o['label'], o['where'], o['status'], o.get('inputs', '')))
                        for x in errs: f.write('  verifier limit: %s\n' % x)
                        f.write('\nstderr:\n' + er[-6000:])
        ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, wall_s=round(time.time() - t0, 2), violations=0)
        nobl = proved + failed + unknown
        backs = {}
        for r in res:
            for o in r['obls']: backs[o['backend']] = backs.get(o['backend'], 0) + 1
        bnd = {j.name: j.bound for j in jobs if j.bound}
        bn = [o for r in res if r['job'] in bnd for o in r['obls']]; bp = sum(o['status'] == 'proved' for o in bn)
        cov = dict(obligations=nobl - len(bn), discharged=proved - bp,
                   bounded_obligations=dict(obligations=len(bn), discharged=bp, label='bounded symbolic verification; never counted as proved', bounds=bnd) if bnd else None,
                   checker_cmd='python3-vt /verif/run_check.py %s' % prop,
                   trusted_base=list(getattr(mod, 'TRUSTED', [])) + TRUSTED,
                   backends=backs, solver_time_s=round(sum(r['stats'].get('z3_time', 0) + r['stats'].get('cvc5_time', 0) for r in res), 2),
                   solver_queries=sum(r['stats'].get('z3', 0) + r['stats'].get('cvc5', 0) for r in res),
                   property_obligations=sum(1 for r in res for o in r['obls'] if o['kind'] == 'property'),
                   safety_obligations=sum(1 for r in res for o in r['obls'] if o['kind'] != 'property'),
                   functions_under_contract=sorted({f for r in res for f in r['functions']}),
                   jobs=[dict(name=r['job'], what=r['what'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']), wall_s=r['wall'], limit=r['error'],
                              loops=r['loops'][:40]) for r in res],
                   assumed_contracts=sorted({m for r in res for m in r['models']}),
                   undischarged=[dict(job=r['job'], label=o['label'], where=o['where'], status=o['status']) for r, o in fails + unk][:50],
                   verifier_limits=errs,
                   bounded_replay=dict(program=rp['src'] if rp else None, evaluations=cases, distinct_nontrivial=distinct, rule=rp.get('rule', '') if rp else '', note=rnote,
                                       label='bounded: concrete runs of the compiled code against an independent oracle; never counted as proved'),
                   evaluations=cases, distinct_nontrivial=distinct, rule=rp.get('rule', 'none') if rp else 'none', samples=samples[:12] or ['none'])
        if not bnd: del cov['bounded_obligations']
        if mod.LEVEL == 'other': cov['explanation'] = getattr(mod, 'EXPLANATION', '')
        ev['coverage'] = cov
        ev['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({a for r in res for a in r['assumptions']})
        code = 0
        if viol:
            ev['violations'] = len(viol)
            print('VIOLATION property=%s replay=%s' % (prop, path)); code = 1
            for v in viol[:3]: print('  ' + v[:600])
        elif fails:
            path = os.path.join(rdir, prop + '.obligation.txt')
            with open(path, 'w') as f:
                for r, o in fails:
                    f.write('failed obligation: %s\n  job %s (%s)\n  at %s\n  back end %s answered: satisfiable (not valid)\n  goal %s\n  inputs in the model: %s\n' % (o['label'], r['job'], r['what'], o['where'], o['backend'], o.get('goal'), o.get('inputs')))
                    f.write('  path condition (end):\n    ' + '\n    '.join(o.get('pc', [])) + '\n\n')
            ev['violations'] = len(fails)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); code = 1
            for r, o in fails[:3]: print('  failed obligation: %s (%s) at %s' % (o['label'], r['job'], o['where']))
        for kid, text in kn:
            hit = [k for k in knownhit if k.split(' ')[0] == kid]
            if hit or not rp: print('KNOWN-FINDING: property=%s %s' % (prop, text))
        with open(os.path.join(evdir, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d failed, %d undecided; %d verifier limits; replay %d cases%s; %.1f s' % (prop, nobl, proved, failed, unknown, len(errs), cases, ' (' + rnote[:500] + ')' if rnote else '', time.time() - t0))
        for x in errs: print('  limit: ' + x[:300])
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

TRUSTED = ['clang 18 front end and opt mem2reg/simplifycfg: the IR means what the source means',
           'llvc (the verification-condition generator in /verif/llvc): IR semantics, loop rule and library models',
           'z3 4.x / cvc5 as back ends']
