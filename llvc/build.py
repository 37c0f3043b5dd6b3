"""Compile /repo's sources to LLVM IR (fresh on every run) and load them."""
import os, subprocess, tempfile, shutil, atexit, concurrent.futures as cf
from . import irparse
REPO = os.environ.get('LLVC_REPO', '/repo')
FLAGS = ['-std=c++11', '-include', 'limits', '-DDEBUG', '-O0', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-gline-tables-only', '-w']
OPT = '/usr/lib/llvm-18/bin/opt'

class BuildError(Exception):
    pass

def compile_units(units, tmp, extra=()):
    def one(u):
        src = u if os.path.isabs(u) else os.path.join(REPO, 'src', u + '.cc')
        base = os.path.splitext(os.path.basename(u))[0]
        a = os.path.join(tmp, base + '.0.ll'); b = os.path.join(tmp, base + '.ll')
        r = subprocess.run(['clang++-18', *FLAGS, *extra, '-I', os.path.join(REPO, 'src'), '-S', '-emit-llvm', '-o', a, src],
                           capture_output=True, text=True)
        if r.returncode: raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
        r = subprocess.run([OPT, '-passes=function(mem2reg,simplifycfg)', '-S', a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise BuildError('opt failed on %s:\n%s' % (src, r.stderr[-3000:]))
        return base, open(b).read()
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))

def load(units, extra=()):
    tmp = tempfile.mkdtemp(prefix='llvc')
    try:
        mod = irparse.Mod()
        for base, text in compile_units(units, tmp, extra):
            mod.load(text, base + '.ll')
        mod.finish_types()
        irparse.demangle_many(list(mod.funcs) + list(mod.decls))
        return mod
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
