"""Compile /repo's current sources to IR (verifier) or native code (replay)."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GV_REPO', '/repo')
GV = os.path.join(VERIF, 'gv')
CACHE = os.environ.get('GV_CACHE', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18/bin'
PASSES = 'function(sroa,early-cse,simplifycfg)'
class BuildError(Exception): pass
def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
    return r.returncode, r.stdout
def mpi_flags():
    rc, o = sh(['mpic++', '--showme:compile'])
    return o.split() if rc == 0 else []
def _b():
    b = os.path.join(REPO, '_build')
    return b if os.path.exists(os.path.join(b, 'config.h')) else os.path.join(GV, 'fallback')
_fl = None
def incs():
    global _fl
    if _fl is None:
        b = os.path.join(REPO, '_build')
        if not os.path.exists(os.path.join(b, 'config.h')): b = os.path.join(GV, 'fallback')
        _fl = ['-DHAVE_CONFIG_H', '-DGYOTO_NO_DEPRECATED', '-DGYOTO_PKGLIBDIR="/usr/local/lib/gyoto"', '-DGYOTO_LOCALPKGLIBDIR="/nonexistent"', '-I' + b, '-I' + b + '/include', '-I' + REPO + '/include', '-I' + REPO + '/lib',
               '-I' + GV, '-I/usr/include/eigen3'] + mpi_flags()
    return _fl
def symflags():
    return ['-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-w', '-fno-access-control',
            '-DGV_SYM', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_ALIGN_BYTES=0', '-I' + GV + '/stubs'] + incs()
_hh = None
def headers_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        for d in (REPO + '/include', _b(), _b()+'/include', GV + '/stubs', GV):
            for f in sorted(glob.glob(d + '/**/*.h', recursive=True) + glob.glob(d + '/**/*.hpp', recursive=True)) if d != _b() else sorted(glob.glob(d + '/*.h')):
                h.update(f.encode()); h.update(open(f, 'rb').read())
        _hh = h.hexdigest()
    return _hh
def key(src, extra):
    h = hashlib.sha256()
    h.update(open(src, 'rb').read()); h.update(headers_hash().encode())
    if not src.startswith(REPO + '/'):
        for f in sorted(glob.glob(VERIF + '/harness/*.h')): h.update(open(f, 'rb').read())
    h.update(repr(src).encode()); h.update(repr(extra).encode())
    return h.hexdigest()[:24]
def tool():
    os.makedirs(CACHE, exist_ok=True)
    src = GV + '/irdump.cpp'
    out = os.path.join(CACHE, 'irdump-' + hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16])
    if not os.path.exists(out):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'support'], text=True).split()
        tmp = out + '.%d' % os.getpid()
        rc, o = sh(['clang++-18'] + fl + ['-O1', '-w', src, '-o', tmp] + ld)
        if rc: raise BuildError(o)
        os.rename(tmp, out)
    return out
def ir(src, extra=()):
    """source -> irdump JSON-lines path (cached by content)"""
    k = key(src, ('ir', PASSES, tuple(extra), tuple(x for x in symflags()), os.path.basename(tool())))
    out = os.path.join(CACHE, 'ir', os.path.basename(src) + '-' + k + '.jl')
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    t = tempfile.mkdtemp(prefix='gvir')
    try:
        rc, o = sh(['clang++-18'] + symflags() + list(extra) + ['-emit-llvm', '-c', src, '-o', t + '/a.bc'])
        if rc: raise BuildError('compiling %s:\n%s' % (src, o[-4000:]))
        rc, o = sh([LLVM + '/opt', '-passes=' + PASSES, t + '/a.bc', '-o', t + '/b.bc'])
        if rc: raise BuildError(o)
        with open(t + '/c.jl', 'w') as fh:
            r = subprocess.run([tool(), t + '/b.bc'], stdout=fh)
        if r.returncode: raise BuildError('irdump')
        shutil.move(t + '/c.jl', out + '.%d' % os.getpid()); os.rename(out + '.%d' % os.getpid(), out)
    finally: shutil.rmtree(t, ignore_errors=True)
    return out
def ir_many(srcs):
    tool(); headers_hash()
    with ThreadPoolExecutor(8) as ex: return list(ex.map(ir, srcs))
def lib_sources():
    skip = {'NumericalMetricLorene.C', 'RotStar3_1.C', 'LorenePlug.C', 'NeutronStar.C', 'NeutronStarAnalyticEmission.C', 'NeutronStarModelAtmosphere.C'}
    return [f for f in sorted(glob.glob(REPO + '/lib/*.C')) if os.path.basename(f) not in skip]
def nat_flags(): return ['-std=gnu++17', '-O1', '-g0', '-fPIC', '-w', '-fno-access-control', '-ffp-contract=off'] + incs()
def obj(src, extra=()):
    k = key(src, ('nat', tuple(nat_flags()), tuple(extra)))
    out = os.path.join(CACHE, 'obj', os.path.basename(src) + '-' + k + '.o')
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    rc, o = sh(['clang++-18'] + nat_flags() + list(extra) + ['-c', src, '-o', tmp])
    if rc: raise BuildError('native compile of %s:\n%s' % (src, o[-3000:]))
    os.rename(tmp, out)
    return out
def native(harness, san=False):
    """build the replay executable for a harness file against the current tree"""
    ex = ('-fsanitize=address',) if san else ()
    srcs = lib_sources() + [GV + '/gvrt.cpp', harness]
    headers_hash()
    with ThreadPoolExecutor(8) as p: objs = list(p.map(lambda s: obj(s, ex), srcs))
    h = hashlib.sha256(repr(objs).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, 'nat', os.path.basename(harness) + '-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        lib = os.path.join(CACHE, 'nat', 'libgv-' + hashlib.sha256(repr(objs[:-2]).encode()).hexdigest()[:20] + '.so')
        L = ['-lxerces-c', '-ludunits2', '-lcfitsio', '-lboost_mpi', '-lboost_serialization', '-ldl', '-lpthread']
        rc, mp = sh(['mpic++', '--showme:link']); mp = mp.split() if rc == 0 else []
        if not os.path.exists(lib):
            rc, o = sh(['clang++-18', '-shared', '-o', lib + '.%d' % os.getpid()] + list(ex) + objs[:-2] + L + mp)
            if rc: raise BuildError(o[-3000:])
            os.rename(lib + '.%d' % os.getpid(), lib)
        tmp = out + '.%d' % os.getpid()
        rc, o = sh(['clang++-18', '-rdynamic', '-o', tmp] + list(ex) + objs[-2:] + [lib, '-Wl,-rpath,' + os.path.dirname(lib)] + L + mp)
        if rc: raise BuildError(o[-3000:])
        os.rename(tmp, out)
    return out
if __name__ == '__main__':
    tool()
    if len(sys.argv) > 1 and sys.argv[1] == 'all': ir_many(lib_sources())
