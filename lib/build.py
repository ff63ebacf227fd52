"""Builds the workload driver and, per configuration and API form, a shared object holding the
real library code from /repo's current working tree behind a uniform calling convention."""
import hashlib, os, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.environ.get('VT_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, HERE)
import contract, gen_impl, apitxt

NOSSE = '-U__SSE__ -U__SSE2__'
SHIM = '-I' + os.path.join(HERE, 'shim')
# name -> (compiler, flags).  Everything that selects different code in the library.
CFG = {
 'def':    ('gcc',   '-O2'),
 'O0':     ('gcc',   '-O0'),
 'O3':     ('gcc',   '-O3'),
 'clang':  ('clang', '-O2'),
 'clang0': ('clang', '-O0'),
 'sca':    ('gcc',   '-O2 ' + NOSSE),
 'csca':   ('clang', '-O2 ' + NOSSE),
 'sse1':   ('gcc',   '-O2 -U__SSE2__'),
 'sse3':   ('gcc',   '-O2 -msse3 -DCGLM_SSE3_DOT'),
 'sse4':   ('gcc',   '-O2 -msse4.1 -DCGLM_SSE4_DOT'),
 'noint':  ('gcc',   '-O2 -DCGLM_NO_INT_DOMAIN'),
 'avx':    ('gcc',   '-O2 -mavx'),
 'avx2':   ('gcc',   '-O3 -mavx2 -mfma'),
 'cavx2':  ('clang', '-O2 -mavx2 -mfma'),
 'unal':   ('gcc',   '-O2 -DCGLM_ALL_UNALIGNED'),
 'avxu':   ('gcc',   '-O2 -mavx -DCGLM_ALL_UNALIGNED'),
 'neon32': ('gcc',   '-O2 %s %s -D__ARM_NEON -D__ARM_NEON_FP' % (NOSSE, SHIM)),
 'neon64': ('gcc',   '-O2 %s %s -D__ARM_NEON -D__ARM_NEON_FP -D_M_ARM64' % (NOSSE, SHIM)),
 'wasmsh': ('gcc',   '-O2 %s %s -D__wasm__ -D__wasm_simd128__' % (NOSSE, SHIM)),
 'lh':     ('gcc',   '-O2 -DCGLM_FORCE_LEFT_HANDED'),
 'zo':     ('gcc',   '-O2 -DCGLM_FORCE_DEPTH_ZERO_TO_ONE'),
 'lhzo':   ('gcc',   '-O2 -DCGLM_FORCE_LEFT_HANDED -DCGLM_FORCE_DEPTH_ZERO_TO_ONE'),
 'clh':    ('clang', '-O2 -mavx -DCGLM_FORCE_LEFT_HANDED'),
 'czo':    ('clang', '-O2 -mavx -DCGLM_FORCE_DEPTH_ZERO_TO_ONE'),
 'clhzo':  ('clang', '-O2 -mavx -DCGLM_FORCE_LEFT_HANDED -DCGLM_FORCE_DEPTH_ZERO_TO_ONE'),
 'c11':    ('gcc',   '-O2 -std=gnu11 -DCGLM_USE_DEFAULT_EPSILON'),
 'gxx':    ('g++ -x c++ -fpermissive',     '-O2'),                # C++ programs including the headers or calling the C library
 'cxx':    ('clang++ -x c++ -std=c++17',   '-O2 -mavx'),
 'noanon': ('gcc',   '-O2 -DCGLM_USE_ANONYMOUS_STRUCT=0'),
}
STANDIN = {'neon32', 'neon64', 'wasmsh', 'wasm', 'wasm0'}       # instruction sets emulated by our own headers, or hosted by node with our own C headers
WASM = '--target=wasm32 -msimd128 -fno-math-errno -ffp-contract=off -I' + os.path.join(HERE, 'wasm')
CFG['wasm'] = ('clang', '-O2 ' + WASM)          # real WebAssembly, executed by node
CFG['wasm0'] = ('clang', '-O0 ' + WASM)

def wasm_module(cfg, objs, out):
    return cc('wasm-ld --no-entry --allow-undefined --export-dynamic %s' % ' '.join(objs), out)
def wasm_lib(cfg, form, names, api, extra, eh, d, wrapper):
    """native object whose functions run in a WebAssembly instance"""
    comp, fl = CFG[cfg]
    objs = [cc('%s %s %s -w -g0 -I%s/include -I%s/src -c %s' % (comp, fl, extra, REPO, REPO, f), os.path.join(d, '%s_%s_%s_%s.o' % (b, cfg, form, eh))) for f, b in ((wrapper, 'w'), (os.path.join(HERE, 'wasm', 'run.c'), 'run'))]
    mod = wasm_module(cfg, objs, os.path.join(d, 'l_%s_%s_%s.wasm' % (cfg, form, eh)))
    r = run(['node', os.path.join(HERE, 'wasm', 'host.js'), mod, 'check'])
    if r.returncode: raise Fail('WebAssembly module ' + mod, r.stdout)
    P = [api[n]['params'] for n in names]
    t = ['#define HOST "%s"' % os.path.join(HERE, 'wasm', 'host.js'), '#define MODULE "%s"' % mod,
         'static const unsigned char PNP[] = {%s};' % ','.join(str(len(p)) for p in P), 'static const unsigned char PN[][16] = {%s};' % ','.join('{%s}' % ','.join(str(q['n']) for q in p) for p in P),
         '#include "%s"' % os.path.join(HERE, 'wasm_proxy.c'), 'struct vt_fn { const char *name; void (*fn)(void **); }; struct vt_al { const char *name; int size, align; };']
    has = [form == 'inline' or api[n][form] for n in names]
    t += ['static void w%d(void **p) { vt_proxy(%d, p); }' % (i, i) for i, n in enumerate(names) if has[i]]
    t += ['const struct vt_fn vt_fns[] = {%s,{0,0}};' % ','.join('{"%s",%s}' % (n, 'w%d' % i if has[i] else '0') for i, n in enumerate(names))]
    t += ['const struct vt_al vt_als[] = {{"mat4",64,16},{"mat2",16,16},{"vec4",16,16},{"versor",16,16},{"mat2x4",32,16},{"mat3x4",48,16},{0,0,0}};']
    c = os.path.join(d, 'wp_%s_%s_%s.c' % (cfg, form, eh)); atomic(c, '\n'.join(t))
    return cc('gcc -O1 -w -shared -fPIC ' + c, os.path.join(d, 'l_%s_%s_%s.so' % (cfg, form, eh)))

class Fail(Exception):
    def __init__(self, what, log): Exception.__init__(self, what); self.what = what; self.log = log

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)

_tree = None
def treehash():
    """hash of everything the library objects depend on"""
    global _tree
    if _tree: return _tree
    h = hashlib.sha256()
    for base in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.c')):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in ('gen_impl.py', 'contract.py', 'api.json', 'build.py'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    for f in sorted(glob.glob(os.path.join(HERE, 'shim', '*')) + glob.glob(os.path.join(HERE, 'wasm', '*')) + [os.path.join(HERE, 'wasm_proxy.c')]): h.update(open(f, 'rb').read())
    _tree = h.hexdigest()[:16]
    return _tree

def treedir():
    d = os.path.join(BUILD, treehash()); os.makedirs(d, exist_ok=True); return d

def atomic(path, data):
    t = path + '.%d.%d' % (os.getpid(), threading.get_ident()); open(t, 'w').write(data); os.replace(t, path)

_pool = None
def pool():
    global _pool
    if not _pool: _pool = ThreadPoolExecutor(8)
    return _pool

def cc(cmd, out):
    """run a compile command writing to out atomically"""
    if os.path.exists(out): return out
    t = out + '.tmp%d.%d' % (os.getpid(), threading.get_ident())
    r = run(cmd + ' -o ' + t, shell=True)
    if r.returncode != 0: raise Fail(cmd, r.stdout)
    os.replace(t, out); return out

def srcs():
    return sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.c'), recursive=True))

def src_objs(cfg, extra=''):
    """-> list of futures for the objects of the compiled library"""
    comp, fl = CFG[cfg]; d = os.path.join(treedir(), 'src_' + cfg + hashlib.md5(extra.encode()).hexdigest()[:6] if extra else 'src_' + cfg); os.makedirs(d, exist_ok=True)
    return [pool().submit(cc, '%s %s %s -w -g0 -fPIC -I%s/include -I%s/src -c %s' % (comp, fl, extra, REPO, REPO, s), os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o')) for s in srcs()]

class Libs:
    """requests (cfg, form) libraries for a set of functions and builds them all in parallel"""
    def __init__(self, names=None):
        self.api, self.by = contract.load()
        self.names = names or list(self.api)
        self.req = []
    def want(self, cfg, form, extra='', tag=''):
        self.req.append((cfg, form, extra, tag)); return self
    def build(self):
        """-> {(cfg+tag, form): path}, [(cfg, form, Fail)]"""
        d = treedir(); nh = hashlib.md5('\n'.join(self.names).encode()).hexdigest()[:8]
        out, bad, futs = {}, [], []
        for cfg, form, extra, tag in self.req:
            comp, fl = CFG[cfg]
            if form == 'struct' and not extra: extra = '-ftrivial-auto-var-init=pattern' # a forgotten store in a function returning a struct must not look like zero
            names = self.names if form == 'inline' else [n for n in self.names if self.api[n][form]]
            if not names: continue
            c = os.path.join(d, 'w_%s_%s.c' % (form, nh))
            if not os.path.exists(c): atomic(c, gen_impl.source(form, names, self.api))
            eh = hashlib.md5((extra + nh).encode()).hexdigest()[:8]
            if cfg in ('wasm', 'wasm0'):
                futs.append((cfg, form, extra, tag, [pool().submit(wasm_lib, cfg, form, names, self.api, extra, eh, d, c)], eh)); continue
            o = os.path.join(d, 'w_%s_%s_%s.o' % (cfg, form, eh))
            f = pool().submit(cc, '%s %s %s -w -g0 -fPIC -I%s/include -I%s/src -c %s' % (comp, fl, extra, REPO, REPO, c), o)
            futs.append((cfg, form, extra, tag, [f] + (src_objs({'gxx': 'def', 'cxx': 'avx'}.get(cfg, cfg), extra) if form == 'call' else []), eh))
        for cfg, form, extra, tag, fs, eh in futs:
            comp, fl = CFG[cfg]
            try:
                objs = [f.result() for f in fs]
                so = os.path.join(d, 'l_%s_%s_%s.so' % (cfg, form, eh))
                if cfg in ('wasm', 'wasm0'): out[(cfg + tag, form)] = so; continue
                san = ' '.join(x for x in extra.split() if x.startswith('-fsanitize'))
                cc('%s %s -shared %s -lm' % (comp.split()[0], san, ' '.join(objs)), so)
                out[(cfg + tag, form)] = so
            except Fail as e: bad.append((cfg + tag, form, e))
        return out, bad

def driver():
    """builds the driver (independent of /repo) and returns (path, api.txt)"""
    h = hashlib.sha256()
    fs = sorted(glob.glob(os.path.join(HERE, 'refs_*.cpp'))) + [os.path.join(HERE, x) for x in ('drv.cpp', 'modes.h', 'core.h', 'apitxt.py', 'contract.py', 'api.json')]
    for f in fs: h.update(open(f, 'rb').read())
    d = os.path.join(BUILD, 'drv_' + h.hexdigest()[:16]); os.makedirs(d, exist_ok=True)
    api = os.path.join(d, 'api.txt')
    if not os.path.exists(api): atomic(api, apitxt.text())
    exe = os.path.join(d, 'drv')
    if not os.path.exists(exe):
        cpps = [f for f in fs if f.endswith('.cpp')]
        objs = [pool().submit(cc, 'g++ -std=c++17 -O1 -g0 -w -c ' + f, os.path.join(d, os.path.basename(f) + '.o')) for f in cpps]
        cc('g++ %s -ldl' % ' '.join(o.result() for o in objs), exe)
    return exe, api
