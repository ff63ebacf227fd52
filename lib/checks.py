"""Orchestration of one property's check."""
import json, os, re, subprocess, sys, time, glob
import build, contract, gen_impl
from build import VERIF, BUILD, REPO, Fail, run
NSH = 8

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = []        # dicts
        self.stats = []       # driver stat lines
        self.notes = []       # assumptions / skipped parts
        self.extra = {}       # additional coverage figures
        self.samples = []
        self.distinct = 0
        self.evals = 0
        self.hashfiles = []
        self.t0 = time.time()
        self.work = os.path.join(BUILD, 'run', '%s_%d' % (prop, os.getpid())); os.makedirs(self.work, exist_ok=True)
        self.rule = ''
        self.replay = None
    @property
    def thorough(self): return self.tier == 'thorough'
    def violation(self, **d): self.viol.append(d)

def libspecs(libs):
    return ['--lib', ] and sum([['--lib', '%s,%s,%s%s' % (c, f, p, ',x' if c.startswith('neon32') else ',p%d' % libspecs.sub if c.startswith('wasm') and c[:6] != 'wasmsh' and libspecs.sub > 1 else '')] for (c, f), p in libs.items()], [])

libspecs.sub = 1     # calls into the WebAssembly host are made for one case in so many
def drive(cx, libs, mode, cases, prop=None, only=None, args=(), timeout=800, tag='', env=None, prefix=(), nsh=NSH):
    """run the driver over nsh shards, collect records; a shard that dies is retried and reported"""
    exe, api = build.driver(); procs = []
    rp = cx.replay
    for sh in range(nsh):
        out = os.path.join(cx.work, 'o_%s%s_%d' % (mode, tag, sh))
        cmd = list(prefix) + [exe, '--api', api, '--out', out, '--mode', mode, '--cases', str(cases), '--seed', str(cx.seed), '--prop', prop or cx.prop]
        if rp:
            if sh: break
            cmd += ['--shard', '0/1', '--only', rp['fn'], '--case', str(rp['case'])]
        else: cmd += ['--shard', '%d/%d' % (sh, nsh)]
        for o in only or []: cmd += ['--only', o]
        cmd += libspecs(libs) + list(args)
        procs.append((cmd, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=None if rp else subprocess.PIPE, env=env)))
    died = []
    for cmd, out, p in procs:
        try: err = p.communicate(timeout=max(10, timeout - 0))[1]
        except subprocess.TimeoutExpired:
            p.kill(); raise Fail('driver timeout', ' '.join(cmd))
        if p.returncode == 3: raise Fail('driver setup: ' + ' '.join(cmd), (err or b'').decode(errors='replace'))
        if p.returncode != 0: died.append((cmd, out, p.returncode, err))
    for cmd, out, rc, err in died:
        rec = collect(cx, out, only_died=True)
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=timeout)
        if r.returncode == 0: cx.notes.append('a driver shard died once (%s) and passed on retry' % rc); continue
        rec2 = collect(cx, out, only_died=True)
        fn = (rec2 or rec or {}).get('fn', '?'); case = (rec2 or rec or {}).get('case', -1)
        if r.returncode > 0 or not fn or fn == '?': raise Fail('driver failed with %s' % r.returncode, ((err or b'') + (r.stderr or b'')).decode(errors='replace')[-3000:] + ' '.join(cmd))
        cx.violation(kind='violation', fn=fn, case=case, lib='?', form='?', why='the process was killed by signal %d while (or after) calling this function, twice: memory outside its arguments was corrupted' % -r.returncode, mode=mode, **{'in': '', 'act': ''})
    tot = 0
    for cmd, out, p in procs:
        ended = collect(cx, out)
        if not ended and not any(out == d[1] for d in died): raise Fail('driver output incomplete', out)

def collect(cx, out, only_died=False):
    ended = False; died = None
    if not os.path.exists(out): return None
    for ln in open(out, errors='replace'):
        ln = ln.strip()
        if not ln: continue
        try: d = json.loads(ln)
        except ValueError:
            continue
        if d['kind'] == 'died': died = d
        if only_died: continue
        if d['kind'] == 'violation': cx.viol.append(d)
        elif d['kind'] == 'stat': cx.stats.append(d)
        elif d['kind'] == 'info': cx.extra[d['key']] = cx.extra.get(d['key'], 0) + d['value']
        elif d['kind'] == 'end': ended = True
    if only_died: return died
    if os.path.exists(out + '.hash'): cx.hashfiles.append(out + '.hash')
    return ended

def table(cx):
    """aggregate stat lines per function"""
    t = {}
    for s in cx.stats:
        a = t.setdefault(s['fn'], dict(cases=0, calls=0, conclusive=0, ambiguous=0, invalid=0, elements=0, skipped=0, maxratio=0.0, paths=0, sample=''))
        for k in ('cases', 'calls', 'conclusive', 'ambiguous', 'invalid', 'elements', 'skipped'): a[k] += s[k]
        a['maxratio'] = max(a['maxratio'], s['maxratio']); a['paths'] = max(a['paths'], s['paths'])
        if s.get('sample') and not a['sample']: a['sample'] = s['sample']
    return t

def need_libs(cx, L, skippable=()):
    """build; stand-in configurations that do not compile are skipped (inconclusive), any other failure is an error of the check"""
    libs, bad = L.build()
    for cfg, form, e in bad:
        base = cfg.split('+')[0]
        if base in build.STANDIN or cfg in skippable: cx.notes.append('configuration %s/%s could not be built with our intrinsic stand-in and was skipped' % (cfg, form))
        elif base in ('gxx', 'cxx'): cx.notes.append('configuration %s/%s does not compile as C++ and was skipped' % (cfg, form))
        elif base == 'def' and base == cfg or not libs: raise Fail('building %s/%s: %s' % (cfg, form, e.what), e.log)
        else: cx.violation(fn='?', lib=cfg, form=form, case=-1, why='this build configuration does not compile although the default one does: ' + (e.log or '')[:600], **{'in': '', 'act': ''})
    return libs

# ---------------------------------------------------------------- functional properties
QUICK_CFG = ['sca', 'avx', 'cavx2', 'sse4', 'neon32', 'neon64', 'wasmsh', 'wasm']
THOR_CFG = ['sca', 'sse1', 'sse3', 'sse4', 'avx', 'avx2', 'cavx2', 'O0', 'clang', 'noint', 'unal', 'neon32', 'neon64', 'wasmsh', 'wasm', 'wasm0']
REFRULE = 'a case is a generated argument tuple for one function (structured, random, boundary, degenerate and special-value generators); it counts when the reference model reached a verdict for it (not on a decision boundary, inside the domain) and its argument values are distinct from every other counted case of that function'
# functions whose home is another property but which this property's statement speaks of too
ALSO = {
 'C01': r'vec[234]_(lerpc?|mixc?|smooth\w+|step[sr]?|sign|eq\w*|is\w+)|lerpc?|swapf',
 'C02': r'i(min|max)|sign|eq',
 'C03': r'lerpc?|smooth|smoothstep|smoothinterpc?|vec[234]_(max|min|maxv|minv|clamp|abs|smoothstep|smoothstep_uni)|ivec[234]_(eq|neq|eq_all|eqv|neqv|max|min|maxv|minv|clamp|abs)',
 'C04': r'mul|mul_rot|vec3_rotate_m[34]',
 'C07': r'rotate_make|rotate|rotated?_[xyz]|rotated|vec3_rotate(_m[34])?|spin|spinned|rotated?_at|rotate_atm|quatv|quat|quat_axis|quat_angle|quat_mul',
 'C06': r'quat_(lerpc?|nlerp|rotatev)',
 'C08': r'quat_(normalize(_to)?|dot)|lerpc?',
 'C11': r'quat_rotate(_atm?)?|inv_tr',
 'C13': r'mat4_mul|mul_rot',
 'C14': r'perspective_resize\w*|persp_move_far\w*',
 'C15': r'(perspective|frustum)_[lr]h_[nz]o',
 'C16': r'quat_look',
 'C18': r'aabb_transform',
 'C19': r'aabb_frustum',
}
def functional(cx):
    exe, api = build.driver()
    lst = [l.split() for l in run([exe, '--api', api, '--list']).stdout.splitlines()]
    names = sorted({n for p, n, k in lst if p == cx.prop or re.fullmatch(ALSO.get(cx.prop, '-'), n[4:])})
    L = build.Libs(names)
    for f in ('inline', 'struct', 'call'): L.want('def', f)
    for c in (THOR_CFG if cx.thorough else QUICK_CFG): L.want(c, 'inline')
    if cx.thorough:
        for c in ('cavx2', 'sca'): L.want(c, 'struct'); L.want(c, 'call')
    libs = need_libs(cx, L)
    budget = 420e6 if cx.thorough else 24e6
    cases = int(max(1500, min(4000000 if cx.thorough else 300000, budget / len(names) / len(libs))))
    cases = -(-cases // NSH) * NSH
    libspecs.sub = 1 if cx.replay else 8
    drive(cx, libs, 'ref', cases, prop='*', only=names if not cx.replay else None)
    cx.rule = REFRULE
    cx.extra['configurations'] = sorted('%s/%s' % k for k in libs)
    cx.extra['functions'] = len(names)
    floor(cx, names, 200)
    if cx.prop in OPTPROPS: options(cx, names)
    if cx.prop == 'C18': clips(cx, 300)
    if cx.prop in ('C01', 'C03', 'C04', 'C06', 'C19') and (not cx.replay or cx.replay.get('form') in ('build', 'alias')): c22_names(cx)

OPTPROPS = ('C10', 'C14', 'C15', 'C16', 'C17', 'C18')
def options(cx, names):
    """the generic names in builds with the handedness and depth options"""
    gen = [n for n in names if n in set(generic_names()) or cx.prop == 'C18']
    for conv, cfg in (('lhno', 'lh'), ('rhzo', 'zo'), ('lhzo', 'lhzo')):
        if cx.replay and cx.replay.get('lib') != cfg: continue
        L = build.Libs(gen)
        for f in ('inline', 'struct', 'call'): L.want(cfg, f)
        libs = need_libs(cx, L)
        drive(cx, libs, 'ref', 8 * (8000 if cx.thorough else 300), prop='*', only=gen if not cx.replay else None, args=['--conv', conv], tag=conv)
        cx.extra['option_builds'] = cx.extra.get('option_builds', []) + sorted('%s/%s' % k for k in libs)

def c04(cx):
    if not cx.replay or cx.replay.get('form') == 'apple':
        for t, fl in (('apple', '-O1'), ('appleavx', '-O2 -mavx -std=c11')):
            try: harness(cx, [(t, 'apple', [prog(cx, 'apple.c', t, 'clang', fl), '300000' if cx.thorough else '20000', str(cx.seed)] + ([str(cx.replay['case'])] if cx.replay else []))])
            except Fail as e: cx.notes.append('the conversions to Apple SIMD types do not compile with our stand-in and were skipped')
    if not cx.replay or cx.replay.get('form') != 'apple': functional(cx)

def floor(cx, names, least):
    if cx.replay: return
    t = table(cx)
    low = [n for n in names if t.get(n, {}).get('conclusive', 0) < least]
    if low: raise Fail('too few conclusive cases (inconclusive run)', ', '.join(low[:20]))


# ---------------------------------------------------------------- cross-cutting monitors over the whole API
def api_names(): return list(contract.load()[0])
def cases_for(cx, quick, thor, calls_per_case):
    n = (thor if cx.thorough else quick) / 812 / calls_per_case
    return max(NSH * 2, -(-int(n) // NSH) * NSH)
def ordered(libs, first):
    return {**{k: v for k, v in libs.items() if k == first}, **{k: v for k, v in libs.items() if k != first}}

def c22(cx):
    L = build.Libs()
    for f in ('inline', 'struct', 'call'): L.want('def', f)
    for c, f in (('gxx', 'call'), ('cxx', 'struct')) + ((('cxx', 'call'), ('gxx', 'struct'), ('avx', 'call'), ('avx', 'struct'), ('sca', 'call'), ('sca', 'struct'), ('clang', 'call'), ('clang', 'struct')) if cx.thorough else ()): L.want(c, f)
    try: libs = need_libs(cx, L)
    except Fail as e:
        m = re.findall(r'(?:undefined reference to|implicit declaration of function|unknown type name|conflicting types for) .(\w+)|In function .(\w+).', e.log or '')
        cx.violation(fn=next((a or b for a, b in m), '?'), lib='def', form='build', case=-1, why='the API forms do not all compile: ' + (e.log or '')[:600]); return
    if not cx.replay or cx.replay.get('form') in ('build', 'alias'): c22_names(cx)
    if not cx.replay or cx.replay.get('lib') == 'print': print_forms(cx)
    if not cx.replay or cx.replay.get('form') not in ('build', 'alias', 'printinline', 'printcall', 'printstruct'): drive(cx, ordered(libs, ('def', 'inline')), 'same', cases_for(cx, 16e6, 500e6, 3))
    cx.rule = 'a case is a generated argument tuple executed through the inline, linked and by-value struct form of one function; counted when all forms ran, the arguments are inside the domain, and the argument values are distinct'
    cx.extra['configurations'] = sorted('%s/%s' % k for k in libs)

def c22_names(cx):
    """every declared library function links, and alternative names do what the function they name does"""
    import alias
    d = build.treedir(); allh = ''.join('#include <%s>\n' % h for h in gen_impl.includes('call'))
    h = os.path.join(d, 'alldecl.c'); build.atomic(h, allh)
    pre = build.run(['gcc', '-E', '-P', '-w', '-I' + REPO + '/include', h])
    if pre.returncode: cx.violation(fn='?', lib='def', form='build', case=-1, why='the library headers do not compile: ' + pre.stdout[:600], **{'in': '', 'act': ''}); return
    for cfg, comp in (('def', 'gcc -O1'), ('avx', 'clang -O1 -mavx'), ('sca', 'gcc -O1 ' + build.NOSSE)):
        objs = [f.result() for f in build.src_objs(cfg)]; c = os.path.join(d, 'alias_%s.c' % cfg); build.atomic(c, allh + alias.program(alias.declared(pre.stdout)))
        try: b = build.cc('%s -w -I%s/include %s %s -lm' % (comp, REPO, c, ' '.join(objs)), os.path.join(d, 'alias_' + cfg))
        except Fail as e:
            m = re.findall(r'undefined reference to .(\w+)', e.log or '')
            if m:
                for fn in sorted(set(m)): cx.violation(fn=fn, lib=cfg, form='build', case=-1, why='declared by the library headers but absent from the compiled library', **{'in': '', 'act': ''})
            else: cx.violation(fn='?', lib=cfg, form='build', case=-1, why='a declared function or alternative name does not compile: ' + (e.log or '')[:600], **{'in': '', 'act': ''})
            continue
        harness(cx, [(cfg, 'alias', [b, str(200000 if cx.thorough else 20000), str(cx.seed)])])

def c23(cx):
    q = ['def', 'sse1', 'sse3', 'sse4', 'avx', 'cavx2', 'unal', 'O0', 'neon32', 'neon64', 'wasmsh', 'wasm']
    t = q + ['avx2', 'avxu', 'O3', 'clang', 'clang0', 'csca', 'noint', 'c11', 'wasm0']
    L = build.Libs(); L.want('sca', 'inline')
    for c in (t if cx.thorough else q): L.want(c, 'inline')
    L.want('cxx', 'inline')
    for c in ('avx', 'sca', 'wasm') + (('cavx2', 'sse4') if cx.thorough else ()): L.want(c, 'struct')
    libs, bad = L.build()
    for cfg, form, e in bad:
        if cfg in build.STANDIN: cx.notes.append('configuration %s/%s could not be built with our intrinsic stand-in and was skipped' % (cfg, form))
        elif cfg in ('gxx', 'cxx'): cx.notes.append('configuration %s/%s does not compile as C++ and was skipped' % (cfg, form))
        elif cfg == 'sca': raise Fail('building the plain C reference build', e.log)
        else: cx.violation(fn='?', lib=cfg, form=form, case=-1, why='this build configuration does not compile although plain C does: ' + (e.log or '')[:600])
    if not cx.replay or cx.replay.get('form') == 'regs': c31(cx, ['sse3', 'sse4', 'avx', 'cavx2', 'neon64', 'def'])
    if cx.replay and cx.replay.get('form') == 'regs': return
    libspecs.sub = 1 if cx.replay else 8
    drive(cx, ordered(libs, ('sca', 'inline')), 'same', cases_for(cx, 26e6, 500e6, len(libs)))
    cx.rule = 'a case is a generated argument tuple executed in the plain C build and in every other build; counted when the reference model could tell that no decision of the function is within rounding distance, and the argument values are distinct'
    cx.extra['configurations'] = sorted('%s/%s' % k for k in libs)

def c24(cx):
    L = build.Libs()
    for f in ('inline', 'struct', 'call'): L.want('def', f)
    for c in ['sca', 'sse4', 'avx', 'cavx2', 'unal', 'neon32', 'neon64', 'wasmsh'] + (['sse1', 'sse3', 'avx2', 'avxu', 'O0', 'O3', 'clang'] if cx.thorough else []): L.want(c, 'inline')
    if cx.thorough: L.want('avx', 'call'); L.want('avx', 'struct')
    libs = need_libs(cx, L)
    san_programs(cx)
    if cx.replay and cx.replay.get('lib', '').startswith('san-'): return
    drive(cx, ordered(libs, ('def', 'inline')), 'mem', cases_for(cx, 16e6, 300e6, 3 * len(libs)))
    cx.rule = 'a case is a generated argument tuple executed three times per build: every object ending exactly at an inaccessible page, every object starting right after one, and every object at its minimal alignment between canaries, each time with different poison in the outputs; counted when all three ran and the argument values are distinct'
    cx.extra['configurations'] = sorted('%s/%s' % k for k in libs); cx.extra['placements_per_case'] = 3

ALIAS_UNSUPPORTED = [] # filled from documentation
def c25(cx):
    L = build.Libs()
    for f in ('inline', 'call', 'struct'): L.want('def', f)
    libspecs.sub = 1 if cx.replay else 8
    for c in ['sca', 'sse4', 'avx', 'cavx2', 'neon32', 'neon64', 'wasmsh', 'wasm', 'O0'] + (['sse1', 'sse3', 'avx2', 'unal', 'O3', 'clang'] if cx.thorough else []): L.want(c, 'inline')
    libs = need_libs(cx, L)
    drive(cx, ordered(libs, ('def', 'inline')), 'alias', cases_for(cx, 30e6, 500e6, 4 * len(libs)), args=['--arg', ';'.join(ALIAS_UNSUPPORTED)] if ALIAS_UNSUPPORTED else [])
    cx.rule = 'a case is a generated argument tuple and one pattern of inputs sharing the output object (every non-empty subset of the inputs of the output\'s type), executed with separate objects and with the shared object; counted when both ran conclusively and the argument values are distinct'
    cx.extra['configurations'] = sorted('%s/%s' % k for k in libs)


# ---------------------------------------------------------------- replay harness: sanitizers and hidden state
def replay_table(d):
    """C table of the call signatures, in the order the driver numbers them"""
    api, by = contract.load(); o = ['struct sig { const char *name; int np; char rk; int n[16]; char role[17]; const char *type[16]; unsigned char flt[16]; };', 'static const struct sig SIGS[] = {']
    for n, f in api.items():
        P = f['params']
        o.append('{"%s",%d,\'%s\',{%s},"%s",{%s},{%s}},' % (n, len(P), f['rk'], ','.join(str(p['n']) for p in P), ''.join(p['role'] for p in P), ','.join('"%s"' % p['type'] for p in P), ','.join('1' if p['kind'] in 'afM' else '0' for p in P)))
    o.append('};\n#define NSIG %d' % len(api))
    build.atomic(os.path.join(d, 'replay_table.h'), '\n'.join(o) + '\n')

def replay_bin(cfg='def', form=None, san=''):
    """the harness alone (form None: loads a library object) or linked with one API form under a sanitizer"""
    h = __import__('hashlib').md5((open(os.path.join(build.HERE, 'replay.c')).read() + san).encode()).hexdigest()[:8]
    d = os.path.join(build.treedir(), 'rp_' + h); os.makedirs(d, exist_ok=True); replay_table(d)
    comp, fl = build.CFG[cfg]
    if form is None: return build.cc('gcc -O2 -fno-builtin-malloc -w -g0 -pthread -I%s %s/replay.c -ldl' % (d, build.HERE), os.path.join(d, 'rp_native'))
    c = os.path.join(d, 'w_%s.c' % form)
    api, by = contract.load(); import gen_impl
    names = [n for n in api if form == 'inline' or api[n][form]]
    build.atomic(c, gen_impl.source(form, names, api))
    fs = [build.pool().submit(build.cc, '%s %s %s -w -g -fPIC -I%s/include -I%s/src -c %s' % (comp, fl, san, REPO, REPO, c), os.path.join(d, 'w_%s_%s.o' % (cfg, form)))]
    fs.append(build.pool().submit(build.cc, '%s -O1 %s -DLINKED -w -g -pthread -I%s -c %s/replay.c' % (comp, san, d, build.HERE), os.path.join(d, 'h_%s.o' % cfg)))
    if form == 'call': fs += build.src_objs(cfg, san)
    objs = [f.result() for f in fs]
    return build.cc('%s %s -pthread %s -lm' % (comp, san, ' '.join(objs)), os.path.join(d, 'rp_%s_%s' % (cfg, form)))

def record(cx, cases, nsh=NSH, flags=()):
    """-> shard logs of generated calls, written by the driver"""
    exe, api = build.driver(); logs = []; procs = []
    for sh in range(nsh):
        out = os.path.join(cx.work, 'o_rec_%d' % sh); log = os.path.join(cx.work, 'log_%d' % sh)
        cmd = [exe, '--api', api, '--out', out, '--mode', 'record', '--arg', log, '--cases', str(cases), '--seed', str(cx.seed), '--prop', cx.prop]
        if cx.replay:
            if sh: break
            cmd += ['--shard', '0/1', '--only', cx.replay['fn'], '--case', str(cx.replay['case'])]
        else: cmd += ['--shard', '%d/%d' % (sh, nsh)]
        procs.append((cmd, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))); logs.append(log)
    for cmd, out, p in procs:
        err = p.communicate(timeout=600)[1]
        if p.returncode != 0 or not collect(cx, out): raise Fail('recording calls failed', (err or b'').decode(errors='replace') + ' '.join(cmd))
    return logs

def rec_at(log, k):
    """(function name, case) of the k-th record of a log"""
    import struct as st
    api = list(contract.load()[0].values())
    b = open(log, 'rb').read(); o = 0; i = 0
    while o + 12 <= len(b):
        fn, idx, s = st.unpack_from('<iii', b, o); w = sum(p['n'] for p in api[fn]['params'])
        if i == k: return api[fn]['name'], idx
        o += 12 + 4 * w + ((w + 3) & ~3); i += 1
    return '?', -1

SANENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1', MSAN_OPTIONS='exitcode=66', TSAN_OPTIONS='exitcode=66:halt_on_error=1:report_atomic_races=0', UBSAN_OPTIONS='print_stacktrace=1')
def replay_runs(cx, jobs, par=8, timeout=700):
    """jobs: (label, form, command prefix, binary, mode, log, passes, threads, max, lib).  Failures become violations."""
    import threading
    from concurrent.futures import ThreadPoolExecutor
    lock = threading.Lock(); left = [None]
    def one(j):
        i, (label, form, pre, bin_, mode, log, passes, threads, mx, lib) = j
        stf = os.path.join(cx.work, 'st_%d' % i)
        cmd = list(pre) + [bin_, mode, log, stf, str(passes), str(threads), str(cx.seed), str(mx)] + ([lib] if lib else [])
        if 'TSAN' in label: cmd = ['setarch', '-R'] + cmd
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={**os.environ, **SANENV})
        except subprocess.TimeoutExpired: r = None
        return label, form, log, stf, cmd, r
    with ThreadPoolExecutor(par) as ex: res = list(ex.map(one, enumerate(jobs)))
    for label, form, log, stf, cmd, r in res:
        if r is None: left[0] = ' '.join(cmd); continue
        o = r.stdout.decode(errors='replace'); e = r.stderr.decode(errors='replace')
        for ln in o.splitlines():
            if ln.startswith('COUNT'):
                for kv in ln.split()[1:]:
                    k, v = kv.split('='); k = '%s_%s' % (label, k) if k == 'san_calls' else k
                    if k in ('threads', 'history_orders', 'fp_environments'): cx.extra[k] = max(cx.extra.get(k, 0), int(v))
                    else: cx.extra[k] = cx.extra.get(k, 0) + int(v)
                    if k.endswith('_calls'): cx.evals += int(v)
            elif ln.startswith('NOTE') and ln[5:] not in cx.notes: cx.notes.append(ln[5:])
        if r.returncode == 0 and o.rstrip().endswith('OK'): continue
        if r.returncode == 3: raise Fail('replay harness setup: ' + ' '.join(cmd), e)
        m = re.search(r'FAIL fn=(\S+) case=(-?\d+) why=(.*)', o)
        if m: fn, case, why = m.group(1), int(m.group(2)), m.group(3)
        else:
            import struct as st
            k = st.unpack('<i', open(stf, 'rb').read(4))[0]; fn, case = rec_at(log, k)
            m = re.search(r'(SUMMARY: .*|==\d+== .*|WARNING: .*)', e); why = (m.group(1) if m else 'exit status %d' % r.returncode) + ' '
            fr = re.findall(r'#\d+ .* in (glm\w+)|#\d+ (glm\w+) ', e)
            if fr: why += 'in ' + ' < '.join(x or y for x, y in fr[:4])
        cx.violation(fn=fn, case=case, lib=label, form=form, why=why, **{'in': e[-1200:] if not o.count('FAIL') else '', 'act': ''})
    if left[0] and not cx.viol: raise Fail('replay harness timeout', left[0])

UBSAN = '-fsanitize=undefined,local-bounds -fsanitize-trap=all -fno-sanitize=function'
ASAN = '-fsanitize=address -fno-omit-frame-pointer'
MSAN = '-fsanitize=memory -fno-omit-frame-pointer'
TSAN = '-fsanitize=thread'
def c26(cx):
    L = build.Libs()
    for f in ('inline', 'struct', 'call'): L.want('clang', f, UBSAN, '+ub')
    for c in ['csca', 'cavx2'] + (['clang0'] if cx.thorough else []): L.want(c, 'inline', UBSAN, '+ub')
    todo = [('ASAN', 'clang', 'inline', ASAN), ('ASAN', 'clang', 'struct', ASAN), ('ASAN', 'cavx2', 'inline', ASAN), ('MSAN', 'clang', 'inline', MSAN), ('MSAN', 'csca', 'inline', MSAN), ('MSAN', 'clang', 'struct', MSAN), ('MSAN', 'clang', 'call', MSAN)]
    if cx.thorough: todo += [('ASAN', 'clang', 'call', ASAN), ('ASAN', 'csca', 'inline', ASAN), ('MSAN', 'cavx2', 'inline', MSAN), ('ASAN', 'clang0', 'inline', ASAN), ('MSAN', 'clang0', 'inline', MSAN), ('ASAN', 'O0', 'inline', ASAN)]
    libs = need_libs(cx, L)
    san_programs(cx)
    if cx.replay and cx.replay.get('lib', '').startswith('san-'): return
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: bins = list(ex.map(lambda t: replay_bin(t[1], t[2], t[3]), todo))
    drive(cx, libs, 'run', cases_for(cx, 12e6, 300e6, len(libs)), tag='ub')
    logs = record(cx, 8 * (400 if cx.thorough else 64))
    jobs = [('%s-%s' % (t[0], t[1]), t[2], (), b, 'san', lg, 1, 1, 100000000, None) for t, b in zip(todo, bins) for lg in logs]
    replay_runs(cx, jobs)
    cx.rule = 'a case is a generated argument tuple (special values included where the domain has no further restriction) executed in builds with the undefined-behaviour, address and memory sanitizers, every argument in an exactly sized object of its own, output objects uninitialized; counted when the arguments are inside the domain and the argument values are distinct'
    cx.extra['undefined_behaviour_sanitizer_builds'] = sorted('%s/%s' % k for k in libs)
    cx.extra['address_and_memory_sanitizer_builds'] = ['%s %s/%s' % t[:3] for t in todo]

def c27(cx):
    L = build.Libs(); fm = [('def', 'inline'), ('def', 'call'), ('def', 'struct'), ('avx', 'inline'), ('sca', 'inline'), ('O0', 'inline')] + ([('cavx2', 'inline'), ('sse4', 'inline'), ('neon32', 'inline'), ('avx', 'call')] if cx.thorough else [])
    for c, f in fm: L.want(c, f)
    libs = need_libs(cx, L)
    from concurrent.futures import ThreadPoolExecutor
    ts = [('clang', 'inline'), ('clang', 'call')] + ([('clang', 'struct'), ('cavx2', 'inline'), ('csca', 'inline')] if cx.thorough else [])
    with ThreadPoolExecutor(3) as ex: tb = list(ex.map(lambda t: replay_bin(t[0], t[1], TSAN), ts))
    if not cx.replay or cx.replay.get('form', '').startswith('print'): print_threads(cx)
    if cx.replay and cx.replay.get('form', '').startswith('print'): return
    nat = replay_bin()
    nsh = 8
    logs = record(cx, nsh * (160 if cx.thorough else 24), nsh)
    big = 100000000
    jobs = [('%s' % c, f, (), nat, 'hist', lg, 12 if cx.thorough else 5, 1, big, p) for (c, f), p in libs.items() for lg in logs]
    replay_runs(cx, jobs)
    # concurrency: one process at a time per group so that its threads really run together
    tj = [('TSAN-' + c, f, (), b, 'threads', lg, 8 if cx.thorough else 3, 8, big, None) for (c, f), b in zip(ts, tb) for lg in logs[: 8 if cx.thorough else 3]]
    tj += [(c, f, (), nat, 'threads', lg, 60 if cx.thorough else 20, 16, big, p) for (c, f), p in libs.items() if cx.thorough or c != 'sca' for lg in logs[: 8 if cx.thorough else 2]]
    replay_runs(cx, tj, par=2)
    cx.rule = 'a case is a recorded call whose result in isolation is known; it counts when it was re-executed in other histories (permuted orders, repeated calls, changed FP environments, under strict seccomp) and concurrently with other calls, and its argument values are distinct'
    cx.extra['builds'] = sorted('%s/%s' % k for k in libs); cx.extra['race_detector_builds'] = ['%s/%s' % t for t in ts]

# ---------------------------------------------------------------- self-judging harness programs
def harness(cx, jobs, timeout=600, crash_only=False):
    """jobs: (label, form, command).  The program prints COUNT k=v.., SAMPLE text, FAIL fn= case= why= and, when nothing failed, OK."""
    from concurrent.futures import ThreadPoolExecutor
    def one(j):
        return j, subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={**os.environ, **SANENV, **(j[3] if len(j) > 3 else {})})
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    for j, r in res:
        label, form = j[:2]
        o = r.stdout.decode(errors='replace'); e = r.stderr.decode(errors='replace'); n = 0
        for ln in o.splitlines():
            if ln.startswith('COUNT'):
                for kv in ln.split()[1:]:
                    k, v = kv.split('=')
                    if k == 'distinct': cx.distinct += int(v)
                    else: cx.extra[k] = cx.extra.get(k, 0) + int(v)
                    if k.endswith('_calls'): cx.evals += int(v)
            elif ln.startswith('SAMPLE') and len(cx.samples) < 12: cx.samples.append(label + ' ' + ln[7:])
            elif ln.startswith('FAIL'):
                m = re.match(r'FAIL fn=(\S*) case=(-?\d+) why=(.*)', ln)
                if m and crash_only: n += 1
                elif m: n += 1; cx.violation(fn=m.group(1), case=int(m.group(2)), lib=label, form=form, why=m.group(3), **{'in': '', 'act': ''})
        if n or (r.returncode == 0 and re.search(r'^OK$', o, re.M)): continue
        if r.returncode == 3: raise Fail('harness setup: ' + ' '.join(j[2]), e)
        m = re.search(r'(SUMMARY: .*|.*runtime error: .*)', e)
        cx.violation(fn='?', case=-1, lib=label, form=form, why=(m.group(1) if m else 'the program ended with status %d before judging all calls' % r.returncode) + ' ' + e[-500:], **{'in': '', 'act': ''})

def prog(cx, src, tag, comp, flags, objs=(), viol=None):
    """compile a harness program against the tree; viol: text when failing to compile is itself the violation"""
    import hashlib
    h = hashlib.md5((open(os.path.join(build.HERE, src)).read() + comp + flags + ''.join(objs)).encode()).hexdigest()[:10]
    out = os.path.join(build.treedir(), '%s_%s_%s' % (os.path.splitext(src)[0], re.sub(r'\W', '', tag), h))
    return build.cc('%s -w %s -I%s/include -I%s/src %s %s %s %s -lm' % (comp, flags, REPO, REPO, '-x c++' if '++' in comp else '-x c', os.path.join(build.HERE, src), '-x none', ' '.join(objs)), out)

def progs(cx, specs):
    """specs: (label, program, compiler, flags, objects); compiled in parallel, failures returned in place"""
    from concurrent.futures import ThreadPoolExecutor
    def mk(c):
        try: return prog(cx, c[1], c[0], c[2], c[3], c[4] if len(c) > 4 else ())
        except Fail as e: return e
    with ThreadPoolExecutor(8) as ex: return list(ex.map(mk, specs))

SANF = ' -g -fsanitize=address,undefined -fno-sanitize-recover=all'
def san_programs(cx, which=('print', 'struct', 'regs')):
    """the print, struct-type and register-helper programs under the sanitizers; only what the sanitizers report counts here"""
    if cx.replay and cx.replay.get('form') not in which: return
    n = 20 if cx.thorough else 1; objs = [f.result() for f in build.src_objs('def')]; sp = []
    if 'print' in which: sp += [('san-print%d' % f, 'print.c', 'gcc', '-O1 -DFORM=%d' % f + SANF, objs if f == 1 else (), 'print', 6000 * n) for f in (0, 1, 2)]
    if 'struct' in which: sp += [('san-struct', 'layout.c', 'clang', '-O1 -mavx' + SANF, (), 'struct', 1500 * n), ('san-struct-unal', 'layout.c', 'gcc', '-O1 -DCGLM_ALL_UNALIGNED' + SANF, (), 'struct', 1500 * n)]
    if 'regs' in which: sp += [('san-regs', 'regs.c', 'clang', '-O1 -mavx2 -mfma' + SANF, (), 'regs', 60000 * n), ('san-regs-sse', 'regs.c', 'gcc', '-O1 -msse4.1' + SANF, (), 'regs', 60000 * n)]
    jobs = []
    for c, b in zip(sp, progs(cx, [x[:5] for x in sp])):
        if isinstance(b, Fail): cx.notes.append('the sanitizer build %s did not compile and was skipped' % c[0]); continue
        if cx.replay and cx.replay.get('lib') != c[0]: continue
        jobs.append((c[0], c[5], [b, str(c[6]), str(cx.seed)]))
    if jobs: harness(cx, jobs, crash_only=True)
    cx.extra['sanitized_programs'] = [j[0] for j in jobs]

def print_forms(cx):
    """the three forms of the print functions: a function that prints right in one form prints right in the others"""
    objs = [f.result() for f in build.src_objs('def')]; F = ('inline', 'call', 'struct'); res = {}
    for f, b in enumerate(progs(cx, [('forms%d' % f, 'print.c', 'gcc', '-O1 -DFORM=%d' % f, objs if f == 1 else ()) for f in (0, 1, 2)])):
        if isinstance(b, Fail): cx.violation(fn='?', lib='print', form='build', case=-1, why='the %s print functions do not compile: ' % F[f] + (b.log or '')[:600], **{'in': '', 'act': ''}); return
        old, cx.viol = cx.viol, []
        harness(cx, [('print', 'print' + F[f], [b, '60000' if cx.thorough else '6000', str(cx.seed)] + ([str(cx.replay['case'])] if cx.replay else []))])
        res[F[f]] = cx.viol; cx.viol = old
    wrong = {f: {v['fn'] for v in vs} for f, vs in res.items()}
    for f, vs in res.items():
        for v in vs:
            if not all(v['fn'] in w for g, w in wrong.items()): v['why'] = 'differs from the other forms: ' + v['why']; cx.viol.append(v)

def print_threads(cx):
    objs = [f.result() for f in build.src_objs('def')]; to = [f.result() for f in build.src_objs('clang', TSAN)]; sp = []
    for f in (0, 1, 2): sp += [('print-def', 'printmt.c', 'gcc', '-O2 -pthread -DFORM=%d' % f, objs if f == 1 else ()), ('print-TSAN', 'printmt.c', 'clang', '-O1 -g -pthread %s -DFORM=%d' % (TSAN, f), to if f == 1 else ())]
    jobs = []
    for i, (c, b) in enumerate(zip(sp, progs(cx, sp))):
        form = 'print' + ('inline', 'call', 'struct')[i // 2]
        if isinstance(b, Fail): cx.notes.append('%s/%s did not compile and was skipped' % (c[0], form)); continue
        if cx.replay and (cx.replay.get('lib'), cx.replay.get('form')) != (c[0], form): continue
        jobs.append((c[0], form, (['setarch', '-R'] if 'TSAN' in c[0] else []) + [b, str((300 if 'TSAN' in c[0] else 1200) * (10 if cx.thorough else 1)), str(cx.seed)]))
    if jobs: harness(cx, jobs)

def c28(cx):
    cf = [('colour', 0, 'gcc', '-O1'), ('colour', 2, 'gcc', '-O1'), ('colour', 1, 'gcc', '-O1'), ('plain', 0, 'gcc', '-O1 -DGLM_TESTS_NO_COLORFUL_OUTPUT -mavx'), ('cxx', 0, 'g++', '-O1'), ('cxx', 2, 'g++', '-O1 -DGLM_TESTS_NO_COLORFUL_OUTPUT'),
          ('forced', 0, 'gcc', '-O1 -DNDEBUG -DCGLM_DEFINE_PRINTS'), ('forced', 2, 'gcc', '-O1 -DNDEBUG -DCGLM_DEFINE_PRINTS -DGLM_TESTS_NO_COLORFUL_OUTPUT'), ('disabled', 0, 'gcc', '-O1 -DNDEBUG -DNOOP'), ('disabled', 2, 'gcc', '-O1 -DNDEBUG -DNOOP'),
          ('linked-when-disabled', 1, 'gcc', '-O1 -DNDEBUG'), ('asan', 0, 'gcc', '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all'), ('scalar', 0, 'gcc', '-O1 -U__SSE__ -U__SSE2__')]
    for p_, m_ in ((3, '1e3f'), (0, '1e5f'), (9, '1e7f'), (1, '10.0f')): cf.append(('prec%d' % p_, 0, 'gcc', '-O1 -DPREC=%d -DCGLM_PRINT_PRECISION=%d -DMAXS=%s -DCGLM_PRINT_MAX_TO_SHORT=%s' % (p_, p_, m_, m_)))
    cf.append(('owncolour', 0, 'gcc', '-O1 \'-DCGLM_PRINT_COLOR="<<c>>"\' \'-DCGLM_PRINT_COLOR_RESET="<<r>>"\' \'-DCOL="<<c>>"\' \'-DCOLR="<<r>>"\''))
    if cx.thorough: cf += [('clang', 0, 'clang', '-O2'), ('clang', 2, 'clang', '-O2'), ('O3', 0, 'gcc', '-O3 -mavx2 -mfma'), ('c99', 0, 'gcc', '-std=gnu99 -O1'), ('avxstruct', 2, 'gcc', '-O2 -mavx')]
    from concurrent.futures import ThreadPoolExecutor
    objs = [f.result() for f in build.src_objs('def')]; objn = [f.result() for f in build.src_objs('def', '-DNDEBUG')]
    def mk(c):
        try: return prog(cx, 'print.c', c[0], c[2], c[3] + ' -DFORM=%d' % c[1], (objn if 'NDEBUG' in c[3] else objs) if c[1] == 1 else ())
        except Fail as e: return e
    with ThreadPoolExecutor(8) as ex: bins = list(ex.map(mk, cf))
    for c, b in list(zip(cf, bins)):
        if not isinstance(b, Fail): continue
        if c[0] == 'cxx': cx.notes.append('the C++ print build %s did not compile and was skipped' % c[3])
        elif c[0] == 'colour': raise b
        else: cx.violation(fn='?', lib=c[0], form='build', case=-1, why='the print functions do not compile in this build: ' + (b.log or '')[:600], **{'in': '', 'act': ''})
    cf, bins = zip(*[(c, b) for c, b in zip(cf, bins) if not isinstance(b, Fail)])
    n = 400000 if cx.thorough else 30000; jobs = []
    F = ['inline', 'call', 'struct']
    for (lab, form, comp, fl), b in zip(cf, bins):
        jobs.append((lab, F[form], [b, str(n), str(cx.seed)] + ([str(cx.replay['case'])] if cx.replay else [])))
    harness(cx, jobs)
    cx.rule = 'a case is one print call with generated element values; it counts when the bytes written were parsed and compared element by element, and the bytes differ from every other call of that build'
    cx.extra['print_configurations'] = ['%s/%s' % (c[0], F[c[1]]) for c in cf]

CONVSFX = ('_lh_no', '_lh_zo', '_rh_no', '_rh_zo', '_no', '_zo', '_lh', '_rh')
def generic_names():
    api = contract.load()[0]
    return sorted(n for n in api if n != 'glm_clamp' and not n.endswith(CONVSFX) and any(n + x in api for x in CONVSFX)) + ['glm_unproject']
CLIPS = {'zo': [(-1, -1, 0), (-1, 1, 0), (1, 1, 0), (1, -1, 0), (-1, -1, 1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)],
         'own': [(-.5, -2, .25), (-.75, 3, .5), (1.5, 2.5, .125), (2, -1.25, .375), (-4, -3, 2), (-3.5, 4, 1.75), (5, 6, 3), (7, -8, 2.5)]}
def clipdefs(v):
    nm = ['LBN', 'LTN', 'RTN', 'RBN', 'LBF', 'LTF', 'RTF', 'RBF']
    return '-DGLM_CUSTOM_CLIPSPACE ' + ' '.join("'-D%s_CSCOORD_%s={%sf, %sf, %sf, 1.0f}'" % (p, n, *['%.4f' % x for x in v[i]]) for i, n in enumerate(nm) for p in ('GLM', 'GLMS'))
def clips(cx, quick):
    """frustum corners in builds that define clip-space coordinates of their own"""
    for k, v in CLIPS.items():
        L = build.Libs(['glm_frustum_corners']); df = clipdefs(v)
        L.want('def', 'inline', df, '+clip' + k); L.want('avx', 'inline', df, '+clip' + k); L.want('def', 'struct', df, '+clip' + k); L.want('def', 'call', df, '+clip' + k)
        libs = need_libs(cx, L)
        if cx.replay and cx.replay.get('lib') not in {c for c, f in libs}: continue
        drive(cx, libs, 'ref', 8 * (20000 if cx.thorough else quick), prop='*', only=['glm_frustum_corners'] if not cx.replay else None, args=['--clip', ' '.join('%r' % x for r in v for x in r)], tag='clip' + k)
def c29(cx):
    gen = generic_names(); jobs = []
    for conv, cfgs in (('rhno', ['def']), ('lhno', ['lh', 'clh']), ('rhzo', ['zo', 'czo']), ('lhzo', ['lhzo', 'clhzo'])):
        L = build.Libs()
        for c in cfgs if cx.thorough else cfgs[:1]:
            for f in ('inline', 'struct', 'call'): L.want(c, f)
        if not cx.thorough and len(cfgs) > 1: L.want(cfgs[1], 'inline')
        jobs.append((conv, need_libs(cx, L)))
    for conv, libs in jobs:
        cx.lastconv = conv
        if cx.replay and cx.replay.get('lib') not in {c for c, f in libs}: continue
        pre = len(cx.viol)
        drive(cx, libs, 'ref', 8 * (12000 if cx.thorough else 700), prop='*', only=gen if not cx.replay else None, args=['--conv', conv], tag=conv)
        drive(cx, libs, 'ref', 8 * (1200 if cx.thorough else 40), prop='*', args=['--conv', conv], tag=conv + 'all')
    clips(cx, 1500)
    cx.rule = 'a case is a generated argument tuple executed in a build with one combination of the handedness and depth options (or own clip-space coordinates); it counts when the reference model of the explicitly named convention reached a verdict and the argument values are distinct'
    cx.extra['option_builds'] = sorted('%s %s/%s' % (conv, *k) for conv, libs in jobs for k in libs); cx.extra['generic_functions'] = len(gen)

def c31(cx, few=None):
    X = build.CFG; names = few or ['def', 'O0', 'O3', 'clang', 'sse1', 'sse3', 'sse4', 'noint', 'avx', 'avx2', 'cavx2', 'unal', 'avxu', 'neon32', 'neon64', 'wasmsh', 'c11']
    cf = [(n, X[n][0], X[n][1] + (' -DWASMSH' if n == 'wasmsh' else '')) for n in names]
    if not few: cf += [('avx512', 'gcc', '-O2 -mavx512f -mavx512vl -mfma'), ('fma', 'gcc', '-O2 -mavx -mfma'), ('sse3clang', 'clang', '-O1 -msse3'), ('sse4noint', 'gcc', '-O2 -msse4.2 -DCGLM_NO_INT_DOMAIN -DCGLM_SSE4_DOT'), ('san', 'clang', '-O1 -g -mavx2 -mfma -fsanitize=address,undefined -fno-sanitize-recover=all'), ('fast', 'gcc', '-O2 -U__SSE2__ -DCGLM_FAST_MATH')]
    from concurrent.futures import ThreadPoolExecutor
    def mk(c):
        try: return prog(cx, 'regs.c', c[0], c[1], c[2])
        except Fail as e: return e
    with ThreadPoolExecutor(8) as ex: bins = list(ex.map(mk, cf))
    n = (20000000 if cx.thorough else 600000) // (5 if few else 1); jobs = []; only = [str(cx.replay['case'])] if cx.replay else []
    for c, b in zip(cf, bins):
        if isinstance(b, Fail):
            if c[0] in build.STANDIN: cx.notes.append('configuration %s could not be built with our intrinsic stand-in and was skipped' % c[0]); continue
            cx.violation(fn='?', lib=c[0], form='build', case=-1, why='the register helpers do not compile in this build: ' + (b.log or '')[:600]); continue
        jobs.append((c[0], 'regs', [b, str(n), str(cx.seed)] + only))
    if not few: regs_wasm(cx, jobs, n, only)
    if cx.replay: jobs = [j for j in jobs if j[0] == cx.replay.get('lib')]
    if jobs: harness(cx, jobs)
    if few: cx.extra['register_helper_builds'] = [j[0] for j in jobs]; return
    cx.distinct += cx.extra.get('lane_judgements', 0) // 64
    cx.rule = 'a case is one execution of all register helpers of a build on generated lanes (integers, wide exponents, any bit pattern, special values, cancelling products); distinct cases are counted conservatively as lane judgements divided by 64 (a case makes at least that many)'
    cx.extra['register_builds'] = [j[0] for j in jobs]

def regs_wasm(cx, jobs, n, only):
    try:
        o = build.cc('clang -O2 -w %s -I%s/include -c %s/regs.c' % (build.WASM, REPO, build.HERE), os.path.join(build.treedir(), 'regs_wasm.o'))
        o2 = build.cc('clang -O2 -w %s -DNOFNS -c %s/wasm/run.c' % (build.WASM, build.HERE), os.path.join(build.treedir(), 'regs_wasm_run.o'))
        m = build.wasm_module('wasm', [o, o2], os.path.join(build.treedir(), 'regs.wasm'))
        jobs.append(('wasm', 'regs', ['node', os.path.join(build.HERE, 'wasm', 'host.js'), m, str(n // 4), str(cx.seed)] + only))
    except Fail as e: cx.notes.append('the WebAssembly build could not be made and was skipped: ' + (e.log or '')[:200])

NSOPT = {'omit': ('-DCGLM_OMIT_NS_FROM_STRUCT_API', lambda n: n[5:]), 'own': ('-DCGLM_STRUCT_API_NS=foo', lambda n: 'foo' + n[4:]),
         'suffix': ('-DCGLM_STRUCT_API_NAME_SUFFIX=s', None), 'ownsuffix': ('-DCGLM_STRUCT_API_NS=bar -DCGLM_STRUCT_API_NAME_SUFFIX=Q', None)}
def nsname(opt, n):
    if opt in ('omit', 'own'): return NSOPT[opt][1](n)
    ns, sf = ('glms', 's') if opt == 'suffix' else ('bar', 'Q')
    m = re.match(r'glms_([a-z0-9]+)_(.*)', n); return '%s_%s%s_%s' % (ns, m.group(1), sf, m.group(2))
def c30(cx):
    X = build.CFG; jobs = []
    names = ['def', 'O0', 'O3', 'clang', 'sca', 'avx', 'cavx2', 'unal', 'avxu', 'lh', 'zo', 'lhzo', 'noint', 'neon64', 'wasmsh']
    cf = [(n, X[n][0], X[n][1]) for n in names]
    cf += [('noanon', 'gcc', '-O1 -DCGLM_NO_ANONYMOUS_STRUCT'), ('noanon0', 'clang', '-O1 -DCGLM_USE_ANONYMOUS_STRUCT=0'), ('noanonavx', 'gcc', '-O1 -mavx -DCGLM_NO_ANONYMOUS_STRUCT'), ('noanonunal', 'gcc', '-O1 -DCGLM_ALL_UNALIGNED -DCGLM_USE_ANONYMOUS_STRUCT=0'),
           ('c99', 'gcc', '-std=c99 -O1'), ('c99anon', 'gcc', '-std=c99 -O1 -DCGLM_USE_ANONYMOUS_STRUCT=1'), ('gnu99', 'gcc', '-std=gnu99 -O1'), ('c11', 'clang', '-std=c11 -O1'), ('c23', 'gcc', '-std=c2x -O1'), ('gxx', 'g++', '-O1'), ('gxx98', 'g++', '-std=gnu++98 -O1'), ('clangxx', 'clang++', '-O1 -mavx'), ('gxxnoanon', 'g++', '-std=c++17 -O1 -DCGLM_NO_ANONYMOUS_STRUCT'),
           ('eps', 'gcc', '-O1 -DCGLM_USE_DEFAULT_EPSILON -DEPSDEF=FLT_EPSILON'), ('san', 'clang', '-O1 -g -mavx -fsanitize=address,undefined -fno-sanitize-recover=all'), ('sanunal', 'gcc', '-O1 -g -DCGLM_ALL_UNALIGNED -fsanitize=address,undefined -fno-sanitize-recover=all')]
    from concurrent.futures import ThreadPoolExecutor
    def mk(c):
        try: return prog(cx, 'layout.c', c[0], c[1], c[2])
        except Fail as e: return e
    with ThreadPoolExecutor(8) as ex: bins = list(ex.map(mk, cf))
    n = 200000 if cx.thorough else 1500; lay = {}
    for c, b in zip(cf, bins):
        if isinstance(b, Fail):
            if c[0] in build.STANDIN: cx.notes.append('configuration %s could not be built with our intrinsic stand-in and was skipped' % c[0]); continue
            cx.violation(fn='?', lib=c[0], form='build', case=-1, why='the struct types, members or constants do not compile in this build: ' + (b.log or '')[:600]); continue
        jobs.append((c[0], 'struct', [b, str(n), str(cx.seed)]))
        o = subprocess.run([b, '1', '1'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env={**os.environ, **SANENV}).stdout
        lay[c[0]] = [l for l in o.splitlines() if l.startswith('LAYOUT')]
    # a program built with anonymous members and a library built without them are still compatible
    for a, bs in (('def', ('noanon', 'noanon0', 'c99', 'c99anon', 'gnu99', 'c11', 'c23', 'gxx', 'gxx98', 'gxxnoanon', 'O0', 'clang', 'lhzo', 'eps')), ('avx', ('noanonavx', 'clangxx', 'cavx2', 'san')), ('unal', ('noanonunal', 'sanunal'))):
        for b in bs:
            if a in lay and b in lay:
                for x, y in zip(lay[a], lay[b]):
                    cx.extra['layouts_compared'] = cx.extra.get('layouts_compared', 0) + 1
                    if x != y: cx.violation(fn=x.split()[1], lib=b, form='struct', case=-1, why='incompatible layout (size, alignment): %s here, %s in build %s' % (y, x, a))
                if len(lay[a]) != len(lay[b]): cx.violation(fn='?', lib=b, form='struct', case=-1, why='different struct types than in build ' + a)
    if cx.replay: jobs = [j for j in jobs if j[0] == cx.replay.get('lib')]
    if jobs: harness(cx, jobs)
    # namespace options: the renamed function is the same function
    ns = json.load(open(os.path.join(build.HERE, 'ns.json'))); L = build.Libs(); L.want('def', 'inline'); L.want('def', 'struct'); d = build.treedir()
    for o, (fl, _) in NSOPT.items():
        h = os.path.join(d, 'ns_%s.h' % o); build.atomic(h, ''.join('#define %s %s\n' % (n_, nsname(o, n_)) for n_ in ns))
        L.want('def', 'struct', '%s \'-DVT_NS="%s"\'' % (fl, h), '+ns' + o)
        if cx.thorough or o == 'omit': L.want('cavx2', 'struct', '%s \'-DVT_NS="%s"\'' % (fl, h), '+ns' + o)
    libs = need_libs(cx, L)
    if not cx.replay or '+ns' in cx.replay.get('lib', ''):
        drive(cx, ordered(libs, 'def'), 'same', 8 * (2500 if cx.thorough else 60), tag='ns')
    cx.rule = 'a case is one generated value written through a struct type and read through its array view (or the reverse), one constant, one pack/unpack call, or one generated call of a renamed struct function; it counts when its bits were compared'
    cx.extra['struct_builds'] = [j[0] for j in jobs]; cx.extra['namespace_builds'] = sorted('%s/%s' % k for k in libs if '+ns' in k[0]); cx.extra['renamed_functions'] = len(ns)

PLANS = {'C%02d' % i: functional for i in range(1, 22)}
PLANS.update(C04=c04, C22=c22, C23=c23, C24=c24, C25=c25, C26=c26, C27=c27, C28=c28, C29=c29, C30=c30, C31=c31)

# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', ln.strip())
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def vkey(v): return '%s %s/%s %s' % (v.get('fn', ''), v.get('lib', ''), v.get('form', ''), v.get('why', ''))

def finish(cx):
    kf = known(cx.prop); new = []; hit = {}
    for v in cx.viol:
        k = vkey(v)
        for i, (rx, text) in enumerate(kf):
            if rx.search(k): hit[i] = text; break
        else: new.append(v)
    for text in hit.values(): print('KNOWN-FINDING: property=%s %s' % (cx.prop, text))
    t = table(cx)
    if cx.hashfiles:
        exe, api = build.driver()
        cx.distinct += int(run([exe, '--merge'] + cx.hashfiles).stdout.strip() or 0)
    evals = cx.evals + sum(a['calls'] for a in t.values())
    cov = dict(evaluations=evals, distinct_nontrivial=cx.distinct, rule=cx.rule, samples=[x for x in cx.samples if x][:12] + [n + ' ' + a['sample'] for n, a in list(t.items())[:: max(1, len(t) // 6)] if a['sample']][:8])
    if t:
        cov['functions_observed'] = len(t)
        cov['cases'] = sum(a['cases'] for a in t.values()); cov['conclusive_cases'] = sum(a['conclusive'] for a in t.values())
        cov['inconclusive_on_decision_boundary'] = sum(a['ambiguous'] for a in t.values()); cov['outside_domain_discarded'] = sum(a['invalid'] for a in t.values())
        cov['output_elements_compared'] = sum(a['elements'] for a in t.values()); cov['output_elements_not_comparable'] = sum(a['skipped'] for a in t.values())
        cov['worst_error_over_bound'] = max(a['maxratio'] for a in t.values())
        cov['decision_paths'] = sum(a['paths'] for a in t.values())
        cov['fewest_conclusive'] = min(((a['conclusive'], n) for n, a in t.items()), default=None)
    cov.update(cx.extra)
    ev = dict(property=cx.prop, tier=cx.tier, seed=cx.seed, level='exploration', coverage=cov, assumptions=cx.notes, wall_s=round(time.time() - cx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not cx.replay: build.atomic(os.path.join(VERIF, 'evidence', cx.prop + '.json'), json.dumps(ev, indent=1))
    subprocess.run(['rm', '-rf', os.path.abspath(cx.work)])
    if not new:
        print('%s: held on %d executions (%d distinct judged cases) in %.1f s' % (cx.prop, evals, cx.distinct, time.time() - cx.t0)); return 0
    rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True); seen = {}
    for v in new:
        k = (v.get('fn'), v.get('lib'), v.get('form'))
        if k in seen: continue
        seen[k] = 1
        if len(seen) > int(os.environ.get("VT_SHOW", "10")): break
        path = os.path.join(rd, '%s_%d.json' % (cx.prop, len(seen)))
        v['prop'] = cx.prop; v['seed'] = v.get('seed', cx.seed); v['tier'] = cx.tier
        open(path, 'w').write(json.dumps(v, indent=1))
        print('  %s [%s/%s] case %s: %s\n     inputs %s' % (v.get('fn'), v.get('lib'), v.get('form'), v.get('case'), v.get('why'), str(v.get('in', ''))[:400]))
        print('VIOLATION property=%s replay=%s' % (cx.prop, path))
    return 1

def main(argv):
    if argv and argv[0] == '--setup':
        build.driver(); print('driver built'); return 0
    prop = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1')); replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier': tier = argv[i + 1]; i += 2
        elif argv[i] == '--replay': replay = json.load(open(argv[i + 1])); i += 2
        else: print('bad argument', argv[i]); return 4
    if replay: seed = replay['seed']; tier = replay.get('tier', tier)
    cx = Ctx(prop, tier, seed); cx.replay = replay if replay and replay.get('case', -1) >= 0 else None
    try:
        PLANS[prop](cx)
        return finish(cx)
    except Fail as e:
        if cx.viol:
            cx.notes.append('part of the check could not be completed: %s' % e.what); r = finish(cx)
            if r == 1: return 1
        print('ERROR (no verdict) %s: %s\n%s' % (prop, e.what, (e.log or '')[-3000:])); return 5
    except subprocess.TimeoutExpired as e:
        print('ERROR (no verdict) %s: timeout %s' % (prop, e)); return 5
