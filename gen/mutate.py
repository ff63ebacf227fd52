#!/usr/bin/env python3
"""Author tool: mutation campaign. Generates many small changes of the library (operator, index, constant, argument, statement
mutations and mutations guarded by an input-dependent trigger), runs the functional monitor of the touched function on a scratch copy
with few builds, and lists the survivors.   mutate.py SEED COUNT [PATH-REGEX]"""
import sys, os, re, random, json, subprocess, shutil, collections
V = '/verif'; sys.path.insert(0, V + '/lib'); R = '/tmp/mut'
def fnames(text):
    """[(start line, end line, name, has restrict...)] of function bodies at column 0"""
    L = text.split('\n'); out = []; i = 0
    while i < len(L):
        m = re.match(r'^(?:GLMS_API\s+|CGLM_EXPORT\s+|static inline\s+\w+\s+|void\s+|float\s+|bool\s+)?\*?(glm\w*)(?:\((\w+)\))?\s*\(', L[i])
        if m and not L[i].rstrip().endswith(';'):
            j = i
            while j < len(L) and '{' not in L[j] and ';' not in L[j]: j += 1
            if j < len(L) and '{' in L[j]:
                k = j
                while k < len(L) and not L[k].startswith('}'): k += 1
                n = m.group(1)
                if m.group(2): n = n + m.group(2)
                out.append((j + 1, k, n)); i = k
        i += 1
    return L, out
OPS = [(' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' == ', ' != '), (' && ', ' || '), (' || ', ' && '), ('sinf', 'cosf'), ('cosf', 'sinf'), ('glm_min', 'glm_max'), ('glm_max', 'glm_min'), ('_add', '_sub'), ('_sub(', '_add('), (' += ', ' -= '), (' -= ', ' += '), ('-', ''), ('fabsf', ''), ('!', ''), (' = -', ' = '), (' = ', ' = -')]
def mutants(line, rnd):
    c = []
    for a, b in OPS:
        for m in re.finditer(re.escape(a), line): c.append(line[:m.start()] + b + line[m.end():])
    for m in re.finditer(r'\[(\d)\]', line):
        for d in (0, 1, 2, 3):
            if str(d) != m.group(1): c.append(line[:m.start()] + '[%d]' % d + line[m.end():])
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*f)', line): c += [line[:m.start()] + x + line[m.end():] for x in ('0.0f', '(%s*1.001f)' % m.group(1), '(%s+1.0f)' % m.group(1), '-' + m.group(1))]
    for m in re.finditer(r'(?<![\w.\[])(\d+)(?![\w.\]])', line): c.append(line[:m.start()] + str((int(m.group(1)) + 1) % 4) + line[m.end():])
    ids = [m for m in re.finditer(r'\b[A-Za-z_]\w*(\[\d\])*(\[\d\])?', line) if not re.match(r'(glm|float|int|vec|mat|versor|if|return|else|const|CGLM|__m|sinf|cosf|sqrtf|_mm|for|while)', m.group(0))]
    for _ in range(min(6, len(ids))):
        a, b = rnd.choice(ids), rnd.choice(ids)
        if a.group(0) != b.group(0): c.append(line[:a.start()] + b.group(0) + line[a.end():])
    return c
def stmts(body):
    return [i for i, l in enumerate(body) if l.rstrip().endswith(';') and l.count('(') == l.count(')') and l.strip() and not re.match(r'\s*(#|/|\*|return|CGLM_ALIGN|float|int|vec|mat|versor|__m|for|if|else|while|const|static|uint|size_t|bool|glmm_128|float32x4|v128|break|goto|\}|int32|union|\w+s? \w+;)', l)]
TRIG = ['%s[0] < -100.0f', '%s[1] == 0.0f', '%s[0] == %s[1]', '%s[1] > 1.0f && %s[0] > 1.0f', 'fabsf(%s[0]) < 1e-3f', '%s[0] < 0.0f && %s[1] < 0.0f', '%s[1] > 1e5f', '(%s[0] + %s[1]) == 0.0f', '%s[0] == 1.0f', 'fabsf(%s[0] - %s[1]) < 1e-4f']
STR = ['%s < -100.0f', '%s == 0.0f', '%s < 0.0f', '%s > 1.0f', '%s > 7.0f', 'fabsf(%s) < 1e-4f', '%s == 1.0f', '%s > 1e4f']
def configs(p):
    if '/neon/' in p or 'arm.h' in p: return [('neon32', 'inline'), ('neon64', 'inline')]
    if 'wasm' in p: return [('wasmsh', 'inline')]
    if '/avx/' in p: return [('avx', 'inline'), ('cavx2', 'inline')]
    if '/sse' in p or 'x86.h' in p: return [('def', 'inline'), ('sse4', 'inline'), ('cavx2', 'inline'), ('sse3', 'inline')]
    if '/struct/' in p: return [('def', 'struct')]
    if p.startswith('src/') or '/call/' in p: return [('def', 'call')]
    return [('def', 'inline'), ('sca', 'inline')]
BYFILE = [('quat', ['C06', 'C07', 'C08']), ('mat4', ['C04', 'C05']), ('mat3', ['C04', 'C05']), ('mat2', ['C04', 'C05']), ('affine', ['C11', 'C13', 'C05']), ('vec', ['C01', 'C03']), ('noise', ['C21']), ('x86', ['C01', 'C04', 'C06']), ('arm', ['C01', 'C04', 'C06']), ('wasm', ['C01', 'C04', 'C06']), ('euler', ['C10']), ('frustum', ['C18']), ('box', ['C19', 'C18']), ('cam', ['C14', 'C15', 'C16']), ('project', ['C17']), ('util', ['C03', 'C01']), ('common', ['C01', 'C18'])]
def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2]); rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.'); rnd = random.Random(seed)
    import build
    exe, api = build.driver(); of = collections.defaultdict(list)
    for l in subprocess.run([exe, '--api', api, '--list'], capture_output=True, text=True).stdout.split('\n'):
        if l: of[l.split()[1]].append(l.split()[0])
    A = {f['name']: f for f in json.load(open(V + '/lib/api.json'))}
    files = [f for f in subprocess.run('git -C /repo ls-files include src', shell=True, capture_output=True, text=True).stdout.split() if f.endswith(('.h', '.c')) and rx.search(f) and not f.endswith(('io.h', 'applesimd.h', 'swift/empty.c'))]
    base = R + '/base'; sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
    if not os.path.exists(base): sh('mkdir -p %s && git -C /repo archive HEAD include src | tar -x -C %s' % (base, base))
    pool = []
    for f in files:
        L, fs = fnames(open(base + '/' + f).read())
        for a, b, n in fs:
            if b > a: pool.append((f, a, b, n))
    jobs = []; tries = 0
    while len(jobs) < count and tries < count * 30:
        tries += 1
        f, a, b, n = rnd.choice(pool); L = open(base + '/' + f).read().split('\n'); body = L[a:b]
        inl = 'glm_' + n.split('_', 1)[1] if '_' in n else n
        rr = rnd.random(); ps = A.get(inl, A.get(n, {})).get('params', []) if '/struct/' not in f and '/simd/' not in f else []
        outs = [p for p in ps if p['role'] != 'in' and p['type'].startswith(('vec', 'mat', 'versor', 'float'))]
        if rr < .35 and outs and re.search(r'\bvoid\b', '\n'.join(L[max(0, a - 6):a])) and L[b].startswith('}'):      # an output perturbed under a condition on the inputs
            ins = [p for p in ps if p['role'] != 'out']; o = rnd.choice(outs); k = rnd.randrange(min(9, o.get('n') or 2)) if not o['type'].startswith('float') else 0
            def ex(p, k=None): return p['name'] if p['type'] == 'float' else '((float*)%s)[%d]' % (p['name'], rnd.randrange(2) if k is None else k)
            fl = [p for p in ins if p['type'].startswith(('float', 'vec', 'mat', 'versor')) and p['role'] == 'in']
            if not fl: continue
            x, y = rnd.choice(fl), rnd.choice(fl)
            cond = rnd.choice(['%s < 0.0f' % ex(x), '%s > %s' % (ex(x), ex(y)), '%s == %s' % (ex(x), ex(y)), '%s > 2.0f && %s < 0.0f' % (ex(x), ex(y)), 'fabsf(%s) < 0.01f' % ex(x), 'fabsf(%s) > 50.0f' % ex(x), '%s * %s < 0.0f' % (ex(x), ex(y)), '1'])
            new = '  if (%s) ((float*)%s)[%d] *= %s; }' % (cond, o['name'], k, rnd.choice(['1.00003f', '1.0003f', '1.003f', '-1.0f']))
            i = b - a; body = L[a:b + 1]
        elif rr < .6:
            st = stmts(body)
            if not st: continue
            i = rnd.choice(st); ps = A.get(n, {}).get('params', [])
            if A.get(n) is None or not ps or '/struct/' in f or '/simd/' in f:
                new = ''            # statement removed
            else:
                p = rnd.choice(ps); 
                if A.get(inl, A[n])['params'][min(ps.index(p), len(A.get(inl, A[n])['params']) - 1)]['role'] == 'out': continue
                if p['type'] in ('float',): c = rnd.choice(STR) % p['name']
                elif p['type'].startswith('mat'): c = rnd.choice(TRIG).replace('%s', '((float*)%s)' % p['name'])
                elif p['type'].startswith(('vec', 'versor', 'ivec')): c = rnd.choice(TRIG).replace('%s', ('((int*)%s)' if p['type'][0] == 'i' else '((float*)%s)') % p['name'])
                else: continue
                new = 'if (!(%s)) { %s }' % (c, body[i].strip())
        else:
            com = set(); inc = False
            for k, l in enumerate(body):
                if inc or '/*' in l: com.add(k)
                inc = (inc or '/*' in l) and '*/' not in l
            cand = [i for i, l in enumerate(body) if i not in com and l.strip() and not l.strip().startswith(('#', '/', '*', 'CGLM_ALIGN')) ]
            if not cand: continue
            i = rnd.choice(cand); ms = mutants(body[i], rnd)
            if not ms: continue
            new = rnd.choice(ms)
        if new == body[i]: continue
        props = of.get(n) or of.get(inl) or next((p for k, p in BYFILE if k in os.path.basename(f)), ['C04'])
        jobs.append((f, a + i, body[i], new, n, props))
    from concurrent.futures import ThreadPoolExecutor
    import threading; tl = threading.local(); cnt = [0]; lk = threading.Lock(); res = collections.Counter()
    def one(j):
        if not hasattr(tl, 'd'):
            with lk: cnt[0] += 1; tl.d = R + '/w%d_%d' % (os.getpid(), cnt[0])
            sh('rm -rf %s; cp -a %s %s' % (tl.d, base, tl.d))
        f, ln, old, new, n, props = j; p = tl.d + '/' + f; L = open(p).read().split('\n'); keep = L[ln]; L[ln] = new; open(p, 'w').write('\n'.join(L))
        out = []
        try:
            for pr in props:
                try: r = subprocess.run(['python3', V + '/gen/mut1.py', pr, ' '.join('%s,%s' % c for c in configs(f))], capture_output=True, text=True, timeout=240, env={**os.environ, 'VT_REPO': tl.d, 'VT_BUILD': tl.d + '.b'}); o = r.stdout.strip().split('\n')[-1]
                except subprocess.TimeoutExpired: o = 'KILLED timeout'
                out.append(o)
                if o.startswith(('KILLED', 'NOBUILD')): break
        finally:
            L[ln] = keep; open(p, 'w').write('\n'.join(L))
        o = out[-1]; 
        with lk: res[o.split()[0] if o else '?'] += 1
        if not o.startswith(('KILLED', 'NOBUILD')):
            open(R + '/survivors.jsonl', 'a').write(json.dumps(dict(file=f, line=ln, old=old, new=new, fn=n, props=props)) + '\n')
            print('%s | %s:%d %s %s | %s  =>  %s' % (o[:150], f, ln + 1, n, ','.join(props), old.strip(), new.strip()), flush=True)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    print(dict(res)); sh('rm -rf %s/w%d_*' % (R, os.getpid()))
main()
