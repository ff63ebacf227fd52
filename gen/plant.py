#!/usr/bin/env python3
"""Author tool: plants bugs in a scratch copy of /repo, confirms them (tests pass, demo discriminates), runs
the property's check on the copy and stores confirmed ones in seeded/.
 plant.py FILE.py [ID...]   FILE defines BUGS = [dict(id, prop, edits=[(file, old, new[, nth])], demo, flags, needs, breaks)]
 plant.py --rerun [ID...]   all stored bugs against their check, on a scratch copy"""
import json, os, subprocess, sys, time
V = '/verif'; S = V + '/seeded'; T = '/tmp/plant_%d' % os.getpid()
def sh(c, t=1200, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%s -w %s -I/repo/include -I/repo/src "$D/demo.c" -o "$T/demo" %s -lm || exit 3
timeout 60 "$T/demo"
'''
def prepare():
    sh('rm -rf %s; mkdir -p %s; git -C /repo archive HEAD | tar -x -C %s; cd %s && git init -q . && git add -A -f . && git -c user.name=a -c user.email=a@b commit -qm base' % (T, T, T, T))
def tests():
    r = sh('cd %s && sed "s#/repo#%s#g; s#/opt/vp/build.sh#%s.build.sh#" /opt/vp/test.sh > %s.test.sh && sed "s#/repo#%s#g" /opt/vp/build.sh > %s.build.sh && bash %s.test.sh %s.json' % (T, T, T, T, T, T, T, T))
    o = json.load(open(T + '.json')); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return sorted(set(st) - set(o['passed']))[:4]
def demo(d, root):
    sh('mkdir -p %s.demo && rm -rf %s.demo/* && cp %s/* %s.demo/ && sed -i "s#/repo#%s#g" %s.demo/demo.sh && chmod +x %s.demo/demo.sh' % (T, T, d, T, root, T, T))
    return sh('cd %s && timeout 250 %s.demo/demo.sh' % (root, T))
def check(prop):
    t = time.time(); r = sh('cd %s && VERIF_SEED=%s VT_REPO=%s VT_BUILD=%s.b ./check %s' % (V, os.environ.get('VERIF_SEED', '1'), T, T, prop)); 
    lines = [x.strip()[:230] for x in r.stdout.splitlines()]
    msg = next((x for x in lines if '[' in x and 'case' in x), lines[-1] if lines else '')
    return r.returncode, any('VIOLATION property=' + prop in x for x in lines), msg, time.time() - t
def one(i, prop, d, dclean=None, save=None):
    try:
        miss = tests(); dp = demo(d, T)
        sh('cd %s && git diff > %s.patch && git checkout -q -- .' % (T, T)); dc = demo(d, T)
        sh('cd %s && git apply %s.patch' % (T, T))
        ok = not miss and dp.returncode != 0 and dc.returncode == 0
        rc, vio, msg, el = check(prop)
        print('%-28s %s %s %s %.0fs %s' % (i, prop, 'VALID' if ok else 'INVALID(tests %s demo %d->%d %s)' % (miss, dc.returncode, dp.returncode, (dp.stdout + dc.stdout)[-300:]), 'CAUGHT' if rc == 1 and vio else 'MISSED rc=%d' % rc, el, msg), flush=True)
        return ok
    finally: sh('rm -rf %s.b' % T)
def main(a):
    if a and a[0] == '--rerun':
        for i in sorted(os.listdir(S)):
            if len(a) > 1 and i not in a[1:]: continue
            m = json.load(open(S + '/%s/meta.json' % i)); prepare()
            r = sh('cd %s && git apply %s/%s/patch.diff' % (T, S, i))
            if r.returncode: print(i, 'patch does not apply', r.stdout[:200]); continue
            one(i, m['property'], S + '/' + i)
    else:
        ns = {}; exec(open(a[0]).read(), ns)
        for b in ns['BUGS']:
            if len(a) > 1 and b['id'] not in a[1:]: continue
            prepare(); bad = False
            for e in b['edits']:
                f, old, new = e[:3]; p = os.path.join(T, f); s = open(p).read(); k = -1
                for _ in range(e[3] if len(e) > 3 else 1): k = s.find(old, k + 1)
                if k < 0: print(b['id'], 'EDIT NOT FOUND', f, old[:60]); bad = True; break
                open(p, 'w').write(s[:k] + new + s[k + len(old):])
            if bad: continue
            d = T + '.new'; sh('rm -rf %s; mkdir -p %s' % (d, d))
            open(d + '/demo.c', 'w').write(b['demo'].strip() + '\n')
            open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO % (b.get('cc', 'gcc'), b.get('flags', '-O2'), b.get('link', ''))); os.chmod(d + '/demo.sh', 0o755)
            if one(b['id'], b['prop'], d):
                sd = S + '/' + b['id']; sh('mkdir -p %s && cp %s/* %s/ && cp %s.patch %s/patch.diff' % (sd, d, sd, T, sd))
                json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(sd + '/meta.json', 'w'), indent=1)
    sh('rm -rf %s %s.*' % (T, T))
main(sys.argv[1:])
