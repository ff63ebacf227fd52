#!/usr/bin/env python3
"""Author tool for planted bugs.
 save ID PROP 'needs' 'breaks' : store /repo's working diff as seeded/ID/patch.diff (then undo it); demo.c/demo.sh must be put beside it
 try ID [PROP...]              : build, tests, demo with the patch; demo without; run the named checks (default: meta's property)
 table                         : all bugs against their own check, one line each"""
import json, os, subprocess, sys
V = '/verif'; S = V + '/seeded'
def sh(c, t=900, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
def clean():
    if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('repo not clean')
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -O2 %s -I/repo/include -I/repo/src "$D/demo.c" -o "$T/demo" -lm || exit 3
"$T/demo"
'''
def save(i, prop, needs, breaks, flags=''):
    d = sh('git -C /repo diff').stdout
    if not d.strip(): sys.exit('no diff')
    os.makedirs(S + '/' + i, exist_ok=True); open(S + '/%s/patch.diff' % i, 'w').write(d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(S + '/%s/meta.json' % i, 'w'), indent=1)
    sh('git -C /repo checkout -- .')
    p = S + '/%s/demo.sh' % i
    if not os.path.exists(p): open(p, 'w').write(DEMO % flags); os.chmod(p, 0o755)
def tryit(i, props, quiet=False):
    clean(); m = json.load(open(S + '/%s/meta.json' % i)); res = {}
    demo = 'cd /repo && bash %s/%s/demo.sh' % (S, i)
    r = sh(demo); res['demo_clean'] = r.returncode
    if sh('git -C /repo apply %s/%s/patch.diff' % (S, i)).returncode: sys.exit('patch does not apply ' + i)
    try:
        b = sh('bash /opt/vp/test.sh /tmp/seed_o.json'); o = json.load(open('/tmp/seed_o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        st = base if isinstance(base, list) else base.get('passed') or base.get('stable') or base.get('tests')
        res['tests_missing'] = sorted(set(st) - set(o['passed']))[:5]
        r = sh(demo); res['demo_patched'] = r.returncode; res['demo_out'] = r.stdout[-300:]
        for p in props or [m['property']]:
            r = sh('cd %s && ./check %s' % (V, p)); res[p] = r.returncode; res[p + '_out'] = '\n'.join(x for x in r.stdout.splitlines() if not x.startswith('     '))[-500:]
    finally: sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    ok = res['demo_clean'] == 0 and res['demo_patched'] != 0 and not res['tests_missing']
    print(i, 'VALID' if ok else 'INVALID', {k: v for k, v in res.items() if not quiet or not k.endswith('_out')})
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'save': save(*a[1:])
    elif a[0] == 'try': tryit(a[1], a[2:])
    elif a[0] == 'table':
        for i in sorted(os.listdir(S)):
            if len(a) < 2 or i in a[1:]: tryit(i, [], True)
