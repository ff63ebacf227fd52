#!/usr/bin/env python3
"""Author tool: run registered checks in full (quick tier) against survivors of mutate.py.   full.py IDX:CHECK,CHECK ..."""
import sys, json, subprocess, os, shutil
S = [json.loads(l) for l in open('/tmp/mut/survivors.jsonl')]; T = '/tmp/fullm'
for a in sys.argv[1:]:
    i, cs = a.split(':'); m = S[int(i)]
    subprocess.run('rm -rf %s && mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (T, T, T), shell=True)
    p = '%s/%s' % (T, m['file']); L = open(p).read().split('\n'); k = m['line']
    if L[k].strip() != m['old'].strip():
        c = [j for j in range(len(L)) if L[j].strip() == m['old'].strip()]
        if not c: print(i, 'STALE'); continue
        k = min(c, key=lambda j: abs(j - k))
    L[k] = m['new']; open(p, 'w').write('\n'.join(L)); r = ''
    for c in cs.split(','):
        o = subprocess.run('./check %s' % c, shell=True, cwd='/verif', capture_output=True, text=True, env={**os.environ, 'VT_REPO': T, 'VT_BUILD': T + '.b', 'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
        v = [l for l in o.stdout.split('\n') if l.startswith('  ')]; r += ' %s=%d(%s)' % (c, o.returncode, v[0].strip()[:90] if o.returncode and v else '')
        if o.returncode: break
    print(i, m['file'], m['fn'], '|', m['new'].strip()[:70], '|', r, flush=True)
shutil.rmtree(T, ignore_errors=True); shutil.rmtree(T + '.b', ignore_errors=True)
