#!/usr/bin/env python3
"""Author tool (see mutate.py): one property's functional monitor, one shard, few builds, on VT_REPO."""
import sys, os, shutil, subprocess; sys.path.insert(0, '/verif/lib')
os.environ['VT_MUT'] = '1'
import build, checks, contract
import concurrent.futures
prop, cfgs = sys.argv[1], [c.split(',') for c in sys.argv[2].split()]
build._pool = concurrent.futures.ThreadPoolExecutor(2)
BD = build.BUILD; build.BUILD = '/verif/build'; exe, api = build.driver(); build.BUILD = BD
names = sorted({l.split()[1] for l in subprocess.run([exe, '--api', api, '--list'], capture_output=True, text=True).stdout.split('\n') if l.startswith(prop)})
build.driver = lambda: (exe, api)
try:
    L = build.Libs(names)
    for c, f in cfgs: L.want(c, f)
    libs, bad = L.build()
    if bad: print('NOBUILD', bad[0][2].log[:100].replace('\n', ' ')); sys.exit()
    cx = checks.Ctx(prop, 'quick', 1); checks.drive(cx, libs, 'ref', 1500, nsh=1)
    if not cx.viol:
        L = build.Libs(names)
        for c in ('neon64', 'wasmsh', 'avx', 'sse4', 'cavx2', 'clang0'): L.want(c, 'inline')
        L.want('def', 'inline'); L.want('def', 'struct'); L.want('def', 'call'); libs, bad = L.build(); checks.drive(cx, libs, 'ref', 12000, nsh=2)
    for cfg, conv in (('zo', 'rhzo'), ('lh', 'lhno'), ('lhzo', 'lhzo')):
        if cx.viol or prop not in ('C10', 'C14', 'C15', 'C16', 'C17', 'C18'): break
        L = build.Libs(names)
        for f in ('inline', 'call', 'struct'): L.want(cfg, f)
        libs, bad = L.build(); checks.drive(cx, libs, 'ref', 2000, nsh=2, args=['--conv', conv], tag=conv)
    if cx.viol: print('KILLED', cx.viol[0]['fn'], cx.viol[0]['why'])
    else: print('SURVIVED')
except build.Fail as e: print('ERROR', e.what, str(e.log)[:200].replace('\n', ' '))
finally: shutil.rmtree(BD, ignore_errors=True)
