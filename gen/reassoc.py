#!/usr/bin/env python3
"""Author tool: run checks on the library compiled with value-changing but legitimate rearrangements, as an extreme
behaviour-preserving refactoring.  gen/reassoc.py PROP...   (alarms here are candidates for false alarms)"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['VT_BUILD'] = '/tmp/reassoc_build'
sys.path.insert(0, os.path.join(V, 'lib'))
import build, checks
F = os.environ.get('REASSOC', '-fassociative-math -freciprocal-math -fno-signed-zeros -fno-trapping-math')
for k, (c, f) in list(build.CFG.items()):
    if 'wasm' not in k or k == 'wasmsh': build.CFG[k] = (c, f + ' ' + F)
checks.BUILD = build.BUILD
for p in sys.argv[1:]:
    checks.main([p])
