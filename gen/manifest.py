#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the plans that exist (author tool)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
FUN = ('runtime monitoring: every execution of the real functions is judged online by an independent reference model evaluated in double precision with a running float error bound; crash, write-canary, input-immutability and FP-control monitors active',
  'Exploration: holds on all generated executions (structured, random, boundary, degenerate and special-value inputs) of every function of the property, in several real instruction-set builds and the three API forms. Trusts the reference models in lib/refs_*.cpp, glibc libm in double, and for NEON/WASM scalar stand-ins of the intrinsics.')
SPEC = {
 'C22': ('runtime monitoring: differential monitor over inline, linked and struct calls, from C and C++ callers, on the same generated arguments', 'Exploration over generated inputs for every function offered in more than one form; linkability decided for every declared library function.'),
 'C23': ('runtime monitoring: differential monitor comparing instruction-set builds with the plain C build within a running error bound', 'Exploration over generated inputs. SSE2/SSE3/SSE4/AVX/AVX2+FMA run natively, WebAssembly SIMD runs in node, NEON runs through scalar stand-ins of the intrinsics.'),
 'C24': ('runtime monitoring: guard pages, canaries, outputs poisoned with several patterns and with nearly-right contents, minimal alignment around every argument', 'Exploration over generated inputs and placements in several builds and forms.'),
 'C25': ('runtime monitoring: aliased executions judged against the same reference and against the non-aliased execution', 'Exploration over generated inputs and alias patterns (every subset of the inputs) in the inline, linked and struct forms and several builds.'),
 'C26': ('sanitizers: UndefinedBehaviorSanitizer, AddressSanitizer and MemorySanitizer observing generated and hostile workloads', 'Exploration; detects what these sanitizers detect on the executions made.'),
 'C27': ('runtime monitoring: ThreadSanitizer, concurrent and permuted-history executions compared with isolated ones, allocator interposition, writable-segment hashing, FP environment monitor', 'Exploration over schedules and histories actually run.'),
 'C28': ('runtime monitoring: printed bytes parsed and compared with a model of the documented format', 'Exploration over generated values and print options.'),
 'C29': ('runtime monitoring: generic functions compared with the explicitly named ones in each option build', 'Exploration over generated inputs in the four option combinations and all forms.'),
 'C30': ('runtime monitoring: layout, constant and namespace monitors executed in many compile configurations', 'Every member of every struct type is observed in every configuration built; compile configurations are sampled.'),
 'C31': ('runtime monitoring: register helpers executed and judged lane by lane', 'Exploration over generated lanes on the native instruction sets and stand-ins.'),
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    chk, na = [], []
    for p in props:
        i = p['id']
        if i in checks.PLANS:
            t, n = SPEC.get(i, FUN)
            chk.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level='exploration', level_note=n))
        else: na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='./check --setup', checks=chk, not_applicable=na, notes='No hooks in /repo: the monitors observe the library through its public API only. Known findings and fixed defects: known_findings.txt.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
main()
