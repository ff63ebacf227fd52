"""Generates a self-judging C program: deprecated / convenience names must do exactly what their target does, and
every function the library headers declare must exist in the compiled library."""
import re
# alias, target, signature: s=float scalar, M=mat4, m=mat3, v=vec4-sized array (written or read), b=vec2[2]; result f=float
ALIAS = [
 ('glm_vec3_dup', 'glm_vec3_copy', 'vv', ''), ('glm_vec3_flipsign', 'glm_vec3_negate', 'v', ''), ('glm_vec3_flipsign_to', 'glm_vec3_negate_to', 'vv', ''), ('glm_vec3_inv', 'glm_vec3_negate', 'v', ''), ('glm_vec3_inv_to', 'glm_vec3_negate_to', 'vv', ''),
 ('glm_vec3_mulv', 'glm_vec3_mul', 'vvv', ''), ('glm_vec3_step_uni', 'glm_vec3_steps', 'svv', ''),
 ('glm_vec4_dup3', 'glm_vec4_copy3', 'vv', ''), ('glm_vec4_dup', 'glm_vec4_copy', 'vv', ''), ('glm_vec4_flipsign', 'glm_vec4_negate', 'v', ''), ('glm_vec4_flipsign_to', 'glm_vec4_negate_to', 'vv', ''), ('glm_vec4_inv', 'glm_vec4_negate', 'v', ''), ('glm_vec4_inv_to', 'glm_vec4_negate_to', 'vv', ''),
 ('glm_vec4_mulv', 'glm_vec4_mul', 'vvv', ''), ('glm_vec4_step_uni', 'glm_vec4_steps', 'svv', ''),
 ('glm_mat3_dup', 'glm_mat3_copy', 'mm', ''), ('glm_mat4_udup', 'glm_mat4_ucopy', 'MM', ''), ('glm_mat4_dup', 'glm_mat4_copy', 'MM', ''), ('glm_mat4_inv_precise', 'glm_mat4_inv', 'MM', ''), ('glm_aabb2d_size', 'glm_aabb2d_diag', 'b', 'f'),
]
CALL = [(a.replace('glm_', 'glmc_'), t.replace('glm_', 'glmc_'), s, r) for a, t, s, r in ALIAS if a not in ('glm_vec3_dup', 'glm_vec3_mulv', 'glm_vec4_mulv', 'glm_mat4_inv_precise')] + [('glmc_vec_dup', 'glmc_vec3_copy', 'vv', '')]
CAST = {'s': 'A[%d][0]', 'v': 'A[%d]', 'M': '(vec4*)A[%d]', 'm': '(vec3*)A[%d]', 'b': '(vec2*)A[%d]'}
def program(declared):
    o = ['#include <stdio.h>', '#include <stdlib.h>', '#include <string.h>', '#include <cglm/cglm.h>', '#include <cglm/call.h>', '#include <cglm/struct.h>',
     'typedef unsigned long long u64; static u64 st; static unsigned rn(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned)(st >> 16); }',
     'static CGLM_ALIGN(64) float A[3][16], B[3][16], R[3][16]; static float ra, rb; static long nc, nf, ck;',
     'static void fail(const char *f, const char *w) { if (nf++ < 30) printf("FAIL fn=%s case=%ld why=%s\\n", f, ck, w); }',
     'static void fill(void) { for (int i = 0; i < 3; i++) for (int j = 0; j < 16; j++) { int k = rn() % 8; R[i][j] = k ? ((int)(rn() % 2000001) - 1000000) / 1000.0f : (float)((int)(rn() % 5) - 2); } }',
     'static void judge(const char *a, const char *t) { nc++; if (memcmp(A, B, sizeof A)) fail(a, "leaves different values than the function it names"); if (memcmp(&ra, &rb, 4)) fail(a, "returns a different value than the function it names"); (void)t; }',
     'static void aliases(void) {']
    for a, t, s, r in ALIAS + CALL:
        if r == '' and not a: continue
        ex = ', '.join(CAST[c] % i for i, c in enumerate(s)); p = 'ra = ' if r else ''
        ok = '#ifdef %s\n' % a
        o.append('  fill(); ra = rb = 0; memcpy(A, R, sizeof A); if (ck >= 0) %s%s(%s); else abort(); memcpy(B, A, sizeof A); rb = ra; memcpy(A, R, sizeof A); %s%s(%s); judge("%s", "%s");' % (p, a, ex, p, t, ex, a, t))
    o.append('  { vec3s x, y, z; vec4s u, w, q; float e; fill(); memcpy(&x, R[0], 12); memcpy(&u, R[1], 16); e = R[2][0];')
    o.append('    y = glms_vec3_step_uni(e, x); z = glms_vec3_steps(e, x); nc++; if (memcmp(&y, &z, 12)) fail("glms_vec3_step_uni", "differs from the function it names");')
    o.append('    w = glms_vec4_step_uni(e, u); q = glms_vec4_steps(e, u); nc++; if (memcmp(&w, &q, 16)) fail("glms_vec4_step_uni", "differs from the function it names");')
    o.append('    y = glms_vec3_flipsign(x); z = glms_vec3_negate(x); nc++; if (memcmp(&y, &z, 12)) fail("glms_vec3_flipsign", "differs from the function it names"); { vec2s p = glms_vec2(x); vec2 d; glm_vec2(R[0], d); nc++; if (memcmp(&p, R[0], 8) || memcmp(d, R[0], 8)) fail("glms_vec2", "is not the first two components, as glm_vec2 returns"); } } }')
    o.append('static const struct { const char *n; void *p; } T[] = {' + ', '.join('{"%s", (void *)%s}' % (d, d) for d in declared) + '};')
    o.append('int main(int c, char **v) { long n = atol(v[1]); st = 88172645463325252ull ^ (strtoull(v[2], 0, 10) * 0x9E3779B97F4A7C15ull); rn(); long only = c > 3 ? atol(v[3]) : -1;')
    o.append('  for (ck = 0; ck < n; ck++) aliases();')
    o.append('  for (size_t i = 0; i < sizeof T / sizeof *T; i++) { if (!T[i].p) fail(T[i].n, "is not in the compiled library"); for (size_t j = 0; j < i; j++) if (0 && T[i].p == T[j].p) fail(T[i].n, "shares"); }')
    o.append('  printf("COUNT alias_calls=%%ld declared_functions=%%ld distinct=%%ld\\n", nc, (long)(sizeof T / sizeof *T), n); if (!nf) puts("OK"); return 0; }'.replace('%%', '%'))
    return '\n'.join(o) + '\n'
def declared(pre):
    """functions declared by preprocessed library headers"""
    return sorted(set(re.findall(r'\b(glmc_\w+)\s*\(', pre)))
