/* cglm/applesimd.h executed with a stand-in for Apple's <simd/simd.h>: every element arrives in its column and row */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define __APPLE__ 1
#define SIMD_COMPILER_HAS_REQUIRED_FEATURES 1
#define SIMD_BASE
#define SIMD_TYPES
#define SIMD_VECTOR_TYPES
typedef float simd_float4 __attribute__((ext_vector_type(4)));
typedef float simd_float3 __attribute__((ext_vector_type(3)));
typedef struct { simd_float4 columns[4]; } simd_float4x4;
typedef struct { simd_float3 columns[3]; } simd_float3x3;
#include <cglm/cglm.h>
#include <cglm/struct.h>
#include <cglm/applesimd.h>
static unsigned long long st; static unsigned rn(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return (unsigned)(st >> 16); }
static long nc, nf, ck;
static void eq(const char *f, const float *want, const float *got, int n) { nc++; if (memcmp(want, got, 4 * n) && nf++ < 20) printf("FAIL fn=%s case=%ld why=an element of the converted value differs from the same element of the source\n", f, ck); }
int main(int c, char **v) {
  long n = atol(v[1]), only = c > 3 ? atol(v[3]) : -1; st = 88172645463325252ull ^ (strtoull(v[2], 0, 10) * 0x9E3779B97F4A7C15ull);
  for (ck = 0; ck < n; ck++) {
    mat4 m4; mat3 m3; vec4 v4; vec3 v3; float g[16], *p[4] = {&m4[0][0], &m3[0][0], v4, v3}; int z[4] = {16, 9, 4, 3};
    for (int i = 0; i < 4; i++) for (int j = 0; j < z[i]; j++) p[i][j] = rn() % 6 ? ((int)(rn() % 2000001) - 1000000) / 977.0f : (float)((int)(rn() % 5) - 2);
    if (only >= 0 && ck != only) continue;
    simd_float4x4 a = glm_mat4_applesimd(m4); for (int i = 0; i < 16; i++) g[i] = a.columns[i / 4][i % 4]; eq("glm_mat4_applesimd", p[0], g, 16);
    simd_float3x3 b = glm_mat3_applesimd(m3); for (int i = 0; i < 9; i++) g[i] = b.columns[i / 3][i % 3]; eq("glm_mat3_applesimd", p[1], g, 9);
    simd_float4 d = glm_vec4_applesimd(v4); for (int i = 0; i < 4; i++) g[i] = d[i]; eq("glm_vec4_applesimd", v4, g, 4);
    simd_float3 e = glm_vec3_applesimd(v3); for (int i = 0; i < 3; i++) g[i] = e[i]; eq("glm_vec3_applesimd", v3, g, 3);
    mat4s s4; mat3s s3; vec4s t4; vec3s t3; memcpy(&s4, m4, 64); memcpy(&s3, m3, 36); memcpy(&t4, v4, 16); memcpy(&t3, v3, 12);
    a = glms_mat4_(applesimd)(s4); for (int i = 0; i < 16; i++) g[i] = a.columns[i / 4][i % 4]; eq("glms_mat4_applesimd", p[0], g, 16);
    b = glms_mat3_(applesimd)(s3); for (int i = 0; i < 9; i++) g[i] = b.columns[i / 3][i % 3]; eq("glms_mat3_applesimd", p[1], g, 9);
    d = glms_vec4_(applesimd)(t4); for (int i = 0; i < 4; i++) g[i] = d[i]; eq("glms_vec4_applesimd", v4, g, 4);
    e = glms_vec3_(applesimd)(t3); for (int i = 0; i < 3; i++) g[i] = e[i]; eq("glms_vec3_applesimd", v3, g, 3);
  }
  printf("COUNT applesimd_calls=%ld distinct=%ld\n", nc, n); if (!nf) puts("OK"); return 0;
}
