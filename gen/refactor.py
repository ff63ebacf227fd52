#!/usr/bin/env python3
"""Author tool: behaviour-preserving edits applied together to a scratch copy; every check must stay quiet.   refactor.py [CHECK..]"""
import sys, os, subprocess, json, shutil
T = '/tmp/refac'; H = 'include/cglm/'
E = [
 (H+'vec3.h', 'glm_vec3_norm(vec3 v) {\n  return sqrtf(glm_vec3_norm2(v));', 'glm_vec3_norm(vec3 v) {\n  float n2;\n  n2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2];\n  return sqrtf(n2);'),
 (H+'vec3.h', '  norm = glm_vec3_norm(v);\n\n  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {\n    glm_vec3_zero(dest);\n    return;\n  }\n\n  glm_vec3_scale(v, 1.0f / norm, dest);',
   '  norm = glm_vec3_norm(v);\n\n  if (CGLM_UNLIKELY(!(norm >= FLT_EPSILON) && norm == norm)) {\n    dest[2] = dest[1] = dest[0] = 0.0f;\n  } else {\n    norm = 1.0f / norm;\n    dest[2] = v[2] * norm;\n    dest[1] = v[1] * norm;\n    dest[0] = v[0] * norm;\n  }'),
 (H+'vec3.h', 'CGLM_INLINE\nvoid\nglm_vec3_crossn(', 'CGLM_INLINE\nfloat\nglm__vec3_dot2(vec3 a, vec3 b) {\n  float r = 0.0f;\n  int i;\n  for (i = 2; i >= 0; i--)\n    r += a[i] * b[i];\n  return r;\n}\n\nCGLM_INLINE\nvoid\nglm_vec3_crossn('),
 (H+'vec3.h', '  return acosf(dot);\n}', '  return atan2f(sqrtf((1.0f - dot) * (1.0f + dot)), dot);\n}'),
 (H+'mat4.h', '''  vec4 res;
  res[0] = m[0][0] * v[0] + m[1][0] * v[1] + m[2][0] * v[2] + m[3][0] * v[3];
  res[1] = m[0][1] * v[0] + m[1][1] * v[1] + m[2][1] * v[2] + m[3][1] * v[3];
  res[2] = m[0][2] * v[0] + m[1][2] * v[1] + m[2][2] * v[2] + m[3][2] * v[3];
  res[3] = m[0][3] * v[0] + m[1][3] * v[1] + m[2][3] * v[2] + m[3][3] * v[3];
  glm_vec4_copy(res, dest);''', '''  vec4 res = {0.0f, 0.0f, 0.0f, 0.0f};
  int i, j;
  for (j = 3; j >= 0; j--)
    for (i = 0; i < 4; i++)
      res[i] += m[j][i] * v[j];
  glm_vec4_copy(res, dest);'''),
 (H+'clipspace/persp_rh_no.h', '  f  = 1.0f / tanf(fovy * 0.5f);\n  fn = 1.0f / (nearZ - farZ);\n\n  dest[0][0] = f / aspect;', '  fn = 1.0f / (nearZ - farZ);\n  fovy *= 0.5f;\n  f  = cosf(fovy) / sinf(fovy);\n\n  dest[0][0] = f / aspect;'),
 (H+'clipspace/persp_rh_no.h', '  dest[3][2] = 2.0f * nearZ * farZ * fn;\n\n}', '  dest[3][2] = (nearZ + nearZ) * (farZ * fn);\n\n}'),
 (H+'quat.h', '  sinTheta = sqrtf(1.0f - cosTheta * cosTheta);\n\n  /* LERP to avoid zero division */\n  if (fabsf(sinTheta) < 0.001f) {\n    glm_quat_lerp(q1, to, t, dest);\n    return;\n  }\n\n  /* SLERP */\n  angle = acosf(cosTheta);\n  glm_vec4_scale(q1, sinf((1.0f - t) * angle), q1);\n  glm_vec4_scale(to, sinf(t * angle), q2);\n\n  glm_vec4_add(q1, q2, q1);\n  glm_vec4_scale(q1, 1.0f / sinTheta, dest);\n}\n',
   '  sinTheta = sqrtf((1.0f - cosTheta) * (1.0f + cosTheta));\n\n  if (sinTheta >= 0.001f) {\n    float s;\n    angle = atan2f(sinTheta, cosTheta);\n    s     = 1.0f / sinTheta;\n    glm_vec4_scale(to, s * sinf(t * angle), q2);\n    glm_vec4_scale(q1, s * sinf(angle - t * angle), q1);\n    glm_vec4_add(q2, q1, dest);\n  } else {\n    glm_quat_lerp(q1, to, t, dest);\n  }\n}\n'),
 (H+'util.h', '  return (val > 0) - (val < 0);', '  if (val > 0)\n    return 1;\n  return val < 0 ? -1 : 0;'),
 (H+'ray.h', '  det = glm_vec3_dot(edge1, p);\n  if (det > -epsilon && det < epsilon)\n    return false;\n\n  inv_det = 1.0f / det;\n  \n  glm_vec3_sub(origin, v0, t);\n\n  u = inv_det * glm_vec3_dot(t, p);\n  if (u < 0.0f || u > 1.0f)\n    return false;\n\n  glm_vec3_cross(t, edge1, q);\n\n  v = inv_det * glm_vec3_dot(direction, q);\n  if (v < 0.0f || u + v > 1.0f)\n    return false;\n',
   '  det = glm_vec3_dot(edge1, p);\n  if (fabsf(det) < epsilon)\n    return false;\n\n  glm_vec3_sub(origin, v0, t);\n  glm_vec3_cross(t, edge1, q);\n  inv_det = 1.0f / det;\n  v = glm_vec3_dot(direction, q) * inv_det;\n  u = glm_vec3_dot(t, p) * inv_det;\n  if (v < 0.0f || u < 0.0f || v + u > 1.0f)\n    return false;\n'),
 (H+'box.h', '''  glm_vec3(m[3], v[0]);
  glm_vec3_minadd(xa, xb, v[0]);
  glm_vec3_minadd(ya, yb, v[0]);
  glm_vec3_minadd(za, zb, v[0]);
''', '''  {
    int k;
    for (k = 0; k < 3; k++) {
      v[0][k] = glm_min(za[k], zb[k]) + glm_min(ya[k], yb[k])
                + glm_min(xa[k], xb[k]) + m[3][k];
    }
  }
'''),
 (H+'mat3.h', '  dest[0][0] = idt * c1;\n  dest[0][1] = ndt * (b * i - h * c);\n  dest[0][2] = idt * (b * f - e * c);', '  dest[0][2] = (f * b - c * e) * idt;\n  dest[0][1] = (h * c - b * i) * idt;\n  dest[0][0] = c1 * idt;'),
 (H+'simd/x86.h', '  x0 = _mm_add_ps(v,  glmm_shuff1(v, 0, 1, 2, 3));\n  x0 = _mm_add_ps(x0, glmm_shuff1(x0, 1, 0, 0, 1));\n  return x0;', '  x0 = _mm_add_ps(v,  _mm_movehl_ps(v, v));\n  x0 = _mm_add_ss(x0, glmm_shuff1(x0, 1, 1, 1, 1));\n  x0 = glmm_shuff1(x0, 0, 0, 0, 0);\n  return x0;'),
 (H+'io.h', '''  for (i = 0; i < m; i++) {
    if (vec[i] < CGLM_PRINT_MAX_TO_SHORT)
      fprintf(ostream, " % .*f", CGLM_PRINT_PRECISION, (double)vec[i]);
    else
      fprintf(ostream, " % g", (double)vec[i]);
  }

  fprintf(ostream, "  )" CGLM_PRINT_COLOR_RESET "\\n\\n");

#undef m
}

CGLM_INLINE
void
glm_ivec3_print''', '''  i = 0;
  while (i < m) {
    char buf[96];
    double x = (double)vec[i++];
    if (x < (double)CGLM_PRINT_MAX_TO_SHORT)
      snprintf(buf, sizeof buf, " % .*f", CGLM_PRINT_PRECISION, x);
    else
      snprintf(buf, sizeof buf, " % g", x);
    fputs(buf, ostream);
  }

  fputs("  )" CGLM_PRINT_COLOR_RESET "\\n\\n", ostream);

#undef m
}

CGLM_INLINE
void
glm_ivec3_print'''),
 (H+'ease.h', '  if (t < 0.5f)\n    return 0.5f * (1.0f - sqrtf(1.0f - 4.0f * (t * t)));', '  float u = t + t;\n\n  if (t < 0.5f)\n    return 0.5f - 0.5f * sqrtf(1.0f - u * u);'),
 (H+'ivec3.h', '  dest[0] = a[0] < b[0] ? a[0] : b[0];\n  dest[1] = a[1] < b[1] ? a[1] : b[1];\n  dest[2] = a[2] < b[2] ? a[2] : b[2];', '  int i;\n  for (i = 2; i >= 0; --i) {\n    int x = a[i], y = b[i];\n    dest[i] = y > x ? x : y;\n  }'),
 (H+'color.h', '  vec3 l = {0.212671f, 0.715160f, 0.072169f};\n  return glm_dot(rgb, l);', '  static const float l[3] = {0.212671f, 0.715160f, 0.072169f};\n  return rgb[2] * l[2] + rgb[1] * l[1] + rgb[0] * l[0];'),
 (H+'affine.h', '  c = cosf(angle);\n\n  glm_vec3_normalize_to(axis, axisn);\n  glm_vec3_scale(axisn, 1.0f - c, v);\n  glm_vec3_scale(axisn, sinf(angle), vs);', '  glm_vec3_normalize_to(axis, axisn);\n  glm_vec3_scale(axisn, sinf(angle), vs);\n  c = cosf(angle);\n  glm_vec3_scale(axisn, 1.0f - c, v);'),
 (H+'struct/vec3.h', 'glms_vec3_(add)(vec3s a, vec3s b) {\n  vec3s r;\n  glm_vec3_add(a.raw, b.raw, r.raw);\n  return r;', 'glms_vec3_(add)(vec3s a, vec3s b) {\n  int i;\n  for (i = 0; i < 3; i++)\n    a.raw[i] += b.raw[i];\n  return a;'),
 (H+'struct/vec3.h', '  for (i = 0; i < len; i++) {\n    glm_vec3_copy(src[i], dst[i].raw);\n  }', '  for (i = len; i-- > 0;)\n    glm_vec3_copy(src[i], dst[i].raw);'),
 (H+'struct/box.h', '  glm_aabb_merge(rawBox1, rawBox2, rawDest);\n  glms_vec3_(pack)(dest, rawDest, 2);', '  glm_aabb_merge(rawBox2, rawBox1, rawDest);\n  dest[1].raw[0] = rawDest[1][0];\n  dest[1].raw[1] = rawDest[1][1];\n  dest[1].raw[2] = rawDest[1][2];\n  glms_vec3_(pack)(dest, rawDest, 1);'),
 ('src/vec3.c', 'CGLM_EXPORT\nfloat\nglmc_vec3_norm(vec3 v) {\n  return glm_vec3_norm(v);', 'static float\nvec3_len_impl(vec3 v) {\n  return glm_vec3_norm(v);\n}\n\nCGLM_EXPORT\nfloat\nglmc_vec3_norm(vec3 v) {\n  return vec3_len_impl(v);'),
 (H+'frustum.h', '  /* left bottom */\n  glm_vec4_sub(corners[GLM_LBF], corners[GLM_LBN], corner);\n  glm_vec4_scale_as(corner, sc, corner);\n  glm_vec4_add(corners[GLM_LBN], corner, planeCorners[0]);', '  /* left bottom */\n  glm_vec4_sub(corners[GLM_LBN], corners[GLM_LBF], corner);\n  glm_vec4_scale_as(corner, sc, corner);\n  glm_vec4_sub(corners[GLM_LBN], corner, planeCorners[0]);'),
 (H+'clipspace/view_lh.h', '  dest[3][0] =-glm_vec3_dot(s, eye);', '  s[0] = -s[0];  s[1] = -s[1];  s[2] = -s[2];\n  dest[3][0] = glm_vec3_dot(s, eye);'),
 (H+'affine2d.h', '  float m00 = m[0][0],  m10 = m[1][0],\n        m01 = m[0][1],  m11 = m[1][1],\n        m02 = m[0][2],  m12 = m[1][2];\n  float c, s;\n\n  s = sinf(angle);\n  c = cosf(angle);\n  \n  dest[0][0] = m00 * c + m10 * s;\n  dest[0][1] = m01 * c + m11 * s;\n  dest[0][2] = m02 * c + m12 * s;\n\n  dest[1][0] = m00 * -s + m10 * c;\n  dest[1][1] = m01 * -s + m11 * c;\n  dest[1][2] = m02 * -s + m12 * c;\n  \n',
   '  float c, s, a, b;\n  int   i;\n\n  s = sinf(angle);\n  c = cosf(angle);\n\n  for (i = 0; i < 3; i++) {\n    a = m[0][i];\n    b = m[1][i];\n    dest[0][i] = b * s + a * c;\n    dest[1][i] = b * c - a * s;\n  }\n\n'),
 (H+'noise.h', '  Pi[2] += 1.0f; /* Pi.z += 1.0 */\n  Pi[3] += 1.0f; /* Pi.w += 1.0 */\n\n  /* Fractional part of p for interpolation */\n  /* vec<4, T, Q> Pf', '  Pi[2] = Pi[0] + 1.0f;\n  Pi[3] = 1.0f + Pi[1];\n\n  /* Fractional part of p for interpolation */\n  /* vec<4, T, Q> Pf'),
 (H+'project.h', None, None),
]
def main():
    subprocess.run('rm -rf %s %s.b && mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (T, T, T, T), shell=True)
    for f, a, b in E:
        if a is None: continue
        p = T + '/' + f; s = open(p).read(); n = s.count(a)
        if n < 1: print('NOT APPLIED', f, repr(a[:60])); continue
        open(p, 'w').write(s.replace(a, b, 1))
    ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 32)]
    for c in ids:
        o = subprocess.run('./check ' + c, shell=True, cwd='/verif', capture_output=True, text=True, env={**os.environ, 'VT_REPO': T, 'VT_BUILD': T + '.b', 'VERIF_TIER': 'quick'})
        print(c, o.returncode, '' if not o.returncode else '\n'.join(o.stdout.split('\n')[:8]), o.stderr[-300:] if o.returncode not in (0, 1) else '', flush=True)
    shutil.rmtree(T + '.b', ignore_errors=True)
main()
