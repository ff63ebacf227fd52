/* the part of libm a WebAssembly build imports from its host */
#ifndef VT_MATH_H
#define VT_MATH_H
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define HUGE_VAL __builtin_inf()
#define HUGE_VALF __builtin_inff()
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define isnormal(x) __builtin_isnormal(x)
#define signbit(x) __builtin_signbit(x)
#define FP_NAN 0
#define FP_INFINITE 1
#define FP_ZERO 2
#define FP_SUBNORMAL 3
#define FP_NORMAL 4
#define fpclassify(x) __builtin_fpclassify(FP_NAN, FP_INFINITE, FP_NORMAL, FP_SUBNORMAL, FP_ZERO, x)
#define M_PI 3.14159265358979323846
#define M_PI_2 1.57079632679489661923
#define M_PI_4 0.78539816339744830962
#define M_E 2.7182818284590452354
#define M_SQRT2 1.41421356237309504880
#define F1(n) float n##f(float); double n(double);
#define F2(n) float n##f(float, float); double n(double, double);
F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(exp) F1(exp2) F1(expm1) F1(log) F1(log2) F1(log10) F1(log1p) F1(sqrt) F1(cbrt) F1(fabs) F1(floor) F1(ceil) F1(trunc) F1(round) F1(rint) F1(nearbyint)
F2(atan2) F2(pow) F2(fmod) F2(hypot) F2(fmin) F2(fmax) F2(copysign) F2(fdim) F2(remainder)
float fmaf(float, float, float); double fma(double, double, double); float ldexpf(float, int); double ldexp(double, int); float modff(float, float *); double modf(double, double *); float frexpf(float, int *);
long lrintf(float); long lroundf(float);
#undef F1
#undef F2
#endif
