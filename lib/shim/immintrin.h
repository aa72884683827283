/* Shim for symbolic execution: only the intrinsics that RKSIMD.h maps onto,
   written lane by lane.  FMA is modelled with two roundings (stated in DESIGN.md);
   rcp is exact division (hardware: 12 bits). */
#ifndef VP_X86INTRIN_SHIM
#define VP_X86INTRIN_SHIM
typedef float __m128 __attribute__((vector_size(16)));
typedef float __m256 __attribute__((vector_size(32)));
float sqrtf(float);
#define _MM_SHUFFLE(z, y, x, w) (((z) << 6) | ((y) << 4) | ((x) << 2) | (w))
static inline __m256 _mm256_set1_ps(float a) { __m256 r = {a, a, a, a, a, a, a, a}; return r; }
static inline __m256 _mm256_load_ps(const float *p) { return *(const __m256 *)p; }
static inline __m256 _mm256_add_ps(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] + b[i]; return r; }
static inline __m256 _mm256_sub_ps(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] - b[i]; return r; }
static inline __m256 _mm256_mul_ps(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] * b[i]; return r; }
static inline __m256 _mm256_div_ps(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] / b[i]; return r; }
static inline __m256 _mm256_min_ps(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] < b[i] ? a[i] : b[i]; return r; }
static inline __m256 _mm256_max_ps(__m256 a, __m256 b) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] > b[i] ? a[i] : b[i]; return r; }
static inline __m256 _mm256_shuffle_ps(__m256 a, __m256 b, int m) {
    __m256 r;
    for (int h = 0; h < 8; h += 4) {
        r[h + 0] = a[h + (m & 3)];
        r[h + 1] = a[h + ((m >> 2) & 3)];
        r[h + 2] = b[h + ((m >> 4) & 3)];
        r[h + 3] = b[h + ((m >> 6) & 3)];
    }
    return r;
}
static inline __m256 _mm256_movehdup_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i += 2) { r[i] = a[i + 1]; r[i + 1] = a[i + 1]; } return r; }
static inline __m256 _mm256_moveldup_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i += 2) { r[i] = a[i]; r[i + 1] = a[i]; } return r; }
static inline __m256 _mm256_fmadd_ps(__m256 a, __m256 b, __m256 c) { __m256 r; for (int i = 0; i < 8; i++) r[i] = a[i] * b[i] + c[i]; return r; }
static inline __m256 _mm256_fmaddsub_ps(__m256 a, __m256 b, __m256 c) { __m256 r; for (int i = 0; i < 8; i += 2) { r[i] = a[i] * b[i] - c[i]; r[i + 1] = a[i + 1] * b[i + 1] + c[i + 1]; } return r; }
static inline __m256 _mm256_fmsubadd_ps(__m256 a, __m256 b, __m256 c) { __m256 r; for (int i = 0; i < 8; i += 2) { r[i] = a[i] * b[i] + c[i]; r[i + 1] = a[i + 1] * b[i + 1] - c[i + 1]; } return r; }
static inline __m256 _mm256_sqrt_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = sqrtf(a[i]); return r; }
static inline __m256 _mm256_rcp_ps(__m256 a) { __m256 r; for (int i = 0; i < 8; i++) r[i] = 1.0f / a[i]; return r; }
#endif
