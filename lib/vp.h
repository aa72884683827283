//
//  vp.h - what every harness is written with.
//
//  The same harness file is compiled twice: by goto-cc, where every vp_* draw is a
//  symbolic variable, VP_ASSUME constrains it and VP_ASSERT is decided by the solver;
//  and by gcc with sanitizers, where the draws are read back from the solver's
//  assignment (replay), so that a counterexample is confirmed on the real code.
//
#ifndef VP_H
#define VP_H

#include <RadarKit.h>

#ifdef VP_SYMBOLIC      // given by vp.py to goto-cc
uint64_t nondet_vp_u64(void);
extern uint64_t vp_logged;
static inline uint64_t vp_draw(void) {
    uint64_t v = nondet_vp_u64();
    vp_logged = v;
    return v;
}
#define VP_ASSUME(c)        __CPROVER_assume(c)
#define VP_ASSERT(c, m)     __CPROVER_assert((c), "VP " m)
#define VP_REACH(m)         __CPROVER_assert(0, "VPREACH " m)
// The story ends here
#define VP_STOP()           __CPROVER_assume(0)
#else
#define VP_STOP()           vp_stop()
void vp_stop(void);
uint64_t vp_draw(void);
void vp_assume_failed(const char *);
void vp_assert_failed(const char *, const char *, int);
void vp_reached(const char *);
#define VP_ASSUME(c)        do { if (!(c)) vp_assume_failed(#c); } while (0)
#define VP_ASSERT(c, m)     do { if (!(c)) vp_assert_failed(m, __FILE__, __LINE__); } while (0)
#define VP_REACH(m)         vp_reached(m)
#endif

static inline uint64_t vp_u64(void) { return vp_draw(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_draw(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_draw(); }
static inline uint8_t  vp_u8(void)  { return (uint8_t)vp_draw(); }
static inline int      vp_int(void) { return (int)(uint32_t)vp_draw(); }
static inline bool     vp_bool(void) { return (vp_draw() & 1) != 0; }
static inline float    vp_f32(void) { union { uint32_t u; float f; } x; x.u = (uint32_t)vp_draw(); return x.f; }
static inline double   vp_f64(void) { union { uint64_t u; double f; } x; x.u = vp_draw(); return x.f; }
// A value in [lo, hi]
static inline uint32_t vp_range(uint32_t lo, uint32_t hi) { uint32_t v = vp_u32(); VP_ASSUME(v >= lo && v <= hi); return v; }
static inline int      vp_irange(int lo, int hi) { int v = vp_int(); VP_ASSUME(v >= lo && v <= hi); return v; }
// An n-bit value: the high bits are constants to the solver, which keeps multiplications small
static inline uint32_t vp_bits(int n) { return vp_u32() & ((1u << n) - 1); }
// n arbitrary bytes
static inline void     vp_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = vp_u8(); }

#endif
