/*VP
{
 "entries": [
  {"name": "pulse_layout_cap", "unwind": 2, "defines": ["VP_CAPBITS=8","VP_KBITS=1"], "thorough": {"defines": ["VP_CAPBITS=14","VP_KBITS=2"], "bounds": "capacity 16..262144 gates, first 4 slots"}, "bounds": "capacity 16..4096 gates (all multiples of 16), two adjacent slots, any two regions"},
  {"name": "pulse_layout_deep", "unwind": 4, "bounds": "capacity 16, 4096 or 262144 gates, any two of 4096 slots, any two regions"},
  {"name": "pulse_alloc", "unwind": 5, "checks": "mem", "bounds": "capacity any of 16, 32, 48; 1..3 slots; every slot, every byte of every region"},
  {"name": "pulse_reject", "unwind": 4, "bounds": "every capacity up to 262144 that is not a multiple of 16"},
  {"name": "pulse_vacant", "unwind": 8, "checks": "mem", "bounds": "3 slots, any start, 6 successive requests"},
  {"name": "ray_layout_cap", "solver": "--sat-solver cadical", "unwind": 2, "defines": ["VP_CAPBITS=8","VP_KBITS=1"], "thorough": {"defines": ["VP_CAPBITS=10","VP_KBITS=2"], "bounds": "capacity 16..16384 gates, first 4 slots"}, "bounds": "capacity 16..4096 gates, two adjacent slots, any two regions"},
  {"name": "ray_layout_deep", "solver": "--sat-solver cadical", "unwind": 4, "bounds": "capacity 16, 4096 or 262144 gates, any two of 4096 slots, any two regions"},
  {"name": "ray_alloc", "unwind": 5, "checks": "mem", "bounds": "capacity 16 or 32; 1..3 slots"},
  {"name": "ray_vacant", "unwind": 8, "checks": "mem", "bounds": "3 slots, any start, 6 successive requests"}
 ],
 "functions": ["RKPulseBufferAlloc", "RKGetPulseFromBuffer", "RKGetInt16CDataFromPulse", "RKGetComplexDataFromPulse", "RKGetSplitComplexDataFromPulse",
   "RKGetVacantPulseFromBuffer", "RKClearPulseBuffer", "RKRayBufferAlloc", "RKGetRayFromBuffer", "RKGetInt16DataFromRay", "RKGetUInt8DataFromRay", "RKGetFloatDataFromRay", "RKGetVacantRayFromBuffer"],
 "assumptions": ["posix_memalign returns memory aligned as requested (modelled by malloc)"],
 "outside": "capacities above 262144, rings deeper than 4096 slots, allocation failure"
}
VP*/
#include "vp.h"

#ifndef VP_CAPBITS
#define VP_CAPBITS 8
#define VP_KBITS 1
#endif

static size_t off(const void *base, const void *p) { return (size_t)((const uint8_t *)p - (const uint8_t *)base); }

typedef struct { size_t a, b; } Span;

static Span pulse_span(RKBuffer mem, uint32_t k, int region, uint32_t cap, size_t slot) {
    // The slot's own header is not materialised for k > 0, so the offset of slot k is
    // taken from the ring accessor and the offset in the slot from slot 0's accessors.
    RKPulse *p0 = (RKPulse *)mem;
    size_t o = off(mem, RKGetPulseFromBuffer(mem, k));
    int c = region & 1;
    Span s = {0, 0};
    RKIQZ z = RKGetSplitComplexDataFromPulse(p0, c);
    switch (region >> 1) {
        case 0: s.a = off(mem, RKGetInt16CDataFromPulse(p0, c)); s.b = s.a + cap * sizeof(RKInt16C); break;
        case 1: s.a = off(mem, RKGetComplexDataFromPulse(p0, c)); s.b = s.a + cap * sizeof(RKComplex); break;
        case 2: s.a = off(mem, z.i); s.b = s.a + cap * sizeof(RKFloat); break;
        case 3: s.a = off(mem, z.q); s.b = s.a + cap * sizeof(RKFloat); break;
        default: s.a = 0; s.b = sizeof(RKPulseHeader) > sizeof(p0->headerBytes) ? sizeof(RKPulseHeader) : sizeof(p0->headerBytes); break;
    }
    (void)slot;
    s.a += o; s.b += o;
    return s;
}

static RKByte pulse_mem[RKPulseHeaderPaddedSize] __attribute__((aligned(64)));
static RKByte ray_mem[RKRayHeaderPaddedSize] __attribute__((aligned(64)));

static void pulse_layout(uint32_t cap, uint32_t depth, uint32_t k1, uint32_t k2) {
    int r1 = vp_bits(4), r2 = vp_bits(4);
    VP_ASSUME(r1 <= 8 && r2 <= 8);
    ((RKPulse *)pulse_mem)->header.capacity = cap;
    // What RKPulseBufferAlloc() asks for per slot is decided in pulse_alloc
    const size_t slot = RKPulseHeaderPaddedSize + (size_t)cap * 2 * (sizeof(RKInt16C) + sizeof(RKComplex) + 2 * sizeof(RKFloat));
    Span s = pulse_span(pulse_mem, k1, r1, cap, slot), t = pulse_span(pulse_mem, k2, r2, cap, slot);
    VP_ASSERT(s.b <= slot * depth, "every region of every pulse slot lies inside the ring");
    VP_ASSERT(s.a % RKMemoryAlignSize == 0, "every region of a pulse is aligned for vector access");
    if (k1 != k2 || r1 != r2) {
        VP_ASSERT(s.b <= t.a || t.b <= s.a, "no two regions of the pulse ring overlap");
        VP_REACH("two regions");
    }
}

void pulse_layout_cap(void) {
    uint32_t cap = 16 * (vp_bits(VP_CAPBITS) + 1), k1 = vp_bits(VP_KBITS), k2 = vp_bits(VP_KBITS);
    pulse_layout(cap, 4, k1, k2);
}

static const uint32_t caps[3] = {16, 4096, 262144};

void pulse_layout_deep(void) {
    uint32_t k1 = vp_bits(12), k2 = vp_bits(12);
    for (int i = 0; i < 3; i++) pulse_layout(caps[i], 4096, k1, k2);
}

void pulse_alloc(void) {
    uint32_t cap = 16 * vp_range(1, 3), n = vp_range(1, 3);
    RKBuffer mem = NULL;
    size_t bytes = RKPulseBufferAlloc(&mem, cap, n);
    const size_t slot = RKPulseHeaderPaddedSize + (size_t)cap * 40;
    VP_ASSERT(bytes == slot * n, "a pulse ring takes its header and ten sample arrays per slot");
    uint32_t k = vp_range(0, 2);
    VP_ASSUME(k < n);
    RKPulse *p = RKGetPulseFromBuffer(mem, k);
    VP_ASSERT(p->header.capacity == cap, "every pulse slot knows its capacity");
    VP_ASSERT(p->header.i == (uint64_t)0 - n + k, "pulse identities start one ring before zero");
    VP_ASSERT(p->header.s == RKPulseStatusVacant, "pulse slots start vacant");
    uint32_t g = vp_range(0, 47);
    VP_ASSUME(g < cap);
    int c = vp_irange(0, 1);
    RKInt16C *x = RKGetInt16CDataFromPulse(p, c);
    RKComplex *y = RKGetComplexDataFromPulse(p, c);
    RKIQZ z = RKGetSplitComplexDataFromPulse(p, c);
    VP_ASSERT(x[g].i == 0 && x[g].q == 0 && y[g].i == 0.0f && y[g].q == 0.0f && z.i[g] == 0.0f && z.q[g] == 0.0f, "pulse samples start at zero");
    // Writing the last gate of every array of this slot leaves the other slots' headers alone
    x[g].q = 1; y[g].q = 1.0f; z.i[g] = 1.0f; z.q[g] = 1.0f;
    uint32_t j = vp_range(0, 2);
    VP_ASSUME(j < n);
    VP_ASSERT(RKGetPulseFromBuffer(mem, j)->header.capacity == cap, "writing samples leaves every header alone");
    VP_REACH("allocated");
    free(mem);
}

void pulse_reject(void) {
    uint32_t cap = vp_range(1, 262144);
    VP_ASSUME(cap % 16 != 0);
    RKBuffer mem = NULL;
    VP_ASSERT(RKPulseBufferAlloc(&mem, cap, 1) == 0, "a capacity that cannot be aligned is refused (pulse)");
    VP_ASSERT(RKRayBufferAlloc(&mem, cap, 1) == 0, "a capacity that cannot be aligned is refused (ray)");
    VP_REACH("refused");
}

void pulse_vacant(void) {
    RKBuffer mem = NULL;
    const uint32_t n = 3;
    RKPulseBufferAlloc(&mem, 16, n);
    uint32_t index = vp_range(0, 2);
    uint64_t last = 0;
    bool wrapped = false;
    for (uint32_t k = 0; k < 3; k++) {
        RKPulse *p = RKGetPulseFromBuffer(mem, k);
        p->header.s = RKPulseStatusReadyForMomentEngine;
        p->header.timeDouble = 1.0;
        p->header.positionIndex = k;
    }
    // Start from slot 0 as the radar does, then a symbolic number of requests later
    uint32_t skip = index;
    index = 0;
    for (uint32_t k = 0; k < 6; k++) {
        uint32_t at = index;
        RKPulse *p = RKGetVacantPulseFromBuffer(mem, &index, n);
        VP_ASSERT(p == RKGetPulseFromBuffer(mem, at), "the pulse handed out is the one the index names");
        VP_ASSERT(index == (at + 1) % n, "the index moves to the next slot around the ring");
        VP_ASSERT(p->header.s == RKPulseStatusVacant && p->header.timeDouble == 0.0 && p->header.time.tv_sec == 0, "a pulse handed out is vacant and carries no old time");
        VP_ASSERT(p->header.positionIndex == (uint32_t)-1, "a pulse handed out carries no old position");
        VP_ASSERT(p->header.i == k, "pulse identities count up by one across the ring");
        VP_ASSERT(p->header.i % n == at, "a pulse's identity names its slot");
        VP_ASSERT(p->header.capacity == 16, "a pulse keeps its capacity");
        if (k == 3 + skip % 3) { p->header.s = RKPulseStatusReadyForMomentEngine; wrapped = true; }
        last = p->header.i;
    }
    if (wrapped && last == 5) VP_REACH("around the ring");
    free(mem);
}

static Span ray_span(RKBuffer mem, uint32_t k, int kind, int m, uint32_t cap) {
    RKRay *p0 = (RKRay *)mem;
    size_t o = off(mem, RKGetRayFromBuffer(mem, k));
    Span s = {0, 0};
    switch (kind) {
        case 0: s.a = off(mem, RKGetInt16DataFromRay(p0, m)); s.b = s.a + cap * sizeof(int16_t); break;
        case 1: s.a = off(mem, RKGetUInt8DataFromRay(p0, m)); s.b = s.a + cap * sizeof(uint8_t); break;
        case 2: s.a = off(mem, RKGetFloatDataFromRay(p0, m)); s.b = s.a + cap * sizeof(float); break;
        default: s.a = 0; s.b = sizeof(p0->headerBytes) > sizeof(RKRayHeader) ? sizeof(p0->headerBytes) : sizeof(RKRayHeader); break;
    }
    s.a += o; s.b += o;
    return s;
}

static void ray_layout(uint32_t cap, uint32_t depth, uint32_t k1, uint32_t k2) {
    int r1 = vp_bits(2), r2 = vp_bits(2), m1 = vp_bits(5), m2 = vp_bits(5);
    VP_ASSUME(m1 < RKMomentCount && m2 < RKMomentCount);
    VP_ASSUME(r1 == 0 || m1 < RKBaseProductCount);
    VP_ASSUME(r2 == 0 || m2 < RKBaseProductCount);
    VP_ASSUME(r1 != 3 || m1 == 0);
    VP_ASSUME(r2 != 3 || m2 == 0);
    ((RKRay *)ray_mem)->header.capacity = cap;
    const size_t slot = RKRayHeaderPaddedSize + (size_t)cap * (RKMomentCount * 2 + RKBaseProductCount * 5);
    Span s = ray_span(ray_mem, k1, r1, m1, cap), t = ray_span(ray_mem, k2, r2, m2, cap);
    VP_ASSERT(s.b <= slot * depth, "every region of every ray slot lies inside the ring");
    if (r1 == 2) VP_ASSERT(s.a % sizeof(float) == 0, "float arrays of a ray are aligned");
    if (k1 != k2 || r1 != r2 || m1 != m2) {
        VP_ASSERT(s.b <= t.a || t.b <= s.a, "no two regions of the ray ring overlap");
        VP_REACH("two ray regions");
    }
}

void ray_layout_cap(void) {
    uint32_t cap = 16 * (vp_bits(VP_CAPBITS) + 1), k1 = vp_bits(VP_KBITS), k2 = vp_bits(VP_KBITS);
    ray_layout(cap, 4, k1, k2);
}

void ray_layout_deep(void) {
    uint32_t k1 = vp_bits(12), k2 = vp_bits(12);
    for (int i = 0; i < 3; i++) ray_layout(caps[i], 4096, k1, k2);
}

void ray_alloc(void) {
    uint32_t cap = 16 * vp_range(1, 2), n = vp_range(1, 3);
    RKBuffer mem = NULL;
    size_t bytes = RKRayBufferAlloc(&mem, cap, n);
    VP_ASSERT(bytes == n * (RKRayHeaderPaddedSize + (size_t)cap * (RKMomentCount * 2 + RKBaseProductCount * 5)), "a ray ring takes its header and all its arrays per slot");
    uint32_t k = vp_range(0, 2);
    VP_ASSUME(k < n);
    RKRay *p = RKGetRayFromBuffer(mem, k);
    VP_ASSERT(p->header.capacity == cap, "every ray slot knows its capacity");
    VP_ASSERT(p->header.i == (uint64_t)0 - n + k, "ray identities start one ring before zero");
    VP_ASSERT(p->header.s == RKRayStatusVacant, "ray slots start vacant");
    VP_REACH("ray ring allocated");
    free(mem);
}

void ray_vacant(void) {
    RKBuffer mem = NULL;
    const uint32_t n = 3;
    RKRayBufferAlloc(&mem, 16, n);
    uint32_t index = 0, mark = vp_range(0, 2);
    for (uint32_t k = 0; k < 6; k++) {
        uint32_t at = index;
        RKGetRayFromBuffer(mem, mark)->header.s = RKRayStatusReady;
        RKRay *p = RKGetVacantRayFromBuffer(mem, &index, n);
        VP_ASSERT(p == RKGetRayFromBuffer(mem, at), "the ray handed out is the one the index names");
        VP_ASSERT(index == (at + 1) % n, "the ray index moves to the next slot around the ring");
        VP_ASSERT(p->header.s == RKRayStatusVacant && p->header.startTime.tv_sec == 0 && p->header.endTime.tv_sec == 0, "a ray handed out is vacant and carries no old time");
        VP_ASSERT(p->header.i == k, "ray identities count up by one across the ring");
        VP_ASSERT(p->header.i % n == at, "a ray's identity names its slot");
        VP_ASSERT(p->header.capacity == 16, "a ray keeps its capacity");
    }
    VP_REACH("around the ray ring");
    free(mem);
}
