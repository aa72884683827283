/*VP
{
 "entries": [
  {"name": "gather_shared", "unwind": 6, "unwindset": ["check.0:9","check.1:9","check.2:9"], "checks": "mem", "thorough": {"defines": ["NP=7"], "unwind": 10, "timeout": 1500}, "bounds": "5 pulses (thorough 7) in a ring of 16, any positions, any sweep marks, at most 3 pulses per ray, rays finishing at any time"},
  {"name": "gather_exclusive", "unwind": 6, "unwindset": ["check.0:9","check.1:9","check.2:9"], "checks": "mem", "thorough": {"defines": ["NP=7"], "unwind": 10, "timeout": 1500}, "bounds": "the same without sharing of boundary pulses"},
  {"name": "gather_around", "unwind": 8, "unwindset": ["check.0:9","check.1:9","check.2:9"], "checks": "mem", "thorough": {"defines": ["NP=6"], "unwind": 10, "timeout": 1500}, "bounds": "5 pulses (thorough 6) going around a ring of 4 in two batches, ring of 4 rays, at most 3 pulses per ray"},
  {"name": "gather_position", "unwind": 5, "checks": "mem", "bounds": "2 pulses without a position index at any azimuth and elevation in any kind of scan"},
  {"name": "gather_waits", "unwind": 6, "checks": "mem", "bounds": "any status of the third of 4 pulses"}
 ],
 "scale": {"RKMaximumPulsesPerRay": "3", "RKWorkerDutyCycleBufferDepth": "4", "RKStatusStringLength": "64"},
 "layout": [["typedef union rk_pulse_header \\{", "typedef struct rk_pulse_header {"], ["typedef struct rk_pulse \\{\\n    union \\{", "typedef struct rk_pulse {\\n    struct {"],
  ["typedef struct rk_ray \\{\\n    union \\{", "typedef struct rk_ray {\\n    struct {"]],
 "sources": ["RKMomentEngine.c"],
 "functions": ["RKMomentEngineStart", "pulseGatherer"],
 "assumptions": ["the workers keep up (no worker lags by 90 % of the ring)", "at most 3 pulses per ray instead of 2000 (the code's own constant, scaled at compile time)"],
 "outside": "skipping when workers lag; the old gatherer (useOldCodes)"
}
VP*/
#include "vp.h"

#ifndef NP
#define NP 5
#endif

static RKMomentEngine engine;
static RKRadarDesc desc;
static RKPulse pulses[16];
static RKRay rays[8];
static RKConfig configs[4];
static RKModuloPath sources[8];
static RKFFTModule fft;
static uint32_t configIndex, pulseIndex, rayIndex;
static sem_t sems[2];
static void *(*thread)(void *);

static int n_pulse, n_first, total;         // published, in the first batch, in all
static uint32_t P[16];                      // position of each pulse
static uint32_t mk[16];                     // marker of each pulse
static int n_ray, depth, ray_depth;
static struct { uint32_t origin, length, plan; int core; } ray[8];
static bool exclude, waits, positions, finished[8];
static int wait_at;

int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*f)(void *), void *restrict arg) {
    (void)t; (void)a;
    if (arg == &engine) { thread = f; engine.tic = 1; }
    else ((RKMomentWorker *)arg)->tic = 1;
    return 0;
}
static int opened;
sem_t *sem_open(const char *n, int f, ...) { (void)n; (void)f; VP_ASSERT(opened < 2, "one semaphore per core"); return &sems[opened++]; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; t->tv_sec = 100; t->tv_usec = 0; return 0; }
double RKTimevalDiff(const struct timeval a, const struct timeval b) { (void)a; (void)b; return 0.0; }
float log2f(float x) { return x <= 1.0f ? 0.0f : x <= 2.0f ? 1.0f : x <= 3.0f ? 1.58f : x <= 4.0f ? 2.0f : 3.0f; }
#ifdef VP_SYMBOLIC
float fmodf(float a, float b) { (void)a; (void)b; return 0.0f; }           // only for the reported lag
int snprintf(char *restrict s, size_t n, const char *restrict f, ...) { (void)f; if (n) s[0] = 0; return 0; }
#endif

RKPulse *RKGetPulseFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < (uint32_t)depth, "pulse slots are within the ring"); return &pulses[k]; }
RKRay *RKGetRayFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < (uint32_t)ray_depth, "ray slots are within the ring"); return &rays[k]; }

// A ray is handed to a worker
int sem_post(sem_t *s) {
    const int core = s == &sems[0] ? 0 : 1;
    if (n_ray >= ray_depth) VP_ASSUME(finished[n_ray - ray_depth]);     // the workers keep up
    VP_ASSERT(n_ray < 8, "no more rays than pulses");
    for (int k = 0; k < ray_depth; k++) if (k == n_ray % ray_depth) {
        ray[n_ray].origin = sources[k].origin; ray[n_ray].length = sources[k].length; ray[n_ray].plan = sources[k].planIndex;
        VP_ASSERT(!(rays[k].header.s & RKRayStatusReady), "a ray that is handed to a worker is not ready before it is done");
        if (vp_bool()) { rays[k].header.s = RKRayStatusReady | RKRayStatusProcessed; finished[n_ray] = true; }
    }
    ray[n_ray].core = core;
    n_ray++;
    return 0;
}

static void publish(int n) {
    for (; n_pulse < n; n_pulse++) {
        const int s = n_pulse % depth;
        P[n_pulse] = vp_bits(2);
        mk[n_pulse] = vp_bits(3);
        pulses[s].header.positionIndex = P[n_pulse];
        pulses[s].header.marker = mk[n_pulse];
        pulses[s].header.s = RKPulseStatusReadyForMomentEngine | RKPulseStatusHasIQData;
    }
    pulseIndex = n % depth;
}

static void check(void) {
    int n = 0, r = 0;
    uint32_t origin = 0, cur = (uint32_t)-1;
    for (int k = 0; k < total; k++) {
        const bool end = mk[k] & RKMarkerSweepEnd;
        if (mk[k] & RKMarkerSweepBegin) { origin = k % depth; n = 0; cur = P[k]; }
        if (P[k] != cur || n == RKMaximumPulsesPerRay || end) {
            cur = P[k];
            if (n > 0) {
                // The ray goes from its first pulse to this one, or to the one before
                const int len = exclude && !end && n > 1 ? n - 1 : n;
                VP_ASSERT(r < n_ray, "a ray ends where the position changes, a sweep ends or the ray is full");
                VP_ASSERT(ray[r].origin == origin, "a ray begins where the previous one ended, or where its sweep begins");
                VP_ASSERT(ray[r].length == (uint32_t)len, "a ray spans all the pulses of its position");
                VP_ASSERT(ray[r].core == (r & 1), "rays are handed to the workers in turn");
                VP_ASSERT(ray[r].plan < 4 && (1 << ray[r].plan) >= len && (ray[r].plan == 0 || (1 << ray[r].plan) < 2 * len), "the transform plan is the smallest that holds the pulses");
                r++;
                origin = k % depth;
                n = 0;
            }
        }
        n++;
    }
    VP_ASSERT(r == n_ray, "no other ray is made");
    int done = 0;
    bool all = true;
    for (int k = 0; k < 8; k++) if (k < n_ray) { all = all && finished[k]; if (all) done++; }
    for (int k = 0; k < 8; k++) if (k == done) VP_ASSERT(rayIndex == (uint32_t)(k % ray_depth), "the ray index follows the rays that are ready, in order");
    if (n_ray > 2) VP_REACH("rays");
}

static void check_positions(void) {
    for (int k = 0; k < total; k++) {
        const RKPulseHeader *h = &pulses[k].header;
        const uint32_t a = (uint32_t)(int)h->azimuthDegrees, e = (uint32_t)(int)h->elevationDegrees;
        const uint32_t type = configs[h->configIndex & 3].startMarker & RKMarkerScanTypeMask;
        VP_ASSERT(h->positionIndex == (type == RKMarkerScanTypePPI ? a : type == RKMarkerScanTypeRHI ? e : e * 360 + a), "pulses are grouped by whole degrees of the axis that moves");
    }
    VP_REACH("positions");
}

int usleep(useconds_t t) {
    (void)t;
    if (n_pulse < total) { publish(total); return 0; }
    if (waits) {
        VP_ASSERT(engine.state & RKEngineStateSleep2, "a pulse waits until it is ready");
        VP_ASSERT((pulses[wait_at].header.s & RKPulseStatusReadyForMomentEngine) != RKPulseStatusReadyForMomentEngine || pulseIndex == 2, "only a pulse that is not ready waits");
        VP_REACH("waiting");
        VP_STOP();
    }
    if (positions) check_positions();
    else check();
    VP_STOP();
    return 0;
}

static void setup(int d, int rd, int first, int all) {
    depth = d; ray_depth = rd; total = all;
    desc.pulseBufferDepth = d; desc.rayBufferDepth = rd; desc.configBufferDepth = 4;
    engine.radarDescription = &desc;
    engine.configBuffer = configs; engine.configIndex = &configIndex;
    engine.pulseBuffer = (RKBuffer)pulses; engine.pulseIndex = &pulseIndex;
    engine.rayBuffer = (RKBuffer)rays; engine.rayIndex = &rayIndex;
    engine.momentSource = sources;
    engine.fftModule = &fft;
    engine.coreCount = 2;
    engine.useSemaphore = true;
    engine.excludeBoundaryPulses = exclude;
    engine.state = RKEngineStateAllocated | RKEngineStateProperlyWired;
    for (int k = 1; k < rd; k++) rays[k].header.s = RKRayStatusReady;       // from an earlier round
    publish(first);
}

static void go(void) {
    RKMomentEngineStart(&engine);
    thread(&engine);
}

void gather_shared(void) { setup(16, 8, NP, NP); go(); }

void gather_exclusive(void) { exclude = true; setup(16, 8, NP, NP); go(); }

void gather_around(void) { setup(4, 4, 3, NP); go(); }

void gather_position(void) {
    positions = true;
    setup(8, 4, 2, 2);
    for (int k = 0; k < 2; k++) {
        RKPulseHeader *h = &pulses[k].header;
        h->positionIndex = (uint32_t)-1;
        h->azimuthDegrees = vp_f32(); h->elevationDegrees = vp_f32();
        VP_ASSUME(h->azimuthDegrees >= 0.0f && h->azimuthDegrees <= 360.0f && h->elevationDegrees >= 0.0f && h->elevationDegrees <= 180.0f);
        h->configIndex = k;
        configs[k].startMarker = vp_bits(7);
    }
    go();
}

void gather_waits(void) {
    setup(8, 4, 4, 4);
    wait_at = 2;
    const uint32_t s = vp_bits(11);
    pulses[2].header.s = s;
    waits = (s & RKPulseStatusReadyForMomentEngine) != RKPulseStatusReadyForMomentEngine;
    if (!waits) VP_STOP();
    go();
}
