/*VP
{
 "entries": [
  {"name": "worker_first", "unwind": 9, "checks": "mem", "defines": ["LEN1=3","LEN2=4"], "bounds": "the first of 2 workers makes a ray of 4 pulses and then one of 5 that wraps around a ring of 8; any marks, states, configurations, gates, sectors and outcome of the noise estimator"},
  {"name": "worker_first_short", "unwind": 9, "checks": "mem", "defines": ["LEN1=2","LEN2=3"], "bounds": "the same, a ray of 3 pulses (too few) and then one of 4"},
  {"name": "worker_second", "unwind": 9, "checks": "mem", "defines": ["LEN1=4","LEN2=0"], "bounds": "the second of 2 workers, a ray of 5 pulses and then one of 1"},
  {"name": "worker_second_idle", "unwind": 9, "checks": "mem", "defines": ["LEN1=3","LEN2=3","RAYS=3"], "bounds": "the second of 2 workers, three rays of 4 pulses, so that its slots of the ring are reused"},
  {"name": "zeroed", "defines": ["ZEROED"], "unwind": 4, "flags": ["--unwindset", "__CPROVER_file_local_RKMomentEngine_c_zeroOutRay.0:420,zeroed.0:850,zeroed.1:420"], "checks": "mem", "bounds": "a ray of 16 gates in a ring of 2, every byte of every product"}
 ],
 "scale": {"RKWorkerDutyCycleBufferDepth": "4", "RKStatusStringLength": "128", "RKMaximumCommandLength": "16", "RKNameLength": "16"},
 "layout": [["typedef union rk_pulse_header \\{", "typedef struct rk_pulse_header {"], ["typedef struct rk_pulse \\{\\n    union \\{", "typedef struct rk_pulse {\\n    struct {"],
  ["typedef struct rk_ray \\{\\n    union \\{", "typedef struct rk_ray {\\n    struct {"], ["typedef union rk_config \\{", "typedef struct rk_config {"]],
 "sources": ["RKMomentEngine.c", "RKFoundation.c"],
 "functions": ["momentEngineCore", "zeroOutRay"],
 "assumptions": ["the noise estimator, moment processor, calibrator and the conversion to a ray are models that record their arguments (they are decided by M03 to M05)", "log10f is a constant"],
 "outside": "waiting without semaphores, CPU assignment, the status string, rays of more than 5 pulses"
}
VP*/
#include "vp.h"

#ifndef RAYS
#define RAYS 2
#endif
#ifndef LEN1
#define LEN1 3
#define LEN2 4
#endif
#ifndef ORIGIN
#define ORIGIN 2
#endif

static RKMomentEngine engine;
static RKMomentWorker me;
static RKRadarDesc desc;
static RKMomentScratch scratch;
static RKPulse p0, p1, p2, p3, p4, p5, p6, p7;
static inline RKPulse *pulse_at(const uint32_t k) {
    switch (k & 7) { case 0: return &p0; case 1: return &p1; case 2: return &p2; case 3: return &p3; case 4: return &p4; case 5: return &p5; case 6: return &p6; default: return &p7; }
}
static RKRay rays[4];
static RKConfig configs[2];
static RKModuloPath sources[4];
static uint32_t pulseIndex;
static int core, n_ray;
static uint32_t origin, length;
static float minor[2];
static int n_minor, n_cal, n_noise, n_config_noise, n_process, n_make, n_zero, noise_result;
static uint32_t cal_config, cal_gates;
static RKPulseStatus before[8];

void *__CPROVER_file_local_RKMomentEngine_c_momentEngineCore(void *);
void __CPROVER_file_local_RKMomentEngine_c_zeroOutRay(RKRay *);
#ifdef VP_SYMBOLIC
void *memcpy(void *restrict d, const void *restrict s, size_t n) {
    VP_ASSERT(n == sizeof(RKConfig), "only configurations are copied");
    if (s == &configs[0]) *(RKConfig *)d = configs[0]; else *(RKConfig *)d = configs[1];
    return d;
}
float fmodf(float a, float b) { (void)a; (void)b; return 0.0f; }
float sqrtf(float x) { (void)x; return 1.0f; }
float log10f(float x) { (void)x; return 0.0f; }
int snprintf(char *restrict s, size_t n, const char *restrict f, ...) { (void)f; if (n) s[0] = 0; return 0; }
int sprintf(char *restrict s, const char *restrict f, ...) { (void)f; s[0] = 0; return 0; }
#endif
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; t->tv_sec = 100; t->tv_usec = 0; return 0; }
double RKTimevalDiff(const struct timeval a, const struct timeval b) { (void)a; (void)b; return 1.0; }
RKPulse *RKGetPulseFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < 8, "pulse slots are within the ring"); return pulse_at(k); }
#ifndef ZEROED
RKRay *RKGetRayFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < 4, "ray slots are within the ring"); return &rays[k]; }
#endif
size_t RKMomentScratchAlloc(RKMomentScratch **s, const uint32_t c, const uint8_t v, const char *n) { (void)v; (void)n; *s = &scratch; scratch.capacity = c; return 1; }
void RKMomentScratchFree(RKMomentScratch *s) { (void)s; }
float RKGetMinorSectorInDegrees(const float a, const float b) {
    const RKPulse *s = pulse_at(origin), *e = pulse_at((origin + length) & 7);
    const bool az = a == s->header.azimuthDegrees && b == e->header.azimuthDegrees;
    VP_ASSERT(n_minor == 0 ? az : (a == s->header.elevationDegrees && b == e->header.elevationDegrees), "the extent of a ray is that of its first and last pulse");
    return minor[n_minor++];
}
static void calibrate(RKUserModule m, RKMomentScratch *s) {
    (void)m;
    VP_ASSERT(s == &scratch, "calibration goes to the worker's own scratch space");
    n_cal++;
    cal_config = s->config == &configs[1] ? 1 : 0;
    cal_gates = s->gateCount;
}
int prepareScratch(RKMomentScratch *s) { s->fftOrder = -1; return 0; }
static void check_args(RKMomentScratch *s, RKPulse **p, const uint16_t count) {
    VP_ASSERT(s == &scratch && count == length + 1, "a ray is made of all its pulses");
    for (int k = 0; k < 5; k++) if (k < count) VP_ASSERT(p[k] == pulse_at((origin + k) & 7), "a ray is made of its pulses in order");
    const RKPulseHeader *e = &pulse_at((origin + length) & 7)->header;
    VP_ASSERT(n_cal ? cal_config == e->configIndex && cal_gates == e->downSampledGateCount : e->configIndex == 0 && e->downSampledGateCount == 0, "a ray is calibrated for the configuration and the gates of its last pulse");
}
static int noise(RKMomentScratch *s, RKPulse **p, const uint16_t count) {
    check_args(s, p, count); n_noise++;
    return noise_result;
}
int RKNoiseFromConfig(RKMomentScratch *s, RKPulse **p, const uint16_t count) {
    check_args(s, p, count); n_config_noise++;
    return RKResultSuccess;
}
static int process(RKMomentScratch *s, RKPulse **p, const uint16_t count) {
    check_args(s, p, count);
    VP_ASSERT(n_noise == 1 && n_config_noise == (noise_result != RKResultSuccess), "moments are derived with the estimated noise, or with the configured one where no estimate was had");
    n_process++;
    return count;
}
int makeRayFromScratch(RKMomentScratch *s, RKRay *r) {
    VP_ASSERT(n_process == 1 && s == &scratch, "a ray is filled in after its moments are derived");
    for (int k = 0; k < 4; k++) if (r == &rays[k]) VP_ASSERT(k == ((core + 2 * (n_ray - 1)) & 3), "a worker fills in its own rays");
    n_make++;
    return 0;
}
#ifndef ZEROED
void __CPROVER_file_local_RKMomentEngine_c_zeroOutRay(RKRay *r) { (void)r; n_zero++; }
#endif

static void check(void) {
    const int io = (core + 2 * (n_ray - 1)) & 3;
    const RKRayHeader *h = &rays[io].header;
    const RKPulseHeader *s = &pulse_at(origin)->header, *e = &pulse_at((origin + length) & 7)->header;
    VP_ASSERT(h->startTimeDouble == s->timeDouble && h->startTime.tv_sec == s->time.tv_sec && h->startAzimuth == s->azimuthDegrees && h->startElevation == s->elevationDegrees, "a ray starts with its first pulse");
    VP_ASSERT(h->endTimeDouble == e->timeDouble && h->endTime.tv_sec == e->time.tv_sec && h->endAzimuth == e->azimuthDegrees && h->endElevation == e->elevationDegrees, "a ray ends with its last pulse");
    VP_ASSERT(h->configIndex == e->configIndex && h->gateSizeMeters == 30.0f, "a ray refers to the configuration of its last pulse and has its gate size times the ratio");
    VP_ASSERT(h->gateCount == e->downSampledGateCount, "a ray has the gates of its last pulse");
    VP_ASSERT(h->sweepElevation == configs[e->configIndex].sweepElevation && h->sweepAzimuth == configs[e->configIndex].sweepAzimuth, "a ray has the sweep angles of its configuration");
    VP_ASSERT(h->i == (uint64_t)(core + 2 * (n_ray - 1)), "rays are numbered across the workers");
    VP_ASSERT(h->pulseCount == length + 1, "a ray counts its pulses");
    RKMarker m = 0;
    for (int k = 0; k < 8; k++) {
        const bool in = ((k - origin) & 7) <= length;
        if (in) m |= pulse_at(k)->header.marker;
        VP_ASSERT(pulse_at(k)->header.s == (in ? before[k] | RKPulseStatusUsedForMoments : before[k]), "exactly the pulses of a ray are marked as used");
    }
    VP_ASSERT(h->marker == m, "a ray carries the marks of all its pulses");
    const bool ok = length + 1 > 3 && minor[0] < 3.0f && minor[1] < 3.0f && (before[origin] & RKPulseStatusCompressed);
    VP_ASSERT(h->s == (RKRayStatusReady | (ok ? RKRayStatusProcessed : RKRayStatusSkipped)), "a ray becomes ready, processed or skipped");
    VP_ASSERT(ok ? n_make == 1 && n_zero == 0 : n_make == 0 && n_zero == 1 && n_process == 0, "a ray is filled in, or cleared when it cannot be processed");
    VP_ASSERT(n_cal == 0 || scratch.velocityFactor > 7.9f && scratch.velocityFactor < 8.0f, "velocities follow from the configuration in use");
    for (int k = 0; k < 4; k++) if ((k & 1) != core) VP_ASSERT(rays[k].header.s == RKRayStatusVacant, "a worker leaves the rays of others alone");
    if (ok) VP_REACH("processed"); else VP_REACH("skipped");
}

static void story(void) {
    const int io = (core + 2 * n_ray) & 3;
    origin = n_ray ? 6 : ORIGIN; length = n_ray ? LEN2 : LEN1;
    sources[io].origin = origin; sources[io].length = length;
    minor[0] = vp_f32(); minor[1] = vp_f32(); n_minor = 0;
    n_noise = n_config_noise = n_process = n_make = n_zero = 0;
    noise_result = vp_bool() ? RKResultSuccess : RKResultTimeout;
    for (int k = 0; k < 8; k++) before[k] = pulse_at(k)->header.s;
    n_ray++;
}

int sem_wait(sem_t *s) {
    VP_ASSERT(s == me.sem, "a worker waits for its own semaphore");
    if (n_ray) check();
    if (n_ray == RAYS) VP_STOP();
    story();
    return 0;
}

static void go(int c) {
    core = c;
    desc.pulseBufferDepth = 8; desc.rayBufferDepth = 4; desc.configBufferDepth = 2; desc.pulseToRayRatio = 2; desc.pulseCapacity = 64; desc.wavelength = 0.1f;
    engine.radarDescription = &desc; engine.configBuffer = configs; engine.pulseBuffer = (RKBuffer)&p0; engine.rayBuffer = (RKBuffer)rays; engine.pulseIndex = &pulseIndex;
    engine.momentSource = sources; engine.coreCount = 2; engine.useSemaphore = true;
    engine.calibrator = calibrate; engine.noiseEstimator = noise; engine.momentProcessor = process;
    engine.state = RKEngineStateWantActive;
    static sem_t sem;
    me.id = c; me.parent = &engine; me.sem = &sem;
    configs[0].prt[0] = 1.0e-3f; configs[1].prt[0] = 1.0e-3f;
    for (int k = 0; k < 2; k++) { configs[k].sweepElevation = 1.0f + k; configs[k].sweepAzimuth = 10.0f + k; }
    for (int k = 0; k < 8; k++) {
        RKPulseHeader *h = &pulse_at(k)->header;
        h->azimuthDegrees = 10.0f + k; h->elevationDegrees = 20.0f + k;
        h->timeDouble = 100.0 + k; h->time.tv_sec = 100 + k;
        h->marker = vp_bits(8); h->s = vp_bits(1) ? RKPulseStatusCompressed | RKPulseStatusHasPosition : RKPulseStatusHasPosition;
        h->configIndex = vp_bits(1); h->downSampledGateCount = vp_bits(5); h->gateSizeMeters = 15.0f;
    }
    __CPROVER_file_local_RKMomentEngine_c_momentEngineCore(&me);
}

#ifndef ZEROED
void worker_first(void) { go(0); }
void worker_first_short(void) { go(0); }
void worker_second_idle(void) { go(1); }
void worker_second(void) { go(1); }
#endif

#ifdef ZEROED
// The products of a ray lie one after another (decided by R01)
static RKFloat F[2 * RKBaseProductCount * 16];
static uint8_t U[2 * RKBaseProductCount * 16];
RKFloat *RKGetFloatDataFromRay(RKRay *r, const RKBaseProductIndex p) { return &F[p * r->header.capacity]; }
uint8_t *RKGetUInt8DataFromRay(RKRay *r, const RKBaseProductIndex p) { return &U[p * r->header.capacity]; }

void zeroed(void) {
    rays[0].header.capacity = 16;
    for (int k = 0; k < 2 * RKBaseProductCount * 16; k++) { F[k] = vp_f32(); U[k] = vp_u8(); VP_ASSUME(U[k] != 0 && F[k] == F[k]); }
    __CPROVER_file_local_RKMomentEngine_c_zeroOutRay(&rays[0]);
    for (int k = 0; k < RKBaseProductCount * 16; k++) {
        VP_ASSERT(F[k] != F[k], "a ray that is cleared has no values");
        VP_ASSERT(U[k] == 0, "a ray that is cleared shows nothing");
        VP_ASSERT(F[RKBaseProductCount * 16 + k] == F[RKBaseProductCount * 16 + k] && U[RKBaseProductCount * 16 + k] != 0, "clearing a ray touches no other");
    }
    VP_REACH("cleared");
}
#endif
