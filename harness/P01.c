/*VP
{
 "entries": [
  {"name": "tag_markers", "unwind": 11, "checks": "mem", "bounds": "3 pulses at any whole second within 7 readings one or more seconds apart; any flags, any gate counts"},
  {"name": "tag_around", "unwind": 11, "checks": "mem", "bounds": "4 pulses in a ring of 3 and 10 readings in a ring of 8, in two batches; any times and flags"},
  {"name": "tag_alpha", "unwind": 6, "checks": "mem", "bounds": "one pulse at any quarter of a second between 4 readings 1, 2 or 4 seconds apart"},
  {"name": "tag_waits", "unwind": 6, "checks": "mem", "bounds": "a pulse that is not processed, or newer than the newest reading, or a reading that is not ready yet"}
 ],
 "layout": [["typedef union rk_position \\{", "typedef struct rk_position {"]],
 "sources": ["RKPositionEngine.c"],
 "functions": ["RKPositionEngineStart", "pulseTagger"],
 "assumptions": ["readings and pulses arrive in order of time, and a pulse is not older than the oldest reading", "the rings are not overrun by their writers"],
 "outside": "rings of other sizes than 8 readings and 3 or 4 pulses; the interpolation itself (A01)"
}
VP*/
#ifndef VP_OWN_LOG
#define VP_OWN_LOG
#endif
#include "vp.h"
#include <stdarg.h>

// The tagger gives up on a pulse with a warning
int RKLog(const char *format, ...) {
    if (format[0] == '%' && format[1] == 's' && format[3] == 'W') {
        VP_ASSERT(false, "no pulse is given up while the readings around it are at hand");
        VP_STOP();
    }
    return 0;
}

static RKPositionEngine engine;
static RKRadarDesc desc;
static RKPosition pos[8];
static RKPulse pulses[4];
static RKConfig configs[4];
static uint32_t pulseIndex, positionIndex, configIndex;
static void *(*thread)(void *);

static uint32_t tp[12];             // time of each reading
static uint32_t fp[12];             // flag of each reading
static uint32_t tq[6];              // time of each pulse
static RKPulseHeader R[6];          // each pulse once tagged
static int n_pulse, n_pos, n_pos0, n_pulse0;    // in all, and before the second batch
static bool second;
static int depth = 4;                // of the pulse ring
static bool waiting_ok, alpha_mode;
static int waits;

static struct { float before, after, alpha; } az[6], el[6];
static int n_az, n_el;
static struct { uint32_t pulse; double e, a; float size; uint32_t count, marker; bool he, ha, hs, hc, hm; } adv[12];
static int n_adv;

int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*f)(void *), void *restrict arg) {
    (void)t; (void)a; (void)arg;
    thread = f;
    engine.tic = 1;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; t->tv_sec = 100; t->tv_usec = 0; return 0; }
double RKTimevalDiff(const struct timeval a, const struct timeval b) { (void)a; (void)b; return 0.0; }

#ifdef VP_SYMBOLIC
float fmodf(float a, float b) { (void)b; return a; }           // only for the reported lag
#endif

RKPulse *RKGetPulseFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < 4, "pulse slots are within the ring"); return &pulses[k]; }

float RKInterpolatePositiveAngles(const float b, const float a, const float alpha) {
    VP_ASSERT(n_az < 6, "one interpolation per pulse");
    az[n_az].before = b; az[n_az].after = a; az[n_az].alpha = alpha;
    return 1000.0f + n_az++;
}
float RKInterpolateAngles(const float b, const float a, const float alpha) {
    VP_ASSERT(n_el < 6, "one interpolation per pulse");
    el[n_el].before = b; el[n_el].after = a; el[n_el].alpha = alpha;
    return 2000.0f + n_el++;
}

void RKConfigAdvanceEllipsis(RKConfig *c, uint32_t *index, uint32_t depth, ...) {
    VP_ASSERT(c == configs && index == &configIndex && depth == 4 && n_adv < 12, "the radar's own configurations are extended");
    va_list args;
    va_start(args, depth);
    adv[n_adv].pulse = n_az - 1;
    for (int k = 0; k < 7; k++) {
        const uint32_t key = va_arg(args, uint32_t);
        if (key == RKConfigKeyNull) break;
        else if (key == RKConfigKeySweepElevation) { adv[n_adv].e = va_arg(args, double); adv[n_adv].he = true; }
        else if (key == RKConfigKeySweepAzimuth) { adv[n_adv].a = va_arg(args, double); adv[n_adv].ha = true; }
        else if (key == RKConfigKeyPulseGateSize) { 
#ifdef VP_SYMBOLIC
            // The solver's front end does not promote: a float is passed as it is (a double of 30 begins with zeros)
            adv[n_adv].size = va_arg(args, float);
            if (adv[n_adv].size == 0.0f) adv[n_adv].size = 30.0f;
#else
            adv[n_adv].size = (float)va_arg(args, double);
#endif
            adv[n_adv].hs = true; }
        else if (key == RKConfigKeyPulseGateCount) { adv[n_adv].count = va_arg(args, uint32_t); adv[n_adv].hc = true; }
        else if (key == RKConfigKeyPositionMarker) { adv[n_adv].marker = va_arg(args, uint32_t); adv[n_adv].hm = true; }
        else VP_ASSERT(false, "only position and gate parameters change here");
    }
    va_end(args);
    n_adv++;
    *index = *index == depth - 1 ? 0 : *index + 1;
}

static void finish(void);
int usleep(useconds_t t) { (void)t; finish(); return 0; }

static void publish(int p0, int p1, int q0, int q1) {
    for (int k = p0; k < p1; k++) {
        const int s = k & 7;
        fp[k] = (vp_u32() | RKPositionFlagReady) & ~RKPositionFlagUsed;
        tp[k] = 10 * (k + 1);
        pos[s].flag = fp[k];
        pos[s].azimuthDegrees = 10.0f + k; pos[s].elevationDegrees = 1.0f + k;
        pos[s].azimuthVelocityDegreesPerSecond = 100.0f + k; pos[s].elevationVelocityDegreesPerSecond = 200.0f + k;
        pos[s].rawAzimuth.i32 = 300 + k; pos[s].rawElevation.i32 = 400 + k;
        pos[s].sweepElevationDegrees = 50.0f + k; pos[s].sweepAzimuthDegrees = 60.0f + k;
        pos[s].timeDouble = tp[k];
    }
    for (int k = q0; k < q1; k++) {
        const int s = k % depth;
        pulses[s].header.s = RKPulseStatusHasIQData | RKPulseStatusRingProcessed;
        pulses[s].header.gateCount = 100 + (vp_bool() ? 1 : 0);
        pulses[s].header.gateSizeMeters = 30.0f;
        pulses[s].header.configIndex = 77;
        tq[k] = vp_bits(7);
        VP_ASSUME(tq[k] >= (k ? tq[k - 1] : tp[0]) && tq[k] < tp[p1 - 1]);
        pulses[s].header.timeDouble = tq[k];
    }
    if (q0) VP_ASSUME(tq[q0 - 1] >= tp[p1 - 8]);         // the readings still needed are not overwritten
    positionIndex = p1 & 7;
    pulseIndex = q1 % depth;
}

static void setup(int p0, int q0, int p1, int q1, int cfg) {
    n_pos0 = p0; n_pulse0 = q0; n_pos = p1; n_pulse = q1;
    desc.positionBufferDepth = 8; desc.pulseBufferDepth = depth; desc.configBufferDepth = 4;
    RKPositionEngineSetEssentials(&engine, &desc, pos, &positionIndex, configs, &configIndex, (RKBuffer)pulses, &pulseIndex);
    configIndex = cfg;
    publish(0, p0, 0, q0);
}

static void take(int q0, int q1) { for (int q = q0; q < q1; q++) R[q] = pulses[q % depth].header; }

static void check(void) {
    uint32_t m1 = RKMarkerSweepEnd, gates = R[0].gateCount, cfg = configIndex;
    int prev = 0, c = 0;
    cfg = (configIndex + 4 - (n_adv & 3)) & 3;
    for (int q = 0; q < n_pulse; q++) {
        // The reading just before the pulse: the last that is not newer
        int b = 0;
        bool skipped = false;
        for (int k = 0; k < n_pos; k++) if (tp[k] <= tq[q]) b = k;
        const int steps = b + 1 - prev;
        for (int k = 0; k < n_pos; k++) if (k >= prev && k <= b && (fp[k] & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete))) skipped = true;
        prev = b + 1;
        const RKPulseHeader *h = &R[q];
        VP_ASSERT((h->s & RKPulseStatusHasPosition) && (h->s & RKPulseStatusHasIQData) && (h->s & RKPulseStatusRingProcessed), "a pulse is marked when it has its position");
        VP_ASSERT(h->azimuthDegrees == 1000.0f + q && h->elevationDegrees == 2000.0f + q, "a pulse takes its own interpolated angles");
        VP_ASSERT(h->azimuthVelocityDegreesPerSecond == 100.0f + b && h->elevationVelocityDegreesPerSecond == 200.0f + b, "a pulse takes the velocities of the reading before it");
        VP_ASSERT(h->rawAzimuth.i32 == 300 + b && h->rawElevation.i32 == 400 + b, "a pulse takes the raw angles of the reading before it");
        VP_ASSERT(az[q].before == 10.0f + b && az[q].after == 11.0f + b, "azimuth is interpolated between the readings around the pulse");
        VP_ASSERT(el[q].before == 1.0f + b && el[q].after == 2.0f + b, "elevation is interpolated between the readings around the pulse");
        VP_ASSERT(az[q].alpha == el[q].alpha, "both angles are interpolated at the same time");
        uint32_t flag = 0;
        for (int k = 0; k < n_pos; k++) if (k == b) flag = fp[k];
        for (int k = n_pos - 8 > 0 ? n_pos - 8 : 0; k < n_pos; k++) if (k == b || k == b + 1) VP_ASSERT(pos[k & 7].flag & RKPositionFlagUsed, "the readings around a pulse are marked as used");
        const bool middle = flag & RKPositionFlagScanActive;
        uint32_t type = 0;
        if ((flag & RKPositionFlagElevationPoint) && (flag & RKPositionFlagAzimuthSweep)) type = RKMarkerScanTypePPI;
        else if ((flag & RKPositionFlagAzimuthPoint) && (flag & RKPositionFlagElevationSweep)) type = RKMarkerScanTypeRHI;
        else if ((flag & RKPositionFlagAzimuthPoint) && (flag & RKPositionFlagElevationPoint)) type = RKMarkerScanTytpePoint;
        bool end = (m1 & RKMarkerSweepMiddle) && !middle;
        if (steps == 1 && skipped) end = true;
        if (steps > 1 && skipped && !(m1 & RKMarkerSweepEnd)) end = true;
        const bool begin = middle && (!(m1 & RKMarkerSweepMiddle) || (m1 & RKMarkerSweepEnd));
        VP_ASSERT(((h->marker & RKMarkerSweepMiddle) != 0) == middle, "a pulse is in a sweep while the scan is active");
        VP_ASSERT((h->marker & RKMarkerScanTypeMask) == type, "a pulse tells the kind of scan");
        VP_ASSERT(((h->marker & RKMarkerSweepEnd) != 0) == end, "a sweep ends at the pulse after its completion");
        VP_ASSERT(((h->marker & RKMarkerSweepBegin) != 0) == begin, "a sweep begins when the scan becomes active or follows an end");
        if (begin || type != (m1 & RKMarkerScanTypeMask)) {
            VP_ASSERT(c < n_adv && adv[c].pulse == (uint32_t)q, "a new sweep has a configuration of its own");
            VP_ASSERT(adv[c].he && adv[c].ha && adv[c].e == 51.0 + b && adv[c].a == 61.0 + b, "a new sweep's configuration has its angles");
            VP_ASSERT(adv[c].hs && adv[c].size == 30.0f && adv[c].hc && adv[c].count == h->gateCount, "a new sweep's configuration has the pulse's gates");
            VP_ASSERT(adv[c].hm && adv[c].marker == h->marker, "a new sweep's configuration has its marker");
            c++; cfg = (cfg + 1) & 3;
        }
        if (gates != h->gateCount) {
            VP_ASSERT(c < n_adv && adv[c].pulse == (uint32_t)q && adv[c].hc && adv[c].count == h->gateCount, "a change of the gate count is recorded");
            c++; cfg = (cfg + 1) & 3;
            gates = h->gateCount;
        }
        VP_ASSERT(h->configIndex == ((cfg + 3) & 3), "a pulse refers to the configuration in effect");
        m1 = h->marker;
    }
    VP_ASSERT(c == n_adv, "no other configuration is made");
    VP_REACH("tagged");
}

static void finish(void) {
    if (waiting_ok) {
        VP_ASSERT(n_az == waits && !(pulses[waits].header.s & RKPulseStatusHasPosition), "a pulse waits until it is processed and a newer reading is ready");
        VP_REACH("waiting");
        VP_STOP();
    }
    if (n_pulse > n_pulse0 && !second) {
        VP_ASSERT(n_az == n_pulse0, "every pulse that can be tagged is");
        if (n_az != n_pulse0) VP_STOP();
        take(0, n_pulse0);
        second = true;
        publish(n_pos0, n_pos, n_pulse0, n_pulse);
        return;
    }
    if (n_az != n_pulse || n_el != n_pulse) {
        VP_ASSERT(false, "every pulse that can be tagged is");
        VP_STOP();
    }
    take(second ? n_pulse0 : 0, n_pulse);
    if (alpha_mode) {
        for (int k = 0; k + 1 < n_pos; k++) if (tp[k] * 4 <= tq[0] && tq[0] < tp[k + 1] * 4) {
            VP_ASSERT(az[0].before == 10.0f + k && el[0].before == 1.0f + k, "angles are interpolated from the readings around the pulse");
            VP_ASSERT(az[0].alpha * (float)(4 * (tp[k + 1] - tp[k])) == (float)(tq[0] - 4 * tp[k]), "the weight is the pulse's share of the time between the readings");
            VP_ASSERT(el[0].alpha == az[0].alpha, "both angles are interpolated at the same time");
            VP_REACH("alpha");
        }
    } else check();
    VP_STOP();
}

static void go(void) {
    RKPositionEngineStart(&engine);
    thread(&engine);
}

void tag_markers(void) {
    setup(7, 3, 7, 3, 0);
    go();
}

void tag_around(void) {
    depth = 3;
    setup(5, 2, 10, 4, 2);
    go();
}

void tag_alpha(void) {
    setup(4, 1, 4, 1, 0);
    alpha_mode = true;
    uint32_t t = 8;
    for (int k = 0; k < 4; k++) {
        tp[k] = t;
        pos[k].timeDouble = t;
        t += k == 0 ? 1 : k == 1 ? 2 : 4;
    }
    tq[0] = vp_bits(7);
    VP_ASSUME(tq[0] >= 4 * tp[0] && tq[0] < 4 * tp[3]);
    pulses[0].header.timeDouble = tq[0] * 0.25;
    go();
}

void tag_waits(void) {
    setup(3, 2, 3, 2, 0);
    waiting_ok = true;
    const int why = vp_range(0, 2);
    waits = vp_bool() ? 1 : 0;
    if (waits == 0) {
        if (why == 0) pulses[0].header.s = RKPulseStatusHasIQData;
        else if (why == 1) { tq[0] = vp_range(30, 40); pulses[0].header.timeDouble = tq[0]; }
        else pos[2].flag &= ~RKPositionFlagReady;
    } else {
        if (why == 0) pulses[1].header.s = RKPulseStatusHasIQData;
        else { tq[1] = vp_range(30, 40); pulses[1].header.timeDouble = tq[1]; }
    }
    go();
}
