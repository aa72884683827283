/*VP
{
 "entries": [
  {"name": "status", "unwind": 6, "checks": "mem", "bounds": "ring of 4, any slot in turn, any flags, any running number, live or not"},
  {"name": "health", "unwind": 6, "checks": "mem", "bounds": "2 nodes of 4 slots, the same"},
  {"name": "latest_health", "unwind": 6, "checks": "mem", "bounds": "rings of 4, any index, any flags"},
  {"name": "position", "unwind": 18, "checks": "mem", "bounds": "ring of 16, any slot in turn, any flags, any running number, live or not"},
  {"name": "latest_position", "unwind": 18, "checks": "mem", "bounds": "ring of 16, any index, any flags"},
  {"name": "pulse", "unwind": 18, "checks": "mem", "bounds": "ring of 16, any slot in turn, any states, any running number, any gate count, live or not"},
  {"name": "latest_pulse", "unwind": 18, "checks": "mem", "bounds": "ring of 16, any index, any states"},
  {"name": "ray", "unwind": 10, "checks": "mem", "bounds": "ring of 8, any slot in turn, any states, live or not"},
  {"name": "latest_ray", "unwind": 10, "checks": "mem", "bounds": "ring of 8, any index, any states"}
 ],
 "scale": {"RKMaximumStringLength": "64", "RKStatusStringLength": "64"},
 "layout": [["typedef union rk_pulse_header \\{", "typedef struct rk_pulse_header {"], ["typedef struct rk_pulse \\{\\n    union \\{", "typedef struct rk_pulse {\\n    struct {"],
  ["typedef struct rk_ray \\{\\n    union \\{", "typedef struct rk_ray {\\n    struct {"], ["typedef union rk_config \\{", "typedef struct rk_config {"], ["typedef union rk_position \\{", "typedef struct rk_position {"]],
 "sources": ["RKRadar.c", "RKFoundation.c"],
 "functions": ["RKGetVacantStatus", "RKSetStatusReady", "RKGetVacantHealth", "RKSetHealthReady", "RKGetLatestHealth", "RKGetLatestHealthOfNode", "RKGetVacantPosition", "RKSetPositionReady", "RKGetLatestPosition",
   "RKGetVacantPulse", "RKGetVacantPulseFromBuffer", "RKSetPulseHasData", "RKSetPulseReady", "RKGetLatestPulse", "RKGetVacantRay", "RKGetVacantRayFromBuffer", "RKSetRayReady", "RKGetLatestRay", "RKGetLatestRayIndex"],
 "assumptions": ["each step starts from any state of the ring in which the numbers of the slots follow the order of the ring, and leaves such a state: together the steps cover every history", "the clock returns any time (decided by K01)", "the addresses of pulses and rays in their buffers are decided by R01"],
 "outside": "depths other than 4, 8 and 16; what other threads do to the slots meanwhile"
}
VP*/
#include "vp.h"

static RKRadar radar;
static RKStatus statuses[4];
static RKHealth healths[4], nodeHealths[2][4];
static RKNodalHealth nodes[2];
static RKPosition positions[16];
static RKPulse pulses[16];
static RKRay rays[8];
static RKHealthEngine healthEngine;
static RKPositionEngine positionEngine;
static RKClock pclock, qclock;
static double clock_time, clock_tick;
static int clock_calls, clock_resets;
static RKClock *clock_used;

double RKClockGetTime(RKClock *c, const double u, struct timeval *t) {
    clock_calls++;
    clock_used = c; clock_tick = u;
    t->tv_sec = 77; t->tv_usec = 5;
    return clock_time;
}
void RKClockReset(RKClock *c) { VP_ASSERT(c == &qclock, "the clock of pulses starts over with the pulses"); clock_resets++; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; t->tv_sec = 100; t->tv_usec = 250000; return 0; }
RKPulse *RKGetPulseFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < 16, "pulse slots are within the ring"); return &pulses[k]; }
RKRay *RKGetRayFromBuffer(RKBuffer b, const uint32_t k) { (void)b; VP_ASSERT(k < 8, "ray slots are within the ring"); return &rays[k]; }

#ifndef DEPTH
#define DEPTH 16
#endif
#define D1 (DEPTH - 1)
#define AHEAD (DEPTH / 8)
static void setup(void) {
    radar.desc.statusBufferDepth = 4; radar.desc.healthBufferDepth = 4; radar.desc.positionBufferDepth = DEPTH;
    radar.desc.pulseBufferDepth = DEPTH; radar.desc.rayBufferDepth = 8; radar.desc.configBufferDepth = 4;
    radar.status = statuses; radar.healths = healths; radar.healthNodes = nodes; radar.positions = positions;
    radar.pulses = (RKBuffer)pulses; radar.rays = (RKBuffer)rays;
    radar.healthEngine = &healthEngine; radar.positionEngine = &positionEngine; radar.positionClock = &pclock; radar.pulseClock = &qclock;
    for (int k = 0; k < 2; k++) nodes[k].healths = nodeHealths[k];
    radar.state = vp_bool() ? RKRadarStateLive : 0;
    clock_time = vp_f64();
}
#define LIVE (radar.state & RKRadarStateLive)
// The number of slot k when slot o is next in turn and gets number n, in a ring of d
#define NUM(k, o, n, d) ((n) - (d) + (((k) - (o)) & ((d) - 1)))

void status(void) {
    setup();
    const uint32_t o = vp_bits(2);
    const uint64_t n = vp_u64();
    RKStatusFlag f[4];
    for (int k = 0; k < 4; k++) { statuses[k].i = NUM(k, o, n, 4); f[k] = statuses[k].flag = vp_bits(1); }
    radar.statusIndex = o;
    RKStatus *s = RKGetVacantStatus(&radar);
    VP_ASSERT(s == &statuses[o], "slots are handed out in turn");
    VP_ASSERT(radar.statusIndex == (LIVE ? (o + 1) & 3 : o), "the next slot is the one after it once the radar is live");
    for (int k = 0; k < 4; k++) {
        VP_ASSERT(statuses[k].i == (LIVE ? NUM(k, (o + 1) & 3, n + 1, 4) : NUM(k, o, n, 4)), "slots are numbered in the order in which they are handed out");
        VP_ASSERT(statuses[k].flag == (LIVE && k == ((o + 1) & 3) ? RKStatusFlagVacant : f[k]), "the next slot becomes vacant and no other");
    }
    const RKStatusFlag was = s->flag;
    RKSetStatusReady(&radar, s);
    VP_ASSERT(s->flag == (LIVE ? was | RKStatusFlagReady : was), "a slot is ready once it is declared so");
    if (LIVE) VP_REACH("live"); else VP_REACH("not live");
}

void health(void) {
    setup();
    const uint32_t o = vp_bits(2);
    const int q = vp_bits(1);
    const uint64_t n = vp_u64();
    RKHealthFlag f[2][4];
    for (int j = 0; j < 2; j++) for (int k = 0; k < 4; k++) {
        nodeHealths[j][k].i = NUM(k, o, n, 4); f[j][k] = nodeHealths[j][k].flag = vp_bits(2);
        nodeHealths[j][k].string[0] = 'x';
    }
    nodes[q].index = o; nodes[1 - q].index = vp_bits(2);
    const uint32_t other = nodes[1 - q].index;
    const bool other_active = nodes[1 - q].active = vp_bool();
    RKHealth *h = RKGetVacantHealth(&radar, q);
    VP_ASSERT(h == &nodeHealths[q][o], "slots are handed out in turn");
    VP_ASSERT(nodes[q].active && nodes[1 - q].active == other_active, "a node that reports is active");
    VP_ASSERT(nodes[q].index == (LIVE ? (o + 1) & 3 : o) && nodes[1 - q].index == other, "the next slot is the one after it once the radar is live");
    for (int j = 0; j < 2; j++) for (int k = 0; k < 4; k++) {
        const bool next = j == q && LIVE && k == ((o + 1) & 3);
        VP_ASSERT(nodeHealths[j][k].i == (j == q && LIVE ? NUM(k, (o + 1) & 3, n + 1, 4) : NUM(k, o, n, 4)), "slots are numbered in the order in which they are handed out");
        VP_ASSERT(nodeHealths[j][k].flag == (next ? RKHealthFlagVacant : f[j][k]) && nodeHealths[j][k].string[0] == (next ? 0 : 'x'), "the next slot becomes vacant and no other");
    }
    RKSetHealthReady(&radar, h);
    VP_ASSERT(h->flag == RKHealthFlagReady && h->time.tv_sec == 100 && h->timeDouble > 100.24 && h->timeDouble < 100.26, "a report is ready, and stamped, once it is declared so");
    radar.healthEngine = NULL;
    VP_ASSERT(RKGetVacantHealth(&radar, q) == NULL, "no report is taken before the engine runs");
    VP_REACH("reported");
}

void latest_health(void) {
    setup();
    const uint32_t o = vp_bits(2);
    for (int k = 0; k < 4; k++) { healths[k].flag = vp_bits(2); nodeHealths[1][k].flag = healths[k].flag; }
    radar.healthIndex = o; nodes[1].index = o;
    const int a = (o + 3) & 3, b = (o + 2) & 3;
    const int want = (healths[a].flag & RKHealthFlagReady) ? a : b;
    VP_ASSERT(RKGetLatestHealth(&radar) == &healths[want], "the latest report is the last one, or the one before while it is not ready");
    VP_ASSERT(RKGetLatestHealthOfNode(&radar, 1) == &nodeHealths[1][want], "the latest report of a node is its last one, or the one before while it is not ready");
    VP_REACH("reported");
}

static void position_at(const uint32_t o) {
    const uint64_t n = vp_u64();
    RKPositionFlag f[16];
    for (int k = 0; k < 16; k++) { positions[k].i = NUM(k, o, n, 16); f[k] = positions[k].flag = vp_u32(); positions[k].sweepElevationDegrees = 1.0f; positions[k].sweepAzimuthDegrees = 2.0f; }
    radar.positionIndex = o;
    RKPosition *p = RKGetVacantPosition(&radar);
    VP_ASSERT(p == &positions[o] && radar.positionIndex == o, "slots are handed out in turn");
    for (int k = 0; k < 16; k++) {
        VP_ASSERT(positions[k].i == (LIVE && k == o ? n : NUM(k, o, n, 16)), "slots are numbered in the order in which they are handed out");
        VP_ASSERT(positions[k].flag == (k == o || k == ((o + 2) & 15) ? RKPositionFlagVacant : f[k]), "a slot is vacant when handed out, and so is one an eighth of the ring ahead, and no other");
    }
    if (LIVE) VP_ASSERT(p->sweepElevationDegrees == 0.0f && p->sweepAzimuthDegrees == 0.0f, "a reading starts without the angles of a sweep");
    p->tic = vp_bits(20);
    p->flag = f[o] & RKPositionFlagHardwareMask;
    RKSetPositionReady(&radar, p);
    VP_ASSERT(clock_calls == 1 && clock_used == &pclock && clock_tick == (double)p->tic && (p->timeDouble == clock_time || clock_time != clock_time) && p->time.tv_sec == 77, "a reading is stamped by the clock of the pedestal");
    VP_ASSERT(p->flag == ((f[o] & RKPositionFlagHardwareMask) | RKPositionFlagReady), "a reading is ready once it is declared so, and keeps its flags");
    VP_ASSERT(radar.positionIndex == ((o + 1) & 15), "the next slot is the one after it");
    VP_REACH("read");
}
void position(void) {
    setup();
    switch (vp_bits(4)) {
        case 0: position_at(0); break;
        case 1: position_at(1); break;
        case 2: position_at(2); break;
        case 3: position_at(3); break;
        case 4: position_at(4); break;
        case 5: position_at(5); break;
        case 6: position_at(6); break;
        case 7: position_at(7); break;
        case 8: position_at(8); break;
        case 9: position_at(9); break;
        case 10: position_at(10); break;
        case 11: position_at(11); break;
        case 12: position_at(12); break;
        case 13: position_at(13); break;
        case 14: position_at(14); break;
        case 15: position_at(15); break;
    }
}

static void latest_position_at(const uint32_t o) {
    int want = -1;
    for (int k = 0; k < DEPTH; k++) positions[k].flag = vp_bool() ? RKPositionFlagReady | 1 : 1;
    for (int k = DEPTH; k > 0; k--) if (positions[(o - k) & D1].flag & RKPositionFlagReady) want = (o - k) & D1;
    radar.positionIndex = o;
    RKPosition *p = RKGetLatestPosition(&radar);
    for (int k = 0; k < DEPTH; k++) if (k == want) VP_ASSERT(p == &positions[k], "the latest reading is the last one that is ready");
    VP_ASSERT(p >= positions && p < positions + DEPTH, "the latest reading is one of the ring");
    VP_REACH("latest");
}
void latest_position(void) {
    setup();
    switch (vp_bits(4)) {
        case 0: latest_position_at(0); break;
        case 1: latest_position_at(1); break;
        case 2: latest_position_at(2); break;
        case 3: latest_position_at(3); break;
        case 4: latest_position_at(4); break;
        case 5: latest_position_at(5); break;
        case 6: latest_position_at(6); break;
        case 7: latest_position_at(7); break;
        case 8: latest_position_at(8); break;
        case 9: latest_position_at(9); break;
        case 10: latest_position_at(10); break;
        case 11: latest_position_at(11); break;
        case 12: latest_position_at(12); break;
        case 13: latest_position_at(13); break;
        case 14: latest_position_at(14); break;
        case 15: latest_position_at(15); break;
    }
}

static void pulse_at(const uint32_t o) {
    const uint64_t n = vp_u64();
    RKPulseStatus f[16];
    for (int k = 0; k < 16; k++) { pulses[k].header.i = NUM(k, o, n, 16); f[k] = pulses[k].header.s = vp_bits(15); pulses[k].header.timeDouble = 5.0; pulses[k].header.time.tv_sec = 5; pulses[k].header.capacity = 64; }
    radar.pulseIndex = o;
    RKPulse *p = RKGetVacantPulse(&radar);
    VP_ASSERT(p == &pulses[o] && radar.pulseIndex == ((o + 1) & 15), "slots are handed out in turn");
    for (int k = 0; k < 16; k++) {
        VP_ASSERT(pulses[k].header.i == NUM(k, (o + 1) & 15, n + 1, 16), "slots are numbered in the order in which they are handed out");
        VP_ASSERT(pulses[k].header.s == (k == o || k == ((o + 2) & 15) ? RKPulseStatusVacant : f[k]), "a slot is vacant when handed out, and so is one an eighth of the ring ahead, and no other");
    }
    VP_ASSERT(p->header.timeDouble == 0.0 && p->header.time.tv_sec == 0 && p->header.time.tv_usec == 0, "a pulse starts without a time");
    const uint32_t g = p->header.gateCount = vp_u32();
    const bool own = vp_bool();
    if (own) { p->header.timeDouble = 9.0; p->header.time.tv_sec = 9; }
    p->header.t = vp_bits(20);
    RKSetPulseHasData(&radar, p);
    VP_ASSERT(p->header.gateCount == (g > 64 ? 64 : g), "a pulse has at most as many gates as fit");
    VP_ASSERT(clock_resets == (n == 0), "the clock of pulses starts over with the first pulse and only then");
    if (own) VP_ASSERT(clock_calls == 0 && p->header.timeDouble == 9.0 && p->header.time.tv_sec == 9, "a pulse that comes with a time keeps it");
    else VP_ASSERT(clock_calls == 1 && clock_used == &qclock && clock_tick == (double)p->header.t && (p->header.timeDouble == clock_time || clock_time != clock_time) && p->header.time.tv_sec == 77, "a pulse without a time is stamped by the clock of pulses");
    VP_ASSERT(p->header.s == (LIVE ? RKPulseStatusHasIQData : RKPulseStatusVacant), "a pulse that has data goes on to be processed once the radar is live");
    radar.configIndex = vp_bits(2);
    RKSetPulseReady(&radar, p);
    VP_ASSERT(p->header.configIndex == ((radar.configIndex + 3) & 3), "a pulse that comes with a position refers to the latest configuration");
    VP_ASSERT(p->header.s == (LIVE ? RKPulseStatusHasIQData | RKPulseStatusHasPosition : RKPulseStatusVacant), "a pulse that is ready goes on to be processed once the radar is live");
    for (int k = 0; k < 16; k++) if (k != o) VP_ASSERT(pulses[k].header.s == (k == ((o + 2) & 15) ? RKPulseStatusVacant : f[k]), "declaring a pulse ready changes no other");
    VP_REACH("pulse");
}
void pulse(void) {
    setup();
    switch (vp_bits(4)) {
        case 0: pulse_at(0); break;
        case 1: pulse_at(1); break;
        case 2: pulse_at(2); break;
        case 3: pulse_at(3); break;
        case 4: pulse_at(4); break;
        case 5: pulse_at(5); break;
        case 6: pulse_at(6); break;
        case 7: pulse_at(7); break;
        case 8: pulse_at(8); break;
        case 9: pulse_at(9); break;
        case 10: pulse_at(10); break;
        case 11: pulse_at(11); break;
        case 12: pulse_at(12); break;
        case 13: pulse_at(13); break;
        case 14: pulse_at(14); break;
        case 15: pulse_at(15); break;
    }
}

static void latest_pulse_at(const uint32_t o) {
    int want = -1;
    for (int k = 0; k < DEPTH; k++) pulses[k].header.s = vp_bool() ? RKPulseStatusCompressed | RKPulseStatusHasIQData : RKPulseStatusHasIQData | RKPulseStatusInspected;
    for (int k = DEPTH; k > 0; k--) if (pulses[(o - k) & D1].header.s & RKPulseStatusCompressed) want = (o - k) & D1;
    radar.pulseIndex = o;
    RKPulse *p = RKGetLatestPulse(&radar);
    for (int k = 0; k < DEPTH; k++) if (k == want) VP_ASSERT(p == &pulses[k], "the latest pulse is the last one that is compressed");
    VP_ASSERT(p >= pulses && p < pulses + DEPTH, "the latest pulse is one of the ring");
    VP_REACH("latest");
}
void latest_pulse(void) {
    setup();
    switch (vp_bits(4)) {
        case 0: latest_pulse_at(0); break;
        case 1: latest_pulse_at(1); break;
        case 2: latest_pulse_at(2); break;
        case 3: latest_pulse_at(3); break;
        case 4: latest_pulse_at(4); break;
        case 5: latest_pulse_at(5); break;
        case 6: latest_pulse_at(6); break;
        case 7: latest_pulse_at(7); break;
        case 8: latest_pulse_at(8); break;
        case 9: latest_pulse_at(9); break;
        case 10: latest_pulse_at(10); break;
        case 11: latest_pulse_at(11); break;
        case 12: latest_pulse_at(12); break;
        case 13: latest_pulse_at(13); break;
        case 14: latest_pulse_at(14); break;
        case 15: latest_pulse_at(15); break;
    }
}

static void ray_at(const uint32_t o) {
    const uint64_t n = vp_u64();
    RKRayStatus f[8];
    for (int k = 0; k < 8; k++) { rays[k].header.i = NUM(k, o, n, 8); f[k] = rays[k].header.s = vp_bits(12); rays[k].header.startTime.tv_sec = 5; rays[k].header.endTime.tv_sec = 5; }
    radar.rayIndex = o;
    RKRay *r = RKGetVacantRay(&radar);
    VP_ASSERT(r == &rays[o] && radar.rayIndex == ((o + 1) & 7), "slots are handed out in turn");
    for (int k = 0; k < 8; k++) {
        VP_ASSERT(rays[k].header.i == NUM(k, (o + 1) & 7, n + 1, 8), "slots are numbered in the order in which they are handed out");
        VP_ASSERT(rays[k].header.s == (k == o ? RKRayStatusVacant : f[k]), "a slot is vacant when handed out, and no other changes");
    }
    VP_ASSERT(r->header.startTime.tv_sec == 0 && r->header.endTime.tv_sec == 0, "a ray starts without a time");
    r->header.s = f[o];
    RKSetRayReady(&radar, r);
    VP_ASSERT(r->header.s == (LIVE ? f[o] | RKRayStatusReady : f[o]), "a ray is ready once it is declared so");
    VP_REACH("ray");
}
void ray(void) {
    setup();
    switch (vp_bits(3)) {
        case 0: ray_at(0); break;
        case 1: ray_at(1); break;
        case 2: ray_at(2); break;
        case 3: ray_at(3); break;
        case 4: ray_at(4); break;
        case 5: ray_at(5); break;
        case 6: ray_at(6); break;
        case 7: ray_at(7); break;
    }
}

static void latest_ray_at(const uint32_t o) {
    int want = -1;
    for (int k = 0; k < 8; k++) rays[k].header.s = vp_bool() ? RKRayStatusReady : RKRayStatusProcessing;
    for (int k = 8; k > 0; k--) if (rays[(o - k) & 7].header.s & RKRayStatusReady) want = (o - k) & 7;
    radar.rayIndex = o;
    RKRay *r = RKGetLatestRay(&radar);
    for (int k = 0; k < 8; k++) if (k == want) VP_ASSERT(r == &rays[k], "the latest ray is the last one that is ready");
    VP_ASSERT(r >= rays && r < rays + 8, "the latest ray is one of the ring");
    uint32_t index = vp_u32();
    r = RKGetLatestRayIndex(&radar, &index);
    if (want >= 0) VP_ASSERT(index == (uint32_t)want, "the index of the latest ray goes with it");
    for (int k = 0; k < 8; k++) if (k == want) VP_ASSERT(r == &rays[k], "the latest ray is the last one that is ready");
    VP_REACH("latest");
}
void latest_ray(void) {
    setup();
    switch (vp_bits(3)) {
        case 0: latest_ray_at(0); break;
        case 1: latest_ray_at(1); break;
        case 2: latest_ray_at(2); break;
        case 3: latest_ray_at(3); break;
        case 4: latest_ray_at(4); break;
        case 5: latest_ray_at(5); break;
        case 6: latest_ray_at(6); break;
        case 7: latest_ray_at(7); break;
    }
}
