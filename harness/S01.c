/*VP
{
 "entries": [
  {"name": "lineup_history", "unwind": 9, "checks": "func", "bounds": "every history of 5 operations (add to the lineup, add a pinch sweep, clear the hole, clear the deck, clear everything, next hitter) from an empty engine", "thorough": {"unwind": 12, "defines": ["OPS=8"], "bounds": "every history of 8 operations"}},
  {"name": "lineup_full", "unwind": 4, "checks": "mem", "bounds": "every combination of list lengths 0..256, two additions"},
  {"name": "scan_rhi", "unwind": 5, "checks": "func", "timeout": 500, "bounds": "one control step from every progress of a sweep of the named mode, lists of up to 3 sweeps, azimuth 0..360, elevation -5..185, any velocity up to 60 deg/s, any tic"},
  {"name": "scan_ppi", "unwind": 5, "checks": "func", "timeout": 500, "bounds": "one control step from every progress of a sweep of the named mode, lists of up to 3 sweeps, azimuth 0..360, elevation -5..185, any velocity up to 60 deg/s, any tic"},
  {"name": "scan_sector", "unwind": 5, "checks": "func", "timeout": 500, "bounds": "one control step from every progress of a sweep of the named mode, lists of up to 3 sweeps, azimuth 0..360, elevation -5..185, any velocity up to 60 deg/s, any tic"},
  {"name": "scan_point", "unwind": 5, "checks": "func", "timeout": 500, "bounds": "one control step from every progress of a sweep of the named mode, lists of up to 3 sweeps, azimuth 0..360, elevation -5..185, any velocity up to 60 deg/s, any tic"},
  {"name": "scan_idle", "unwind": 5, "checks": "func", "bounds": "one control step of an inactive or empty engine, every pedestal velocity"},
  {"name": "steer_rate", "unwind": 4, "checks": "func", "bounds": "every angle difference up to 360 degrees, both axes"}
 ],
 "sources": ["RKSteerEngine.c", "RKMisc.c"],
 "functions": ["RKSteerEngineAddLineupSweep", "RKSteerEngineAddPinchSweep", "RKSteerEngineClearHole", "RKSteerEngineClearDeck", "RKSteerEngineClearSweeps", "RKSteerEngineNextHitter", "RKSteerEngineArmSweeps", "RKSteerEngineGetAction", "RKSteerEngineUpdatePositionFlags", "RKSteerEngineGetRate", "RKAngularCrossOver", "RKMinDiff"],
 "assumptions": ["memcpy() between sweep lists copies whole sweep descriptions", "status text is not formatted"],
 "outside": "parsing of textual scan commands, volumes of more than 3 sweeps in the control step (256 in list bounds), the speed-down mode"
}
VP*/
#include "vp.h"

float RKSteerEngineGetRate(const float, RKPedestalAxis);

#ifdef VP_SYMBOLIC
void *memcpy(void *d, const void *s, size_t n) {
    if (n % sizeof(RKScanPath) == 0) {
        RKScanPath *a = d; const RKScanPath *b = s;
        for (size_t k = 0; k < n / sizeof(RKScanPath); k++) a[k] = b[k];
    } else {
        uint8_t *a = d; const uint8_t *b = s;
        for (size_t k = 0; k < n; k++) a[k] = b[k];
    }
    return d;
}
char *RKPedestalActionString(const RKScanAction *a) { (void)a; return (char *)""; }
int sprintf(char *s, const char *f, ...) { (void)s; (void)f; return 0; }
#endif

#ifndef OPS
#define OPS 5
#endif

static RKSteerEngine E;
static RKRadarDesc desc;
static RKPosition ring[4];
static uint32_t ring_index = 1;

static void wire(void) {
    desc.positionBufferDepth = 4;
    RKSteerEngineSetEssentials(&E, &desc, ring, &ring_index, NULL, NULL);
}

static RKScanPath path_of(int id) {
    RKScanPath p = {0};
    p.mode = 1 + id % 4;
    p.elevationStart = (float)id;
    p.azimuthEnd = (float)(100 + id);
    return p;
}

static bool is(const RKScanPath *p, int id) {
    return p->elevationStart == (float)id && p->azimuthEnd == (float)(100 + id) && p->mode == 1 + id % 4;
}

// ------------------------------------------------------------------ the three lists

void lineup_history(void) {
    int bat[OPS], deck[OPS], hole[OPS], nb = 0, nd = 0, nh = 0;
    RKScanObject *V = &E.vcpHandle;
    wire();
    for (int k = 0; k < OPS; k++) {
        const int op = vp_range(0, 5);
        int r;
        switch (op) {
            case 0:
                r = RKSteerEngineAddLineupSweep(&E, path_of(k + 1));
                VP_ASSERT(r == RKResultSuccess, "a sweep is accepted while there is room");
                deck[nd++] = k + 1; hole[nh++] = k + 1;
                break;
            case 1:
                r = RKSteerEngineAddPinchSweep(&E, path_of(k + 1));
                VP_ASSERT(r == RKResultSuccess, "a pinch sweep is accepted while there is room");
                deck[nd++] = k + 1;
                break;
            case 2: RKSteerEngineClearHole(&E); nd = nh = 0; break;
            case 3: RKSteerEngineClearDeck(&E); nd = 0; break;
            case 4: RKSteerEngineClearSweeps(&E); nd = nh = nb = 0; break;
            default:
                RKSteerEngineNextHitter(&E);
                for (int j = 0; j < nd; j++) bat[j] = deck[j];
                nb = nd;
                for (int j = 0; j < nh; j++) deck[j] = hole[j];
                nd = nh;
                VP_ASSERT(V->i == 0 && V->active, "the next volume starts at its first sweep and is active");
                VP_REACH("next hitter");
                break;
        }
    }
    VP_ASSERT(V->sweepCount == nb, "the current volume has the sweeps it was given");
    VP_ASSERT(V->onDeckCount == nd, "the volume on deck has the sweeps it was given");
    VP_ASSERT(V->inTheHoleCount == nh, "the recurring volume has the sweeps it was given");
    for (int j = 0; j < nb; j++) VP_ASSERT(is(&V->batterScans[j], bat[j]), "the sweeps of the current volume are in order");
    for (int j = 0; j < nd; j++) VP_ASSERT(is(&V->onDeckScans[j], deck[j]), "the sweeps on deck are in order");
    for (int j = 0; j < nh; j++) VP_ASSERT(is(&V->inTheHoleScans[j], hole[j]), "the sweeps of the recurring volume are in order");
}

void lineup_full(void) {
    RKScanObject *V = &E.vcpHandle;
    uint32_t nd = vp_range(0, RKMaximumScanCount), nh = vp_range(0, RKMaximumScanCount), k = vp_range(0, RKMaximumScanCount - 1);
    wire();
    V->onDeckCount = nd;
    V->inTheHoleCount = nh;
    V->batterScans[k] = path_of(90);
    V->onDeckScans[k] = path_of(91);
    V->inTheHoleScans[k] = path_of(92);
    for (int j = 0; j < 2; j++) {
        bool pinch = vp_bool();
        bool room = nd < RKMaximumScanCount && (pinch || nh < RKMaximumScanCount);
        int r = pinch ? RKSteerEngineAddPinchSweep(&E, path_of(j + 1)) : RKSteerEngineAddLineupSweep(&E, path_of(j + 1));
        if (room) {
            VP_ASSERT(r == RKResultSuccess, "a sweep that fits is added");
            VP_ASSERT(is(&V->onDeckScans[nd], j + 1) && (pinch || is(&V->inTheHoleScans[nh], j + 1)), "a sweep is added at the end");
            nd++;
            if (!pinch) nh++;
            VP_REACH("added");
        } else {
            VP_ASSERT(r != RKResultSuccess, "a sweep that does not fit is refused");
            VP_REACH("refused");
        }
        VP_ASSERT(V->onDeckCount == nd && V->inTheHoleCount == nh, "the lists grow by what was added");
    }
    VP_ASSERT(is(&V->batterScans[k], 90), "adding sweeps leaves the current volume alone");
    if (k >= nd) VP_ASSERT(is(&V->onDeckScans[k], 91), "adding sweeps writes only at the end of the deck");
    if (k >= nh) VP_ASSERT(is(&V->inTheHoleScans[k], 92), "adding sweeps writes only at the end of the hole");
}

// ------------------------------------------------------------------ one control step

static float angle(float lo, float hi) { float v = vp_f32(); VP_ASSUME(v >= lo && v <= hi); return v; }

static RKPosition a_position(void) {
    RKPosition p;
    memset(&p, 0, sizeof(p));
    p.azimuthDegrees = angle(0.0f, 360.0f);
    p.elevationDegrees = angle(-5.0f, 185.0f);
    p.azimuthVelocityDegreesPerSecond = angle(-60.0f, 60.0f);
    p.elevationVelocityDegreesPerSecond = angle(-60.0f, 60.0f);
    p.flag = RKPositionFlagElevationEnabled;
    return p;
}

// Did the axis cross the mark between two readings (a few degrees apart)?
static bool crossed(float now, float before, float mark) {
    const float a = RKMinDiff(now, mark), b = RKMinDiff(before, mark);
    VP_ASSUME(b == 0.0f || fabsf(b) > 1.0e-6f);
    if (fabsf(a) <= 0.0001f) return true;
    return ((a < 0.0f && b > 0.0f) || (a > 0.0f && b < 0.0f)) && fabsf(a) < 10.0f;
}

static void check_instructions(const RKScanAction *A, const RKScanPath *scan, const RKPosition *pos, bool setup) {
    int axes[2] = {0, 0};
    for (int j = 0; j < 2; j++) {
        const int m = A->mode[j] & RKPedestalInstructTypeModeMask, x = A->mode[j] & RKPedestalInstructTypeAxisMask;
        const float v = A->value[j];
        if (m == RKPedestalInstructTypeNone) continue;
        axes[j] = x;
        VP_ASSERT(x == RKPedestalInstructTypeAxisElevation || x == RKPedestalInstructTypeAxisAzimuth, "an instruction is for one axis");
        if (m == RKPedestalInstructTypeModeStandby) {
            VP_ASSERT(v == 0.0f, "a standby carries no speed");
        } else if (m == RKPedestalInstructTypeModePoint) {
            VP_ASSERT(setup && v == (x == RKPedestalInstructTypeAxisElevation ? scan->elevationStart : scan->azimuthStart), "pointing goes to the start of the sweep");
        } else {
            VP_ASSERT(m == RKPedestalInstructTypeModeSlew, "an instruction is standby, point or slew");
            const float d = x == RKPedestalInstructTypeAxisElevation ? RKMinDiff(scan->elevationStart, pos->elevationDegrees) : RKMinDiff(scan->azimuthStart, pos->azimuthDegrees);
            const float own = x == RKPedestalInstructTypeAxisElevation ? scan->elevationSlew : scan->azimuthSlew;
            VP_ASSERT(setup && (v == own || v == RKSteerEngineGetRate(d, x == RKPedestalInstructTypeAxisElevation ? RKPedestalAxisElevation : RKPedestalAxisAzimuth)), "slewing is at the sweep's own speed or toward its start");
        }
    }
    VP_ASSERT(axes[0] == 0 || axes[0] != axes[1], "an axis is not given two instructions at once");
}

// The sweep and the action slot are constants to the solver
static void scan_step(const RKScanMode mode, const int i, const int slot) {
    RKScanObject *V = &E.vcpHandle;
    wire();
    int ns = vp_range(1, 3), nd = vp_range(0, 3), nh = vp_range(0, 3);
    VP_ASSUME(i < ns);
    RKScanPath s;
    memset(&s, 0, sizeof(s));
    s.mode = mode;
    s.azimuthStart = angle(0.0f, 360.0f);
    s.azimuthEnd = angle(0.0f, 360.0f);
    s.azimuthSlew = angle(-60.0f, 60.0f);
    s.elevationStart = angle(-2.0f, 182.0f);
    s.elevationEnd = angle(-2.0f, 182.0f);
    s.elevationSlew = angle(-60.0f, 60.0f);
    for (int k = 0; k < 3; k++) {
        V->batterScans[k] = path_of(1 + k);
        V->onDeckScans[k] = path_of(11 + k);
        V->inTheHoleScans[k] = path_of(21 + k);
    }
    V->batterScans[i] = s;
    V->sweepCount = ns; V->onDeckCount = nd; V->inTheHoleCount = nh;
    V->i = i;
    V->active = true;
    V->option = (vp_bool() ? RKScanOptionRepeat : 0) | (vp_bool() ? RKScanOptionUsePoint : 0);
    V->toc = 3;
    V->tic = vp_range(0, 100000);
    V->elevationPrevious = angle(-5.0f, 185.0f);
    V->azimuthPrevious = angle(0.0f, 360.0f);
    int p0 = vp_range(0, 3);
    const int states[4] = {RKScanProgressNone, RKScanProgressSetup, RKScanProgressMiddle, RKScanProgressSetup | RKScanProgressMiddle};
    V->progress = states[p0];
    VP_ASSUME(p0 < 3 || s.mode == RKScanModePPI);
    VP_ASSUME(p0 != 2 || s.mode != RKScanModePoint);
    E.actionIndex = slot;
    const RKScanProgress before = V->progress;
    const int tic = V->tic;
    const float el0 = V->elevationPrevious, az0 = V->azimuthPrevious;
    const bool repeat = (V->option & RKScanOptionRepeat) != 0;
    const bool usepoint = (V->option & RKScanOptionUsePoint) != 0;
    RKPosition pos = a_position();
    const RKPosition q = pos;

    RKScanAction *A = RKSteerEngineGetAction(&E, &pos);

    VP_ASSERT(A == &E.actions[slot] && E.actionIndex == (slot + 1) % RKPedestalActionBufferDepth, "each step uses the next action slot");
    VP_ASSERT(V->elevationPrevious == q.elevationDegrees && V->azimuthPrevious == q.azimuthDegrees, "the position is remembered for the next step");
    VP_ASSERT(pos.elevationDegrees == q.elevationDegrees && pos.azimuthDegrees == q.azimuthDegrees, "the reading itself is not changed");

    const bool ppi = s.mode == RKScanModePPI, rhi = s.mode == RKScanModeRHI, sector = s.mode == RKScanModeSector, point = s.mode == RKScanModePoint;
    const bool settled = (before & RKScanProgressSetup) && tic >= 3;
    const bool at_el = fabsf(RKMinDiff(s.elevationStart, q.elevationDegrees)) < RKPedestalPositionTolerance;
    const bool at_az = fabsf(RKMinDiff(s.azimuthStart, q.azimuthDegrees)) < RKPedestalPositionTolerance;
    const bool moving_az = fabsf(q.azimuthVelocityDegreesPerSecond) > RKPedestalVelocityTolerance;
    const bool moving_el = fabsf(q.elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance;
    const bool told = !RKInstructIsNone(A->mode[0]) || !RKInstructIsNone(A->mode[1]);

    // In the data collection part of the sweep?
    const bool middle = (before & RKScanProgressMiddle) || (before == RKScanProgressNone && ppi) || (settled && at_el && at_az && (rhi || sector));
    bool ended = false;
    if (rhi) ended = middle && moving_el && crossed(q.elevationDegrees, el0, s.elevationEnd);
    if (sector) ended = middle && moving_az && crossed(q.azimuthDegrees, az0, s.azimuthEnd);
    if (point) ended = settled && at_el && at_az;
    if (ppi) {
        const bool arrived = settled && at_el && fabs(q.elevationVelocityDegreesPerSecond) < 0.5 * RKPedestalVelocityTolerance;
        ended = (middle || arrived) && moving_az && crossed(q.azimuthDegrees, az0, s.azimuthEnd) && tic > 200 && !told;
    }

    // What the position is tagged with
    const RKPositionFlag f = pos.flag;
    VP_ASSERT(f & RKPositionFlagVCPActive, "positions of a running volume are tagged so");
    VP_ASSERT(((f & RKPositionFlagAzimuthSweep) != 0) == (ppi || sector) && ((f & RKPositionFlagElevationSweep) != 0) == rhi, "positions are tagged with the sweeping axis");
    VP_ASSERT(((f & RKPositionFlagAzimuthPoint) != 0) == (rhi || point) && ((f & RKPositionFlagElevationPoint) != 0) == (ppi || sector || point), "positions are tagged with the fixed axis");
    VP_ASSERT(((f & RKPositionFlagAzimuthComplete) != 0) == (ended && !rhi) && ((f & RKPositionFlagElevationComplete) != 0) == (ended && (rhi || point)), "completion is tagged exactly when the sweep crosses its end");
    VP_ASSERT(pos.sweepElevationDegrees == s.elevationStart && pos.sweepAzimuthDegrees == s.azimuthStart, "positions carry the angles of the sweep");
    if (!ended) {
        VP_ASSERT(((f & RKPositionFlagScanActive) != 0) == ((V->progress & RKScanProgressMiddle) != 0), "positions are tagged active during data collection only");
        VP_ASSERT(V->i == i && V->active && V->sweepCount == ns && V->onDeckCount == nd && V->inTheHoleCount == nh, "a volume advances only when a sweep ends");
        if (settled && before == RKScanProgressSetup) {
            bool arrived = at_el && (ppi ? fabs(q.elevationVelocityDegreesPerSecond) < 0.5 * RKPedestalVelocityTolerance : at_az);
            VP_ASSERT(((V->progress & RKScanProgressMiddle) != 0) == arrived, "data collection starts when the pedestal reached the start");
            VP_REACH("setting up");
        } else if (before == RKScanProgressNone) {
            VP_ASSERT(V->progress == (ppi ? (RKScanProgressSetup | RKScanProgressMiddle) : RKScanProgressSetup), "a new volume starts by setting up");
        } else if (!(before & RKScanProgressSetup)) {
            VP_ASSERT(V->progress == before, "data collection continues until the sweep ends");
        }
        VP_ASSERT(V->tic == (told ? 1 : tic + 1) || (settled && V->tic == 1), "time since the last instruction is counted");
    } else {
        VP_ASSERT((V->progress & RKScanProgressSetup) && !(V->progress & RKScanProgressEnd), "after a sweep the next is set up");
        if (i + 1 < ns) {
            VP_ASSERT(V->i == i + 1 && V->active && V->sweepCount == ns && V->onDeckCount == nd, "the sweeps of a volume are executed in order");
            VP_REACH("next sweep");
        } else if (repeat) {
            VP_ASSERT(V->i == 0 && V->active && V->sweepCount == nd && V->onDeckCount == nh && V->inTheHoleCount == nh, "after the last sweep the volume on deck takes over");
            int k = vp_range(0, 2);
            if (k < nd) VP_ASSERT(is(&V->batterScans[k], 11 + k), "the volume on deck is executed next");
            if (k < nh) VP_ASSERT(is(&V->onDeckScans[k], 21 + k), "the recurring volume comes on deck");
            VP_REACH("next volume");
        } else {
            VP_ASSERT(!V->active, "without repeat the volume stops after its last sweep");
            VP_REACH("stopped");
        }
    }

    // What the pedestal is told
    check_instructions(A, &s, &q, settled);
    if (!settled && (before != RKScanProgressMiddle || !ppi)) VP_ASSERT(!told, "no instruction before the pedestal had time to react");
    if (settled && !ppi && at_el && at_az && (rhi || sector)) {
        VP_ASSERT(RKInstructIsSlew(A->mode[0]) || RKInstructIsSlew(A->mode[1]), "the sweep is started once the pedestal is in place");
        VP_REACH("sweep starts");
    }
    if (settled && !at_el) {
        bool sent = false;
        for (int j = 0; j < 2; j++) if (RKInstructIsElevation(A->mode[j]) && (usepoint ? RKInstructIsPoint(A->mode[j]) : RKInstructIsSlew(A->mode[j]))) sent = true;
        VP_ASSERT(sent, "the elevation is driven toward the start of the sweep");
    }
}

void scan_rhi(void) { scan_step(RKScanModeRHI, 0, 0); }
void scan_ppi(void) { scan_step(RKScanModePPI, 1, RKPedestalActionBufferDepth - 1); }
void scan_sector(void) { scan_step(RKScanModeSector, 2, 3); }
void scan_point(void) { scan_step(RKScanModePoint, 0, 1); }

static void idle_step(const int slot) {
    RKScanObject *V = &E.vcpHandle;
    wire();
    V->active = vp_bool();
    V->sweepCount = vp_range(0, 2);
    VP_ASSUME(!V->active || V->sweepCount == 0);
    V->progress = vp_bool() ? RKScanProgressStopPedestal : RKScanProgressNone;
    const bool stop = V->progress == RKScanProgressStopPedestal;
    E.actionIndex = slot;
    const int ns = V->sweepCount;
    RKPosition pos = a_position();
    const RKPosition q = pos;
    RKScanAction *A = RKSteerEngineGetAction(&E, &pos);
    VP_ASSERT(A == &E.actions[slot] && E.actionIndex == (slot + 1) % RKPedestalActionBufferDepth, "each step uses the next action slot");
    VP_ASSERT(pos.flag == q.flag, "positions are not tagged while no volume runs");
    VP_ASSERT(V->sweepCount == ns && V->progress == RKScanProgressNone, "an idle engine stays idle");
    const bool el = stop && fabsf(q.elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance;
    const bool az = stop && fabsf(q.azimuthVelocityDegreesPerSecond) > RKPedestalVelocityTolerance;
    bool got_el = false, got_az = false;
    for (int j = 0; j < 2; j++) {
        if (RKInstructIsNone(A->mode[j])) continue;
        VP_ASSERT(RKInstructIsStandby(A->mode[j]) && A->value[j] == 0.0f, "an idle engine only ever stops the pedestal");
        if (RKInstructIsElevation(A->mode[j])) got_el = true;
        if (RKInstructIsAzimuth(A->mode[j])) got_az = true;
    }
    VP_ASSERT(got_el == el && got_az == az, "a stop request stops every moving axis, once");
    VP_REACH("idle");
}

void scan_idle(void) { if (vp_bool()) idle_step(2); else idle_step(RKPedestalActionBufferDepth - 1); }

void steer_rate(void) {
    float d = vp_f32();
    VP_ASSUME(d >= -360.0f && d <= 360.0f);
    for (int axis = 0; axis < 2; axis++) {
        float r = RKSteerEngineGetRate(d, axis ? RKPedestalAxisAzimuth : RKPedestalAxisElevation);
        VP_ASSERT(d < 0.0f ? r <= -1.0f : r >= 1.0f, "the pedestal is always driven toward its target");
        VP_ASSERT(fabsf(r) <= (axis ? 30.0f : 15.0f), "the pedestal is not driven faster than its limit");
        float e = vp_f32();
        VP_ASSUME(fabsf(e) <= fabsf(d));
        VP_ASSERT(fabsf(RKSteerEngineGetRate(e, axis ? RKPedestalAxisAzimuth : RKPedestalAxisElevation)) <= fabsf(r), "a smaller difference is not approached faster");
    }
    VP_REACH("rates");
}
