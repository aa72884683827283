/*VP
{
 "entries": [
  {"name": "scalar_elevation", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_azimuth", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_prt", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_gate", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_dcal", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_pcal", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_snr", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "scalar_sqi", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, a float and an integer key in one change with any values, every byte of the configuration"},
  {"name": "config_pairs", "solver": "--sat-solver cadical", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "ring of 4, any slot, noise and calibration pairs, pulse width, repetition frequencies of 4 values"},
  {"name": "config_waveform", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "waveforms that are missing, empty or valid, followed by another change"},
  {"name": "config_calibration", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "waveform calibrations of 1..8 tones, or none, with and without a waveform"},
  {"name": "config_text", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:302,strncpy.0:48,memcpy.0:303,config_text.0:49"], "bounds": "volume definitions of 0..60 or 300 characters (where 40 fit) after one of 0..40 characters"},
  {"name": "config_history", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "9 changes in a ring of 4, lookup of any identity"},
  {"name": "config_api", "unwind": 10, "checks": "mem", "flags": ["--unwindset", "strlen.0:40"], "bounds": "RKAddConfig with any value; RKSetPRF with 4 frequencies"}
 ],
 "scale": {"RKMaximumCommandLength": "48"},
 "layout": [["typedef union rk_config \\{", "typedef struct rk_config {"]],
 "sources": ["RKConfig.c", "RKRadar.c"],
 "functions": ["RKConfigAdvance", "RKConfigAdvanceEllipsis", "RKConfigWithId", "RKAddConfig", "RKSetPRF", "RKGetLatestConfig"],
 "assumptions": ["callers are serialised by the lock (the lock being held during the whole change is checked)", "sprintf() writes at most what its arguments need"],
 "outside": "the length of a volume definition is 512 in the code, scaled to 48 at compile time; more than two keys per change, rings deeper than 4"
}
VP*/
#include "vp.h"

#define DEPTH 4

static RKConfig ring[DEPTH];
static uint32_t next_index;
static int locked;

int pthread_mutex_lock(pthread_mutex_t *m) { (void)m; VP_ASSERT(locked == 0, "the configuration lock is free when a change starts"); locked++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; VP_ASSERT(locked == 1, "the configuration lock is held until the change is complete"); locked--; return 0; }
char *RKVariableInString(const char *name, const void *value, RKValueType type) {
    (void)name;
    volatile uint64_t v = type == RKValueTypeIdentifier ? *(const uint64_t *)value : *(const uint8_t *)value;
    (void)v;
    return (char *)"v";
}
char *RKGetBackgroundColorOfIndex(const int i) { (void)i; return (char *)""; }
#ifdef VP_SYMBOLIC
float log10f(float x) { (void)x; return 0.0f; }
int printf(const char *f, ...) { (void)f; return 0; }
void *memcpy(void *restrict d, const void *restrict s, size_t n) {
    if (n == sizeof(RKConfig)) *(RKConfig *)d = *(const RKConfig *)s;
    else for (size_t k = 0; k < n; k++) ((char *)d)[k] = ((const char *)s)[k];
    return d;
}
// Long texts come only from the argument of the one format that ends in "%s\n"
static const char *long_text;
int sprintf(char *s, const char *f, ...) {
    if (long_text && f[0] == 'V' && f[1] == 'C' && f[2] == 'P') {
        s[6 + strlen(long_text) + 1] = '\0';
        s[0] = 'V'; s[1] = '\0';
        return 1;
    }
    s[0] = 'x'; s[1] = '\0';
    return 1;
}
int snprintf(char *s, size_t n, const char *f, ...) {
    (void)f;
    s[n - 1] = '\0';
    s[0] = 'y'; s[1] = '\0';
    return 1;
}
#else
static const char *long_text;
#endif

static void begin(void) {
    memset(ring, 0, sizeof(ring));
    for (uint32_t k = 0; k < DEPTH; k++) ring[k].i = (uint64_t)k - DEPTH + 100;
}

static uint32_t spot;       // any byte of a configuration, with any value before the change

static void plant(uint32_t at) {
    RKConfig *old = &ring[(at + DEPTH - 1) % DEPTH];
    spot = vp_range(8, sizeof(RKConfig) - 1);
    VP_ASSUME(spot < offsetof(RKConfig, waveform) || spot >= offsetof(RKConfig, userResource));
    ((uint8_t *)old)[spot] = vp_u8();
    // whatever the slot held before
    ((uint8_t *)&ring[at])[spot] = vp_u8();
}

static void check_rest(uint32_t at, const RKConfig *want) {
    RKConfig *now = &ring[at];
    VP_ASSERT(now->i == 100 + at, "identities count up, one ring depth per lap");
    VP_ASSERT(((uint8_t *)now)[spot] == ((const uint8_t *)want)[spot], "everything but the given keys is inherited from the previous configuration");
    VP_ASSERT(next_index == (at + 1) % DEPTH, "the ring advances by one slot");
    VP_ASSERT(locked == 0, "the lock is released");
}

// ------------------------------------------------------------------ scalars

static void set_scalar(RKConfig *want, int key, uint32_t u, float f) {
    switch (key) {
        case RKConfigKeySweepElevation: want->sweepElevation = f; break;
        case RKConfigKeySweepAzimuth: want->sweepAzimuth = f; break;
        case RKConfigKeyPRT: want->prt[0] = f; break;
        case RKConfigKeyPulseGateSize: want->pulseGateSize = f; break;
        case RKConfigKeySystemDCal: want->systemDCal = f; break;
        case RKConfigKeySystemPCal: want->systemPCal = f; break;
        case RKConfigKeySNRThreshold: want->SNRThreshold = f; break;
        case RKConfigKeySQIThreshold: want->SQIThreshold = f; break;
        case RKConfigKeyPulseGateCount: want->pulseGateCount = u; break;
        case RKConfigKeyRingFilterGateCount: want->ringFilterGateCount = u; break;
        case RKConfigKeyTransitionGateCount: want->transitionGateCount = u; break;
        case RKConfigKeyPositionMarker: want->startMarker = u; break;
        default: break;
    }
}

static void scalar_of(uint32_t at, const RKConfigKey a, const RKConfigKey b, const bool swap) {
    begin();
    next_index = at;
    plant(at);
    RKConfig want = ring[(at + DEPTH - 1) % DEPTH];
    float f = vp_f32();
    uint32_t u = vp_u32();
    VP_ASSUME(f == f);
    set_scalar(&want, a, 0, f);
    set_scalar(&want, b, u, 0.0f);
    if (swap) RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, b, u, a, (double)f, RKConfigKeyNull);
    else RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, a, (double)f, b, u, RKConfigKeyNull);
    check_rest(at, &want);
    VP_REACH("scalar");
}

// The keys and the slot are constants to the solver
void scalar_elevation(void) { scalar_of(0, RKConfigKeySweepElevation, RKConfigKeyPulseGateCount, false); }
void scalar_azimuth(void) { scalar_of(1, RKConfigKeySweepAzimuth, RKConfigKeyRingFilterGateCount, true); }
void scalar_prt(void) { scalar_of(2, RKConfigKeyPRT, RKConfigKeyTransitionGateCount, false); }
void scalar_gate(void) { scalar_of(3, RKConfigKeyPulseGateSize, RKConfigKeyPositionMarker, true); }
void scalar_dcal(void) { scalar_of(0, RKConfigKeySystemDCal, RKConfigKeyRingFilterGateCount, true); }
void scalar_pcal(void) { scalar_of(3, RKConfigKeySystemPCal, RKConfigKeyPulseGateCount, false); }
void scalar_snr(void) { scalar_of(3, RKConfigKeySNRThreshold, RKConfigKeyTransitionGateCount, true); }
void scalar_sqi(void) { scalar_of(0, RKConfigKeySQIThreshold, RKConfigKeyPositionMarker, false); }

// ------------------------------------------------------------------ pairs

void config_pairs(void) {
    const uint32_t at = 2;
    begin();
    next_index = at;
    plant(at);
    RKConfig want = ring[1];
    float f = vp_f32(), g = vp_f32();
    VP_ASSUME(f == f && g == g);
    const double prf[4] = {500.0, 1000.0, 1250.0, 2000.0};
    switch (vp_range(0, 5)) {
        case 0: want.noise[0] = f; want.noise[1] = g; RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeySystemNoise, (double)f, (double)g, RKConfigKeyNull); break;
        case 1: want.systemZCal[0] = f; want.systemZCal[1] = g; RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeySystemZCal, (double)f, (double)g, RKConfigKeyNull); break;
        case 2: for (int j = 0; j < RKMaximumFilterCount; j++) want.pw[j] = f;
            RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyPulseWidth, (double)f, RKConfigKeyNull); break;
        case 3: {
            want.prt[0] = (RKFloat)(1.0 / prf[1]);
            RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyPRF, prf[1], RKConfigKeyNull); break;
        }
        case 4: {
            want.prt[0] = (RKFloat)(1.0 / prf[3]); want.prt[1] = (RKFloat)(1.0 / prf[2]);
            RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyDualPRF, prf[3], prf[2], RKConfigKeyNull); break;
        }
        default: {
            RKUserResource r = (RKUserResource)(uintptr_t)&ring[0];
            RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyUserResource, r, RKConfigKeyNull);
            VP_ASSERT(ring[at].userResource == r, "the user resource is recorded");
            want.userResource = r;
        }
    }
    check_rest(at, &want);
    VP_REACH("pair");
}

// ------------------------------------------------------------------ waveforms

static RKWaveform wave, other;

static void after_waveform(const uint32_t slot, uint32_t u, uint32_t gates, RKWaveform *w) {
    next_index = slot;
    RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyTransitionGateCount, u, RKConfigKeyNull);
    VP_ASSERT(next_index == slot + 1 && ring[slot].i == 100 + slot && ring[slot].transitionGateCount == u && ring[slot].pulseGateCount == gates, "changes continue after a waveform, good or bad");
    VP_ASSERT(ring[slot].waveform == w, "the waveform stays in effect");
    VP_ASSERT(locked == 0, "the lock is released");
}

static void waveform_of(const RKConfigKey key) {
    const uint32_t at = 0;
    begin();
    next_index = at;
    wave.filterCounts[0] = vp_u8();
    other.filterCounts[0] = 1;
    wave.count = 1;
    ring[3].waveform = &other;
    ring[3].waveformDecimate = &other;
    ring[3].pulseGateCount = vp_u32();
    const uint32_t gates = ring[3].pulseGateCount;
    RKWaveform *w = vp_bool() ? &wave : NULL;
    const bool decimate = key == RKConfigKeyWaveformDecimate;
    const bool good = w && wave.filterCounts[0] != 0;
    RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, key, w, RKConfigKeyNull);
    VP_ASSERT(locked == 0, "the lock is released");
    if (good) {
        VP_ASSERT(next_index == 1 && ring[0].i == 100, "a valid waveform makes a new configuration");
        VP_ASSERT(ring[0].waveform == (decimate ? &other : w) && ring[0].waveformDecimate == (decimate ? w : &other), "the new configuration uses the given waveform");
        VP_REACH("valid waveform");
    } else {
        VP_ASSERT(next_index == 0, "a bad waveform makes no new configuration");
        VP_REACH("bad waveform");
    }
    // The next change is not affected
    uint32_t u = vp_u32();
    if (good) after_waveform(1, u, gates, decimate ? &other : w);
    else after_waveform(0, u, gates, &other);
}
void config_waveform(void) { if (vp_bool()) waveform_of(RKConfigKeyWaveform); else waveform_of(RKConfigKeyWaveformDecimate); }

static RKWaveformCalibration cal;

void config_calibration(void) {
    const uint32_t at = 1;
    begin();
    next_index = at;
    cal.count = vp_range(1, RKMaximumFilterCount);
    wave.filterCounts[0] = vp_range(1, RKMaximumFilterCount);
    const int j = vp_bits(3);
    float a = vp_f32(), b = vp_f32(), c = vp_f32(), d = vp_f32();
    VP_ASSUME(a >= 1.0f && a < 100.0f && b >= 1.0f && b < 100.0f && c >= 1.0f && c < 100.0f && d >= 1.0f && d < 100.0f);
    for (int k = 0; k < RKMaximumFilterCount; k++) {
        cal.ZCal[k][0] = cal.ZCal[k][1] = cal.DCal[k] = cal.PCal[k] = 1.0f;
        ring[0].ZCal[k][0] = ring[0].ZCal[k][1] = ring[0].DCal[k] = ring[0].PCal[k] = 7.0f;
    }
    cal.ZCal[j][0] = a; cal.ZCal[j][1] = b; cal.DCal[j] = c; cal.PCal[j] = d;
    ring[0].waveform = vp_bool() ? &wave : NULL;
    const bool given = vp_bool();
    const int touched = given ? cal.count : ring[0].waveform ? wave.filterCounts[0] : RKMaximumFilterCount;
    RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyWaveformCalibration, given ? &cal : NULL, RKConfigKeyNull);
    RKConfig *n = &ring[at];
    VP_ASSERT(n->i == 101 && next_index == 2 && locked == 0, "a calibration makes a new configuration");
    for (int k = 0; k < RKMaximumFilterCount; k++) {
        if (k != j) continue;
        if (j < touched) {
            if (given) VP_ASSERT(n->ZCal[k][0] == a && n->ZCal[k][1] == b && n->DCal[k] == c && n->PCal[k] == d, "every tone gets its calibration");
            else VP_ASSERT(n->ZCal[k][0] == 0.0f && n->ZCal[k][1] == 0.0f && n->DCal[k] == 0.0f && n->PCal[k] == 0.0f, "without a calibration every tone is reset");
            VP_REACH("calibrated tone");
        } else {
            VP_ASSERT(n->ZCal[k][0] == 7.0f && n->ZCal[k][1] == 7.0f && n->DCal[k] == 7.0f && n->PCal[k] == 7.0f, "other tones keep theirs");
            VP_REACH("other tone");
        }
    }
}

// ------------------------------------------------------------------ text

static char text[301];

void config_text(void) {
    const uint32_t at = 1;
    begin();
    next_index = at;
    const int n = vp_bool() ? 300 : vp_range(0, 60);
    memset(text, 'a', 300);
    text[n] = '\0';
    long_text = text;
    const int m = vp_range(0, RKMaximumCommandLength - 8);      // the definition before
    for (int i = 0; i < RKMaximumCommandLength; i++) ring[0].vcpDefinition[i] = i < m ? 'b' : '\0';
    RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyVCPDefinition, text, RKConfigKeyNull);
    const int k = vp_range(0, RKMaximumCommandLength - 1);
    const char c = ring[at].vcpDefinition[k];
    VP_ASSERT(c == (k < n && k < RKMaximumCommandLength - 8 ? 'a' : '\0'), "the volume definition is recorded, terminated, as far as it fits");
    VP_ASSERT(locked == 0 && next_index == 2, "a volume definition makes a new configuration");
    VP_REACH("text");
}

// ------------------------------------------------------------------ history

void config_history(void) {
    begin();
    next_index = 0;
    uint32_t vals[9];
    for (int k = 0; k < 9; k++) {
        vals[k] = vp_u32();
        RKConfigAdvanceEllipsis(ring, &next_index, DEPTH, RKConfigKeyPulseGateCount, vals[k], RKConfigKeyNull);
        VP_ASSERT(next_index == (k + 1) % DEPTH && ring[k % DEPTH].i == 100 + k && ring[k % DEPTH].pulseGateCount == vals[k], "every change gets the next slot and the next identity");
    }
    const uint32_t id = 90 + vp_bits(5);
    RKConfig *c = RKConfigWithId(ring, DEPTH, id);
    if (id >= 105 && id <= 108) VP_ASSERT(c && c->i == id && c->pulseGateCount == vals[id - 100], "the latest configurations are found by their identity");
    else VP_ASSERT(c == NULL, "configurations that left the ring are not found");
    VP_REACH("history");
}

static RKRadar radar;

void config_api(void) {
    begin();
    radar.configs = ring;
    radar.desc.configBufferDepth = DEPTH;
    radar.configIndex = 3;
    uint32_t u = vp_u32();
    RKAddConfig(&radar, RKConfigKeyPulseGateCount, u, RKConfigKeyNull);
    VP_ASSERT(radar.configIndex == 0 && RKGetLatestConfig(&radar) == &ring[3] && ring[3].pulseGateCount == u && ring[3].i == 103, "the radar's latest configuration is the one just made");
    const uint32_t prf[4] = {500, 1000, 1250, 2000};
    const int k = vp_bits(1);
    RKSetPRF(&radar, k ? prf[1] : prf[3]);
    VP_ASSERT(radar.configIndex == 1 && RKGetLatestConfig(&radar) == &ring[0] && ring[0].pulseGateCount == u, "the next change builds on it");
    VP_ASSERT(ring[0].prt[0] == (RKFloat)(1.0 / (k ? 1000.0 : 2000.0)), "the repetition time follows the repetition frequency");
    VP_ASSERT(locked == 0, "the lock is released");
    VP_REACH("api");
}
