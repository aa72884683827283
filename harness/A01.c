/*VP
{
 "entries": [
  {"name": "angle_sector", "unwind": 2, "solver": "--cvc5 --fpa", "bounds": "every pair of finite angles in [-180, 360] (RKMinDiff, RKGetSignedMinorSectorInDegrees and the unsigned forms)"},
  {"name": "angle_modulo", "unwind": 2, "solver": "--cvc5 --fpa", "bounds": "every pair of angles in [0, 360]"},
  {"name": "angle_crossing", "unwind": 2, "solver": "--cvc5 --fpa", "bounds": "every triple of angles in [-180, 360]"},
  {"name": "angle_interpolate_0", "unwind": 2, "bounds": "every pair of angles that are multiples of 4 degrees, weight 0", "solver": "--sat-solver cadical"},
  {"name": "angle_interpolate_1", "unwind": 2, "bounds": "every pair of angles that are multiples of 4 degrees, weight 1/4", "solver": "--sat-solver cadical"},
  {"name": "angle_interpolate_2", "unwind": 2, "bounds": "every pair of angles that are multiples of 4 degrees, weight 1/2", "solver": "--sat-solver cadical"},
  {"name": "angle_interpolate_3", "unwind": 2, "bounds": "every pair of angles that are multiples of 4 degrees, weight 3/4", "solver": "--sat-solver cadical"},
  {"name": "angle_interpolate_4", "unwind": 2, "bounds": "every pair of angles that are multiples of 4 degrees, weight 1", "solver": "--sat-solver cadical"},
  {"name": "angle_interpolate_range", "unwind": 2, "bounds": "every pair of angles, every weight in [0, 1]", "timeout": 300}
 ],
 "sources": ["RKDSP.c", "RKMisc.c"],
 "functions": ["RKMinDiff", "RKUMinDiff", "RKModulo360Diff", "RKAngularCrossOver", "RKGetSignedMinorSectorInDegrees", "RKGetMinorSectorInDegrees", "RKInterpolatePositiveAngles", "RKInterpolateAngles"],
 "assumptions": ["azimuths are in [0, 360], elevations in [-180, 360]"],
 "outside": "angles that are not numbers"
}
VP*/
#include "vp.h"

float RKMinDiff(const float m, const float s);
float RKUMinDiff(const float m, const float s);
float RKModulo360Diff(const float m, const float s);
bool RKAngularCrossOver(const float a1, const float a2, const float crossover);

static float angle(float lo, float hi) {
    float x = vp_f32();
    VP_ASSUME(x >= lo && x <= hi);
    return x;
}

static void difference(float d, float m, float s) {
    const float r = m - s;
    VP_ASSERT(d >= -180.0f && d <= 180.0f, "a difference of angles is within half a turn");
    VP_ASSERT(d == r || d == r + 360.0f || d == r - 360.0f, "a difference of angles differs from the plain one by full turns only");
}

void angle_sector(void) {
    const float lo = vp_bool() ? 0.0f : -180.0f, hi = lo + 360.0f;
    const float m = angle(lo, hi), s = angle(lo, hi);
    difference(RKMinDiff(m, s), m, s);
    difference(RKGetSignedMinorSectorInDegrees(m, s), m, s);
    const float u = RKUMinDiff(m, s), v = RKGetMinorSectorInDegrees(m, s), w = RKMinDiff(m, s);
    VP_ASSERT(u >= 0.0f && (u == w || u == -w), "an unsigned difference is the size of the signed one");
    VP_ASSERT(v >= 0.0f && v == u, "the minor sector is the unsigned difference");
    if (m - s < -180.0f) VP_REACH("wraps up");
    if (m - s > 180.0f) VP_REACH("wraps down");
}

void angle_modulo(void) {
    const float m = angle(0.0f, 360.0f), s = angle(0.0f, 360.0f);
    const float d = RKModulo360Diff(m, s);
    VP_ASSERT(d >= 0.0f && d <= 360.0f, "a modulo difference is within a turn");
    VP_ASSERT(d == m - s || d == m - s + 360.0f, "a modulo difference differs from the plain one by a full turn only");
    VP_REACH("modulo");
}

void angle_crossing(void) {
    const float lo = vp_bool() ? 0.0f : -180.0f, hi = lo + 360.0f;
    const float a1 = angle(lo, hi), a2 = angle(lo, hi), x = angle(lo, hi);
    const bool r = RKAngularCrossOver(a1, a2, x);
    float d1 = a1 - x, d2 = a2 - x;
    if (d1 >= 180.0f) d1 -= 360.0f; else if (d1 < -180.0f) d1 += 360.0f;
    if (d2 >= 180.0f) d2 -= 360.0f; else if (d2 < -180.0f) d2 += 360.0f;
    const bool near = d1 >= -0.0001f && d1 <= 0.0001f;
    const bool across = (d1 < 0.0f && d2 > 0.0f) || (d1 > 0.0f && d2 < 0.0f);
    if (near) { VP_ASSERT(r, "arriving at an angle counts as crossing it"); VP_REACH("arrives"); }
    else if (across && d1 < 9.99f && d1 > -9.99f && (d2 > 1.0e-30f || d2 < -1.0e-30f)) { VP_ASSERT(r, "passing an angle counts as crossing it"); VP_REACH("passes"); }
    if (!near && !across) { VP_ASSERT(!r, "staying on one side is no crossing"); VP_REACH("stays"); }
    if (d1 > 10.01f || d1 < -10.01f) VP_ASSERT(!r, "a jump to the other side of the turn is no crossing");
}

// Everything is a whole number of degrees and exact in single precision
static void interpolate(const int w) {
    const int b = vp_bits(7), a = vp_bits(7);
    VP_ASSUME(b <= 90 && a <= 90);
    int d = a - b;
    if (d > 45) d -= 90; else if (d < -45) d += 90;
    int v = b * 4 + w * d;
    if (v < 0) v += 360;
    else if (v > 360) v -= 360;
    const float r = RKInterpolatePositiveAngles(b * 4.0f, a * 4.0f, w * 0.25f);
    VP_ASSERT((int)r == v, "an interpolated azimuth divides the shorter arc as the weight tells");
    const float e = RKInterpolateAngles(b * 4.0f, a * 4.0f, w * 0.25f);
    VP_ASSERT((int)e == b * 4 + w * d, "an interpolated elevation divides the shorter arc as the weight tells");
    VP_REACH("interpolated");
}

void angle_interpolate_0(void) { interpolate(0); }
void angle_interpolate_1(void) { interpolate(1); }
void angle_interpolate_2(void) { interpolate(2); }
void angle_interpolate_3(void) { interpolate(3); }
void angle_interpolate_4(void) { interpolate(4); }

void angle_interpolate_range(void) {
    const float b = angle(0.0f, 360.0f), a = angle(0.0f, 360.0f), w = angle(0.0f, 1.0f);
    const float r = RKInterpolatePositiveAngles(b, a, w);
    VP_ASSERT(r >= 0.0f && r <= 360.0f, "an interpolated angle is within a turn");
    VP_REACH("range");
}
