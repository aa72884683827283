/*VP
{
 "entries": [
  {"name": "network_send", "unwind": 12, "checks": "mem", "bounds": "1 to 3 packets of 0..5 bytes, every outcome of every send(): an error or any number of bytes"},
  {"name": "operator_send", "unwind": 12, "checks": "mem", "defines": ["MAXP=3"], "thorough": {"defines": ["MAXP=5"], "bounds": "1 to 3 packets of 0..5 bytes"}, "bounds": "1 to 3 packets of 0..3 bytes, every outcome of every send(): an error or any number of bytes"},
  {"name": "operator_text", "unwind": 12, "checks": "mem", "bounds": "any text of 0..4 characters through the plain text sender, and the beacon, every outcome of every send()"}
 ],
 "functions": ["RKNetworkSendPackets", "RKOperatorSendPackets", "RKOperatorSendString", "RKOperatorSendBeacon"],
 "assumptions": ["send() returns -1 or a count between 1 and the requested length", "usleep() only waits"],
 "outside": "more than three packets per call, packets above 5 bytes (16 for headers), send() returning 0; the two senders that pass a 32-bit length through the variable argument list (RKOperatorSendDelimitedString, RKOperatorSendCommandResponse)"
}
VP*/
#include "vp.h"

#ifndef MAXP
#define MAXP 5
#endif

static uint8_t data[3][MAXP];
static const uint8_t *expect_ptr[4];
static size_t expect_len[4];
static int expect_count;
static size_t sent_total;
static int locked;
static bool sent_all(void) { size_t s = 0; for (int i = 0; i < expect_count; i++) s += expect_len[i]; return s == sent_total; }

int usleep(useconds_t u) { (void)u; return 0; }

#ifdef VP_SYMBOLIC
int pthread_mutex_lock(pthread_mutex_t *m) { (void)m; locked++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; locked--; return 0; }
#endif

// The peer: accepts any number of the bytes offered
ssize_t send(int sd, const void *buf, size_t n, int flags) {
    (void)flags;
    VP_ASSERT(sd == 7, "packets go to the connection they are meant for");
    // The byte expected next
    size_t o = sent_total;
    const uint8_t *p = NULL;
    size_t left = 0;
    for (int i = 0; i < expect_count; i++) {
        if (p == NULL) {
            if (o < expect_len[i]) { p = expect_ptr[i] + o; left = expect_len[i] - o; } else { o -= expect_len[i]; }
        }
    }
    VP_ASSERT(p != NULL, "nothing is sent beyond the packets given");
    VP_ASSERT((const uint8_t *)buf == p, "sending resumes at the first byte not yet sent");
    VP_ASSERT(n <= left, "no byte beyond the packet is sent");
    int r = vp_irange(-1, 16);
    VP_ASSUME(r != 0 && r <= (int)n);
    if (r > 0) sent_total += r;
    return r;
}

static void outcome(ssize_t r) {
    VP_ASSERT(locked == 0, "the connection is left unlocked");
    if (r > 0) VP_ASSERT(sent_all() && r == (ssize_t)sent_total, "a byte count is reported only when every byte was sent");
    if (r > 0) VP_REACH("all sent");
    if (r < 0 && sent_total > 0) VP_REACH("incomplete");
}

static size_t n[3];
static int packets(void) {
    for (int i = 0; i < 3; i++) {
        vp_bytes(data[i], MAXP);
        n[i] = vp_range(0, MAXP);
        expect_ptr[i] = data[i];
        expect_len[i] = n[i];
    }
    expect_count = vp_irange(1, 3);
    for (int i = expect_count; i < 3; i++) expect_len[i] = 0;
    return expect_count;
}

void network_send(void) {
    int c = packets();
    ssize_t r = c == 1 ? RKNetworkSendPackets(7, data[0], n[0], NULL)
              : c == 2 ? RKNetworkSendPackets(7, data[0], n[0], data[1], n[1], NULL)
                       : RKNetworkSendPackets(7, data[0], n[0], data[1], n[1], data[2], n[2], NULL);
    outcome(r);
}

static RKOperator O;

void operator_send(void) {
    O.sid = 7;
    int c = packets();
    ssize_t r = c == 1 ? RKOperatorSendPackets(&O, data[0], n[0], NULL)
              : c == 2 ? RKOperatorSendPackets(&O, data[0], n[0], data[1], n[1], NULL)
                       : RKOperatorSendPackets(&O, data[0], n[0], data[1], n[1], data[2], n[2], NULL);
    outcome(r);
}

void operator_text(void) {
    O.sid = 7;
    O.beacon.type = RKNetworkPacketTypeBeacon;
    char text[5];
    vp_bytes(text, 4);
    text[4] = 0;
    size_t len = 0;
    while (text[len]) len++;
    ssize_t r;
    expect_count = 1;
    if (vp_bool()) {
        expect_ptr[0] = (uint8_t *)text; expect_len[0] = len;
        r = RKOperatorSendString(&O, text);
    } else {
        expect_ptr[0] = (uint8_t *)&O.beacon; expect_len[0] = sizeof(RKNetDelimiter);
        r = RKOperatorSendBeacon(&O);
        VP_ASSERT(O.beacon.type == RKNetworkPacketTypeBeacon && O.beacon.size == 0, "a beacon has no payload");
    }
    outcome(r);
}
