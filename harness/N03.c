/*VP
{
 "entries": [
  {"name": "server_payload", "unwind": 5, "checks": "func", "bounds": "one message of any announced size; every split of header and payload into 2 reads of any length, one temporary failure, a disconnection at any point"},
  {"name": "server_block", "unwind": 5, "checks": "func", "bounds": "constant-size format; every split into 2 reads, one temporary failure, a disconnection at any point"},
  {"name": "server_silent", "unwind": 204, "checks": "func", "bounds": "any announced size of which any smaller number of bytes arrives before silence; server and operator timeouts of 1 and 2 seconds in either order"}
 ],
 "sources": ["RKServer.c", "RKMisc.c"],
 "functions": ["RKServerReceiveUserPayload"],
 "assumptions": ["read() returns -1, 0 or at most the requested number of bytes, and stores them where it was told to", "sleeping is a stand-in"],
 "outside": "more than two pieces per part"
}
VP*/
#include "vp.h"

#define MAXSIZE (16u * 1024 * 1024)

static RKServer M;
static RKOperator O;
static uint8_t buffer[64];

static int mode, shorts, agains, reads;
static bool in_payload, complete, gone;
static uint32_t size, got, enough;

int usleep(useconds_t u) { (void)u; return 0; }

ssize_t read(int fd, void *buf, size_t n) {
    VP_ASSERT(fd == 7, "the server reads the operator's socket");
    if (mode == 1 && in_payload && ++reads > 1) { errno = EAGAIN; return -1; }
    const uint32_t part = in_payload ? size : 16;
    uint8_t *to = in_payload ? buffer : (uint8_t *)&O.delimRx;
    if (gone) { errno = ECONNRESET; return 0; }
    VP_ASSERT((uint8_t *)buf == to + got, "what arrives is stored right after what arrived before");
    VP_ASSERT(!complete && n > 0 && n <= part - got, "the server never reads past the end of the message");
    uint32_t r = (uint32_t)n;
    if (mode == 1) {
        if (in_payload) {
            if (enough == 0) { errno = EAGAIN; return -1; }
            r = enough;
        }
    } else if (!vp_bool()) {
        if (vp_bool() && agains > 0) { agains--; errno = EAGAIN; return -1; }
        if (vp_bool()) { gone = true; errno = ECONNRESET; return vp_bool() ? 0 : -1; }
        if (shorts > 0) {
            r = vp_u32();
            VP_ASSUME(r >= 1 && r <= n);
            shorts--;
        }
    }
    got += r;
    if (got == part) {
        got = 0;
        if (!in_payload) O.delimRx.size = size;
        if (in_payload || size == 0) complete = true; else in_payload = true;
    }
    return r;
}

static void setup(void) {
    O.M = &M; O.sid = 7;
    M.timeoutSeconds = 1; O.timeoutSeconds = 1;
    shorts = 1; agains = 1;
}

void server_payload(void) {
    setup();
    size = vp_u32();
    // The terminator is stored at the end of the payload: keep it inside the stand-in buffer
    VP_ASSUME(size < 64 || size >= MAXSIZE);
    ssize_t r = RKServerReceiveUserPayload(&O, buffer, RKNetworkMessageFormatHeaderDefinedSize);
    VP_ASSERT(r < 0 || complete, "a payload is accepted only when all of it has arrived");
    VP_ASSERT(r < 0 || size == 0 || r == (ssize_t)size, "the length returned is the length announced");
    VP_ASSERT(r >= 0 || !complete, "a payload that arrived completely is accepted");
    VP_ASSERT(!in_payload || size <= MAXSIZE || got == 0, "an oversized payload is not read");
    if (r > 0 && size < 64 && size > 0) {
        VP_ASSERT(buffer[size] == 0, "a payload is terminated");
        if (shorts == 0) VP_REACH("payload in pieces");
    }
}

void server_block(void) {
    setup();
    size = 4; in_payload = true;
    ssize_t r = RKServerReceiveUserPayload(&O, buffer, RKNetworkMessageFormatConstantSize);
    VP_ASSERT(r < 0 || (complete && r == 4), "a block is accepted only when all of it has arrived");
    VP_ASSERT(r >= 0 || !complete, "a block that arrived completely is accepted");
    if (r > 0 && shorts == 0) VP_REACH("block in pieces");
}

void server_silent(void) {
    setup();
    mode = 1;
    if (vp_bool()) M.timeoutSeconds = 2;
    if (vp_bool()) O.timeoutSeconds = 2;
    size = vp_range(1, 63); enough = vp_range(0, 62);
    VP_ASSUME(enough < size);
    ssize_t r;
    if (vp_bool()) {
        r = RKServerReceiveUserPayload(&O, buffer, RKNetworkMessageFormatHeaderDefinedSize);
    } else {
        in_payload = true; size = 4;
        VP_ASSUME(enough < size);
        r = RKServerReceiveUserPayload(&O, buffer, RKNetworkMessageFormatConstantSize);
    }
    VP_ASSERT(r < 0, "an incomplete payload is never accepted");
    VP_REACH("server silent");
}
