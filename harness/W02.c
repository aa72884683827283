/*VP
{
 "entries": [
  {"name": "ws_receive", "unwind": 12, "checks": "mem", "bounds": "one frame of any announced length (7, 16 and 64 bits), any opcode, split into up to 4 reads at any point, or cut off", "timeout": 500},
  {"name": "ws_two_frames", "unwind": 12, "checks": "mem", "bounds": "two frames of any length, each in up to 2 reads"},
  {"name": "ws_ping", "unwind": 8, "checks": "mem", "bounds": "pings of 1..5 bytes with any content are answered"},
  {"name": "ws_queue", "unwind": 12, "checks": "mem", "defines": ["QUEUE"], "bounds": "any position in the ring, up to 4 payloads queued at any time before or between sends, any send refused"},
  {"name": "ws_queue_full", "unwind": 4, "checks": "mem", "bounds": "every fill level of the ring"}
 ],
 "scale": {"RKWebSocketFrameSize": "512", "RKWebSocketPayloadDepth": "8"},
 "layout": [["uint8_t +frame\\[RKWebSocketFrameSize\\]", "uint8_t *frame"]],
 "sources": ["RKWebSocket.c"],
 "functions": ["transporter", "RKWebSocketFrameDecode", "RKWebSocketFrameGetTargetSize", "RKWebSocketPingPong", "RKWebSocketSend", "RKWebSocketStart"],
 "assumptions": ["the connection has been established and upgraded", "a write either takes the whole frame or fails", "one read returns bytes of one frame only",
   "the frame buffer holds 512 bytes instead of 1 MiB and the queue 8 payloads instead of 1000 (the code's own constants, scaled at compile time)"],
 "outside": "TLS, the HTTP upgrade, two frames arriving in one read, fragmented messages (fin = 0)"
}
VP*/
#include "vp.h"

#define LOCAL(f) __CPROVER_file_local_RKWebSocket_c_##f

static RKWebSocket socket_;
static RKWebSocket *const W = &socket_;
static uint8_t frame_buffer[RKWebSocketFrameSize];      // an object of its own, for the solver's sake
static uint32_t key;
static int mode;
enum { ModeNone, ModeReceive, ModePing, ModeQueue };

int rand(void) { return (int)(key & 0x7fffffff); }

#ifdef VP_SYMBOLIC
void *memcpy(void *d, const void *s, size_t n) {
    for (size_t k = 0; k < n; k++) ((uint8_t *)d)[k] = ((const uint8_t *)s)[k];
    return d;
}
int fprintf(FILE *f, const char *s, ...) { (void)f; (void)s; return 0; }
int printf(const char *s, ...) { (void)s; return 0; }
#endif

// ------------------------------------------------------------------ the run loop

static void *(*thread)(void *);
static void *thread_arg;
static int selects, max_selects, frames, delivered, closed, pongs, shorts;
static bool gone;
static struct { uint64_t length; uint32_t head; uint8_t first; uint8_t opcode; } F[2];
static uint64_t got;                            // bytes of the current frame that have arrived

int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*f)(void *), void *restrict arg) {
    (void)t; (void)a;
    thread = f; thread_arg = arg;
    return 0;
}

static void finish(void);

int LOCAL(RKWebSocketConnect)(RKWebSocket *w) {
    if (selects) finish();
    w->sd = 5;
    w->connected = true;
    return 0;
}

int usleep(useconds_t t) { (void)t; finish(); return 0; }
int close(int fd) { VP_ASSERT(fd == 5, "the connection that is closed is the one that was opened"); closed++; return 0; }
time_t time(time_t *t) { if (t) *t = 1; return 1; }
double difftime(time_t a, time_t b) { return (double)(a - b); }

int select(int n, fd_set *restrict r, fd_set *restrict w, fd_set *restrict e, struct timeval *restrict t) {
    (void)n; (void)t;
    if (++selects > max_selects) finish();
    memset(e, 0, sizeof(fd_set));
    if (mode != ModeQueue && w) { memset(w, 0, sizeof(fd_set)); return 0; }
    if (mode == ModeQueue && r) { memset(r, 0, sizeof(fd_set)); return 0; }
    return 1;
}

// A frame as the server would send it, stored as far as the harness looks at it
static void store(uint8_t *to, uint64_t from, uint64_t n, int f) {
    uint8_t h[10];
    h[0] = 0x80 | F[f].opcode;
    h[1] = F[f].head == 2 ? F[f].length : F[f].head == 4 ? 126 : 127;
    if (F[f].head == 4) { h[2] = F[f].length >> 8; h[3] = F[f].length; }
    if (F[f].head == 10) { h[2] = F[f].length >> 56; h[3] = F[f].length >> 48; h[4] = F[f].length >> 40; h[5] = F[f].length >> 32; h[6] = F[f].length >> 24; h[7] = F[f].length >> 16; h[8] = F[f].length >> 8; h[9] = F[f].length; }
    // the header in place, then the first byte of the payload
    uint8_t *frame = W->frame;
    if (from <= 0 && n + from > 0) frame[0] = h[0];
    if (from <= 1 && n + from > 1) frame[1] = h[1];
    if (F[f].head >= 4) {
        if (from <= 2 && n + from > 2) frame[2] = h[2];
        if (from <= 3 && n + from > 3) frame[3] = h[3];
    }
    if (F[f].head == 10) {
        if (from <= 4 && n + from > 4) frame[4] = h[4];
        if (from <= 5 && n + from > 5) frame[5] = h[5];
        if (from <= 6 && n + from > 6) frame[6] = h[6];
        if (from <= 7 && n + from > 7) frame[7] = h[7];
        if (from <= 8 && n + from > 8) frame[8] = h[8];
        if (from <= 9 && n + from > 9) frame[9] = h[9];
    }
    if (F[f].length && from <= F[f].head && n + from > F[f].head) frame[F[f].head] = F[f].first;
    (void)to;
}

ssize_t read(int fd, void *buf, size_t n) {
    VP_ASSERT(fd == 5, "frames are read from the connection");
    if (gone || delivered + pongs > frames) return 0;
    const int f = delivered;
    if (f >= frames) finish();
    const uint64_t total = F[f].head + F[f].length;
    if (got == total) finish();                 // a control frame, and nothing follows
    VP_ASSERT((uint8_t *)buf == W->frame + got, "what arrives is stored right after what arrived before");
    VP_ASSERT(n <= RKWebSocketFrameSize - got, "reading stays inside the frame buffer");
    uint64_t r = total - got;
    if (n < r) r = n;
    if (r == 0) { gone = true; VP_ASSERT(got >= RKWebSocketFrameSize - 1, "the connection is given up only when the frame does not fit"); return 0; }
    if (shorts > 0) {
        if (vp_bool()) { gone = true; return vp_bool() ? 0 : -1; }
        uint64_t s = vp_u64();
        VP_ASSUME(s >= 1 && s <= r);
        if (s < r) shorts--;
        r = s;
    }
    store(buf, got, r, f);
    got += r;
    return (ssize_t)r;
}

static void on_message(RKWebSocket *w, void *payload, size_t size) {
    VP_ASSERT(w == W, "the handler receives its own connection");
    VP_ASSERT(delivered < frames && got == F[delivered].head + F[delivered].length, "a message is delivered when all of it has arrived");
    VP_ASSERT(F[delivered].opcode == RFC6455_OPCODE_TEXT || F[delivered].opcode == RFC6455_OPCODE_BINARY, "only text and binary messages are delivered");
    VP_ASSERT(size == F[delivered].length && (uint8_t *)payload == W->frame + F[delivered].head, "a message is delivered with its own payload");
    VP_ASSERT(((uint8_t *)payload)[0] == F[delivered].first, "the payload is what was sent");
    delivered++;
    got = 0;
    VP_REACH("delivered");
}

static void run(void) {
    W->frame = frame_buffer;
    W->onMessage = on_message;
    W->timeoutThreshold = 1000;
    RKWebSocketStart(W);
    thread(thread_arg);
}

static void a_frame(int k) {
    switch (vp_range(0, 2)) {
        case 0: F[k].head = 2; F[k].length = vp_range(1, 125); break;
        case 1: F[k].head = 4; F[k].length = vp_range(126, 65535); break;
        default: F[k].head = 10; F[k].length = vp_u64(); VP_ASSUME(F[k].length > 65535 && F[k].length < ((uint64_t)1 << 62)); break;
    }
    F[k].first = vp_u8();
}

static bool fits(int k) { return F[k].length < RKWebSocketFrameSize - 16; }

void ws_receive(void) {
    mode = ModeReceive;
    a_frame(0);
    F[0].opcode = vp_bool() ? RFC6455_OPCODE_BINARY : vp_bool() ? RFC6455_OPCODE_TEXT : vp_bool() ? RFC6455_OPCODE_CLOSE : RFC6455_OPCODE_PONG;
    frames = 1; shorts = 3; max_selects = 8;
    run();
}

void ws_two_frames(void) {
    mode = ModeReceive;
    a_frame(0); a_frame(1);
    F[0].opcode = F[1].opcode = RFC6455_OPCODE_BINARY;
    VP_ASSUME(fits(0) && fits(1));
    frames = 2; shorts = 2; max_selects = 8;
    run();
}

// ------------------------------------------------------------------ pings

static uint32_t ping_at;

void ws_ping(void) {
    mode = ModePing;
    frames = 1; max_selects = 4;
    F[0].opcode = RFC6455_OPCODE_PING;
    F[0].head = 2; F[0].length = vp_range(1, 5); F[0].first = vp_u8();
    key = vp_u32();
    run();
}

// ------------------------------------------------------------------ the queue of payloads

static int queued, sent, expect_payload = -1;
static uint8_t bodies[4];

static void enqueue(void) {
    if (queued >= 4) return;
    int r = RKWebSocketSend(W, &bodies[queued], 100 + queued);
    VP_ASSERT(r == 0, "a payload is accepted while there is room");
    queued++;
}

#ifdef QUEUE
size_t LOCAL(RKWebSocketFrameEncode)(void *buf, RFC6455_OPCODE code, const void *s, size_t size) {
    VP_ASSERT(buf == W->frame && code == RFC6455_OPCODE_BINARY, "a payload is sent as a binary frame");
    for (int k = 0; k < 4; k++) if (s == &bodies[k]) {
        VP_ASSERT(size == (size_t)(100 + k), "a payload is sent with its own size");
        expect_payload = k;
    }
    return 500;
}
#endif

ssize_t write(int fd, const void *buf, size_t n) {
    VP_ASSERT(fd == 5 && (const uint8_t *)buf == W->frame, "frames are written to the connection");
    if (mode == ModePing) {
        VP_ASSERT(n == 6 + F[0].length && W->frame[0] == (0x80 | RFC6455_OPCODE_PONG), "a ping is answered by a pong of the same length");
        VP_ASSERT((W->frame[2] ^ W->frame[6]) == F[0].first, "a pong carries the payload of the ping");
        VP_REACH("pong");
        pongs++;
        finish();
        return n;
    }
    VP_ASSERT(n == 500, "the whole frame is written");
    VP_ASSERT(expect_payload == sent, "payloads are sent in the order they were queued, each once");
    if (vp_bool()) { gone = true; return vp_bool() ? 0 : -1; }
    sent++;
    if (vp_bool()) enqueue();
    return n;
}

void ws_queue(void) {
    mode = ModeQueue;
    const int place = vp_range(0, 2);
    W->payloadHead = W->payloadTail = place == 0 ? 0 : place == 1 ? RKWebSocketPayloadDepth - 2 : RKWebSocketPayloadDepth - 1;
    enqueue();
    if (vp_bool()) enqueue();
    max_selects = 4;
    run();
}

void ws_queue_full(void) {
    const uint16_t head = vp_range(0, RKWebSocketPayloadDepth - 1), tail = vp_range(0, RKWebSocketPayloadDepth - 1);
    W->payloadHead = head; W->payloadTail = tail;
    const int pending = head >= tail ? head - tail : head + RKWebSocketPayloadDepth - tail;
    int r = RKWebSocketSend(W, bodies, 4);
    const int now = W->payloadHead >= tail ? W->payloadHead - tail : W->payloadHead + RKWebSocketPayloadDepth - tail;
    VP_ASSERT(W->payloadTail == tail && W->payloadHead < RKWebSocketPayloadDepth, "queueing moves only the head");
    if (r == 0) {
        VP_ASSERT(now == pending + 1, "a queued payload is added to those pending");
        VP_ASSERT(W->payloads[W->payloadHead].source == bodies && W->payloads[W->payloadHead].size == 4, "a queued payload is recorded");
        VP_REACH("queued");
    } else {
        VP_ASSERT(now == pending, "a refused payload leaves those pending alone");
        VP_ASSERT(pending == RKWebSocketPayloadDepth - 1, "a payload is refused only when the queue is full");
        VP_REACH("full");
    }
}

static void finish(void) {
    if (mode == ModeReceive) {
        for (int k = 0; k < frames; k++) {
            if (k < delivered || gone || selects <= max_selects) continue;
            if (got == F[k].head + F[k].length) VP_ASSERT(F[k].opcode != RFC6455_OPCODE_BINARY && F[k].opcode != RFC6455_OPCODE_TEXT, "every complete message is delivered");
        }
        if (!gone && frames == 1 && F[0].opcode == RFC6455_OPCODE_CLOSE && got == F[0].head + F[0].length) VP_ASSERT(closed == 1, "a close frame closes the connection");
        if (delivered == 2) VP_REACH("both frames");
        if (gone) VP_ASSERT(closed == 1, "a lost connection is closed");
    }
    if (mode == ModePing) VP_ASSERT(pongs == 1, "a ping is answered");
    if (mode == ModeQueue) {
        if (!gone) VP_ASSERT(sent == queued, "every queued payload is sent");
        else VP_REACH("send refused");
        if (sent == 4) VP_REACH("four sent");
    }
    VP_STOP();
}
