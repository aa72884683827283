/*VP
{
 "entries": [
  {"name": "ws_encode_small", "unwind": 16, "checks": "mem", "bounds": "payloads of 0..12 bytes with any content and any mask key, every opcode"},
  {"name": "ws_encode_steps", "unwind": 132, "checks": "mem", "bounds": "payloads of 125, 126 and 130 bytes, any content at any position, any mask key"},
  {"name": "ws_encode_large", "unwind": 16, "checks": "mem", "bounds": "every payload size up to 2^40: the frame fits the frame buffer"},
  {"name": "ws_decode_plain", "unwind": 4, "checks": "mem", "bounds": "unmasked payloads of 1..250 bytes with 7-bit and 16-bit lengths"},
  {"name": "ws_decode_short", "unwind": 14, "checks": "mem", "bounds": "masked payloads of 1..12 bytes"},
  {"name": "ws_decode_masked", "unwind": 132, "checks": "mem", "bounds": "masked payloads of 126 bytes, any byte, any key"},
  {"name": "ws_decode_masked_more", "unwind": 132, "checks": "mem", "tier": "thorough", "bounds": "masked payloads of 125 and 130 bytes, any byte, any key"}
 ],
 "sources": ["RKWebSocket.c"],
 "functions": ["RKWebSocketFrameEncode", "RKWebSocketFrameDecode"],
 "assumptions": [],
 "outside": "the content of payloads longer than 130 bytes; decoding of 64-bit lengths"
}
VP*/
#include "vp.h"

#define LOCAL(f) __CPROVER_file_local_RKWebSocket_c_##f
size_t LOCAL(RKWebSocketFrameEncode)(void *buf, RFC6455_OPCODE code, const void *src, size_t size);
size_t LOCAL(RKWebSocketFrameDecode)(void **dst, void *buf);

static uint8_t frame[64];               // as much as is written before the payload
static uint32_t key;
static bool large;

int rand(void) { return (int)(key & 0x7fffffff); }

#ifdef VP_SYMBOLIC
int fprintf(FILE *f, const char *s, ...) { (void)f; (void)s; return 0; }
int printf(const char *s, ...) { (void)s; return 0; }
#endif

// ------------------------------------------------------------------ encoding

static uint8_t src[256], out[512];

static void check_frame(size_t r, RFC6455_OPCODE code, size_t n, uint32_t at) {
    const size_t head = n > 125 ? 4 : 2;
    VP_ASSERT(r == head + 4 + n, "a frame is its header, its mask key and the payload");
    VP_ASSERT(out[0] == (0x80 | code), "a frame is final and carries its opcode");
    VP_ASSERT(out[1] == (0x80 | (n > 125 ? 126 : n)), "a client frame is masked and tells its length");
    if (n > 125) VP_ASSERT(out[2] == (n >> 8) && out[3] == (n & 0xff), "a 16-bit length is in network order");
    if (at < n) VP_ASSERT((out[head + 4 + at] ^ out[head + at % 4]) == src[at], "unmasking a frame gives the payload back");
}

void ws_encode_small(void) {
    const size_t n = vp_range(0, 12);
    vp_bytes(src, 12);
    key = vp_u32();
    const RFC6455_OPCODE code = vp_bits(4);
    if (n == 0) src[0] = 0;
    size_t r = LOCAL(RKWebSocketFrameEncode)(out, code, src, n);
    check_frame(r, code, n, vp_range(0, 11));
    VP_REACH("encoded");
}

static void encode_step(const size_t n) {
    const uint32_t at = vp_bits(7);
    const uint8_t v = vp_u8();
    VP_ASSUME(at < n);
    src[at] = v;
    key = vp_u32();
    size_t r = LOCAL(RKWebSocketFrameEncode)(out, RFC6455_OPCODE_BINARY, src, n);
    check_frame(r, RFC6455_OPCODE_BINARY, n, at);
    VP_REACH("encoded step");
}

void ws_encode_steps(void) {
    switch (vp_range(0, 2)) {
        case 0: encode_step(125); break;
        case 1: encode_step(126); break;
        default: encode_step(130); break;
    }
}

// The payload is copied by memcpy(): that is where the frame has to end in the buffer
#ifdef VP_SYMBOLIC
void *memcpy(void *d, const void *s, size_t n) {
    if (large) {
        VP_ASSERT(n + 1 <= RKWebSocketFrameSize - ((uint8_t *)d - frame), "a frame and its terminator fit in the frame buffer");
        VP_REACH("large");
        VP_STOP();
    }
    for (size_t k = 0; k < n; k++) ((uint8_t *)d)[k] = ((const uint8_t *)s)[k];
    return d;
}
#endif

void ws_encode_large(void) {
    large = true;
    uint64_t n = vp_u64() & (((uint64_t)1 << 40) - 1);
    VP_ASSUME(n > 65535);
#ifndef VP_SYMBOLIC
    uint8_t *big = calloc(1, n < 2 * RKWebSocketFrameSize ? n : 2 * RKWebSocketFrameSize);
    uint8_t *heap = malloc(RKWebSocketFrameSize);       // so that the sanitizer sees the end of the frame buffer
    VP_REACH("large");
    LOCAL(RKWebSocketFrameEncode)(heap, RFC6455_OPCODE_BINARY, big, n);
#else
    LOCAL(RKWebSocketFrameEncode)(frame, RFC6455_OPCODE_BINARY, src, n);
#endif
}

// ------------------------------------------------------------------ decoding

static void decode_of(const bool mask, const bool wide, const uint32_t n) {
    const uint32_t at = vp_bits(8);
    const uint8_t v = vp_u8();
    VP_ASSUME(at < n);
    const int head = wide ? 4 : 2;
    out[0] = 0x82;
    out[1] = (mask ? 0x80 : 0) | (wide ? 126 : n);
    if (wide) { out[2] = n >> 8; out[3] = n & 0xff; }
    const int begin = head + (mask ? 4 : 0);
    uint8_t k[4] = {0, 0, 0, 0};
    if (mask) for (int j = 0; j < 4; j++) out[head + j] = k[j] = vp_u8();
    out[begin + at] = v ^ k[at % 4];
    void *p = NULL;
    size_t r = LOCAL(RKWebSocketFrameDecode)(&p, out);
    VP_ASSERT(r == n, "decoding gives the length of the payload");
    VP_ASSERT((uint8_t *)p == out + begin, "decoding gives the payload itself");
    VP_ASSERT(((uint8_t *)p)[at] == v, "decoding gives the payload's bytes");
    VP_ASSERT(((uint8_t *)p)[n] == 0, "a decoded payload is terminated");
    VP_REACH("decoded");
}

void ws_decode_plain(void) {
    if (vp_bool()) decode_of(false, false, vp_range(1, 125));
    else decode_of(false, true, vp_range(126, 250));
}

void ws_decode_short(void) { decode_of(true, false, vp_range(1, 12)); }

void ws_decode_masked(void) { decode_of(true, true, 126); }

void ws_decode_masked_more(void) {
    if (vp_bool()) decode_of(true, false, 125);
    else decode_of(true, true, 130);
}
