/*VP
{
 "entries": [
  {"name": "client_messages", "unwind": 4, "checks": "func", "defines": ["SHORTS=1"], "bounds": "two messages with any announced size up to 2^32-1; every way of splitting each header and payload into 2 reads of any length, one temporary failure, a disconnection at any point", "timeout": 600},
  {"name": "client_blocks", "unwind": 4, "checks": "func", "defines": ["SHORTS=1"], "bounds": "constant-size format with any block length up to 65536, two blocks; every split into 2 reads, one temporary failure, a disconnection at any point"},
  {"name": "client_silent", "unwind": 104, "checks": "func", "bounds": "any announced size, of which any smaller number of bytes arrives before the connection falls silent for the whole timeout"},
  {"name": "client_largest", "unwind": 4, "checks": "func", "defines": ["SHORTS=1"], "bounds": "one message of any announced size up to 2^32-1, received in one piece into the client's own buffer"}
 ],
 "sources": ["RKClient.c", "RKMisc.c"],
 "functions": ["RKClientStart", "theClient"],
 "assumptions": ["the receive thread is executed alone", "sockets, name resolution, select(), sleeping and the clock are stand-ins; read() returns -1, 0 or at most the requested number of bytes, and stores them where it was told to", "timeout of one second, that is 100 attempts per part"],
 "outside": "newline-terminated format (fgets), connection establishment, more than two messages per connection, more than two pieces per part (three in the thorough tier)"
}
VP*/
#include "vp.h"
#include <netdb.h>

#ifndef SHORTS
#define SHORTS 2
#endif
#define MAXSIZE (16u * 1024 * 1024)

static RKClient *C;
static RKClient client;
static void *(*thread)(void *);
static void *thread_arg;

static int reads, selects, max_selects, received, shorts, agains, mode;
static uint32_t block;                          // 0: header-defined size
static uint32_t sizes[2];                       // announced sizes, or the block length
static uint32_t got;                            // bytes of the current part received
static int message;                             // messages received completely
static bool in_payload, gone;
static uint32_t enough;                         // mode 1: payload bytes that ever arrive

int pthread_create(pthread_t *restrict t, const pthread_attr_t *restrict a, void *(*f)(void *), void *restrict arg) {
    (void)t; (void)a;
    thread = f; thread_arg = arg;
    return 0;
}
int pthread_attr_init(pthread_attr_t *a) { (void)a; return 0; }


#ifdef VP_SYMBOLIC
// Of the receive buffer of 16 MiB only its length matters here
static size_t buffer_size;
void *malloc(size_t n) {
    if (n >= MAXSIZE) { buffer_size = n; n = 64; }
    return __CPROVER_allocate(n, 0);
}
#endif

struct hostent *gethostbyname2(const char *name, int af) {
    static struct in_addr addr;
    static char *list[2];
    static struct hostent h;
    (void)name; (void)af;
    list[0] = (char *)&addr; list[1] = NULL;
    h.h_addr_list = list;
    return &h;
}
char *inet_ntoa(struct in_addr in) { (void)in; static char s[2] = "1"; return s; }
in_addr_t inet_addr(const char *s) { (void)s; return 1; }
int socket(int a, int b, int c) { (void)a; (void)b; (void)c; return 7; }
int connect(int s, const struct sockaddr *a, socklen_t l) { (void)s; (void)a; (void)l; return 0; }
int close(int fd) { (void)fd; return 0; }
void (*signal(int s, void (*f)(int)))(int) { (void)s; (void)f; return NULL; }
int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; tv->tv_sec = 1; tv->tv_usec = 0; return 0; }
static void finish(void);
int usleep(useconds_t u) {
    if (u >= 50000) finish();                   // waiting to reconnect
    return 0;
}

int select(int n, fd_set *restrict r, fd_set *restrict w, fd_set *restrict e, struct timeval *restrict t) {
    (void)n; (void)r; (void)w; (void)e; (void)t;
    if (++selects > max_selects) finish();
    return 1;
}

ssize_t read(int fd, void *buf, size_t n) {
    VP_ASSERT(fd == 7, "the client reads its own socket");
    const uint32_t part = in_payload ? sizes[message] : 16;
    char *to = in_payload ? (char *)C->userPayload : (char *)&C->netDelimiter;
    if (gone) { errno = ECONNRESET; return 0; }
    if (mode == 1 && in_payload && ++reads > 1) { errno = EAGAIN; return -1; }
    VP_ASSERT((char *)buf == to + got, "what arrives is stored right after what arrived before");
    VP_ASSERT(n > 0 && n <= part - got, "the client never reads past the end of the message");
    uint32_t r = (uint32_t)n;
    if (mode == 1) {
        if (in_payload) {
            if (enough == 0) { errno = EAGAIN; return -1; }
            r = enough;
        }
    } else if (mode == 0 && !vp_bool()) {
        if (vp_bool() && agains > 0) { agains--; errno = EAGAIN; return -1; }
        if (vp_bool()) { gone = true; errno = ECONNRESET; return vp_bool() ? 0 : -1; }
        if (shorts > 0) {
            r = vp_u32();
            VP_ASSUME(r >= 1 && r <= n);
            shorts--;
        }
    }
    got += r;
    if (got == part) {
        got = 0;
        if (!in_payload) {
            C->netDelimiter.size = sizes[message];
            C->netDelimiter.type = 100 + message;
        }
        if (in_payload || sizes[message] == 0) { message++; in_payload = block != 0; } else { in_payload = true; }
    }
    return r;
}

static int on_message(RKClient *c) {
    VP_ASSERT(c == C, "the handler receives its own client");
    VP_ASSERT(got == 0 && message == received + 1, "a message is delivered once, when all of it and nothing more has arrived");
    if (!block) {
        VP_ASSERT(in_payload == false, "no payload is delivered half way");
        VP_ASSERT(c->netDelimiter.size == sizes[received] && c->netDelimiter.type == 100 + received, "a message is delivered with its own header");
        VP_ASSERT(c->netDelimiter.size <= MAXSIZE, "an oversized message is not delivered");
    }
#ifdef VP_SYMBOLIC
    VP_ASSERT(block || c->netDelimiter.size < buffer_size, "the receive buffer holds the payload and its terminator");
#endif
    received++;
    if (received == 2 && shorts == 0) VP_REACH("two messages in pieces");
    return 0;
}

static void go(RKNetworkMessageFormat format, int blockLength) {
    C = &client;
    C->type = RKNetworkSocketTypeTCP;
    C->format = format;
    C->blockLength = blockLength;
    C->blocking = true;
    C->timeoutSeconds = 1;
    RKClientSetReceiveHandler(C, on_message);
    RKClientStart(C, false);
    thread(thread_arg);
}

static void finish(void) {
    VP_ASSERT(received == message, "every message that arrived completely is delivered");
    if (mode == 0 && !block && !gone && agains == 1 && sizes[0] <= MAXSIZE && sizes[1] <= MAXSIZE) VP_ASSERT(received == 2, "every message up to the maximum size is accepted");
    if (mode == 2) {
        VP_ASSERT(received == (sizes[0] <= MAXSIZE ? 1 : 0), "every message up to the maximum size is accepted, and none above");
        if (sizes[0] == MAXSIZE) VP_REACH("largest");
    }
    if (mode == 1) {
        VP_ASSERT(received == 0, "an incomplete message is never delivered");
        VP_REACH("silent");
    }
    VP_STOP();
}

void client_messages(void) {
    sizes[0] = vp_u32(); sizes[1] = vp_u32();
    shorts = SHORTS; agains = 1; max_selects = 2;
    go(RKNetworkMessageFormatHeaderDefinedSize, 0);
}

void client_blocks(void) {
    block = sizes[0] = sizes[1] = vp_range(1, 65536);
    in_payload = true;
    shorts = SHORTS; agains = 1; max_selects = 2;
    go(RKNetworkMessageFormatConstantSize, block);
}

void client_silent(void) {
    sizes[0] = vp_range(1, MAXSIZE); enough = vp_u32();
    VP_ASSUME(enough < sizes[0]);
    mode = 1; max_selects = 1;
    go(RKNetworkMessageFormatHeaderDefinedSize, 0);
}

void client_largest(void) {
    sizes[0] = vp_u32();
    agains = 1; max_selects = 1; mode = 2;
    go(RKNetworkMessageFormatHeaderDefinedSize, 0);
}
