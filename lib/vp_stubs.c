//
//  Stand-ins shared by all harnesses.  They replace the library's bodies (or, for
//  libc functions, give the solver a model).  Each is part of every claim and is
//  listed in DESIGN.md.
//
#include "vp.h"

#ifdef VP_SYMBOLIC

uint64_t vp_logged;

// Locks, sleeping: one thread is executed at a time; see the individual harnesses
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __attribute__((weak)) pthread_mutex_lock(pthread_mutex_t *m) { (void)m; return 0; }
int __attribute__((weak)) pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; return 0; }
int posix_memalign(void **p, size_t alignment, size_t size) { (void)alignment; *p = malloc(size); return 0; }

#else

#include <unistd.h>
static uint64_t *vp_values;
static size_t vp_count, vp_next;

__attribute__((constructor)) static void vp_load(void) {
    const char *path = getenv("VP_REPLAY");
    FILE *f = path ? fopen(path, "r") : NULL;
    if (f == NULL) return;
    size_t cap = 1024;
    vp_values = malloc(cap * sizeof(uint64_t));
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) {
        if (vp_count == cap) { cap *= 2; vp_values = realloc(vp_values, cap * sizeof(uint64_t)); }
        vp_values[vp_count++] = v;
    }
    fclose(f);
}
uint64_t vp_draw(void) { return vp_next < vp_count ? vp_values[vp_next++] : (vp_next++, 0); }
void vp_assume_failed(const char *c) { printf("VP-ASSUME %s\n", c); fflush(stdout); _exit(77); }
void vp_assert_failed(const char *m, const char *f, int l) { printf("VP-FAIL %s\n  at %s:%d\n", m, f, l); fflush(stdout); _exit(99); }
void vp_stop(void) { printf("VP-DONE\n"); fflush(stdout); _exit(0); }
void vp_reached(const char *m) { printf("VP-REACHED %s\n", m); fflush(stdout); }

#endif

#ifndef VP_OWN_LOG
int RKLog(const char *format, ...) { (void)format; return 0; }
#endif

// Text for log lines only
#ifndef VP_REAL_TEXT
char *RKIntegerToCommaStyleString(const long long num) { (void)num; return (char *)"0"; }
char *RKUIntegerToCommaStyleString(const unsigned long long num) { (void)num; return (char *)"0"; }
char *RKFloatToCommaStyleString(const double num) { (void)num; return (char *)"0"; }
#endif
