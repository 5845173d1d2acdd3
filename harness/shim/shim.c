/* Preloaded into a rendering process: another date, and other random bytes.  VH_SHIM is a number. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>

static long n(void) {
    const char *s = getenv("VH_SHIM");
    return s ? atol(s) : 0;
}
/* A different second, minute, hour, day, month and year */
static long offset(void) { return n() * (400L * 86400 + 5 * 3600 + 7 * 60 + 11); }

int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += offset();
    return r;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    struct timespec s;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    (void)z;
    if (!r) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
    return r;
}
time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    static unsigned long x;
    (void)flags;
    if (!x) x = (unsigned long)n() * 0x9E3779B97F4A7C15ul + 12345;
    for (size_t i = 0; i < len; i++) {
        x = x * 6364136223846793005ul + 1442695040888963407ul;
        ((unsigned char *)buf)[i] = x >> 40;
    }
    return len;
}
