/* Preloaded: lets the harness set what every reader of the wall clock in this process sees. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static volatile long long fake_ns;      /* 0: the real clock */
void vf_clock_set(long long ns) { fake_ns = ns; }
long long vf_clock_get(void) { return fake_ns; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    long long f = fake_ns;
    if (f && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = f / 1000000000LL; ts->tv_nsec = f % 1000000000LL;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec t; (void)tz;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
