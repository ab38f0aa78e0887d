/* The wall clock of the process, stopped at a chosen instant on demand. */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static int stopped;
static struct timespec at;
void clock_stop(long s, long ns) { at.tv_sec = s; at.tv_nsec = ns; stopped = 1; }
void clock_go(void) { stopped = 0; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (stopped && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { *ts = at; return 0; }
    return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
