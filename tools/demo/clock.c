/* LD_PRELOAD virtual clock: wall-clock time is a frozen value that only the harness moves.
 * The start value comes from MC_NOW (seconds); mc_set_now() moves it inside the process, and the
 * harness keeps MC_NOW in the environment in step so that child processes (openssl) agree. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

static long long now_s = 0;
static int active = 0;

__attribute__((constructor)) static void mc_init(void) {
    const char *v = getenv("MC_NOW");
    if (v && *v) { now_s = atoll(v); active = 1; }
}
void mc_set_now(long long s) { now_s = s; active = 1; }
long long mc_get_now(void) { return now_s; }

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (active && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = now_s; ts->tv_nsec = 0; return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t) {
    time_t v;
    if (active) v = (time_t)now_s;
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
