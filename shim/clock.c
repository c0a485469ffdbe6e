// LD_PRELOAD: adds the number of nanoseconds in CLOCK_FILE to the wall clock. The monotonic clock is left alone.
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static volatile long *off; static volatile long *reads; static long zero[2];
__attribute__((constructor)) static void init(void) {
    off = &zero[0]; reads = &zero[1];
    const char *p = getenv("CLOCK_FILE");
    if (!p) return;
    int fd = open(p, O_RDWR | O_CLOEXEC);
    if (fd < 0) return;
    long *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m != MAP_FAILED) { off = m; reads = m + 1; }
}
int clock_gettime(clockid_t id, struct timespec *t) {
    int r = (int)syscall(SYS_clock_gettime, id, t);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        __atomic_add_fetch((long *)reads, 1, __ATOMIC_RELAXED);
        long o = off ? *off : 0; long s = o / 1000000000L, n = o % 1000000000L;
        if (n < 0) { n += 1000000000L; s -= 1; }
        t->tv_sec += s; t->tv_nsec += n;
        if (t->tv_nsec >= 1000000000L) { t->tv_nsec -= 1000000000L; t->tv_sec += 1; }
    }
    return r;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t; (void)z;
    if (clock_gettime(CLOCK_REALTIME, &t)) return -1;
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
