// LD_PRELOAD layer between the program and the file system. Watches every modifying call on files below SHIM_PREFIX.
//   SHIM_LOG=path      append one line per operation
//   SHIM_AT=n          act on the n-th operation (1-based), counted from the process start or, if SHIM_ARM=path, from when that file exists
//   SHIM_MODE          before | after | partial (half of a write is done, then killed) : the process is killed at that operation
//                      errno:N (the operation fails, once) | full:N (it and all later ones fail) | short (half of the write, returns the short count) | eintr
//   SHIM_LOSE=1        on a kill, data not synchronised is lost: files are cut to their synchronised length, unsynchronised overwrites become zeros
//   SHIM_HOLD=path     while this file exists, operations wait (path.held is created when one does)
//   SHIM_SLOW_US=n     every operation takes n microseconds longer
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define MAXFD 4096
#define MAXINO 512

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static const char *prefix, *logpath, *mode, *arm, *hold; static long at, count_; static int lose, fails_on; static long slow;
static int inited;
static char tracked[MAXFD];
struct ino { ino_t ino; long long synced, lo, hi; } inos[MAXINO]; static int nino;

static void init(void) {
    if (inited) return; inited = 1;
    prefix = getenv("SHIM_PREFIX"); logpath = getenv("SHIM_LOG"); mode = getenv("SHIM_MODE"); arm = getenv("SHIM_ARM"); hold = getenv("SHIM_HOLD");
    at = getenv("SHIM_AT") ? atol(getenv("SHIM_AT")) : 0; lose = getenv("SHIM_LOSE") != NULL; slow = getenv("SHIM_SLOW_US") ? atol(getenv("SHIM_SLOW_US")) : 0;
}
static int rawexists(const char *p) { return syscall(SYS_access, p, F_OK) == 0; }
static int under(const char *p) { init(); return prefix && p && strncmp(p, prefix, strlen(prefix)) == 0; }
static int fdt(int fd) { init(); return prefix && fd >= 0 && fd < MAXFD && tracked[fd]; }
static struct ino *find(ino_t i, long long initial) {
    for (int k = 0; k < nino; k++) if (inos[k].ino == i) return &inos[k];
    if (nino == MAXINO) return NULL;
    inos[nino] = (struct ino){i, initial, -1, -1}; return &inos[nino++];
}
static void wrote(int fd, long long off, long long n) {
    struct stat st; if (fstat(fd, &st)) return;
    struct ino *k = find(st.st_ino, 0); if (!k || n <= 0) return;
    if (k->lo < 0 || off < k->lo) k->lo = off;
    if (off + n > k->hi) k->hi = off + n;
}
static void synced(int fd) {
    struct stat st; if (fstat(fd, &st)) return;
    struct ino *k = find(st.st_ino, 0); if (!k) return;
    k->synced = st.st_size; k->lo = k->hi = -1;
}
static void die(void) {
    if (lose) {
        DIR *d = opendir(prefix); struct dirent *e; char p[4096];
        while (d && (e = readdir(d))) {
            struct stat st; snprintf(p, sizeof p, "%s/%s", prefix, e->d_name);
            if (stat(p, &st) || !S_ISREG(st.st_mode)) continue;
            for (int k = 0; k < nino; k++) if (inos[k].ino == st.st_ino) {
                if (st.st_size > inos[k].synced) syscall(SYS_truncate, p, inos[k].synced);
                if (inos[k].lo >= 0 && inos[k].lo < inos[k].synced) {
                    int f = syscall(SYS_open, p, O_WRONLY, 0); char z[4096]; memset(z, 0, sizeof z);
                    long long o = inos[k].lo, h = inos[k].hi < inos[k].synced ? inos[k].hi : inos[k].synced;
                    while (o < h) { long n = h - o > (long)sizeof z ? (long)sizeof z : h - o; if (syscall(SYS_pwrite64, f, z, n, o) <= 0) break; o += n; }
                    syscall(SYS_close, f);
                }
            }
        }
    }
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) pause();
}
static void note(const char *op, const char *path, long long n) {
    if (!logpath) return;
    char b[600]; int l = snprintf(b, sizeof b, "%ld %s %s %lld\n", count_, op, path ? path : "-", n);
    int f = syscall(SYS_open, logpath, O_WRONLY | O_APPEND | O_CREAT, 0600); if (f >= 0) { syscall(SYS_write, f, b, l); syscall(SYS_close, f); }
}
// 0: proceed; 1: kill after; 2: partial then kill; 3: fail with errno; 4: short
static int enter(const char *op, const char *path, long long n) {
    if (hold && rawexists(hold)) {
        char h[4096]; snprintf(h, sizeof h, "%s.held", hold);
        int f = syscall(SYS_open, h, O_WRONLY | O_CREAT, 0600); if (f >= 0) syscall(SYS_close, f);
        while (rawexists(hold)) usleep(500);
        syscall(SYS_unlink, h);
    }
    if (slow) usleep(slow);
    pthread_mutex_lock(&mu);
    int r = 0;
    if (fails_on) { errno = fails_on; r = 3; note(op, path, n); }
    else if (!arm || rawexists(arm)) {
        count_++; note(op, path, n);
        if (at && count_ == at && mode) {
            if (!strcmp(mode, "before")) die();
            else if (!strcmp(mode, "after")) r = 1;
            else if (!strcmp(mode, "partial")) r = n > 1 ? 2 : 1;
            else if (!strncmp(mode, "errno:", 6)) { errno = atoi(mode + 6); r = 3; }
            else if (!strncmp(mode, "full:", 5)) { errno = fails_on = atoi(mode + 5); r = 3; }
            else if (!strcmp(mode, "short")) r = n > 1 ? 4 : 0;
            else if (!strcmp(mode, "eintr")) { if (n >= 0) { errno = EINTR; r = 3; } }
        }
    }
    int e = errno; pthread_mutex_unlock(&mu); errno = e;
    return r;
}
static void track(int fd, int fresh, int flags) {
    if (fd < 0 || fd >= MAXFD) return;
    tracked[fd] = 1;
    struct stat st; if (fstat(fd, &st)) return;
    pthread_mutex_lock(&mu);
    struct ino *k = find(st.st_ino, (flags & O_TRUNC) ? 0 : st.st_size);
    if (k && fresh) { k->synced = 0; k->lo = k->hi = -1; }   // an inode number used again by a new file
    pthread_mutex_unlock(&mu);
}
#define OPENBODY(realcall, p, fl) \
    int w = under(p) && ((fl) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)); \
    if (!w) { int fd = realcall; if (fd >= 0 && fd < MAXFD) tracked[fd] = 0; return fd; } \
    if ((fl) & O_TRUNC) { struct stat st; if (!stat(p, &st)) { pthread_mutex_lock(&mu); struct ino *k = find(st.st_ino, st.st_size); if (k) { k->synced = 0; k->lo = k->hi = -1; } pthread_mutex_unlock(&mu); } } \
    int r = enter("open", p, -1); if (r == 3) return -1; \
    int fresh = !rawexists(p); int fd = realcall; track(fd, fresh, fl); if (r) die(); return fd;

int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); REAL(int, "open", const char *, int, ...); OPENBODY(real(p, fl, m), p, fl) }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); REAL(int, "open64", const char *, int, ...); OPENBODY(real(p, fl, m), p, fl) }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); REAL(int, "openat", int, const char *, int, ...); OPENBODY(real(d, p, fl, m), p, fl) }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); REAL(int, "openat64", int, const char *, int, ...); OPENBODY(real(d, p, fl, m), p, fl) }
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int fl(int fd) { int f = fcntl(fd, F_GETFL); return f < 0 ? 0 : f; }
static long long pos(int fd) { struct stat st; if (fl(fd) & O_APPEND) return fstat(fd, &st) ? 0 : st.st_size; return lseek(fd, 0, SEEK_CUR); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (!fdt(fd)) return real(fd, b, n);
    int r = enter("write", NULL, n); if (r == 3) return -1;
    long long o = pos(fd); ssize_t k = real(fd, b, r == 2 || r == 4 ? n / 2 : n);
    pthread_mutex_lock(&mu); wrote(fd, o, k); pthread_mutex_unlock(&mu);
    if (r == 1 || r == 2) die();
    return k;
}
#define PW(name, off_type) ssize_t name(int fd, const void *b, size_t n, off_type o) { \
    REAL(ssize_t, #name, int, const void *, size_t, off_type); if (!fdt(fd)) return real(fd, b, n, o); \
    int r = enter(#name, NULL, n); if (r == 3) return -1; ssize_t k = real(fd, b, r == 2 || r == 4 ? n / 2 : n, o); \
    pthread_mutex_lock(&mu); wrote(fd, o, k); pthread_mutex_unlock(&mu); if (r == 1 || r == 2) die(); return k; }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!fdt(fd)) return real(fd, v, c);
    long long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    int r = enter("writev", NULL, n); if (r == 3) return -1;
    long long o = pos(fd); ssize_t k;
    if (r == 2 || r == 4) { REAL(ssize_t, "write", int, const void *, size_t); k = 0; for (int i = 0; i < c; i++) if (v[i].iov_len) { k = real(fd, v[i].iov_base, v[i].iov_len > 1 ? v[i].iov_len / 2 : 1); break; } }
    else k = real(fd, v, c);
    pthread_mutex_lock(&mu); wrote(fd, o, k); pthread_mutex_unlock(&mu);
    if (r == 1 || r == 2) die();
    return k;
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!fdt(out)) return real(in, oi, out, oo, n, f);
    int r = enter("copy_file_range", NULL, n); if (r == 3) return -1;
    long long o = oo ? *oo : pos(out); ssize_t k = real(in, oi, out, oo, r == 2 || r == 4 ? (n > 65536 ? 4096 : n / 2) : n, f);
    pthread_mutex_lock(&mu); wrote(out, o, k); pthread_mutex_unlock(&mu);
    if (r == 1 || r == 2) die();
    return k;
}
ssize_t sendfile64(int out, int in, off64_t *oi, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (!fdt(out)) return real(out, in, oi, n);
    int r = enter("sendfile", NULL, n); if (r == 3) return -1;
    long long o = pos(out); ssize_t k = real(out, in, oi, r == 2 || r == 4 ? (n > 65536 ? 4096 : n / 2) : n);
    pthread_mutex_lock(&mu); wrote(out, o, k); pthread_mutex_unlock(&mu);
    if (r == 1 || r == 2) die();
    return k;
}
#define TR(name, off_type) int name(int fd, off_type n) { REAL(int, #name, int, off_type); if (!fdt(fd)) return real(fd, n); \
    int r = enter(#name, NULL, -1); if (r == 3) return -1; int k = real(fd, n); \
    pthread_mutex_lock(&mu); struct stat st; if (!fstat(fd, &st)) { struct ino *q = find(st.st_ino, 0); if (q && q->synced > n) q->synced = n; } pthread_mutex_unlock(&mu); \
    if (r) die(); return k; }
TR(ftruncate, off_t)
TR(ftruncate64, off64_t)
#define SY(name) int name(int fd) { REAL(int, #name, int); if (!fdt(fd)) return real(fd); \
    int r = enter(#name, NULL, -1); if (r == 3) return -1; int k = real(fd); pthread_mutex_lock(&mu); synced(fd); pthread_mutex_unlock(&mu); if (r) die(); return k; }
SY(fsync)
SY(fdatasync)
#define TWO(name, decl, call, p1, p2) int name decl { REAL(int, #name, TYPES_##name); if (!under(p1) && !under(p2)) return real call; \
    int r = enter(#name, p2, -1); if (r == 3) return -1; int k = real call; if (r) die(); return k; }
#define TYPES_rename const char *, const char *
#define TYPES_renameat int, const char *, int, const char *
#define TYPES_renameat2 int, const char *, int, const char *, unsigned
#define TYPES_link const char *, const char *
#define TYPES_linkat int, const char *, int, const char *, int
#define TYPES_symlink const char *, const char *
TWO(rename, (const char *a, const char *b), (a, b), a, b)
TWO(renameat, (int d, const char *a, int f, const char *b), (d, a, f, b), a, b)
TWO(renameat2, (int d, const char *a, int f, const char *b, unsigned g), (d, a, f, b, g), a, b)
TWO(link, (const char *a, const char *b), (a, b), a, b)
TWO(linkat, (int d, const char *a, int f, const char *b, int g), (d, a, f, b, g), a, b)
TWO(symlink, (const char *a, const char *b), (a, b), a, b)
int unlink(const char *p) { REAL(int, "unlink", const char *); if (!under(p)) return real(p); int r = enter("unlink", p, -1); if (r == 3) return -1; int k = real(p); if (r) die(); return k; }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (!under(p)) return real(d, p, f); int r = enter("unlink", p, -1); if (r == 3) return -1; int k = real(d, p, f); if (r) die(); return k; }
int truncate(const char *p, off_t n) { REAL(int, "truncate", const char *, off_t); if (!under(p)) return real(p, n); int r = enter("truncate", p, -1); if (r == 3) return -1; int k = real(p, n); if (r) die(); return k; }
int close(int fd) {
    REAL(int, "close", int);
    if (!fdt(fd)) return real(fd);
    int r = enter("close", NULL, -1); tracked[fd] = 0;
    if (r == 3) { int e = errno; real(fd); errno = e; return -1; }
    int k = real(fd); if (r) die(); return k;
}
