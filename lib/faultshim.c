/* Counts the calls which change files below a directory and fails, cuts short or interrupts the k-th of them.
 * Loaded with LD_PRELOAD; armed by the check through ctypes (see lib/faults.py). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { COUNT = 0, KILL = 1, ERROR = 2, TORN = 3, SHORT = 4, INTERRUPT = 5, AFTER = 6 };
#define MAXLOG 4096
static int armed, at, mode, err, scoped[65536];
static long keep;
static char prefix[PATH_MAX];
int shim_calls;
int shim_kind[MAXLOG];
long shim_size[MAXLOG];

void shim_arm(const char *dir, int k, int m, long n, int e) {
    strncpy(prefix, dir, PATH_MAX - 1);
    at = k; mode = m; keep = n; err = e; shim_calls = 0;
    memset(scoped, 0, sizeof scoped);
    armed = 1;
}
void shim_disarm(void) { armed = 0; }

static int below(const char *p) {
    size_t n = strlen(prefix);
    return !strncmp(p, prefix, n) && (p[n] == '/' || !p[n]);
}
static int in_scope(int dirfd, const char *p) {
    if (!armed || !p) return 0;
    if (p[0] == '/') return below(p);
    if (dirfd != AT_FDCWD) return dirfd >= 0 && dirfd < 65536 && scoped[dirfd];
    char cwd[PATH_MAX];
    return getcwd(cwd, sizeof cwd) && below(cwd);
}
/* 0: go on, -1: fail with errno set, else n > 0: number of bytes to write before dying (TORN) or returning (SHORT) */
static long point(int kind, long size) {
    int k = shim_calls++;
    if (k < MAXLOG) { shim_kind[k] = kind; shim_size[k] = size; }
    if (k != at) return 0;
    switch (mode) {
    case KILL: _exit(99);
    case ERROR: errno = err; return -1;
    case INTERRUPT: raise(SIGINT); return 0;
    case TORN: case SHORT: return keep;
    case AFTER: return -2;
    }
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

static int opened(int fd, int scope) {
    if (fd >= 0 && fd < 65536) scoped[fd] = scope;
    return fd;
}
#define WRITING(f) (((f) & O_ACCMODE) != O_RDONLY || ((f) & (O_CREAT | O_TRUNC)))
#define OPEN(fname)                                                          \
    int fname(const char *p, int f, ...) {                                   \
        va_list ap; va_start(ap, f); mode_t m = va_arg(ap, int); va_end(ap); \
        REAL(int, #fname, const char *, int, ...);                           \
        int s = in_scope(AT_FDCWD, p) && WRITING(f);                         \
        long r = s ? point(1, 0) : 0;                                        \
        if (r == -1) return -1;                                              \
        int fd = opened(real(p, f, m), s);                                   \
        if (r == -2) _exit(99);                                              \
        return fd;                                                           \
    }
OPEN(open) OPEN(open64)
#define OPENAT(fname)                                                        \
    int fname(int d, const char *p, int f, ...) {                            \
        va_list ap; va_start(ap, f); mode_t m = va_arg(ap, int); va_end(ap); \
        REAL(int, #fname, int, const char *, int, ...);                      \
        int s = in_scope(d, p) && WRITING(f);                                \
        long r = s ? point(1, 0) : 0;                                        \
        if (r == -1) return -1;                                              \
        int fd = opened(real(d, p, f, m), s);                                \
        if (r == -2) _exit(99);                                              \
        return fd;                                                           \
    }
OPENAT(openat) OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (armed && fd >= 0 && fd < 65536 && scoped[fd]) {
        long r = point(2, (long)n);
        if (r == -1) return -1;
        if (r == -2) { real(fd, b, n); _exit(99); }
        if (r > 0) {
            if (r > (long)n) r = (long)n;
            ssize_t w = real(fd, b, (size_t)r);
            if (mode == TORN) _exit(99);
            return w;
        }
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (armed && fd >= 0 && fd < 65536 && scoped[fd] && point(2, 0) == -1) return -1;
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (armed && fd >= 0 && fd < 65536 && scoped[fd] && point(2, 0) == -1) return -1;
    return real(fd, v, n);
}
#define PLAIN(kind, scope, call)              \
    long r = (scope) ? point(kind, 0) : 0;    \
    if (r == -1) return -1;                   \
    int x = call;                             \
    if (r == -2) _exit(99);                   \
    return x;
int fsync(int fd) { REAL(int, "fsync", int); PLAIN(3, armed && fd >= 0 && fd < 65536 && scoped[fd], real(fd)) }
int fdatasync(int fd) { REAL(int, "fdatasync", int); PLAIN(3, armed && fd >= 0 && fd < 65536 && scoped[fd], real(fd)) }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); PLAIN(4, armed && fd >= 0 && fd < 65536 && scoped[fd], real(fd, n)) }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); PLAIN(4, armed && fd >= 0 && fd < 65536 && scoped[fd], real(fd, n)) }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); PLAIN(4, in_scope(AT_FDCWD, p), real(p, n)) }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); PLAIN(5, in_scope(AT_FDCWD, a) || in_scope(AT_FDCWD, b), real(a, b)) }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); PLAIN(5, in_scope(d, a) || in_scope(e, b), real(d, a, e, b)) }
int unlink(const char *p) { REAL(int, "unlink", const char *); PLAIN(6, in_scope(AT_FDCWD, p), real(p)) }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); PLAIN(6, in_scope(d, p), real(d, p, f)) }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); PLAIN(6, in_scope(AT_FDCWD, p), real(p)) }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); PLAIN(7, in_scope(AT_FDCWD, p), real(p, m)) }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); PLAIN(8, in_scope(AT_FDCWD, b), real(a, b)) }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); PLAIN(8, in_scope(AT_FDCWD, b), real(a, b)) }
int close(int fd) {
    REAL(int, "close", int);
    if (fd >= 0 && fd < 65536) scoped[fd] = 0;
    return real(fd);
}
