/* The disk of the simulated machine: every system call that changes a file below one directory
   passes here and can be made to fail, to be short, to be interrupted, or to end the process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_OPEN, K_WRITE, K_TRUNC, K_CLOSE, K_SYNC, K_RENAME, K_UNLINK, K_N };
enum { A_NONE, A_ERR, A_SHORT, A_EINTR, A_CRASH, A_TORN, A_FULL };
#define MAXFD 4096
#define MAXLOG 200000

static int armed, action, err_no, sticky, kindmask = -1;
static long counter, target, arg, fired, capacity;
static char prefix[PATH_MAX];
static unsigned char mine[MAXFD];
static unsigned char kinds[MAXLOG];
static long sizes[MAXLOG];
static long bykind[K_N];

#define REAL(name, type, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

void dsim_arm(const char *dir, int act, long tgt, long a, int e, int stick, int mask, long cap) {
    strncpy(prefix, dir, sizeof prefix - 1);
    armed = 1; action = act; target = tgt; arg = a; err_no = e; sticky = stick; kindmask = mask; capacity = cap;
    counter = 0; fired = 0;
    memset(bykind, 0, sizeof bykind);
}
void dsim_disarm(void) { armed = 0; }
void dsim_heal(void) { action = A_NONE; }
long dsim_count(void) { return counter; }
long dsim_fired(void) { return fired; }
int dsim_kind(long i) { return i < MAXLOG ? kinds[i] : -1; }
long dsim_size(long i) { return i < MAXLOG ? sizes[i] : -1; }

static void die(void) { syscall(SYS_exit_group, 137); }

/* 0: go on, 1: fail with errno set; *n may be reduced */
static int hit(int kind, size_t *n) {
    long me = counter;
    if (!((kindmask >> kind) & 1)) return 0;
    counter++;
    if (me < MAXLOG) { kinds[me] = kind; sizes[me] = n ? (long)*n : 0; }
    bykind[kind]++;
    if (action == A_FULL) {
        if (kind == K_WRITE && n) {
            if (capacity <= 0 && *n) { fired++; errno = ENOSPC; return 1; }
            if ((long)*n > capacity) { fired++; *n = capacity; }
            capacity -= (long)*n;
        } else if (kind == K_OPEN && capacity <= 0 && arg) { fired++; errno = ENOSPC; return 1; }
        return 0;
    }
    if (me != target && !(sticky && me > target && target >= 0)) return 0;
    switch (action) {
    case A_ERR: fired++; errno = err_no; return 1;
    case A_SHORT:
        if (kind == K_WRITE && n && *n > 1) { size_t m = 1 + (size_t)(((double)*n - 1) * (double)arg / 1000.0); if (m >= *n) m = *n - 1; *n = m; fired++; }
        return 0;
    case A_EINTR: if (kind == K_CLOSE) return 0; fired++; errno = EINTR; return 1;
    case A_CRASH: fired++; die(); return 1;
    case A_TORN: fired++; if (kind == K_WRITE && n && *n) { size_t m = (size_t)((double)*n * (double)arg / 1000.0); *n = m; return 2; } die(); return 1;
    }
    return 0;
}

static int under(int dirfd, const char *path) {
    char buf[PATH_MAX];
    size_t l = strlen(prefix);
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (dirfd != AT_FDCWD) return 0;
        if (!getcwd(buf, sizeof buf)) return 0;
        return strncmp(buf, prefix, l) == 0;
    }
    return strncmp(path, prefix, l) == 0;
}

static int opened(int fd, int flags) {
    if (fd >= 0 && fd < MAXFD) mine[fd] = (flags & O_ACCMODE) != O_RDONLY;
    return fd;
}

#define OPEN_BODY(call) \
    int fd; mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!under(dirfd, path) || (flags & O_DIRECTORY)) { fd = call; if (fd >= 0 && fd < MAXFD) mine[fd] = 0; return fd; } \
    if ((flags & O_ACCMODE) != O_RDONLY && hit(K_OPEN, NULL)) return -1; \
    fd = call; return opened(fd, flags);

int open(const char *path, int flags, ...) { int dirfd = AT_FDCWD; REAL(open, int, const char *, int, ...); OPEN_BODY(real(path, flags, mode)) }
int open64(const char *path, int flags, ...) { int dirfd = AT_FDCWD; REAL(open64, int, const char *, int, ...); OPEN_BODY(real(path, flags, mode)) }
int openat(int dirfd, const char *path, int flags, ...) { REAL(openat, int, int, const char *, int, ...); OPEN_BODY(real(dirfd, path, flags, mode)) }
int openat64(int dirfd, const char *path, int flags, ...) { REAL(openat64, int, int, const char *, int, ...); OPEN_BODY(real(dirfd, path, flags, mode)) }

static int tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && mine[fd]; }

#define WRITE_BODY(call) \
    int h; ssize_t r; \
    if (!tracked(fd)) return call; \
    h = hit(K_WRITE, &n); \
    if (h == 1) return -1; \
    r = call; \
    if (h == 2) die(); \
    return r;

ssize_t write(int fd, const void *b, size_t n) { REAL(write, ssize_t, int, const void *, size_t); WRITE_BODY(real(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite, ssize_t, int, const void *, size_t, off_t); WRITE_BODY(real(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64, ssize_t, int, const void *, size_t, off64_t); WRITE_BODY(real(fd, b, n, o)) }

ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev, ssize_t, int, const struct iovec *, int);
    size_t n = 0; int h, i;
    if (!tracked(fd)) return real(fd, v, c);
    for (i = 0; i < c; i++) n += v[i].iov_len;
    h = hit(K_WRITE, &n);
    if (h == 1) return -1;
    if (h == 2) die();
    return real(fd, v, c);
}

#define SIMPLE(kind, cond, call) if (!(cond)) return call; if (hit(kind, NULL) == 1) return -1; return call;
int ftruncate(int fd, off_t l) { REAL(ftruncate, int, int, off_t); SIMPLE(K_TRUNC, tracked(fd), real(fd, l)) }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64, int, int, off64_t); SIMPLE(K_TRUNC, tracked(fd), real(fd, l)) }
int fsync(int fd) { REAL(fsync, int, int); SIMPLE(K_SYNC, tracked(fd), real(fd)) }
int fdatasync(int fd) { REAL(fdatasync, int, int); SIMPLE(K_SYNC, tracked(fd), real(fd)) }
int rename(const char *a, const char *b) { REAL(rename, int, const char *, const char *); SIMPLE(K_RENAME, under(AT_FDCWD, b), real(a, b)) }
int unlink(const char *a) { REAL(unlink, int, const char *); SIMPLE(K_UNLINK, under(AT_FDCWD, a), real(a)) }

int close(int fd) {
    REAL(close, int, int);
    int h, e;
    if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD) mine[fd] = 0; return real(fd); }
    mine[fd] = 0;
    h = hit(K_CLOSE, NULL);
    e = errno;
    real(fd);
    if (h == 1) { errno = e; return -1; }
    return 0;
}
