/* Preloaded into the vimwiki program: logs every operation on files that
 * changes something (and openings for reading), numbers them, and lets one of
 * them fail or end the process.
 *   VM_LOG     file the events are appended to: op TAB result TAB path NUL
 *   VM_SCOPE   only paths below it are counted
 *   VM_KILL=n  SIGKILL before the n-th counted operation
 *   VM_HALF=n  the n-th counted operation, if a write, writes half and dies
 *   VM_FAIL=n VM_ERRNO=e  the n-th counted operation fails with errno e
 *   VM_FAILOP=op VM_ERRNO=e  every operation of this name within the scope fails */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char *fdpath[MAXFD];
static int fdw[MAXFD];
static atomic_long counter;
static long kill_at = -1, half_at = -1, fail_at = -1;
static int fail_errno = EIO, log_fd = -1;
static char scope[PATH_MAX], failop[32];

static long num(const char *k) {
    const char *v = getenv(k);
    return v && *v ? atol(v) : -1;
}

__attribute__((constructor)) static void init(void) {
    const char *l = getenv("VM_LOG");
    kill_at = num("VM_KILL");
    half_at = num("VM_HALF");
    fail_at = num("VM_FAIL");
    if (num("VM_ERRNO") > 0) fail_errno = (int)num("VM_ERRNO");
    if (getenv("VM_SCOPE")) snprintf(scope, sizeof scope, "%s", getenv("VM_SCOPE"));
    if (getenv("VM_FAILOP")) snprintf(failop, sizeof failop, "%s", getenv("VM_FAILOP"));
    if (l) {
        int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
        int fd = o(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (fd >= 0) {
            log_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
            if (log_fd < 0) log_fd = fd; else close(fd);
        }
    }
}

static void full(int dirfd, const char *p, char *out) {
    char base[PATH_MAX] = "";
    if (p[0] == '/') { snprintf(out, PATH_MAX, "%s", p); return; }
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
    else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        ssize_t n = readlink(l, base, sizeof base - 1);
        base[n < 0 ? 0 : n] = 0;
    }
    snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, p);
}

static int ours(const char *p) {
    return strncmp(p, "/proc/", 6) && strncmp(p, "/dev/", 5) && strncmp(p, "/sys/", 5);
}

static void logev(const char *op, long r, const char *p) {
    static ssize_t (*w)(int, const void *, size_t);
    char b[PATH_MAX + 100];
    if (log_fd < 0 || !ours(p)) return;
    if (!w) w = dlsym(RTLD_NEXT, "write");
    int n = snprintf(b, sizeof b, "%s\t%ld\t%s", op, r, p);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    w(log_fd, b, n + 1);
}

/* 0 go on, 1 fail, 2 write half and die */
static int gate(const char *op, const char *p) {
    if (!ours(p) || strncmp(p, scope, strlen(scope))) return 0;
    long n = atomic_fetch_add(&counter, 1) + 1;
    if (failop[0] && !strcmp(failop, op)) { logev("injected", n, p); errno = fail_errno; return 1; }
    if (n == kill_at) { logev("killed", n, p); raise(SIGKILL); }
    if (n == fail_at) { logev("injected", n, p); errno = fail_errno; return 1; }
    if (n == half_at) return 2;
    return 0;
}

static void track(int fd, const char *p, int w) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]);
    fdpath[fd] = strdup(p);
    fdw[fd] = w;
}

static int do_open(const char *name, int at, int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX];
    full(at ? dirfd : AT_FDCWD, path, p);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (gate(w ? "openw" : "openr", p) == 1) return -1;
    int r;
    if (at) {
        int (*f)(int, const char *, int, ...) = dlsym(RTLD_NEXT, name);
        r = f(dirfd, path, flags, mode);
    } else {
        int (*f)(const char *, int, ...) = dlsym(RTLD_NEXT, name);
        r = f(path, flags, mode);
    }
    int e = errno;
    logev(w ? "openw" : "openr", r < 0 ? -e : 0, p);
    track(r, p, w);
    errno = e;
    return r;
}

#define MODE mode_t m = 0; { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open("open", 0, 0, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE return do_open("open64", 0, 0, path, flags, m); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open("openat", 1, d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open("openat64", 1, d, path, flags, m); }
int creat(const char *path, mode_t m) { return do_open("open", 0, 0, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    int (*f)(int) = dlsym(RTLD_NEXT, "close");
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; }
    return f(fd);
}

ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*f)(int, const void *, size_t);
    if (!f) f = dlsym(RTLD_NEXT, "write");
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        int g = gate("write", fdpath[fd]);
        if (g == 1) return -1;
        if (g == 2) { f(fd, b, n / 2); logev("killed", n / 2, fdpath[fd]); raise(SIGKILL); }
        ssize_t r = f(fd, b, n);
        int e = errno;
        logev("write", r, fdpath[fd]);
        errno = e;
        return r;
    }
    return f(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    ssize_t (*f)(int, const struct iovec *, int) = dlsym(RTLD_NEXT, "writev");
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
        if (gate("write", fdpath[fd]) == 1) return -1;
        logev("write", 0, fdpath[fd]);
    }
    return f(fd, v, n);
}

ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*f)(int, void *, size_t);
    if (!f) f = dlsym(RTLD_NEXT, "read");
    if (fd >= 0 && fd < MAXFD && fdpath[fd] && gate("read", fdpath[fd]) == 1) return -1;
    return f(fd, b, n);
}

ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned fl) {
    ssize_t (*f)(int, off64_t *, int, off64_t *, size_t, unsigned) = dlsym(RTLD_NEXT, "copy_file_range");
    if (o >= 0 && o < MAXFD && fdpath[o]) {
        if (gate("write", fdpath[o]) == 1) return -1;
        logev("write", 0, fdpath[o]);
    }
    return f(i, io, o, oo, n, fl);
}

#define PATH1(NAME, DECL, CALL, DIRFD, P)                         \
    int NAME DECL {                                               \
        int(*f) DECL = dlsym(RTLD_NEXT, #NAME);                   \
        char p[PATH_MAX];                                         \
        full(DIRFD, P, p);                                        \
        if (gate(#NAME, p) == 1) return -1;                       \
        int r = f CALL;                                           \
        int e = errno;                                            \
        logev(#NAME, r < 0 ? -e : 0, p);                          \
        errno = e;                                                \
        return r;                                                 \
    }
PATH1(unlink, (const char *a), (a), AT_FDCWD, a)
PATH1(unlinkat, (int d, const char *a, int fl), (d, a, fl), d, a)
PATH1(rmdir, (const char *a), (a), AT_FDCWD, a)
PATH1(mkdir, (const char *a, mode_t m), (a, m), AT_FDCWD, a)
PATH1(mkdirat, (int d, const char *a, mode_t m), (d, a, m), d, a)
PATH1(truncate, (const char *a, off_t n), (a, n), AT_FDCWD, a)
PATH1(truncate64, (const char *a, off64_t n), (a, n), AT_FDCWD, a)
PATH1(chmod, (const char *a, mode_t m), (a, m), AT_FDCWD, a)
PATH1(fchmodat, (int d, const char *a, mode_t m, int fl), (d, a, m, fl), d, a)

#define PATH2(NAME, DECL, CALL, D1, P1, D2, P2)                   \
    int NAME DECL {                                               \
        int(*f) DECL = dlsym(RTLD_NEXT, #NAME);                   \
        char p[PATH_MAX], q[PATH_MAX];                            \
        full(D1, P1, p);                                          \
        full(D2, P2, q);                                          \
        if (gate(#NAME, p) == 1 || gate(#NAME, q) == 1) return -1; \
        int r = f CALL;                                           \
        int e = errno;                                            \
        logev(#NAME, r < 0 ? -e : 0, p);                          \
        logev(#NAME, r < 0 ? -e : 0, q);                          \
        errno = e;                                                \
        return r;                                                 \
    }
PATH2(rename, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)
PATH2(renameat, (int d, const char *a, int e2, const char *b), (d, a, e2, b), d, a, e2, b)
PATH2(renameat2, (int d, const char *a, int e2, const char *b, unsigned fl), (d, a, e2, b, fl), d, a, e2, b)
PATH2(link, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)
PATH2(linkat, (int d, const char *a, int e2, const char *b, int fl), (d, a, e2, b, fl), d, a, e2, b)
PATH2(symlink, (const char *a, const char *b), (a, b), AT_FDCWD, a, AT_FDCWD, b)

#define FD1(NAME, DECL, CALL)                                     \
    int NAME DECL {                                               \
        int(*f) DECL = dlsym(RTLD_NEXT, #NAME);                   \
        if (fd >= 0 && fd < MAXFD && fdpath[fd]) {                \
            if (gate(#NAME, fdpath[fd]) == 1) return -1;          \
            logev(#NAME, 0, fdpath[fd]);                          \
        }                                                         \
        return f CALL;                                            \
    }
FD1(ftruncate, (int fd, off_t n), (fd, n))
FD1(ftruncate64, (int fd, off64_t n), (fd, n))
FD1(fchmod, (int fd, mode_t m), (fd, m))
