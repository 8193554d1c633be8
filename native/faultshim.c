/* Fault injection shim, preloaded into the workers of the cache checks.
 *
 * Counts the file operations that modify something below one directory and
 * can kill the process at the n-th of them (in the middle of it, if it is a
 * write), interrupt it there, make the n-th or all from the n-th on fail,
 * log them, or delay them.  It does nothing until xvf_arm() is called.
 *
 * After xvr_root() it also redirects the files and programs that tell which
 * operating system this is to a directory, such that the code sees a system
 * of another kind.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { M_NONE = 0, M_KILL = 1, M_FAIL = 2, M_STICKY = 3,
       M_INT = 4 };

static int armed, mode, fail_errno;
static long at, seen, injected;
static unsigned delay_us, rnd;
static char dir[4096];
static size_t dirlen;
static int log_fd = -1;
#define MAXFD 4096
static unsigned char mine[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static char sysroot[2048];

void xvr_root(const char *d) { strncpy(sysroot, d, sizeof sysroot - 1); }

static const char *const of_system[] = {
    "/etc/", "/usr/lib/os-release", "/usr/bin/sw_vers", "/usr/bin/uname",
    "/bin/uname", "/usr/bin/lsb_release", "/usr/bin/cygwin1.dll",
    "/usr/lib/lsb-release", "/System/", "/proc/version", "/usr/sbin/", 0 };

/* The file to use instead of ``path``, in ``buf`` of 4096 bytes. */
static const char *seen_as(const char *path, char *buf)
{
    int k;
    if (!sysroot[0] || !path || path[0] != '/') return path;
    for (k = 0; of_system[k]; k++)
        if (!strncmp(path, of_system[k], strlen(of_system[k]))) {
            snprintf(buf, 4096, "%s%s", sysroot, path);
            return buf;
        }
    return path;
}

static ssize_t raw_write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    return real(fd, b, n);
}

void xvf_arm(const char *d, int m, long n, int err, int logfd,
             unsigned delay, unsigned seed)
{
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    mode = m; at = n; fail_errno = err; log_fd = logfd;
    delay_us = delay; rnd = seed * 2654435761u + 12345u;
    seen = injected = 0;
    memset(mine, 0, sizeof mine);
    armed = 1;
}

void xvf_disarm(void) { armed = 0; }
long xvf_seen(void) { return seen; }
long xvf_injected(void) { return injected; }

static int inside(const char *path)
{
    char buf[8192];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        if (!getcwd(buf, 4096)) return 0;
        strcat(buf, "/");
        strncat(buf, path, 4000);
        path = buf;
    }
    return !strncmp(path, dir, dirlen) &&
        (path[dirlen] == '/' || path[dirlen] == 0);
}

static void pause_a_bit(void)
{
    if (delay_us) {
        rnd = rnd * 1664525u + 1013904223u;
        if ((rnd >> 16) & 1) usleep((rnd >> 8) % delay_us);
    }
}

static void note(const char *op, const char *what)
{
    char line[512];
    int k;
    if (log_fd < 0) return;
    k = snprintf(line, sizeof line, "%ld %s %.300s\n", seen, op, what);
    raw_write(log_fd, line, k);
}

/* 0: go on; 1: fail with fail_errno; 2: this is where to die */
static int event(const char *op, const char *what)
{
    seen++;
    note(op, what);
    pause_a_bit();
    if (mode == M_KILL && seen == at) { injected++; return 2; }
    if (mode == M_INT && seen == at) {
        injected++;
        kill(getpid(), SIGINT);
        return 0;
    }
    if ((mode == M_FAIL && seen == at) || (mode == M_STICKY && seen >= at)) {
        injected++;
        return 1;
    }
    return 0;
}

static void die(void)
{
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

#define GATE(op, what) do { int e_ = event(op, what); \
    if (e_ == 2) die(); \
    if (e_ == 1) { errno = fail_errno; return -1; } } while (0)

static int modifying(int flags)
{
    return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}

static int opened(int fd)
{
    if (fd >= 0 && fd < MAXFD) mine[fd] = 1;
    return fd;
}

#define OPENER(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t m = 0; va_list ap; \
    REAL(int, #name, const char *, int, ...); \
    char sb[4096]; \
    va_start(ap, flags); m = va_arg(ap, int); va_end(ap); \
    path = seen_as(path, sb); \
    if (inside(path) && modifying(flags)) { \
        GATE("open", path); \
        return opened(real(path, flags, m)); \
    } \
    return real(path, flags, m); \
}
OPENER(open)
OPENER(open64)

#define OPENERAT(name) \
int name(int dfd, const char *path, int flags, ...) \
{ \
    mode_t m = 0; va_list ap; \
    REAL(int, #name, int, const char *, int, ...); \
    char sb[4096]; \
    va_start(ap, flags); m = va_arg(ap, int); va_end(ap); \
    path = seen_as(path, sb); \
    if (inside(path) && modifying(flags)) { \
        GATE("open", path); \
        return opened(real(dfd, path, flags, m)); \
    } \
    return real(dfd, path, flags, m); \
}
OPENERAT(openat)
OPENERAT(openat64)

static int is_mine(int fd)
{
    return armed && fd >= 0 && fd < MAXFD && mine[fd];
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (is_mine(fd)) {
        char w[32];
        int e;
        snprintf(w, sizeof w, "%zu", n);
        e = event("write", w);
        if (e) {
            /* a part of the data may have made it */
            if (n > 1 && fail_errno != EIO) raw_write(fd, buf, n / 2);
            if (e == 2) {
                if (fail_errno == EIO && n > 1) raw_write(fd, buf, n / 2);
                die();
            }
            errno = fail_errno;
            return -1;
        }
    }
    return raw_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (is_mine(fd)) GATE("writev", "");
    return real(fd, v, c);
}

#define PWRITE(name, off) \
ssize_t name(int fd, const void *b, size_t n, off o) \
{ \
    REAL(ssize_t, #name, int, const void *, size_t, off); \
    if (is_mine(fd)) GATE("pwrite", ""); \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t sendfile(int out, int in, off_t *o, size_t n)
{
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (is_mine(out)) GATE("sendfile", "");
    return real(out, in, o, n);
}

ssize_t sendfile64(int out, int in, off64_t *o, size_t n)
{
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (is_mine(out)) GATE("sendfile", "");
    return real(out, in, o, n);
}

ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n,
                        unsigned f)
{
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t,
         unsigned);
    if (is_mine(out)) GATE("copy_file_range", "");
    return real(in, io, out, oo, n, f);
}

int close(int fd)
{
    REAL(int, "close", int);
    if (is_mine(fd)) {
        int e = event("close", "");
        mine[fd] = 0;
        if (e == 2) die();
        if (e == 1) { real(fd); errno = fail_errno; return -1; }
        return real(fd);
    }
    return real(fd);
}

#define ONFD(name, op) \
int name(int fd) \
{ \
    REAL(int, #name, int); \
    if (is_mine(fd)) GATE(op, ""); \
    return real(fd); \
}
ONFD(fsync, "fsync")
ONFD(fdatasync, "fsync")

#define TRUNC(name, off) \
int name(int fd, off o) \
{ \
    REAL(int, #name, int, off); \
    if (is_mine(fd)) GATE("ftruncate", ""); \
    return real(fd, o); \
}
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)

int rename(const char *a, const char *b)
{
    REAL(int, "rename", const char *, const char *);
    if (inside(a) || inside(b)) {
        int r;
        GATE("rename", b);
        r = real(a, b);
        pause_a_bit();
        return r;
    }
    return real(a, b);
}

int renameat(int x, const char *a, int y, const char *b)
{
    REAL(int, "renameat", int, const char *, int, const char *);
    if (inside(a) || inside(b)) GATE("rename", b);
    return real(x, a, y, b);
}

int renameat2(int x, const char *a, int y, const char *b, unsigned f)
{
    REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
    if (inside(a) || inside(b)) GATE("rename", b);
    return real(x, a, y, b, f);
}

int link(const char *a, const char *b)
{
    REAL(int, "link", const char *, const char *);
    if (inside(b)) GATE("link", b);
    return real(a, b);
}

int unlink(const char *a)
{
    REAL(int, "unlink", const char *);
    if (inside(a)) GATE("unlink", a);
    return real(a);
}

int unlinkat(int d, const char *a, int f)
{
    REAL(int, "unlinkat", int, const char *, int);
    if (inside(a)) GATE("unlink", a);
    return real(d, a, f);
}

int mkdir(const char *a, mode_t m)
{
    REAL(int, "mkdir", const char *, mode_t);
    if (inside(a)) GATE("mkdir", a);
    return real(a, m);
}

#define LOOKS(name, type) \
int name(const char *path, type *st) \
{ \
    char sb[4096]; \
    REAL(int, #name, const char *, type *); \
    return real(seen_as(path, sb), st); \
}
LOOKS(stat, struct stat)
LOOKS(stat64, struct stat64)
LOOKS(lstat, struct stat)
LOOKS(lstat64, struct stat64)

#define LOOKSAT(name, type) \
int name(int d, const char *path, type *st, int f) \
{ \
    char sb[4096]; \
    REAL(int, #name, int, const char *, type *, int); \
    return real(d, seen_as(path, sb), st, f); \
}
LOOKSAT(fstatat, struct stat)
LOOKSAT(fstatat64, struct stat64)

int access(const char *path, int m)
{
    char sb[4096];
    REAL(int, "access", const char *, int);
    return real(seen_as(path, sb), m);
}

int faccessat(int d, const char *path, int m, int f)
{
    char sb[4096];
    REAL(int, "faccessat", int, const char *, int, int);
    return real(d, seen_as(path, sb), m, f);
}

FILE *fopen(const char *path, const char *m)
{
    char sb[4096];
    REAL(FILE *, "fopen", const char *, const char *);
    return real(seen_as(path, sb), m);
}

FILE *fopen64(const char *path, const char *m)
{
    char sb[4096];
    REAL(FILE *, "fopen64", const char *, const char *);
    return real(seen_as(path, sb), m);
}

ssize_t readlink(const char *path, char *b, size_t n)
{
    char sb[4096];
    REAL(ssize_t, "readlink", const char *, char *, size_t);
    return real(seen_as(path, sb), b, n);
}

int execve(const char *path, char *const a[], char *const e[])
{
    char sb[4096];
    REAL(int, "execve", const char *, char *const *, char *const *);
    return real(seen_as(path, sb), a, e);
}

int execv(const char *path, char *const a[])
{
    char sb[4096];
    REAL(int, "execv", const char *, char *const *);
    return real(seen_as(path, sb), a);
}
