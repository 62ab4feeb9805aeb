/* Preloaded into the processes of the crash and fault checks. Counts the file-system
 * calls that touch paths below a prefix (or descriptors opened there) while armed, and
 * makes the chosen one fail, come up short, be interrupted, or be the last thing that
 * the process does. Can also add small delays, to shake up the schedule. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <time.h>

enum { M_NONE, M_KILL_BEFORE, M_KILL_AFTER, M_ERRNO, M_EINTR, M_SHORT };

static char prefix[512];
static size_t prefix_len;
static volatile int armed;
static long target, seen;
static int mode, err_no;
static char tracked[4096];
static uint64_t *on_kill_word;
static uint64_t on_kill_value;
static uint64_t delay_state;
static char trace[65536];
static size_t trace_len;
/* files with data that has not been synced since it was written */
static struct { ino_t ino; dev_t dev; int dirty; } files[256];
static int nfiles;
static long unsynced;

#define EXPORT __attribute__((visibility("default")))

EXPORT void shim_prefix(const char *p) {
    snprintf(prefix, sizeof prefix, "%s", p);
    prefix_len = strlen(prefix);
}
EXPORT void shim_arm(long at, int m, int e) {
    target = at; seen = 0; mode = m; err_no = e; trace_len = 0; trace[0] = 0; nfiles = 0; unsynced = 0;
    memset(tracked, 0, sizeof tracked);
    armed = 1;
}
EXPORT long shim_disarm(void) { armed = 0; return seen; }
EXPORT const char *shim_trace(void) { return trace; }
EXPORT void shim_on_kill(uint64_t *w, uint64_t v) { on_kill_word = w; on_kill_value = v; }
EXPORT void shim_delays(uint64_t seed) { delay_state = seed; }

static int below(const char *p) {
    return armed && prefix_len && p && strncmp(p, prefix, prefix_len) == 0;
}
static int is_tracked(int fd) {
    return armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd];
}
static void track(int fd, int yes) {
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = yes;
}
EXPORT long shim_unsynced(void) { return unsynced; }
static int *dirty_of(const struct stat *s) {
    for (int i = 0; i < nfiles; i++)
        if (files[i].ino == s->st_ino && files[i].dev == s->st_dev) return &files[i].dirty;
    if (nfiles == (int)(sizeof files / sizeof *files)) return 0;
    files[nfiles].ino = s->st_ino; files[nfiles].dev = s->st_dev; files[nfiles].dirty = 0;
    return &files[nfiles++].dirty;
}
static void set_dirty(int fd, int yes) {
    struct stat s;
    int e = errno, *d;
    if (target >= 0 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && (d = dirty_of(&s))) *d = yes && !(fcntl(fd, F_GETFL) & O_DSYNC);
    errno = e;
}
/* a name is about to be given to this file */
static void naming(const char *p) {
    struct stat s;
    int e = errno, *d;
    if (target >= 0 && stat(p, &s) == 0 && S_ISREG(s.st_mode) && (d = dirty_of(&s)) && *d) unsynced++;
    errno = e;
}
static void die(void) {
    if (on_kill_word) __sync_val_compare_and_swap(on_kill_word, on_kill_value, 0);
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_pause);
}

/* what to do at this call: M_NONE, M_KILL_AFTER, M_ERRNO (errno set), M_EINTR (errno set), M_SHORT */
static int point(const char *name) {
    if (delay_state) {
        uint64_t z = __sync_add_and_fetch(&delay_state, 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z ^= z >> 29;
        if ((z & 3) == 0) {
            struct timespec ts = {0, (long)((z >> 8) % 300000)};
            syscall(SYS_nanosleep, &ts, 0);
        }
    }
    long n = __sync_add_and_fetch(&seen, 1);
    if (target >= 0 && trace_len + 20 < sizeof trace) trace_len += snprintf(trace + trace_len, 20, "%s ", name);
    if (n != target) return M_NONE;
    switch (mode) {
    case M_KILL_BEFORE: die();
    case M_KILL_AFTER: return M_KILL_AFTER;
    case M_ERRNO: errno = err_no; return M_ERRNO;
    case M_EINTR: errno = EINTR; return M_EINTR;
    case M_SHORT: return M_SHORT;
    }
    return M_NONE;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* interruptible: the call can fail with EINTR; others ignore that mode */
#define GUARD(name, intr) \
    int act = point(name); \
    if (act == M_ERRNO || (act == M_EINTR && (intr))) return -1

#define FINISH(expr) \
    do { __typeof__(expr) r_ = (expr); if (act == M_KILL_AFTER) die(); return r_; } while (0)

static int open_common(int (*real)(const char *, int, ...), const char *p, int flags, mode_t m) {
    if (!below(p)) return real(p, flags, m);
    GUARD("open", 1);
    int fd = real(p, flags, m);
    if (act == M_KILL_AFTER) die();
    track(fd, 1);
    if (fd >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) set_dirty(fd, 0);
    return fd;
}
EXPORT int open(const char *p, int flags, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return open_common(real, p, flags, m);
}
EXPORT int open64(const char *p, int flags, ...) {
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap);
    return open_common(real, p, flags, m);
}
EXPORT int close(int fd) {
    REAL(int, close, int);
    track(fd, 0);
    return real(fd);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!is_tracked(fd)) return real(fd, b, n);
    GUARD("write", 1);
    if (act == M_SHORT && n > 1) n = n / 2;
    set_dirty(fd, 1);
    FINISH(real(fd, b, n));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!is_tracked(fd)) return real(fd, v, n);
    GUARD("write", 1);
    set_dirty(fd, 1);
    FINISH(real(fd, v, n));
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    if (!is_tracked(fd)) return real(fd, b, n, o);
    GUARD("write", 1);
    set_dirty(fd, 1);
    FINISH(real(fd, b, n, o));
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!is_tracked(fd)) return real(fd, b, n);
    GUARD("read", 1);
    if (act == M_SHORT && n > 1) n = 1;
    FINISH(real(fd, b, n));
}
EXPORT ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!is_tracked(o) && !is_tracked(i)) return real(i, io, o, oo, n, f);
    GUARD("copy_file_range", 1);
    if (is_tracked(o)) set_dirty(o, 1);
    FINISH(real(i, io, o, oo, n, f));
}
EXPORT int fdatasync(int fd) {
    REAL(int, fdatasync, int);
    if (!is_tracked(fd)) return real(fd);
    GUARD("fdatasync", 1);
    int r = real(fd);
    if (r == 0) set_dirty(fd, 0);
    FINISH(r);
}
EXPORT int fsync(int fd) {
    REAL(int, fsync, int);
    if (!is_tracked(fd)) return real(fd);
    GUARD("fsync", 1);
    int r = real(fd);
    if (r == 0) set_dirty(fd, 0);
    FINISH(r);
}
EXPORT int syncfs(int fd) {
    REAL(int, syncfs, int);
    int r = real(fd);
    if (r == 0 && armed) for (int i = 0; i < nfiles; i++) files[i].dirty = 0;
    return r;
}
EXPORT void sync(void) {
    REAL(void, sync, void);
    real();
    for (int i = 0; i < nfiles; i++) files[i].dirty = 0;
}
EXPORT int flock(int fd, int op) {
    REAL(int, flock, int, int);
    if (!is_tracked(fd)) return real(fd, op);
    GUARD("flock", 1);
    FINISH(real(fd, op));
}
EXPORT int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    if (!is_tracked(fd)) return real(fd, n);
    GUARD("ftruncate", 1);
    FINISH(real(fd, n));
}
EXPORT int fchmod(int fd, mode_t m) {
    REAL(int, fchmod, int, mode_t);
    if (!is_tracked(fd)) return real(fd, m);
    GUARD("fchmod", 0);
    FINISH(real(fd, m));
}
EXPORT int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (!below(a) && !below(b)) return real(a, b);
    GUARD("rename", 0);
    naming(a);
    FINISH(real(a, b));
}
EXPORT int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *);
    if (!below(a) && !below(b)) return real(a, b);
    GUARD("link", 0);
    naming(a);
    FINISH(real(a, b));
}
EXPORT int linkat(int ad, const char *a, int bd, const char *b, int f) {
    REAL(int, linkat, int, const char *, int, const char *, int);
    if (!below(a) && !below(b)) return real(ad, a, bd, b, f);
    GUARD("link", 0);
    naming(a);
    FINISH(real(ad, a, bd, b, f));
}
EXPORT int symlink(const char *a, const char *b) {
    REAL(int, symlink, const char *, const char *);
    if (!below(b)) return real(a, b);
    GUARD("symlink", 0);
    FINISH(real(a, b));
}
EXPORT int unlink(const char *a) {
    REAL(int, unlink, const char *);
    if (!below(a)) return real(a);
    GUARD("unlink", 0);
    FINISH(real(a));
}
EXPORT int unlinkat(int d, const char *a, int f) {
    REAL(int, unlinkat, int, const char *, int);
    if (!(below(a) || is_tracked(d))) return real(d, a, f);
    GUARD("unlinkat", 0);
    FINISH(real(d, a, f));
}
EXPORT int rmdir(const char *a) {
    REAL(int, rmdir, const char *);
    if (!below(a)) return real(a);
    GUARD("rmdir", 0);
    FINISH(real(a));
}
EXPORT int mkdir(const char *a, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (!below(a)) return real(a, m);
    GUARD("mkdir", 0);
    FINISH(real(a, m));
}
EXPORT int chmod(const char *a, mode_t m) {
    REAL(int, chmod, const char *, mode_t);
    if (!below(a)) return real(a, m);
    GUARD("chmod", 0);
    FINISH(real(a, m));
}
