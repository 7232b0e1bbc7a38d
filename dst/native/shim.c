/*
 * LD_PRELOAD storage seam of the simulator.
 *
 * Interposes the libc calls through which HDF5, netCDF-3 (posixio) and Python
 * reach the file system, but only for paths below one scratch root and only
 * while armed.  Every such call is numbered, logged, and may be turned into a
 * fault chosen by the plan that the simulator installed: errno failures
 * (one-shot or sticky), short transfers, and a crash of the whole job before,
 * during (torn write) or after the call.
 *
 * No clock, no randomness, no allocation: the plan decides everything.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXLOG 65536
#define MAXPLAN 32
#define MAXROOT 512

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_FSYNC };
/* classes used for plan numbering */
enum { CLS_OPENR = 0, CLS_OPENW = 1, CLS_READ = 2, CLS_MUT = 3, CLS_CLOSE = 4, NCLS = 5 };
/* actions */
enum { ACT_ERR_ONCE = 1, ACT_ERR_STICKY = 2, ACT_SHORT = 3, ACT_CRASH_BEFORE = 4,
       ACT_CRASH_AFTER = 5, ACT_CRASH_TORN = 6 };

struct logrec { uint8_t op; uint8_t fault; int16_t pad; int32_t fd; int64_t a; int64_t b; };
struct plan { int cls; long idx; int act; int err; int fired; };

static int armed = 0;
static char root[MAXROOT];
static size_t rootlen = 0;
static int relative_ok = 0;             /* cwd is below the root: relative paths count */
static unsigned char tracked[MAXFD];   /* 1 = read-only, 2 = writable */
static struct logrec logv[MAXLOG];
static long nlog = 0;
static long counts[NCLS];
static struct plan plans[MAXPLAN];
static int nplans = 0;
static int sticky_err = 0;
static long sticky_hits = 0;
static long fired_by_act[8];
static void (*crash_cb)(void) = 0;     /* reports the simulator's state; must not return */

static int (*r_open)(const char *, int, ...);
static int (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_openat64)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static ssize_t (*r_pread64)(int, void *, size_t, off64_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_pwrite64)(int, const void *, size_t, off64_t);
static int (*r_ftruncate)(int, off_t);
static int (*r_ftruncate64)(int, off64_t);
static int (*r_close)(int);
static int (*r_rename)(const char *, const char *);
static int (*r_unlink)(const char *);
static int (*r_fsync)(int);

#define RESOLVE(f) do { if (!r_##f) r_##f = dlsym(RTLD_NEXT, #f); } while (0)

__attribute__((constructor)) static void init(void) {
    RESOLVE(open); RESOLVE(open64); RESOLVE(openat); RESOLVE(openat64);
    RESOLVE(read); RESOLVE(pread); RESOLVE(pread64);
    RESOLVE(write); RESOLVE(pwrite); RESOLVE(pwrite64);
    RESOLVE(ftruncate); RESOLVE(ftruncate64); RESOLVE(close);
    RESOLVE(rename); RESOLVE(unlink); RESOLVE(fsync);
}

/* ---- control interface (ctypes) ---- */
void dst_reset(const char *prefix) {
    armed = 0; nlog = 0; nplans = 0; sticky_err = 0; sticky_hits = 0;
    memset(counts, 0, sizeof counts); memset(tracked, 0, sizeof tracked);
    memset(fired_by_act, 0, sizeof fired_by_act);
    strncpy(root, prefix, MAXROOT - 1); root[MAXROOT - 1] = 0; rootlen = strlen(root);
}
void dst_arm(int on) { armed = on; }
void dst_relative(int on) { relative_ok = on; }
void dst_on_crash(void (*cb)(void)) { crash_cb = cb; }
int dst_plan(int cls, long idx, int act, int err) {
    if (nplans >= MAXPLAN) return -1;
    plans[nplans].cls = cls; plans[nplans].idx = idx; plans[nplans].act = act;
    plans[nplans].err = err; plans[nplans].fired = 0; nplans++;
    return 0;
}
void dst_clear_sticky(void) { sticky_err = 0; }
long dst_count(int cls) { return counts[cls]; }
long dst_nlog(void) { return nlog < MAXLOG ? nlog : MAXLOG; }
const struct logrec *dst_log(void) { return logv; }
long dst_fired(int act) { return fired_by_act[act & 7]; }
long dst_sticky_hits(void) { return sticky_hits; }

static void crash(void) {
    armed = 0;
    if (crash_cb) crash_cb();
    _exit(137);
}

static int under(const char *p) {
    if (!armed || !rootlen || !p) return 0;
    if (p[0] != '/') return relative_ok;
    return strncmp(p, root, rootlen) == 0;
}

static void rec(int op, int fault, int fd, int64_t a, int64_t b) {
    if (nlog < MAXLOG) {
        logv[nlog].op = (uint8_t)op; logv[nlog].fault = (uint8_t)fault; logv[nlog].pad = 0;
        logv[nlog].fd = fd; logv[nlog].a = a; logv[nlog].b = b;
    }
    nlog++;
}

/* number one operation of class cls and return the planned action (0: none) */
static struct plan *next(int cls) {
    long i = counts[cls]++;
    for (int k = 0; k < nplans; k++)
        if (plans[k].cls == cls && plans[k].idx == i && !plans[k].fired) {
            plans[k].fired = 1; fired_by_act[plans[k].act & 7]++;
            return &plans[k];
        }
    return NULL;
}

/* common treatment of an operation that can fail; returns errno to inject or 0 */
static int gate(int cls, int *after, int *partial) {
    *after = 0; *partial = 0;
    struct plan *p = next(cls);
    if (cls == CLS_MUT && sticky_err && !p) { sticky_hits++; return sticky_err; }
    if (!p) return 0;
    switch (p->act) {
    case ACT_ERR_ONCE: return p->err;
    case ACT_ERR_STICKY: sticky_err = p->err; return p->err;
    case ACT_SHORT: *partial = 1; return 0;
    case ACT_CRASH_BEFORE: crash(); return 0;
    case ACT_CRASH_AFTER: *after = 1; return 0;
    case ACT_CRASH_TORN: *partial = 2; return 0;
    }
    return 0;
}

static int track_open(int fd, const char *path, int flags) {
    if (fd >= 0 && fd < MAXFD) tracked[fd] = (flags & (O_WRONLY | O_RDWR)) ? 2 : 1;
    return fd;
}

#define OPEN_BODY(CALL)                                                        \
    do {                                                                       \
        mode_t mode = 0;                                                       \
        if (flags & (O_CREAT | O_TMPFILE)) {                                   \
            va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); \
        }                                                                      \
        if (!under(path)) return CALL;                                         \
        struct stat st;                                                        \
        int isdir = (flags & O_DIRECTORY) || (stat(path, &st) == 0 && S_ISDIR(st.st_mode)); \
        if (isdir) return CALL;                                                \
        int cls = (flags & (O_WRONLY | O_RDWR)) ? CLS_OPENW : CLS_OPENR;       \
        int after, partial, e = gate(cls, &after, &partial);                   \
        rec(OP_OPEN, e != 0, -1, cls, 0);                                      \
        if (e) { errno = e; return -1; }                                       \
        int fd = track_open(CALL, path, flags);                                \
        if (after || partial == 2) crash();                                    \
        return fd;                                                             \
    } while (0)

int open(const char *path, int flags, ...) { RESOLVE(open); OPEN_BODY(r_open(path, flags, mode)); }
int open64(const char *path, int flags, ...) { RESOLVE(open64); OPEN_BODY(r_open64(path, flags, mode)); }
int openat(int d, const char *path, int flags, ...) { RESOLVE(openat); OPEN_BODY(r_openat(d, path, flags, mode)); }
int openat64(int d, const char *path, int flags, ...) { RESOLVE(openat64); OPEN_BODY(r_openat64(d, path, flags, mode)); }

static int is_tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

#define READ_BODY(CALL_N, OFF)                                                 \
    do {                                                                       \
        if (!is_tracked(fd)) { size_t m = n; return CALL_N; }                  \
        int after, partial, e = gate(CLS_READ, &after, &partial);              \
        rec(OP_READ, (e != 0) | (partial << 1), fd, (int64_t)n, OFF);          \
        if (e) { errno = e; return -1; }                                       \
        size_t m = (partial && n > 1) ? n / 2 : n;                             \
        ssize_t r = CALL_N;                                                    \
        if (after || partial == 2) crash();                                    \
        return r;                                                              \
    } while (0)

ssize_t read(int fd, void *b, size_t n) { RESOLVE(read); READ_BODY(r_read(fd, b, m), -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { RESOLVE(pread); READ_BODY(r_pread(fd, b, m, o), (int64_t)o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { RESOLVE(pread64); READ_BODY(r_pread64(fd, b, m, o), (int64_t)o); }

#define WRITE_BODY(CALL_N, OFF)                                                \
    do {                                                                       \
        if (!is_tracked(fd)) { size_t m = n; return CALL_N; }                  \
        int after, partial, e = gate(CLS_MUT, &after, &partial);               \
        rec(OP_WRITE, (e != 0) | (partial << 1), fd, (int64_t)n, OFF);         \
        if (e) { errno = e; return -1; }                                       \
        size_t m = (partial && n > 1) ? n / 2 : n;                             \
        if (partial == 2 && n <= 1) crash();                                   \
        ssize_t r = CALL_N;                                                    \
        if (after || partial == 2) crash();                                    \
        return r;                                                              \
    } while (0)

ssize_t write(int fd, const void *b, size_t n) { RESOLVE(write); WRITE_BODY(r_write(fd, b, m), -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { RESOLVE(pwrite); WRITE_BODY(r_pwrite(fd, b, m, o), (int64_t)o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { RESOLVE(pwrite64); WRITE_BODY(r_pwrite64(fd, b, m, o), (int64_t)o); }

#define TRUNC_BODY(CALL)                                                       \
    do {                                                                       \
        if (!is_tracked(fd)) return CALL;                                      \
        int after, partial, e = gate(CLS_MUT, &after, &partial);               \
        rec(OP_TRUNC, e != 0, fd, (int64_t)len, 0);                            \
        if (e) { errno = e; return -1; }                                       \
        int r = CALL;                                                          \
        if (after || partial == 2) crash();                                    \
        return r;                                                              \
    } while (0)

int ftruncate(int fd, off_t len) { RESOLVE(ftruncate); TRUNC_BODY(r_ftruncate(fd, len)); }
int ftruncate64(int fd, off64_t len) { RESOLVE(ftruncate64); TRUNC_BODY(r_ftruncate64(fd, len)); }

int close(int fd) {
    RESOLVE(close);
    if (is_tracked(fd)) {
        int w = tracked[fd] == 2;
        tracked[fd] = 0;
        if (w) {
            int after, partial, e = gate(CLS_CLOSE, &after, &partial);
            rec(OP_CLOSE, e != 0, fd, 0, 0);
            int r = r_close(fd);
            if (after || partial == 2) crash();
            if (e) { errno = e; return -1; }
            return r;
        }
        rec(OP_CLOSE, 0, fd, 0, 0);
    }
    return r_close(fd);
}

int fsync(int fd) {
    RESOLVE(fsync);
    if (is_tracked(fd)) rec(OP_FSYNC, 0, fd, 0, 0);
    return r_fsync(fd);
}
