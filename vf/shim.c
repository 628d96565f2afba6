// LD_PRELOAD monitor and fault injector for the artefacta binary.
//
// It observes the file-system calls that reach paths below the monitored
// roots, appends one line per event to a log (one write(2) per line, so lines
// of several processes never mix), and can kill the process, fail the call,
// shorten the transfer or delay at a chosen event.  It also redirects
// connections to port 443 to the fake S3 server on the loopback interface.
//
//   VF_ROOTS   colon-separated absolute prefixes that are monitored
//   VF_LOG     event log
//   VF_KILL    n: SIGKILL the process at the n-th mutating event (1-based)
//   VF_KMODE   before | after | partial   (partial: half of a write is done)
//   VF_FAIL    n[:errno[:sticky]]: the n-th event of VF_FCLASS fails
//   VF_FCLASS  M (mutating, default) | R (reading) | S (asking for metadata, not
//              logged unless VF_STAT is set) | A (all)
//   VF_FMATCH  only events whose path contains this text count for VF_FAIL
//   VF_SHORT   seed: reads and writes on monitored files become short
//   VF_DELAY   seed:max_us: random sleep before every monitored event
//   VF_TIME    seconds added to CLOCK_REALTIME
//   VF_FREEZE  CLOCK_REALTIME stands still at so many seconds
//   VF_READDIR seed: directory entries come in a pseudo-random order
//   VF_WATCH   path of a symbolic link whose state is logged whenever it has changed
//   VF_GROW    delta:text: when a file whose path contains the text is first opened
//              (after its metadata was asked for), it becomes longer or shorter
//   VF_CAGE    changes of anything that really lies outside this directory are
//              logged and refused
//   VF_PORT    connect() to port 443 goes to 127.0.0.1:VF_PORT
#define _GNU_SOURCE
// Programs do pass null (the Rust runtime probes statx with it): no assumptions.
#include <sys/cdefs.h>
#undef __nonnull
#define __nonnull(x)
#undef __attribute_nonnull__
#define __attribute_nonnull__(x)
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static char roots[8][PATH_MAX];
static size_t rootlen[8];
static int nroots, logfd = -1, ready, fail_sticky, fail_errno = EIO;
static long kill_at, fail_at, port, timeoff, freeze;
static char kmode = 'b', fclass = 'M';
static int log_stat;
static char fmatch[256];
static long grow; static char gmatch[256];
static char watch[PATH_MAX], cage[PATH_MAX];
static char xdev[PATH_MAX], mnt[PATH_MAX], fop[32];
static unsigned long short_seed, delay_seed, delay_max;
static long n_mut, n_fail, n_all;
static unsigned long dir_seed;
static char *fdpath[MAXFD];
static unsigned char fdw[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...) \
    static ret (*r_##name)(__VA_ARGS__); \
    if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name);

static unsigned long mix(unsigned long x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdUL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53UL; x ^= x >> 33; return x;
}

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("VF_ROOTS");
    while (s && *s && nroots < 8) {
        const char *e = strchr(s, ':');
        size_t n = e ? (size_t)(e - s) : strlen(s);
        if (n && n < PATH_MAX) { memcpy(roots[nroots], s, n); roots[nroots][n] = 0; rootlen[nroots++] = n; }
        s = e ? e + 1 : NULL;
    }
    if ((s = getenv("VF_LOG"))) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); if (logfd < 0) logfd = fd; else syscall(SYS_close, fd); }
    }
    if ((s = getenv("VF_KILL"))) kill_at = atol(s);
    if ((s = getenv("VF_KMODE"))) kmode = s[0];
    if ((s = getenv("VF_FAIL"))) {
        fail_at = atol(s);
        const char *c = strchr(s, ':');
        if (c) { fail_errno = atoi(c + 1); if ((c = strchr(c + 1, ':'))) fail_sticky = 1; }
    }
    if ((s = getenv("VF_FCLASS"))) fclass = s[0];
    log_stat = getenv("VF_STAT") != NULL;
    if ((s = getenv("VF_FOP"))) snprintf(fop, sizeof fop, "%s", s);
    if ((s = getenv("VF_FMATCH"))) snprintf(fmatch, sizeof fmatch, "%s", s);
    if ((s = getenv("VF_SHORT"))) short_seed = mix(strtoul(s, NULL, 10) + 77) | 1;
    if ((s = getenv("VF_DELAY"))) {
        delay_seed = mix(strtoul(s, NULL, 10) + 991) | 1;
        const char *c = strchr(s, ':');
        delay_max = c ? strtoul(c + 1, NULL, 10) : 1000;
    }
    if ((s = getenv("VF_READDIR"))) dir_seed = mix(strtoul(s, NULL, 10) + 5) | 1;
    if ((s = getenv("VF_WATCH"))) snprintf(watch, sizeof watch, "%s", s);
    if ((s = getenv("VF_GROW"))) { grow = atol(s); const char *c = strchr(s, ':'); snprintf(gmatch, sizeof gmatch, "%s", c ? c + 1 : ""); }
    if ((s = getenv("VF_CAGE"))) snprintf(cage, sizeof cage, "%s", s);
    if ((s = getenv("VF_MOUNT"))) snprintf(mnt, sizeof mnt, "%s", s);
    if ((s = getenv("VF_XDEV"))) snprintf(xdev, sizeof xdev, "%s", s);
    if ((s = getenv("VF_PORT"))) port = atol(s);
    if ((s = getenv("VF_TIME"))) timeoff = atol(s);
    if ((s = getenv("VF_FREEZE"))) freeze = atol(s);
    ready = 1;
}

// at the end: the peak of the resident memory (getrusage would include the parent's before exec)
__attribute__((destructor)) static void fini(void) {
    const char *s = getenv("VF_HWM");
    if (!s) return;
    char b[4096];
    int fd = syscall(SYS_openat, AT_FDCWD, "/proc/self/status", O_RDONLY | O_CLOEXEC);
    if (fd < 0) return;
    ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1);
    syscall(SYS_close, fd);
    if (n <= 0) return;
    b[n] = 0;
    char *p = strstr(b, "VmHWM:");
    if (!p || (fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644)) < 0) return;
    p += 6;
    syscall(SYS_write, fd, p, strcspn(p, "\n"));
    syscall(SYS_close, fd);
}

// Absolute form of a path, lexically: enough, since the code under test uses
// absolute or cwd-relative paths.
static const char *absolute(int dirfd, const char *p, char *buf) {
    if (!p) return NULL;
    if (p[0] == '/') { while (p[1] == '/') p++; snprintf(buf, PATH_MAX, "%s", p); }
    else {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL;
        } else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = syscall(SYS_readlink, l, cwd, sizeof cwd - 1);
            if (n < 0) return NULL;
            cwd[n] = 0;
        }
        while (p[0] == '.' && p[1] == '/') for (p += 2; p[0] == '/';) p++;
        snprintf(buf, PATH_MAX, "%.2000s/%.2000s", cwd[1] ? cwd : "", p);
    }
    return buf;
}

static int monitored(const char *p) {
    if (!ready || !p) return 0;
    for (int i = 0; i < nroots; i++)
        if (!strncmp(p, roots[i], rootlen[i]) && (p[rootlen[i]] == '/' || p[rootlen[i]] == 0)) return 1;
    return 0;
}

static void emit(char cls, const char *op, const char *p, const char *q, long n) {
    if (logfd < 0) return;
    char line[3 * PATH_MAX]; int o = 0;
    o += snprintf(line + o, 96, "%c\t%d\t%s\t%ld\t", cls, (int)getpid(), op, n);
    for (int k = 0; k < 2; k++) {
        const char *s = k ? q : p;
        if (k) line[o++] = '\t';
        for (; s && *s && o < (int)sizeof line - 8; s++) {
            unsigned char c = *s;
            if (c < 32 || c == '%' || c == 127) o += snprintf(line + o, 4, "%%%02x", c); else line[o++] = c;
        }
    }
    line[o++] = '\n';
    syscall(SYS_write, logfd, line, o);
}

static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

// The state of the watched link before the next event: where it leads, and the
// inode and size found there.
static char wlast[PATH_MAX + 64];
static void look(void) {
    char t[PATH_MAX], now[PATH_MAX + 64];
    ssize_t n = syscall(SYS_readlink, watch, t, sizeof t - 1);
    struct stat st; memset(&st, 0, sizeof st);
    if (n < 0) snprintf(now, sizeof now, "%d", errno);
    else {
        t[n] = 0;
        if (syscall(SYS_newfstatat, AT_FDCWD, watch, &st, 0)) st.st_size = -1;
        snprintf(now, sizeof now, "%s\n%lu", t, (unsigned long)st.st_ino);
    }
    size_t l = strlen(now);
    snprintf(now + l, sizeof now - l, "\n%ld", (long)st.st_size);
    if (strcmp(now, wlast)) { strcpy(wlast, now); emit('W', "current", n < 0 ? NULL : t, NULL, n < 0 ? -2 : (long)st.st_size); }
}

static int inside(const char *p) {
    size_t n = strlen(cage);
    return (!strncmp(p, cage, n) && (p[n] == '/' || !p[n])) || !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/self/fd/", 14);
}

// Whether a change of this path would really happen outside the cage.
static int escapes(const char *op, int dirfd, const char *path, int follow) {
    REAL(char *, realpath, const char *, char *)
    char b[PATH_MAX], d[PATH_MAX], r[PATH_MAX];
    if (!ready || !cage[0] || !path || !path[0]) return 0;
    int se = errno;
    if (!absolute(dirfd, path, b)) { errno = se; return 0; }
    for (int hops = 0; hops < 40; hops++) {
        if (follow && r_realpath(b, r)) { if (inside(r)) { errno = se; return 0; } break; }
        snprintf(d, sizeof d, "%s", b);
        size_t n = strlen(d);
        while (n > 1 && d[n - 1] == '/') d[--n] = 0;
        char *e = strrchr(d, '/');
        if (e == d) e[1] = 0; else *e = 0;
        // nothing can be made in a directory that is not there
        if (!r_realpath(d, r) || inside(r)) {
            // ... but a dangling link may lead out
            char t[PATH_MAX];
            ssize_t l = follow ? syscall(SYS_readlink, b, t, sizeof t - 1) : -1;
            if (l <= 0) { errno = se; return 0; }
            t[l] = 0;
            char x[PATH_MAX];
            if (t[0] == '/') snprintf(x, sizeof x, "%s", t); else snprintf(x, sizeof x, "%.2000s/%.2000s", d, t);
            strcpy(b, x);
            continue;
        }
        break;
    }
    emit('X', op, b, NULL, 0);
    errno = EPERM;
    return 1;
}

enum { GO, FAILED, PARTIAL };
struct ev { int act; int kill_after; };

// One event: decides what happens to the call.
static struct ev event(char cls, const char *op, const char *p, const char *q, long n, int is_write) {
    struct ev r = {GO, 0};
    pthread_mutex_lock(&mu);
    long all = ++n_all;
    if (watch[0]) look();
    if (cls == 'M') ++n_mut;
    if (delay_max) {
        unsigned long us = mix(delay_seed + all) % delay_max;
        if (mix(delay_seed * 3 + all) % 4 == 0) us = us * 4;
        pthread_mutex_unlock(&mu);
        struct timespec t = {us / 1000000, (us % 1000000) * 1000};
        syscall(SYS_nanosleep, &t, NULL);
        pthread_mutex_lock(&mu);
    }
    if (cls == 'M' && kill_at && n_mut == kill_at) {
        if (kmode == 'b') { emit('K', op, p, q, n); die(); }
        r.kill_after = 1;
        if (kmode == 'p' && is_write) r.act = PARTIAL;
    }
    if (fail_at && (fclass == 'A' || fclass == cls) && (!fop[0] || !strcmp(fop, op)) &&
        (!fmatch[0] || (p && strstr(p, fmatch)) || (q && strstr(q, fmatch)))) {
        ++n_fail;
        if (n_fail == fail_at || (fail_sticky && n_fail > fail_at)) {
            emit('F', op, p, q, n);
            r.act = FAILED;
        }
    }
    if (r.act != FAILED && (cls != 'S' || log_stat)) emit(cls, op, p, q, n);
    pthread_mutex_unlock(&mu);
    return r;
}
#define FINISH(e) do { if ((e).kill_after) die(); } while (0)

static void setfd(int fd, const char *p, int w) {
    if (fd < 0 || fd >= MAXFD) return;
    pthread_mutex_lock(&mu);
    free(fdpath[fd]); fdpath[fd] = p ? strdup(p) : NULL; fdw[fd] = w;
    pthread_mutex_unlock(&mu);
}
static int getfd(int fd, char *buf, int *w) {
    if (fd < 0 || fd >= MAXFD) return 0;
    pthread_mutex_lock(&mu);
    int ok = fdpath[fd] != NULL;
    if (ok) { snprintf(buf, PATH_MAX, "%s", fdpath[fd]); if (w) *w = fdw[fd]; }
    pthread_mutex_unlock(&mu);
    return ok;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char b[PATH_MAX]; const char *p = absolute(dirfd, path, b);
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (w && !(flags & O_DIRECTORY) && escapes("openw", dirfd, path, !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL))) return -1;
    if (!monitored(p)) {
        int fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0) setfd(fd, NULL, 0);
        return fd;
    }
    if (flags & O_DIRECTORY) return syscall(SYS_openat, dirfd, path, flags, mode);
    struct ev e = event(w ? 'M' : 'R', w ? "openw" : "openr", p, NULL, flags, 0);
    if (e.act == FAILED) { errno = fail_errno; return -1; }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0 && grow && !w && strstr(p, gmatch)) {
        struct stat st;
        if (!syscall(SYS_fstat, fd, &st)) {
            long n = st.st_size + grow; if (n < 0) n = 0;
            grow = 0;
            if (n < st.st_size) syscall(SYS_truncate, p, n);
            else { int f = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND); for (long i = st.st_size; i < n; i++) syscall(SYS_write, f, "g", 1); syscall(SYS_close, f); }
            emit('G', "grow", p, NULL, n);
        }
    }
    if (fd >= 0) setfd(fd, p, w); else emit('E', w ? "openw" : "openr", p, NULL, errno);
    FINISH(e);
    return fd;
}
static mode_t va_mode(int flags, va_list ap) { return (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; }
#define OPENFN(name) int name(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_mode(flags, ap); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
OPENFN(open) OPENFN(open64)
#define OPENATFN(name) int name(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_mode(flags, ap); va_end(ap); return do_open(d, p, flags, m); }
OPENATFN(openat) OPENATFN(openat64)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (fd == logfd && fd >= 0) return 0;
    setfd(fd, NULL, 0);
    return syscall(SYS_close, fd);
}

static size_t shorten(size_t n) {
    if (!short_seed || n < 2) return n;
    if (n > 1000000) n = 5000;
    pthread_mutex_lock(&mu); unsigned long r = mix(short_seed += 0x9e3779b97f4a7c15UL); pthread_mutex_unlock(&mu);
    switch (r % 4) { case 0: return 1; case 1: return 1 + r / 8 % n; case 2: return n > 7 ? 7 : n; default: return n; }
}

// write-like call on a monitored descriptor; returns 1 if it dealt with the call
#define WRITELIKE(op, len, call_with_len, plain) \
    char b[PATH_MAX]; int w; \
    if (!ready || !getfd(fd, b, &w)) return plain; \
    struct ev e = event('M', op, b, NULL, (long)(len), 1); \
    if (e.act == FAILED) { errno = fail_errno; return -1; } \
    size_t n_ = (len); \
    if (e.act == PARTIAL) n_ = n_ > 200000 ? 1000 : n_ / 2; else n_ = shorten(n_); \
    ssize_t rc = n_ || !(len) ? (ssize_t)(call_with_len) : 0; \
    int se = errno; FINISH(e); errno = se; return rc;

ssize_t write(int fd, const void *buf, size_t n) {
    WRITELIKE("write", n, syscall(SYS_write, fd, buf, n_), syscall(SYS_write, fd, buf, n))
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    WRITELIKE("write", n, syscall(SYS_pwrite64, fd, buf, n_, o), syscall(SYS_pwrite64, fd, buf, n, o))
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    char b0[PATH_MAX]; int w0;
    if (!ready || !getfd(fd, b0, &w0)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    (void)n; return 0;
}
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned fl) {
    WRITELIKE("write", n, syscall(SYS_copy_file_range, in, oi, fd, oo, n_, fl), syscall(SYS_copy_file_range, in, oi, fd, oo, n, fl))
}
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) {
    WRITELIKE("write", n, syscall(SYS_sendfile, fd, in, o, n_), syscall(SYS_sendfile, fd, in, o, n))
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { return sendfile64(fd, in, o, n); }
ssize_t splice(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned fl) {
    WRITELIKE("write", n, syscall(SYS_splice, in, oi, fd, oo, n_, fl), syscall(SYS_splice, in, oi, fd, oo, n, fl))
}

#define READLIKE(len, call_with_len, plain) \
    char b[PATH_MAX]; int w; \
    if (!ready || !getfd(fd, b, &w)) return plain; \
    struct ev e = event('R', "read", b, NULL, (long)(len), 0); \
    if (e.act == FAILED) { errno = fail_errno; return -1; } \
    size_t n_ = shorten(len); return call_with_len;
ssize_t read(int fd, void *buf, size_t n) {
    READLIKE(n, syscall(SYS_read, fd, buf, n_), syscall(SYS_read, fd, buf, n))
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    READLIKE(n, syscall(SYS_pread64, fd, buf, n_, o), syscall(SYS_pread64, fd, buf, n, o))
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    char b0[PATH_MAX]; int w0;
    if (!ready || !getfd(fd, b0, &w0)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

#define FDOP(op, arg, call) \
    char b[PATH_MAX]; int w; \
    if (!ready || !getfd(fd, b, &w)) return call; \
    struct ev e = event('M', op, b, NULL, (long)(arg), 0); \
    if (e.act == FAILED) { errno = fail_errno; return -1; } \
    int rc = call; int se = errno; FINISH(e); errno = se; return rc;
int ftruncate64(int fd, off64_t n) { FDOP("truncate", n, syscall(SYS_ftruncate, fd, n)) }
int ftruncate(int fd, off_t n) { FDOP("truncate", n, syscall(SYS_ftruncate, fd, n)) }
int fchmod(int fd, mode_t m) { FDOP("chmod", m, syscall(SYS_fchmod, fd, m)) }
int fallocate64(int fd, int m, off64_t o, off64_t l) { FDOP("truncate", l, syscall(SYS_fallocate, fd, m, o, l)) }

#define PATHOP1(op, dir, path, call) \
    char b[PATH_MAX]; const char *p = absolute(dir, path, b); \
    if (escapes(op, dir, path, op[0] == 't' || op[0] == 'c')) return -1; \
    if (!monitored(p)) return call; \
    struct ev e = event('M', op, p, NULL, 0, 0); \
    if (e.act == FAILED) { errno = fail_errno; return -1; } \
    int rc = call; int se = errno; if (rc) emit('E', op, p, NULL, se); FINISH(e); errno = se; return rc;
// VF_XDEV=DIR: every directory in DIR, and everything else together, is a file
// system of its own.
static unsigned long device(const char *p) {
    REAL(char *, realpath, const char *, char *)
    char d[PATH_MAX], r[PATH_MAX];
    snprintf(d, sizeof d, "%s", p);
    size_t n = strlen(d), m = strlen(xdev);
    while (n > 1 && d[n - 1] == '/') d[--n] = 0;
    char *e = strrchr(d, '/');
    if (!e) return 0;
    if (e == d) e[1] = 0; else *e = 0;
    if (!r_realpath(d, r) || strncmp(r, xdev, m) || r[m] != '/') return 0;
    unsigned long h = 1;
    for (const char *s = r + m + 1; *s && *s != '/'; s++) h = h * 131 + (unsigned char)*s;
    return h;
}
static int crosses(const char *p, const char *q) {
    if (!xdev[0] || !p || !q) return 0;
    int se = errno, r = device(p) != device(q);
    errno = r ? EXDEV : se;
    return r;
}

#define PATHOP2(op, d1, p1, d2, p2, call) \
    char b[PATH_MAX], c[PATH_MAX]; const char *p = absolute(d1, p1, b), *q = absolute(d2, p2, c); \
    if ((op[0] == 'r' && escapes(op, d1, p1, 0)) || escapes(op, d2, p2, 0)) return -1; \
    if (!monitored(p) && !monitored(q)) return call; \
    struct ev e = event('M', op, p, q, 0, 0); \
    if (e.act == FAILED) { errno = fail_errno; return -1; } \
    int rc = crosses(p, q) ? -1 : call; int se = errno; if (rc) emit('E', op, p, q, se); FINISH(e); errno = se; return rc;

// Questions about paths: these can fail as well.
#define ASK(op, dir, path, fail, call) \
    char b[PATH_MAX]; const char *p = absolute(dir, path, b); \
    if (!monitored(p)) return call; \
    struct ev e = event('S', op, p, NULL, 0, 0); \
    if (e.act == FAILED) { errno = fail_errno; return fail; } \
    return call;
// VF_MOUNT=DIR: DIR and what is in it claim to be on another device.
static int mounted(int rc, const char *p, struct statx *s) {
    size_t n = strlen(mnt);
    if (!rc && n && p && s && !strncmp(p, mnt, n) && (!p[n] || p[n] == '/')) s->stx_dev_minor += 77;
    return rc;
}
int statx(int d, const char *restrict a, int f, unsigned m, struct statx *restrict s) {
    if (!a || !a[0]) {
        char b[PATH_MAX]; int w; b[0] = 0;
        if (ready && getfd(d, b, &w)) {
            struct ev e = event('S', "fstat", b, NULL, 0, 0);
            if (e.act == FAILED) { errno = fail_errno; return -1; }
        } else b[0] = 0;
        return mounted(syscall(SYS_statx, d, a, f, m, s), b, s);
    }
    ASK("stat", d, a, -1, mounted(syscall(SYS_statx, d, a, f, m, s), p, s))
}
ssize_t readlink(const char *restrict a, char *restrict buf, size_t n) { ASK("readlink", AT_FDCWD, a, -1, syscall(SYS_readlink, a, buf, n)) }
char *realpath(const char *restrict a, char *restrict buf) {
    REAL(char *, realpath, const char *, char *)
    ASK("realpath", AT_FDCWD, a, NULL, r_realpath(a, buf))
}

int unlink(const char *a) { PATHOP1("unlink", AT_FDCWD, a, syscall(SYS_unlink, a)) }
int unlinkat(int d, const char *a, int f) { PATHOP1("unlink", d, a, syscall(SYS_unlinkat, d, a, f)) }
int rmdir(const char *a) { PATHOP1("rmdir", AT_FDCWD, a, syscall(SYS_rmdir, a)) }
int mkdir(const char *a, mode_t m) { PATHOP1("mkdir", AT_FDCWD, a, syscall(SYS_mkdir, a, m)) }
int mkdirat(int d, const char *a, mode_t m) { PATHOP1("mkdir", d, a, syscall(SYS_mkdirat, d, a, m)) }
int chmod(const char *a, mode_t m) { PATHOP1("chmod", AT_FDCWD, a, syscall(SYS_chmod, a, m)) }
int truncate64(const char *a, off64_t n) { PATHOP1("truncate", AT_FDCWD, a, syscall(SYS_truncate, a, n)) }
int truncate(const char *a, off_t n) { PATHOP1("truncate", AT_FDCWD, a, syscall(SYS_truncate, a, n)) }
int rename(const char *a, const char *d) { PATHOP2("rename", AT_FDCWD, a, AT_FDCWD, d, syscall(SYS_rename, a, d)) }
int renameat(int x, const char *a, int y, const char *d) { PATHOP2("rename", x, a, y, d, syscall(SYS_renameat, x, a, y, d)) }
int renameat2(int x, const char *a, int y, const char *d, unsigned f) { PATHOP2("rename", x, a, y, d, syscall(SYS_renameat2, x, a, y, d, f)) }
int link(const char *a, const char *d) { PATHOP2("link", AT_FDCWD, a, AT_FDCWD, d, syscall(SYS_link, a, d)) }
int linkat(int x, const char *a, int y, const char *d, int f) { PATHOP2("link", x, a, y, d, syscall(SYS_linkat, x, a, y, d, f)) }
int symlink(const char *t, const char *a) { PATHOP1("symlink", AT_FDCWD, a, syscall(SYS_symlink, t, a)) }
int symlinkat(const char *t, int d, const char *a) { PATHOP1("symlink", d, a, syscall(SYS_symlinkat, t, d, a)) }

// Directories: an event per opendir, and optionally a shuffled order of entries.
struct dirbuf { DIR *d; struct dirent64 **e; int n, i; struct dirbuf *next; };
static struct dirbuf *dirs;
#define MAXDIRS 256
static struct { DIR *d; char *p; } dpath[MAXDIRS];
DIR *opendir(const char *p0) {
    REAL(DIR *, opendir, const char *)
    char b[PATH_MAX]; const char *p = absolute(AT_FDCWD, p0, b);
    if (monitored(p)) {
        struct ev e = event('R', "opendir", p, NULL, 0, 0);
        if (e.act == FAILED) { errno = fail_errno; return NULL; }
    }
    DIR *r = r_opendir(p0);
    if (r && monitored(p) && (log_stat || fail_at)) {
        pthread_mutex_lock(&mu);
        for (int i = 0; i < MAXDIRS; i++)
            if (!dpath[i].d) { dpath[i].d = r; dpath[i].p = strdup(p); break; }
        pthread_mutex_unlock(&mu);
    }
    return r;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *)
    if (ready && (log_stat || fail_at)) {
        char b[PATH_MAX]; b[0] = 0;
        pthread_mutex_lock(&mu);
        for (int i = 0; i < MAXDIRS; i++)
            if (dpath[i].d == d) snprintf(b, sizeof b, "%s", dpath[i].p);
        pthread_mutex_unlock(&mu);
        if (b[0]) {
            int se = errno;
            struct ev e = event('R', "readdir", b, NULL, 0, 0);
            if (e.act == FAILED) { errno = fail_errno; return NULL; }
            errno = se;
        }
    }
    if (!dir_seed) return r_readdir64(d);
    pthread_mutex_lock(&mu);
    struct dirbuf *b = dirs;
    while (b && b->d != d) b = b->next;
    if (!b) {
        b = calloc(1, sizeof *b); b->d = d; b->next = dirs; dirs = b;
        struct dirent64 *e;
        while ((e = r_readdir64(d))) {
            b->e = realloc(b->e, (b->n + 1) * sizeof *b->e);
            size_t l = e->d_reclen < sizeof *e ? sizeof *e : e->d_reclen;
            b->e[b->n] = calloc(1, l); memcpy(b->e[b->n++], e, e->d_reclen);
        }
        for (int i = b->n - 1; i > 0; i--) {
            int j = mix(dir_seed += 0x9e3779b97f4a7c15UL) % (i + 1);
            struct dirent64 *t = b->e[i]; b->e[i] = b->e[j]; b->e[j] = t;
        }
    }
    struct dirent64 *r = b->i < b->n ? b->e[b->i++] : NULL;
    pthread_mutex_unlock(&mu);
    if (!r) errno = 0;
    return r;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *)
    pthread_mutex_lock(&mu);
    for (int i = 0; i < MAXDIRS; i++)
        if (dpath[i].d == d) { free(dpath[i].p); dpath[i].d = NULL; }
    for (struct dirbuf **q = &dirs; *q; q = &(*q)->next)
        if ((*q)->d == d) { struct dirbuf *b = *q; *q = b->next; for (int i = 0; i < b->n; i++) free(b->e[i]); free(b->e); free(b); break; }
    pthread_mutex_unlock(&mu);
    return r_closedir(d);
}

// Names below localhost are answered here: what the name service of the machine
// makes of them differs.
int getaddrinfo(const char *restrict node, const char *restrict svc, const struct addrinfo *restrict h, struct addrinfo **restrict res) {
    REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **)
    size_t n = port && node ? strlen(node) : 0;
    if (ready && node) emit('N', "resolve", node, NULL, port);
    return r_getaddrinfo(n > 10 && !strcmp(node + n - 10, ".localhost") ? "127.0.0.1" : node, svc, h, res);
}
int connect(int fd, const struct sockaddr *sa, socklen_t len) {
    if (ready && sa && (sa->sa_family == AF_INET || sa->sa_family == AF_INET6)) {
        char a[64] = "?";
        inet_ntop(sa->sa_family, sa->sa_family == AF_INET ? (const void *)&((struct sockaddr_in *)sa)->sin_addr : (const void *)&((struct sockaddr_in6 *)sa)->sin6_addr, a, sizeof a);
        emit('N', "connect", a, NULL, ntohs(((struct sockaddr_in *)sa)->sin_port));
    }
    if (ready && port) {
        if (sa->sa_family == AF_INET && ntohs(((struct sockaddr_in *)sa)->sin_port) == 443) {
            struct sockaddr_in to = *(struct sockaddr_in *)sa;
            to.sin_port = htons(port); to.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            return syscall(SYS_connect, fd, &to, sizeof to);
        }
        if (sa->sa_family == AF_INET6) { errno = ECONNREFUSED; return -1; }
    }
    return syscall(SYS_connect, fd, sa, len);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *)
    int r = r_clock_gettime(c, t);
    if (!r && freeze && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { t->tv_sec = freeze; t->tv_nsec = 0; }
    if (!r && timeoff && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += timeoff;
    return r;
}
