// LD_PRELOAD seam of the simulated command line program: file I/O, clocks and entropy.
// Everything it does is a function of the environment it is given:
//   SIM_ROOT   scratch directory: only files below it are "the disk"
//   SIM_LOG    event log (one line per event, written with raw system calls)
//   SIM_SEED   seed of simulated clock steps, short lengths and entropy
//   SIM_CLOCK  "<mono0 ns>,<wall0 ns>,<max step per clock call ns>,<max step per I/O ns>"
//   SIM_SHORT  "<max read len>,<max write len>"  (0 = unlimited)
//   SIM_CPUS   number of processors the program is told of (0 = the real number)
//   SIM_PLAN   "cls:nth:what[:arg];..."  cls: o open, r read, w write, s stdout write, m mkdir,
//              k wall clock call, u rename/unlink/link, f fsync
//              what: errno number (e<N>), E<N> persistent errno, c<N> crash after N bytes,
//                    p<N> accept N bytes, then no space for good, z premature end of file (reads),
//                    a<ns> this call takes that long, j<ns> wall-clock jump
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NFD 1024
#define NPLAN 64
#define CLSES "orwsmkuf"
static int inited, on, logfd = -1;
static char root[PATH_MAX];
static size_t rootlen;
static uint64_t rng_clk, rng_ent, rng_len;
static int64_t mono, wall_off, adv_clk, adv_io;
static long short_r, short_w, cpus;
static uint64_t cnt[9];
static int persist[9];
static char fdk[NFD];  // 0 untracked, 'r' input, 'w' output
static char fdeof[NFD];
static struct { char cls; uint64_t nth; char what; int64_t arg; } plan[NPLAN];
static int nplan;

static long rsys6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
#define X_(n, a, b, c, d, e, f, ...) rsys6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
#define rsys(...) X_(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)

static uint64_t nx(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static long raw_write(int fd, const void *p, size_t n) { return rsys(SYS_write, fd, p, n); }

static void logf_(const char *fmt, ...) {
    if (logfd < 0) return;
    char b[PATH_MAX + 256];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > 0) raw_write(logfd, b, n < (int)sizeof b ? (size_t)n : sizeof b - 1);
}

static void init(void) {
    if (inited) return;
    inited = 1;
    const char *r = getenv("SIM_ROOT");
    if (!r) return;
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    const char *s = getenv("SIM_SEED");
    uint64_t seed = s ? strtoull(s, 0, 10) : 0;
    rng_clk = seed ^ 0x1111; rng_ent = seed ^ 0x2222; rng_len = seed ^ 0x3333;
    long long m0 = 0, w0 = 0, ac = 0, ai = 0;
    if ((s = getenv("SIM_CLOCK"))) sscanf(s, "%lld,%lld,%lld,%lld", &m0, &w0, &ac, &ai);
    mono = m0; wall_off = w0 - m0; adv_clk = ac; adv_io = ai;
    if ((s = getenv("SIM_SHORT"))) sscanf(s, "%ld,%ld", &short_r, &short_w);
    if ((s = getenv("SIM_CPUS"))) cpus = atol(s);
    if ((s = getenv("SIM_PLAN"))) {
        while (*s && nplan < NPLAN) {
            char cls, what; unsigned long long nth; long long arg = 0; int used = 0;
            if (sscanf(s, "%c:%llu:%c%lld%n", &cls, &nth, &what, &arg, &used) < 3) break;
            plan[nplan].cls = cls; plan[nplan].nth = nth; plan[nplan].what = what; plan[nplan].arg = arg;
            nplan++;
            const char *e = strchr(s, ';');
            if (!e) break;
            s = e + 1;
        }
    }
    if ((s = getenv("SIM_LOG"))) {
        int fd = rsys(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) { logfd = rsys(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); rsys(SYS_close, fd); }
    }
    on = 1;
    logf_("start %lld\n", (long long)mono);
}
__attribute__((constructor)) static void ctor(void) { init(); }

static int64_t step(int64_t max) {
    if (max <= 0) return 0;
    uint64_t r = nx(&rng_clk);
    switch (r & 7) {
        case 0: return (int64_t)((r >> 8) % (uint64_t)max);
        case 1: case 2: return (int64_t)((r >> 8) % (uint64_t)(max / 50 + 1));
        default: return (int64_t)((r >> 8) % 1000000);
    }
}

static int ci(char cls) { return (int)(strchr(CLSES, cls) - CLSES); }

// fault for this event of class `cls`: 0 none, 'e' errno in *arg, 'c' crash, 'z' eof, 'j' jump
static char fault(char cls, int64_t *arg) {
    int k = ci(cls);
    uint64_t n = ++cnt[k];
    for (int i = 0; i < nplan; i++)
        if (plan[i].cls == cls && plan[i].nth == n) {
            *arg = plan[i].arg;
            logf_("fault %c %llu %c %lld\n", cls, (unsigned long long)n, plan[i].what, (long long)plan[i].arg);
            if (plan[i].what == 'a') { mono += plan[i].arg; return 0; }
            if (plan[i].what == 'E') { persist[k] = (int)plan[i].arg; return 'e'; }
            return plan[i].what;
        }
    if (persist[k]) { *arg = persist[k]; return 'e'; }
    return 0;
}

static void die(void) {
    logf_("crash\n");
    rsys(SYS_exit_group, 137);
    for (;;) {}
}

static int tracked(const char *p) {
    if (!on || !p) return 0;
    char b[PATH_MAX];
    if (p[0] != '/') {
        char c[PATH_MAX];
        if (rsys(SYS_getcwd, c, sizeof c) < 0) return 0;
        snprintf(b, sizeof b, "%s/%.2000s", c, p);
        p = b;
    }
    return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || !p[rootlen]);
}

static int do_open(int dfd, const char *path, int flags, mode_t mode) {
    init();
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int t = tracked(path);
    if (on && w) logf_("openw %lld %d %s\n", (long long)mono, t, path);
    if (on && t && !w) logf_("openr %lld %s\n", (long long)mono, path);
    if (t && !(flags & O_DIRECTORY)) {
        mono += step(adv_io);
        int64_t a = 0;
        switch (fault('o', &a)) {
            case 'e': errno = (int)a; return -1;
            case 'c': die();
        }
    }
    int fd = (int)rsys(SYS_openat, dfd, path, flags, mode);
    if (fd >= 0 && fd < NFD) { fdk[fd] = t && !(flags & O_DIRECTORY) ? (w ? 'w' : 'r') : 0; fdeof[fd] = 0; }
    return fd;
}
#define MODE mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, f); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (on && fd == logfd) return 0;
    if (fd >= 0 && fd < NFD && fdk[fd]) { logf_("close %lld %c\n", (long long)mono, fdk[fd]); fdk[fd] = 0; }
    return (int)rsys(SYS_close, fd);
}

// >=0: go on with at most that length; -1: fail; -2: end of file
static ssize_t pre_read(int fd, size_t n) {
    if (!on || fd < 0 || fd >= NFD || fdk[fd] != 'r') return (ssize_t)n;
    mono += step(adv_io);
    logf_("rd %lld %zu\n", (long long)mono, n);
    int64_t a = 0;
    char f = fault('r', &a);
    if (fdeof[fd]) return -2;
    switch (f) {
        case 'e': errno = (int)a; return -1;
        case 'c': die(); break;
        case 'z': fdeof[fd] = 1; return -2;
    }
    if (short_r > 0) { size_t m = 1 + nx(&rng_len) % (uint64_t)short_r; if (m < n) n = m; }
    return (ssize_t)n;
}
ssize_t read(int fd, void *b, size_t n) {
    ssize_t m = pre_read(fd, n);
    if (m == -1) return -1;
    if (m == -2) return 0;
    return rsys(SYS_read, fd, b, (size_t)m);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!on || fd < 0 || fd >= NFD || fdk[fd] != 'r') return rsys(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    ssize_t m = pre_read(fd, n);
    if (m == -1) return -1;
    if (m == -2) return 0;
    return rsys(SYS_pread64, fd, b, (size_t)m, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

static ssize_t do_write(int fd, const void *b, size_t n) {
    if (!on || fd < 0 || fd >= NFD) return raw_write(fd, b, n);
    char cls = fdk[fd] == 'w' ? 'w' : fd == 1 ? 's' : 0;
    if (!cls) return raw_write(fd, b, n);
    mono += step(adv_io);
    if (cls == 'w') logf_("write %lld %zu\n", (long long)mono, n);
    else logf_("out %lld %zu\n", (long long)mono, n);
    int64_t a = 0;
    switch (fault(cls, &a)) {
        case 'e': errno = (int)a; return -1;
        case 'c': if (a > 0) raw_write(fd, b, (size_t)a < n ? (size_t)a : n); die(); break;
        case 'p': // partial, the next one fails for good
            persist[ci(cls)] = ENOSPC;
            n = (size_t)a < n ? (size_t)a : n;
            if (!n) { errno = ENOSPC; return -1; }
            return raw_write(fd, b, n);
    }
    if (short_w > 0 && cls == 'w') { size_t m = 1 + nx(&rng_len) % (uint64_t)short_w; if (m < n) n = m; }
    return raw_write(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!on || fd < 0 || fd >= NFD || (fdk[fd] != 'w' && fd != 1)) return rsys(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (on && fd >= 0 && fd < NFD && fdk[fd] == 'w') {
        int64_t a = 0;
        mono += step(adv_io);
        logf_("write %lld %zu\n", (long long)mono, n);
        switch (fault('w', &a)) {
            case 'e': errno = (int)a; return -1;
            case 'c': if (a > 0) rsys(SYS_pwrite64, fd, b, (size_t)a < n ? (size_t)a : n, o); die(); break;
            case 'p': persist[ci('w')] = ENOSPC; n = (size_t)a < n ? (size_t)a : n; if (!n) { errno = ENOSPC; return -1; }
        }
    }
    return rsys(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

static int do_mkdir(int d, const char *p, mode_t m) {
    init();
    if (on) logf_("mkdir %lld %d %s\n", (long long)mono, tracked(p), p);
    if (tracked(p)) {
        mono += step(adv_io);
        int64_t a = 0;
        switch (fault('m', &a)) {
            case 'e':
                if (a == EEXIST) rsys(SYS_mkdirat, d, p, m);  // somebody else was faster
                errno = (int)a;
                return -1;
            case 'c': die();
        }
    }
    return (int)rsys(SYS_mkdirat, d, p, m);
}
int mkdir(const char *p, mode_t m) { return do_mkdir(AT_FDCWD, p, m); }
int mkdirat(int d, const char *p, mode_t m) { return do_mkdir(d, p, m); }

static int do_u(const char *what, const char *p, const char *q) {
    if (!on) return 0;
    logf_("%s %lld %d %s\n", what, (long long)mono, tracked(p) && (!q || tracked(q)), q ? q : p);
    mono += step(adv_io);
    int64_t a = 0;
    switch (fault('u', &a)) {
        case 'e': errno = (int)a; return -1;
        case 'c': die();
    }
    return 0;
}
int rename(const char *a, const char *b) { if (do_u("rename", a, b)) return -1; return (int)rsys(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int x, const char *a, int y, const char *b) { if (do_u("rename", a, b)) return -1; return (int)rsys(SYS_renameat, x, a, y, b); }
int unlink(const char *a) { if (do_u("unlink", a, 0)) return -1; return (int)rsys(SYS_unlinkat, AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int f) { if (do_u("unlink", a, 0)) return -1; return (int)rsys(SYS_unlinkat, d, a, f); }
int rmdir(const char *a) { if (do_u("rmdir", a, 0)) return -1; return (int)rsys(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR); }

int renameat2(int x, const char *a, int y, const char *b, unsigned f) { if (do_u("rename", a, b)) return -1; return (int)rsys(SYS_renameat2, x, a, y, b, f); }
int link(const char *a, const char *b) { if (do_u("rename", a, b)) return -1; return (int)rsys(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { if (do_u("rename", a, b)) return -1; return (int)rsys(SYS_linkat, x, a, y, b, f); }
int symlink(const char *a, const char *b) { if (do_u("rename", b, b)) return -1; return (int)rsys(SYS_symlinkat, a, AT_FDCWD, b); }
int truncate(const char *p, off_t n) { init(); if (on) logf_("openw %lld %d %s\n", (long long)mono, tracked(p), p); return (int)rsys(SYS_truncate, p, n); }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int chmod(const char *p, mode_t m) { init(); if (on) logf_("openw %lld %d %s\n", (long long)mono, tracked(p), p); return (int)rsys(SYS_fchmodat, AT_FDCWD, p, m); }

static int do_sync(int n, int fd) {
    if (on && fd >= 0 && fd < NFD && fdk[fd] == 'w') {
        mono += step(adv_io);
        int64_t a = 0;
        switch (fault('f', &a)) {
            case 'e': errno = (int)a; return -1;
            case 'c': die();
        }
    }
    return (int)rsys(n, fd);
}
int fsync(int fd) { return do_sync(SYS_fsync, fd); }
int fdatasync(int fd) { return do_sync(SYS_fdatasync, fd); }

// copies inside the kernel would bypass the disk: callers fall back to read and write
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (!on) return rsys(SYS_copy_file_range, a, x, b, y, n, f);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile(int o, int i, off_t *x, size_t n) {
    if (!on) return rsys(SYS_sendfile, o, i, x, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) { return sendfile(o, i, x, n); }

int clock_gettime(clockid_t c, struct timespec *t) {
    init();
    if (!on) return (int)rsys(SYS_clock_gettime, c, t);
    switch (c) {
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME:
            t->tv_sec = mono / 1000000000; t->tv_nsec = mono % 1000000000;
            logf_("mono %lld\n", (long long)mono);
            mono += step(adv_clk);
            return 0;
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: {
            int64_t a = 0;
            if (fault('k', &a) == 'j') wall_off += a;
            int64_t w = mono + wall_off;
            if (w < 0) w = 0;
            t->tv_sec = w / 1000000000; t->tv_nsec = w % 1000000000;
            logf_("wall %lld\n", (long long)w);
            return 0;
        }
        default: t->tv_sec = 0; t->tv_nsec = 0; return 0;  // cpu time: not simulated
    }
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *o) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (o) *o = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
    init();
    if (!on) return (int)rsys(SYS_nanosleep, r, rem);
    mono += r->tv_sec * 1000000000ll + r->tv_nsec;
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *rem) {
    init();
    if (!on) return (int)rsys(SYS_clock_nanosleep, c, f, r, rem);
    if (f & TIMER_ABSTIME) { int64_t t = r->tv_sec * 1000000000ll + r->tv_nsec; if (t > mono) mono = t; }
    else mono += r->tv_sec * 1000000000ll + r->tv_nsec;
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    init();
    if (!on) return rsys(SYS_getrandom, b, n, f);
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(nx(&rng_ent) >> 17);
    logf_("entropy %zu\n", n);
    return (ssize_t)n;
}
// allocators and the rand stack ask the kernel directly
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
    return rsys6(n, a, b, c, d, e, f);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    init();
    if (!on || cpus <= 0) return rsys(SYS_sched_getaffinity, p, n, m) < 0 ? -1 : 0;
    memset(m, 0, n);
    for (long i = 0; i < cpus && (size_t)i < 8 * n; i++) ((unsigned char *)m)[i / 8] |= (unsigned char)(1u << (i % 8));
    return 0;
}
long sysconf(int name) {
    static long (*real)(int);
    init();
    if (on && cpus > 0 && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return cpus;
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
