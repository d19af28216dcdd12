// The parse command's world: libc calls it makes for files, output, clock and entropy are answered from a plan.
// LRPSHIM_PLAN: lines "op n action arg" (op: open read write readdir opendir stat close any; n counts from 0 per op)
// LRPSHIM_LAT: seed of the latency of every call; LRPSHIM_ORDER: seed of directory order; LRPSHIM_LOG: log file
// LRPSHIM_WALL: seed of wall-clock jumps. The monotonic clock advances only by latencies.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OPEN, READ, WRITE, READDIR, OPENDIR, STAT, CLOSE, ANY, NOPS };
static const char *NAME[NOPS] = {"open", "read", "write", "readdir", "opendir", "stat", "close", "any"};
struct fault { int op; long n; char act[16]; long arg; };
static struct fault F[256];
static int nf, ready, logfd = -1;
static long count[NOPS];
static uint64_t lat, order, wall;
static int64_t mono_ns = 1000000000000LL;
static char tracked[1024];
static uint64_t reads_of_wall, rnd;

static uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
static uint64_t envn(const char *k) {
    const char *v = getenv(k);
    return v ? strtoull(v, 0, 10) : 0;
}
static void init(void) {
    if (ready) return;
    ready = 1;
    lat = envn("LRPSHIM_LAT");
    order = envn("LRPSHIM_ORDER");
    wall = envn("LRPSHIM_WALL");
    const char *l = getenv("LRPSHIM_LOG");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    const char *p = getenv("LRPSHIM_PLAN");
    while (p && *p && nf < 256) {
        char op[16], act[16];
        long n, arg = 0;
        if (sscanf(p, "%15s %ld %15s %ld", op, &n, act, &arg) >= 3) {
            for (int i = 0; i < NOPS; i++)
                if (!strcmp(op, NAME[i])) {
                    F[nf].op = i;
                    F[nf].n = n;
                    F[nf].arg = arg;
                    strcpy(F[nf].act, act);
                    nf++;
                }
        }
        p = strchr(p, '\n');
        if (p) p++;
    }
}
static void logf_(const char *fmt, ...) {
    if (logfd < 0) return;
    char b[512];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    syscall(SYS_write, logfd, b, n);
}
// One simulated call: time passes, and the plan may have something for it.
static struct fault *step(int op) {
    init();
    long n = count[op]++, all = count[ANY]++;
    int64_t d = lat ? 1 + (int64_t)(mix(lat ^ (all * 8 + 1)) % 50000000) : 0;
    mono_ns += d;
    struct fault *hit = 0;
    for (int i = 0; i < nf; i++)
        if ((F[i].op == op && F[i].n == n) || (F[i].op == ANY && F[i].n == all)) hit = &F[i];
    logf_("%s %ld %s %ld clock %lld\n", NAME[op], n, hit ? hit->act : "-", hit ? hit->arg : 0, (long long)mono_ns);
    if (hit && !strcmp(hit->act, "kill")) {
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    }
    return hit;
}
static int err(struct fault *f) {
    static const struct { const char *n; int e; } E[] = {
        {"EIO", EIO}, {"EINTR", EINTR}, {"ENOENT", ENOENT}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENOSPC", ENOSPC},
        {"EPIPE", EPIPE}, {"ESTALE", ESTALE}, {"ENOMEM", ENOMEM}, {"EDQUOT", EDQUOT}};
    if (!f) return 0;
    for (unsigned i = 0; i < sizeof E / sizeof *E; i++)
        if (!strcmp(f->act, E[i].n)) return E[i].e;
    return 0;
}
static int mine(const char *p) { return p && p[0] != '/'; }

static int do_open(int dir, const char *p, int fl, mode_t m) {
    if (!mine(p) || (fl & O_DIRECTORY)) return syscall(SYS_openat, dir, p, fl, m);
    struct fault *f = step(OPEN);
    int e = err(f);
    if (e) { errno = e; return -1; }
    int r = syscall(SYS_openat, dir, p, fl, m);
    if (r >= 0 && r < (int)sizeof tracked) tracked[r] = 1;
    return r;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }

ssize_t read(int fd, void *b, size_t n) {
    if (fd < 0 || fd >= (int)sizeof tracked || !tracked[fd]) return syscall(SYS_read, fd, b, n);
    struct fault *f = step(READ);
    int e = err(f);
    if (e) { errno = e; return -1; }
    if (f && !strcmp(f->act, "short") && n > (size_t)f->arg) n = f->arg > 0 ? f->arg : 1;
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd != 1) return syscall(SYS_write, fd, b, n);
    struct fault *f = step(WRITE);
    int e = err(f);
    if (e) { errno = e; return -1; }
    if (f && (!strcmp(f->act, "short") || !strcmp(f->act, "tornkill")) && n > (size_t)f->arg) n = f->arg > 0 ? f->arg : 1;
    ssize_t r = syscall(SYS_write, fd, b, n);
    logf_("wrote %ld\n", (long)r);
    if (f && !strcmp(f->act, "tornkill")) syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (fd != 1) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int close(int fd) {
    if (fd < 0 || fd >= (int)sizeof tracked || !tracked[fd]) return syscall(SYS_close, fd);
    tracked[fd] = 0;
    struct fault *f = step(CLOSE);
    int r = syscall(SYS_close, fd);
    int e = err(f);
    if (e) { errno = e; return -1; }
    return r;
}
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict s) {
    int own = (p && *p && mine(p)) || ((!p || !*p) && d >= 0 && d < (int)sizeof tracked && tracked[d]);
    if (!own) return syscall(SYS_statx, d, p, fl, mask, s);
    int by_fd = !p || !*p;
    struct fault *f = by_fd ? step(STAT) : 0;
    int e = err(f);
    if (e) { errno = e; return -1; }
    int r = syscall(SYS_statx, d, p, fl, mask, s);
    // the file grew or shrank after this answer
    if (!r && f && !strcmp(f->act, "size")) s->stx_size = f->arg;
    return r;
}

struct dirbuf { DIR *d; struct dirent64 *v; int n, i, fail; };
static struct dirbuf D[64];
DIR *opendir(const char *p) {
    static DIR *(*real)(const char *);
    if (!real) real = dlsym(RTLD_NEXT, "opendir");
    if (!mine(p)) return real(p);
    struct fault *f = step(OPENDIR);
    int e = err(f);
    if (e) { errno = e; return 0; }
    return real(p);
}
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    init();
    struct dirbuf *b = 0;
    for (int i = 0; i < 64; i++)
        if (D[i].d == d) b = &D[i];
    if (!b) {
        for (int i = 0; i < 64 && !b; i++)
            if (!D[i].d) b = &D[i];
        if (!b) return real(d);
        b->d = d;
        b->n = b->i = 0;
        b->v = malloc(sizeof(struct dirent64) * 512);
        struct dirent64 *x;
        while (b->n < 512 && (x = real(d))) memcpy(&b->v[b->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        // kernel order is arbitrary: sort, then shuffle by seed
        for (int i = 1; i < b->n; i++)
            for (int j = i; j > 0 && strcmp(b->v[j - 1].d_name, b->v[j].d_name) > 0; j--) {
                struct dirent64 t = b->v[j]; b->v[j] = b->v[j - 1]; b->v[j - 1] = t;
            }
        if (order)
            for (int i = b->n - 1; i > 0; i--) {
                int j = mix(order ^ (i * 31 + count[OPENDIR] * 7919)) % (i + 1);
                struct dirent64 t = b->v[j]; b->v[j] = b->v[i]; b->v[i] = t;
            }
    }
    struct fault *f = step(READDIR);
    int e = err(f);
    if (e) { errno = e; return 0; }
    if (b->i >= b->n) return 0;
    struct dirent64 *x = &b->v[b->i++];
    if (f && !strcmp(f->act, "untyped")) x->d_type = DT_UNKNOWN;
    return x;
}
int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 64; i++)
        if (D[i].d == d) { D[i].d = 0; free(D[i].v); }
    return real(d);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    init();
    int64_t ns = mono_ns;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        ns += 1600000000LL * 1000000000LL;
        if (wall) ns += ((int64_t)(mix(wall + reads_of_wall) % 2000000000000ULL) - 1000000000000LL);
        reads_of_wall++;
    }
    t->tv_sec = ns / 1000000000LL;
    t->tv_nsec = ns % 1000000000LL;
    logf_("clock %d\n", (int)c);
    return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    (void)fl;
    for (size_t i = 0; i < n; i++) ((char *)b)[i] = mix(order + ++rnd);
    return n;
}
