// File-system seam: preloaded into the simulated process, injects one planned fault into the
// mutating (or reading) file operations below a path prefix.  Off until armed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { M_NONE, M_CRASH, M_TORN, M_EIO, M_FULL, M_SHORT, M_STOP, M_RDERR, M_RDSHORT, M_RDOPEN };
struct shared {
    long steps;      // written by the simulated process: completed time steps
    long ops;        // mutating operations seen below the prefix
    long reads;      // read operations seen below the prefix
    long fired;      // faults injected
    long kind;       // kind of the first operation hit: o w t r u c
    long ropens;     // read-only opens seen below the prefix
    long spare[2];
    char path[512];  // file of the first operation hit
    char log[4096];  // kinds of the operations, in order
};
static struct shared dummy, *S = &dummy;
static char prefix[512];
static size_t plen;
static int mode;
static long nth, arg;
static int armed;
#define MAXFD 4096
static unsigned char tracked[MAXFD];   // 1 = below prefix, 2 = writable
static char fdpath[MAXFD][128];

void oasim_shared(void *p) { S = p; }
void oasim_arm(const char *p, long n, int m, long a) {
    strncpy(prefix, p, sizeof prefix - 1);
    plen = strlen(prefix);
    nth = n; mode = m; arg = a;
    armed = 1;
}
void oasim_disarm(void) { armed = 0; }

// Simulated wall clock: every reading advances it by `cstep` ns, every `cjump`-th one also jumps.
static int clock_on;
static long long cnow, cstep, cjumpby;
static long cjump, creads;
void oasim_clock(long long start, long long step, long every, long long by) {
    cnow = start; cstep = step; cjump = every; cjumpby = by; creads = 0; clock_on = 1;
}
long oasim_clock_reads(void) { return creads; }
static long long tick(void) {
    creads++;
    cnow += cstep;
    if (cjump && creads % cjump == 0) cnow += (creads / cjump) % 2 ? cjumpby : -cjumpby / 2;
    if (cnow < 0) cnow = 0;
    return cnow;
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = dlsym(RTLD_NEXT, #name); f; })

static int below(const char *p) { return armed && p && plen && strncmp(p, prefix, plen) == 0; }

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

// Returns 1 if the fault of this operation is due.
static int due(char kind, const char *path) {
    long n = S->ops++;
    if (n < (long)sizeof S->log - 1) S->log[n] = kind;
    if (mode == M_NONE || mode >= M_RDERR) return 0;
    if (n < nth) return 0;
    if (n > nth && mode != M_FULL) return 0;
    if (mode == M_FULL && !(kind == 'w' || kind == 'o' || kind == 't')) return 0;
    if (mode == M_SHORT && kind != 'w') { if (n == nth) nth++; return 0; }
    if (S->fired++ == 0) {
        S->kind = kind;
        if (path) strncpy(S->path, path, sizeof S->path - 1);
    }
    return 1;
}

// Faults of non-write operations.  Returns -1 with errno if the operation must fail.
static int simple(char kind, const char *path) {
    if (!due(kind, path)) return 0;
    switch (mode) {
    case M_CRASH: die();
    case M_STOP: kill(getpid(), SIGSTOP); return 0;
    case M_TORN: return 1;  // caller dies after the operation
    case M_EIO: errno = EIO; return -1;
    case M_FULL: errno = ENOSPC; return -1;
    }
    return 0;
}

static void track(int fd, const char *path, int flags) {
    if (fd < 0 || fd >= MAXFD) return;
    tracked[fd] = 0;
    if (below(path)) {
        tracked[fd] = 1 | ((flags & O_ACCMODE) != O_RDONLY ? 2 : 0);
        const char *b = path + plen;
        strncpy(fdpath[fd], b, sizeof fdpath[fd] - 1);
    }
}

#define OPEN_BODY(CALL)                                                              \
    mode_t m = 0;                                                                    \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags);          \
        m = va_arg(ap, mode_t); va_end(ap); }                                        \
    int r = 0;                                                                       \
    if (below(path) && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))) { \
        /* an existing file can be opened on a full disk */                          \
        struct stat st; int exists = stat(path, &st) == 0;                           \
        if (mode == M_FULL && exists) { S->ops++; }                                  \
        else r = simple('o', path);                                                  \
        if (r < 0) return -1;                                                        \
    }                                                                                \
    if (below(path) && (flags & O_ACCMODE) == O_RDONLY && !(flags & O_DIRECTORY)) {   \
        long k = S->ropens++;                                                        \
        if (mode == M_RDOPEN && k == nth) {                                          \
            S->fired++; S->kind = 'O'; strncpy(S->path, path, 511); errno = arg; return -1; } \
    }                                                                                \
    int fd = CALL;                                                                   \
    if (r == 1) die();                                                               \
    if (fd >= 0) track(fd, path, flags);                                             \
    return fd;

int open(const char *path, int flags, ...) { OPEN_BODY(REAL(open)(path, flags, m)) }
int open64(const char *path, int flags, ...) { OPEN_BODY(REAL(open64)(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(REAL(openat)(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(REAL(openat64)(d, path, flags, m)) }
int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int trk(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

#define WRITE_BODY(NAME, ...)                                                        \
    if (trk(fd) && due('w', fdpath[fd])) {                                           \
        size_t part = n * (size_t)arg / 100;                                         \
        switch (mode) {                                                              \
        case M_CRASH: die();                                                         \
        case M_TORN: { size_t n = part; if (n) REAL(NAME)(fd, buf, n, ##__VA_ARGS__); die(); } \
        case M_STOP: kill(getpid(), SIGSTOP); break;                                 \
        case M_EIO: errno = EIO; return -1;                                          \
        case M_FULL: errno = ENOSPC; return -1;                                      \
        case M_SHORT: if (part) n = part; break;                                     \
        }                                                                            \
    }                                                                                \
    return REAL(NAME)(fd, buf, n, ##__VA_ARGS__);

ssize_t write(int fd, const void *buf, size_t n) { WRITE_BODY(write) }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { WRITE_BODY(pwrite, o) }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { WRITE_BODY(pwrite64, o) }

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (trk(fd)) {
        int r = simple('w', fdpath[fd]);
        if (r < 0) return -1;
        if (r == 1) die();
    }
    return REAL(writev)(fd, v, c);
}

static int is_asc(const char *p) { size_t n = strlen(p); return n > 4 && !strcmp(p + n - 4, ".asc"); }

#define READ_BODY(NAME, ...)                                                         \
    if (trk(fd)) {                                                                   \
        long k = S->reads++;                                                         \
        /* GDAL's ASCII grid reader never returns from a read error: hit the next other read */ \
        if (mode == M_RDERR && k == nth && is_asc(fdpath[fd])) nth++;                \
        else if (mode == M_RDERR && k == nth) {                                      \
            S->fired++; S->kind = 'R'; strncpy(S->path, fdpath[fd], 511); errno = EIO; return -1; } \
        if (mode == M_RDSHORT && k >= nth && n > 1) {                                \
            S->fired++; S->kind = 'R'; n = n * (size_t)arg / 100; if (!n) n = 1; }   \
    }                                                                                \
    return REAL(NAME)(fd, buf, n, ##__VA_ARGS__);

ssize_t read(int fd, void *buf, size_t n) { READ_BODY(read) }
ssize_t pread(int fd, void *buf, size_t n, off_t o) { READ_BODY(pread, o) }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { READ_BODY(pread64, o) }

#define TRUNC_BODY(NAME)                                                             \
    int r = 0;                                                                       \
    if (trk(fd)) { r = simple('t', fdpath[fd]); if (r < 0) return -1; }              \
    int x = REAL(NAME)(fd, len);                                                     \
    if (r == 1) die();                                                               \
    return x;
int ftruncate(int fd, off_t len) { TRUNC_BODY(ftruncate) }
int ftruncate64(int fd, off64_t len) { TRUNC_BODY(ftruncate64) }

int rename(const char *a, const char *b) {
    int r = 0;
    if (below(a) || below(b)) { r = simple('r', b); if (r < 0) return -1; }
    int x = REAL(rename)(a, b);
    if (r == 1) die();
    return x;
}
int renameat(int da, const char *a, int db, const char *b) {
    int r = 0;
    if (below(a) || below(b)) { r = simple('r', b); if (r < 0) return -1; }
    int x = REAL(renameat)(da, a, db, b);
    if (r == 1) die();
    return x;
}
int unlink(const char *a) {
    int r = 0;
    if (below(a)) { r = simple('u', a); if (r < 0) return -1; }
    int x = REAL(unlink)(a);
    if (r == 1) die();
    return x;
}
int unlinkat(int d, const char *a, int f) {
    int r = 0;
    if (below(a)) { r = simple('u', a); if (r < 0) return -1; }
    int x = REAL(unlinkat)(d, a, f);
    if (r == 1) die();
    return x;
}
int close(int fd) {
    int r = 0;
    if (trk(fd) && (tracked[fd] & 2)) {
        r = simple('c', fdpath[fd]);
        if (r < 0) { tracked[fd] = 0; REAL(close)(fd); errno = mode == M_FULL ? ENOSPC : EIO; return -1; }
    }
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
    int x = REAL(close)(fd);
    if (r == 1) die();
    return x;
}

// stdio streams (GDAL): streams below the prefix are built on the descriptors above, with the
// buffer size stdio would use
#define MAXF 64
static struct { FILE *f; int fd; } streams[MAXF];

static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;  // like stdio: continue after short writes
    while (done < n) {
        ssize_t k = write((int)(long)c, b + done, n - done);
        if (k < 0) return done ? (ssize_t)done : 0;
        done += k;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w) {
    off64_t r = lseek64((int)(long)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) { return close((int)(long)c); }

static FILE *cookie(const char *path, const char *m) {
    int plus = strchr(m, '+') != NULL, flags;
    if (m[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = open(path, flags, 0666);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(long)fd, m, io);
    if (!f) { close(fd); return NULL; }
    setvbuf(f, NULL, _IOFBF, 4096);
    for (int i = 0; i < MAXF; i++) if (!streams[i].f) { streams[i].f = f; streams[i].fd = fd; break; }
    return f;
}
FILE *fopen(const char *p, const char *m) { return below(p) ? cookie(p, m) : REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { return below(p) ? cookie(p, m) : REAL(fopen64)(p, m); }
int fclose(FILE *f) {
    for (int i = 0; i < MAXF; i++) if (streams[i].f == f) streams[i].f = NULL;
    return REAL(fclose)(f);
}
int fileno(FILE *f) {
    for (int i = 0; i < MAXF; i++) if (streams[i].f == f) return streams[i].fd;
    return REAL(fileno)(f);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    if (clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        long long n = tick();
        t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
        return 0;
    }
    return REAL(clock_gettime)(c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
    if (clock_on) {
        long long n = tick();
        t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000;
        return 0;
    }
    return REAL(gettimeofday)(t, z);
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
